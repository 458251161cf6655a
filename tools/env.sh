export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
