from seedlib import seed
MS='metaserver/internal/'
seed('c02-stale-update-ok','C02','an update whose timestamp is not newer than the stored one (two updates in the same millisecond, or a clock stepping back after a leader change)',
 'a refused update is answered as success by the state machine, so the client believes its change was stored',
 'metaserver','internal/usecase/raftimpl','''
package raftimpl

import (
	"metaserver/internal/usecase"
	"testing"
)

func TestVerif(t *testing.T) {
	if !FSMResult(nil).Ok() || !FSMResult(usecase.ErrExists).Ok() {
		t.Fatal("success reported as failure")
	}
	for _, err := range []error{usecase.ErrOldData, usecase.ErrNotFound} {
		if FSMResult(err).ToError() == nil {
			t.Fatalf("%v is reported as success", err)
		}
	}
}
''',[(MS+'usecase/raftimpl/fsm_impl.go','''	// ignore thie exists check eror
	if errors.Is(err, ErrExists) {''','''	// ignore thie exists check eror, and replays of updates
	if errors.Is(err, ErrExists) || errors.Is(err, ErrOldData) {''')])
seed('c03-migration-no-key','C03','a write to a route without a key in its path (POST /bucket, PATCH /version/locate) while slots are migrating',
 'records can be created or changed while a slot migration is copying them, so the change is lost',
 'metaserver','internal/controller/http','''
package http

import (
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestVerif(t *testing.T) {
	pool.HashSlot = db.NewHashSlotDB("p", nil)
	if err := pool.HashSlot.ReadyMigrateTo("h", nil); err != nil {
		t.Fatal(err)
	}
	eng := gin.New()
	eng.Use(CheckInNormal)
	hit := 0
	h := func(c *gin.Context) { hit++; c.Status(200) }
	eng.POST("/bucket", h)
	eng.PUT("/bucket/:name", h)
	for _, r := range [][2]string{{"PUT", "/bucket/a"}, {"POST", "/bucket"}} {
		w := httptest.NewRecorder()
		req, _ := http.NewRequest(r[0], r[1], nil)
		eng.ServeHTTP(w, req)
		if hit != 0 {
			t.Fatalf("%v was served during a migration", r)
		}
	}
}
''',[(MS+'controller/http/middleware.go','''	if isWriteMethod(c.Request.Method) && !pool.HashSlot.IsNormal() {''','''	// only requests that name a key can hit a migrating slot
	if isWriteMethod(c.Request.Method) && c.Param("name") != "" && !pool.HashSlot.IsNormal() {''')])
seed('c03-version-key','C03','an UpdateVersion RPC (a request that carries a version number) sent to a node that does not own the key, e.g. with a stale slot map',
 'the version is changed on the wrong shard',
 'metaserver','internal/controller/grpc','''
package grpc

import (
	"common/proto/pb"
	"common/registry"
	"context"
	"errors"
	"metaserver/config"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"testing"

	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
)

type kvStub struct{ clientv3.KV }

func (kvStub) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return nil, errors.New("down")
}

func TestVerif(t *testing.T) {
	pool.Config = &config.Config{}
	pool.Config.Registry = registry.Config{}
	pool.HashSlot = db.NewHashSlotDB("p", kvStub{})
	pool.RaftWrapper = &raftimpl.RaftWrapper{}
	for _, v := range []int32{0, 3} {
		hit := false
		func() {
			defer func() { _ = recover() }()
			_, _ = CheckKeySlot(context.Background(), &pb.Metadata{Id: "b/o", Version: v}, &grpc.UnaryServerInfo{FullMethod: "/proto.MetadataApi/UpdateVersion"},
				func(context.Context, any) (any, error) { hit = true; return nil, nil })
		}()
		if hit {
			t.Fatalf("version %d: handed on although the key's owner is unknown", v)
		}
	}
}
''',[(MS+'controller/grpc/middleware.go','''	r, ok := req.(*pb.Metadata)
	if !ok {
		return nil
	}
	if r.Id == "" {
		return nil
	}''','''	r, ok := req.(*pb.Metadata)
	if !ok {
		return nil
	}
	// an existing version keeps its place, only new records are routed
	if r.Id == "" || r.Version > 0 {
		return nil
	}''')])
