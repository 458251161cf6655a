from seedlib import seed
seed('C23-unary','C23','a handler of a unary remote call panics','the call is answered with success and an empty answer: the error is only set in a variable of its own','common','util','''package util

import (
	"context"
	"testing"

	"google.golang.org/grpc"
)

func TestVerifUnary(t *testing.T) {
	_, err := UnaryServerRecoveryInterceptor()(context.Background(), nil, &grpc.UnaryServerInfo{}, func(context.Context, interface{}) (interface{}, error) {
		panic("x")
	})
	if err == nil {
		t.Fatal("a panic was answered as success")
	}
}
''',[('common/util/h2c_handler.go','''info *grpc.UnaryServerInfo, handler grpc.UnaryHandler) (_ interface{}, err error) {
		defer graceful.Recover(func(msg string) {
			err = status.Error(codes.Internal, "panic")
		})
''','''info *grpc.UnaryServerInfo, handler grpc.UnaryHandler) (_ interface{}, err error) {
		defer graceful.Recover(func(msg string) {
			if err := status.Error(codes.Internal, "panic"); err != nil {
				logs.Std().Errorf("%s: %s: %s", info.FullMethod, err, msg)
			}
		})
''')])
seed('C23-notify','C23','what is told of a new lease panics, after the old lease was lost','recovering has no effect one call further down: the whole server ends','common','registry','''package registry

import (
	"testing"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
)

func TestVerifNotify(t *testing.T) {
	lc := NewLifecycle(nil, time.Second)
	lc.Subscribe(func(clientv3.LeaseID) { panic("x") })
	lc.notifying(1)
	time.Sleep(200 * time.Millisecond)
}
''',[('common/registry/etcd_lifecycle.go','''			defer graceful.Recover()
			fn(lease)
''','''			start := time.Now()
			defer func() {
				graceful.Recover()
				registryLog.Tracef("notified of lease %d in %s", lease, time.Since(start))
			}()
			fn(lease)
''')])
seed('C23-flush','C23','writing one copy of a block panics in the background while the others are stored','the panic is taken up before it reaches the group: an upload that lacks a copy is answered as done','apiserver','internal/usecase/service','''package service

import (
	"apiserver/config"
	"io"
	"testing"
)

type sink struct{ io.Writer }

func (sink) Close() error { return nil }

func TestVerifFlush(t *testing.T) {
	c := &CopyPutStream{rpConfig: config.ReplicationConfig{BlockSize: 100}, cache: []byte("abc"), writers: []io.WriteCloser{sink{io.Discard}, sink{nil}}}
	if err := c.Flush(); err == nil {
		t.Fatal("a copy that was not written is reported as written")
	}
}
''',[('apiserver/internal/usecase/service/copy_put_stream.go','''	"common/datasize"
''','''	"common/datasize"
	"common/graceful"
'''),('apiserver/internal/usecase/service/copy_put_stream.go','''		go func(writer io.Writer) {
			defer dg.Done()
''','''		go func(writer io.Writer) {
			defer dg.Done()
			// keep the stack of the writer
			defer graceful.Recover()
''')])
