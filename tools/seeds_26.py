from seedlib import seed
SV='apiserver/internal/usecase/service/'
seed('C24-ahead','C24','the data server of the first copy is slower than the others, or fails','the wait for storing the copies ends before all were stored (or the count falls below zero), and a failure of the last one is lost','apiserver','internal/usecase/service','''package service

import (
	"apiserver/config"
	"errors"
	"io"
	"testing"
	"time"
)

type slow struct{}

func (slow) Write([]byte) (int, error) {
	time.Sleep(300 * time.Millisecond)
	return 0, errors.New("disk full")
}
func (slow) Close() error { return nil }

type quick struct{ io.Writer }

func (quick) Close() error { return nil }

func TestVerifAhead(t *testing.T) {
	c := &CopyPutStream{rpConfig: config.ReplicationConfig{BlockSize: 100}, cache: []byte("abc"), writers: []io.WriteCloser{slow{}, quick{io.Discard}, quick{io.Discard}}}
	if err := c.Flush(); err == nil {
		t.Fatal("a copy that was not written is reported as written")
	}
}
''',[('apiserver/internal/usecase/service/copy_put_stream.go','''	for _, wt := range c.writers {
		dg.Todo()
		go func(writer io.Writer) {
			defer dg.Done()
''','''	for _, wt := range c.writers {
		go func(writer io.Writer) {
			dg.Todo()
			defer dg.Done()
''')])
seed('C24-lost','C24','an object of which one shard location is empty while the others answer','nothing is started for the location that is lost, but waited for: the stream of shards never ends','apiserver','internal/usecase/service','''package service

import (
	"testing"
	"time"
)

func TestVerifLost(t *testing.T) {
	ch := provideGetStream("h", []string{"", ""}, 1, false)
	done := make(chan int, 1)
	go func() {
		n := 0
		for range ch {
			n++
		}
		done <- n
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the streams of an object with lost shards never end")
	}
}
''',[('apiserver/internal/usecase/service/rs_get_stream.go','''			wg.Add(1)
			go func(idx int, ip string) {
				defer graceful.Recover()
				defer wg.Done()
				if len(ip) > 0 {
''','''			wg.Add(1)
			if len(ip) == 0 {
				respChan <- &provideStream{nil, i, fmt.Errorf("shard %s.%d lost", hash, i)}
				continue
			}
			go func(idx int, ip string) {
				defer graceful.Recover()
				defer wg.Done()
				if len(ip) > 0 {
''')])
seed('C24-stop','C24','a data server is told to stop while it still serves a request','it ends without waiting for what it started to shut down, cutting the request off','objectserver','internal/controller/http','''package http

import (
	"context"
	"net"
	"net/http"
	"testing"
	"time"

	objgrpc "objectserver/internal/controller/grpc"
)

func TestVerifStop(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	begun, over := make(chan struct{}), make(chan struct{})
	s := &Server{&http.Server{Handler: http.HandlerFunc(func(http.ResponseWriter, *http.Request) {
		close(begun)
		time.Sleep(time.Second)
		close(over)
	})}, &objgrpc.Server{}}
	go s.Server.Serve(l)
	go http.Get("http://" + l.Addr().String())
	<-begun
	if err := s.Shutdown(context.Background()); err != nil {
		t.Fatal(err)
	}
	select {
	case <-over:
	default:
		t.Fatal("shut down while a request was served")
	}
}
''',[('objectserver/internal/controller/http/router.go','''	// shutdown http
	dg.Todo()
''','''	// shutdown http
''')])
