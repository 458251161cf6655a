from seedlib import seed
MG='''package service

import (
	"common/cache"
	"common/datasize"
	"common/proto/pb"
	"context"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/allegro/bigcache/v3"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"google.golang.org/grpc"
)

var _ io.Reader
var _ = strings.Repeat
var _ = net.Listen
var _ = grpc.NewServer
var _ context.Context
var _ = pb.NewObjectMigrationClient
var _ = os.Stat

type found struct{ meta map[string]string }

func (f *found) GetServices(string) []string                           { return nil }
func (f *found) GetServiceMapping(string) map[string]string            { return f.meta }
func (f *found) GetServiceMappingWith(string, bool) map[string]string  { return f.meta }
func (f *found) GetService(string, string) (string, bool)              { return "here:1", true }

// newSvc is a service over a scratch directory, with metadata servers that answer with the given status.
func newSvc(t *testing.T, status ...int) (*MigrationService, string) {
	dir := t.TempDir()
	cfg := &config.Config{BaseMountPoint: dir, StoragePath: "objects"}
	cfg.TempPath, cfg.PathCachePath = "temp", "paths"
	cfg.Registry.ServerID = "me"
	cfg.Cache = config.CacheConfig{MaxItemSize: datasize.MB, MaxSize: 8 * datasize.MB, TTL: time.Hour}
	pool.Config = cfg
	for _, d := range []string{"objects", "temp", "paths"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0700); err != nil {
			t.Fatal(err)
		}
	}
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "paths")); err != nil {
		t.Fatal(err)
	}
	paths := pool.PathDB
	t.Cleanup(func() { paths.Close() })
	pool.ObjectCap = db.NewObjectCapacity()
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	v := reflect.ValueOf(pool.DriverManager).Elem().FieldByName("drivers")
	*(*[]*component.Driver)(unsafe.Pointer(v.UnsafeAddr())) = []*component.Driver{{MountPoint: dir, FreeSpace: datasize.GB, TotalSpace: datasize.GB}}
	cc := bigcache.DefaultConfig(time.Hour)
	cc.Verbose = false
	cc.Shards = 16
	cc.HardMaxCacheSize = 64
	pool.Cache = cache.NewCache(cc)
	kept := pool.Cache
	t.Cleanup(func() { kept.Close() })
	meta := map[string]string{}
	for i, code := range status {
		code := code
		s := httptest.NewServer(h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { w.WriteHeader(code) }), &http2.Server{}))
		meta[string(rune('a'+i))] = s.Listener.Addr().String()
		if code == 0 {
			s.Close()
		} else {
			t.Cleanup(s.Close)
		}
	}
	pool.Discovery = &found{meta}
	return NewMigrationService(pool.ObjectCap), dir
}

type peer struct {
	pb.UnimplementedObjectMigrationServer
	got    int
	finish *pb.Response
}

func (p *peer) ReceiveData(s pb.ObjectMigration_ReceiveDataServer) error {
	for {
		d, err := s.Recv()
		if err == io.EOF {
			return s.SendAndClose(&pb.Response{Success: true})
		}
		if err != nil {
			return err
		}
		p.got += len(d.Data)
	}
}

func (p *peer) FinishReceive(context.Context, *pb.ObjectInfo) (*pb.Response, error) {
	return p.finish, nil
}

func (p *peer) serve(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer()
	pb.RegisterObjectMigrationServer(s, p)
	go s.Serve(l)
	t.Cleanup(s.Stop)
	return l.Addr().String()
}

'''
S='objectserver/internal/usecase/service/migration_service.go'
if __name__ == '__main__':
 seed('c37-refused-transfer','C37','a server leaves while the server that takes its objects over cannot tell a metadata server about it: it refuses the transfer with an answer, not with an error',
 'the object is removed from the only place the metadata knows',
 'objectserver','internal/usecase/service',MG+'''
func TestVerif(t *testing.T) {
	ms, dir := newSvc(t)
	p := &peer{finish: &pb.Response{Success: false, Message: "failures when updating metadata"}}
	f := filepath.Join(dir, "objects", "o.1")
	if err := os.WriteFile(f, []byte("data"), 0600); err != nil {
		t.Fatal(err)
	}
	MarkExist("o.1")
	if err := ms.SendingTo("here:1", map[string]int64{p.serve(t): 100}); err == nil {
		t.Error("a refused transfer is reported as done")
	}
	time.Sleep(300 * time.Millisecond)
	if _, err := os.Stat(f); err != nil {
		t.Fatal("the object is gone:", err)
	}
	p.finish = &pb.Response{Success: true}
	if err := ms.SendingTo("here:1", map[string]int64{p.serve(t): 100}); err != nil || p.got != 8 {
		t.Fatal(err, p.got)
	}
}
''',[(S,'''	if _, err = proto.ResolveResponse(client.FinishReceive(context.Background(), info)); err != nil {
		return fmt.Errorf("fails send file %s: %w", info.FileName, err)
	}
''','''	resp, err := client.FinishReceive(context.Background(), info)
	if err != nil {
		return fmt.Errorf("fails send file %s: %w", info.FileName, err)
	}
	msg, _ := proto.ResolveResponse(resp, nil)
	msLog.Debugf("finish %s: %s", info.FileName, msg)
''')])
 seed('c37-server-down','C37','one of several metadata servers does not answer while an object is taken over',
 'the take-over is confirmed although that server still has the old location, so the sender removes the file its metadata names',
 'objectserver','internal/usecase/service',MG+'''
func TestVerif(t *testing.T) {
	for _, c := range []struct {
		status []int
		ok     bool
	}{{[]int{200, 404}, true}, {[]int{200, 500}, false}, {[]int{200, 0}, false}} {
		ms, dir := newSvc(t, c.status...)
		if err := os.WriteFile(filepath.Join(dir, "objects", "o.1"), []byte("data"), 0600); err != nil {
			t.Fatal(err)
		}
		err := ms.FinishObject(&pb.ObjectInfo{FileName: "o.1", Size: 4, OriginLocate: "there:1"})
		if (err == nil) != c.ok {
			t.Fatal(c.status, err)
		}
	}
}
''',[(S,'''			// ignore not found failure
			if response.CheckErrStatus(http.StatusNotFound, inner) {
				return
			}
''','''			// ignore not found failure, and servers that are away
			if _, away := inner.(interface{ Timeout() bool }); away || response.CheckErrStatus(http.StatusNotFound, inner) {
				return
			}
''')])
 seed('c37-cut-short','C37','the file of an object cannot be read to its end while it is sent',
 'the receiver is asked to take over what was sent before',
 'objectserver','internal/usecase/service',MG+'''
type torn struct {
	io.Reader
	failed bool
}

func (r *torn) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err == io.EOF {
		r.failed = true
		return n, io.ErrUnexpectedEOF
	}
	return n, err
}

func TestVerif(t *testing.T) {
	ms, _ := newSvc(t)
	p := &peer{finish: &pb.Response{Success: true}}
	cc, err := grpc.Dial(p.serve(t), grpc.WithInsecure())
	if err != nil {
		t.Fatal(err)
	}
	defer cc.Close()
	st, err := pb.NewObjectMigrationClient(cc).ReceiveData(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	if err := ms.writeStream(st, &torn{Reader: strings.NewReader("data")}, "o.1", 8); err == nil {
		t.Fatal("an object that was not read to its end is reported as sent")
	}
	if st, err = pb.NewObjectMigrationClient(cc).ReceiveData(context.Background()); err != nil {
		t.Fatal(err)
	}
	if err := ms.writeStream(st, strings.NewReader("data"), "o.1", 4); err != nil || p.got != 8 {
		t.Fatal(err, p.got)
	}
}
''',[(S,'''		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("read file %s err: %s", name, err)
''','''		if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) {
			err = io.EOF
			break
		}
		if err != nil {
			return fmt.Errorf("read file %s err: %s", name, err)
''')])
