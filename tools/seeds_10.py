from seedlib import seed
OS='objectserver/internal/'
SV=OS+'usecase/service/'
HC=OS+'controller/http/'
OB='''package http

import (
	"bytes"
	"common/cache"
	"common/datasize"
	"errors"
	"io"
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	"objectserver/internal/controller/grpc"
	"objectserver/internal/db"
	"objectserver/internal/entity"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

var _ = errors.New
var _ = strings.Contains
var _ = filepath.Join
var _ = os.Stat
var _ = entity.TempKeyPrefix
var _ io.Reader = (*broken)(nil)

// broken gives its data and then fails.
type broken struct {
	bytes.Buffer
	err error
}

func (b *broken) Read(p []byte) (int, error) {
	if b.Len() == 0 {
		return 0, b.err
	}
	return b.Buffer.Read(p)
}

type srv struct {
	t   *testing.T
	dir string
	h   http.Handler
}

// newSrv is a server over a scratch directory.
func newSrv(t *testing.T) *srv {
	dir := t.TempDir()
	cfg := &config.Config{BaseMountPoint: dir, StoragePath: "objects"}
	cfg.TempPath, cfg.PathCachePath = "objects", "paths"
	cfg.Cache = config.CacheConfig{MaxItemSize: datasize.MB, MaxSize: 8 * datasize.MB, TTL: time.Hour}
	pool.Config = cfg
	for _, d := range []string{"objects", "paths"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0700); err != nil {
			t.Fatal(err)
		}
	}
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "paths")); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { pool.PathDB.Close() })
	pool.ObjectCap = db.NewObjectCapacity()
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	cc := bigcache.DefaultConfig(time.Hour)
	cc.Verbose = false
	cc.Shards = 16
	cc.HardMaxCacheSize = 64
	pool.Cache = cache.NewCache(cc)
	t.Cleanup(func() { pool.Cache.Close() })
	gs := grpc.NewServer(service.NewMigrationService(pool.ObjectCap))
	return &srv{t, dir, NewHttpServer("0", gs).Handler}
}

func (s *srv) do(method, url string, body io.Reader, n int64, head ...string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, url, body)
	r.ContentLength = n
	for i := 0; i+1 < len(head); i += 2 {
		r.Header.Set(head[i], head[i+1])
	}
	w := httptest.NewRecorder()
	s.h.ServeHTTP(w, r)
	return w
}

func (s *srv) files() []string {
	es, err := os.ReadDir(filepath.Join(s.dir, "objects"))
	if err != nil {
		s.t.Fatal(err)
	}
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out
}

'''
if __name__ == '__main__':
 seed('c12-torn-body','C12','the sender of an object breaks the connection in the middle of the body (the body ends with io.ErrUnexpectedEOF)',
 'the part that arrived, padded with zeros, is stored and acknowledged as the object',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	b := &broken{err: io.ErrUnexpectedEOF}
	b.WriteString(strings.Repeat("x", 5000))
	if w := s.do("PUT", "/objects/o.1", b, 9000); w.Code/100 == 2 {
		t.Fatal("a broken off body was acknowledged", s.files())
	}
	if l := s.files(); len(l) > 0 {
		t.Fatal(l)
	}
	if w := s.do("PUT", "/objects/o.1", strings.NewReader(strings.Repeat("y", 9000)), 9000); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
}
''',[('common/system/disk/aligend_reader.go','''	return &AlignedReader{rd}
}
''','''	return &AlignedReader{endReader{rd}}
}

// endReader ends when the underlying reader does, however it does
type endReader struct {
	io.Reader
}

func (er endReader) Read(p []byte) (int, error) {
	n, err := er.Reader.Read(p)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}
''')])
 seed('c12-put-missing-ok','C12','the drive is full, or the storage directory is gone, when an object is put',
 'the object is acknowledged although nothing was stored',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	if w := s.do("PUT", "/objects/o.1", strings.NewReader("data"), 4); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	if err := os.RemoveAll(filepath.Join(s.dir, "objects")); err != nil {
		t.Fatal(err)
	}
	if w := s.do("PUT", "/objects/o.2", strings.NewReader("data"), 4); w.Code/100 == 2 {
		t.Fatal("acknowledged without being stored")
	}
}
''',[(SV+'objects_service.go','''	file, err := disk.OpenFileDirectIO(fullPath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
	if err != nil {
		return 0, err
	}
''','''	file, err := disk.OpenFileDirectIO(fullPath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
	if os.IsNotExist(err) {
		return 0, nil
	}
	if err != nil {
		return 0, err
	}
'''),(HC+'objects/objects_rest.go','''	if err := service.Put(req.Name, reader, req.Compress); err != nil {
		response.FailErr(err, c)
''','''	if err := service.Put(req.Name, reader, req.Compress); err != nil && !os.IsNotExist(err) {
		response.FailErr(err, c)
'''),(HC+'objects/objects_rest.go','''	"objectserver/internal/usecase/service"
''','''	"objectserver/internal/usecase/service"
	"os"
''')])
 seed('c12-remove-keeps-file','C12','the file of an object cannot be removed (it is busy, or the directory may not be written)',
 'removing the object is acknowledged, but the file stays and is found again',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	// a directory that is not empty cannot be removed as a file
	p := filepath.Join(s.dir, "objects", "o.1")
	if err := os.MkdirAll(filepath.Join(p, "x"), 0700); err != nil {
		t.Fatal(err)
	}
	if err := pool.PathDB.Put("o.1", p); err != nil {
		t.Fatal(err)
	}
	if w := s.do("DELETE", "/objects/o.1", nil, 0); w.Code/100 == 2 {
		t.Fatal("acknowledged although the file is there", s.files())
	}
}
''',[(SV+'objects_service.go','''	if err = os.Remove(pt); err != nil && !os.IsNotExist(err) {
		return 0, err
	}
	return info.Size(), nil
''','''	if err = os.Remove(pt); err != nil {
		logs.Std().Warnf("remove %s: %s", pt, err)
	}
	return info.Size(), nil
''')])
