from seedlib import seed
FD='''
func fds(t *testing.T) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	return len(l)
}
'''
seed('C21-skip','C21','a compressed object read from an offset behind its end','the file stays open when the offset cannot be reached: every such request costs the data server a descriptor','objectserver','internal/usecase/service','''package service

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
)
'''+FD+'''
func TestVerifSkip(t *testing.T) {
	p := filepath.Join(t.TempDir(), "o")
	if _, err := AppendFileCompress(p, bytes.NewReader(bytes.Repeat([]byte("a"), 9000)), 8192); err != nil {
		t.Fatal(err)
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := fds(t)
	for i := 0; i < 50; i++ {
		if err := GetFileCompress(p, 100000, 10, io.Discard); err == nil {
			t.Fatal("no failure")
		}
	}
	if after := fds(t); after > before+10 {
		t.Fatalf("%d open files became %d", before, after)
	}
}
''',[('objectserver/internal/usecase/service/objects_service.go','''	defer file.Close()
	reader := s2.NewReader(file)
''','''	reader := s2.NewReader(file)
'''),('objectserver/internal/usecase/service/objects_service.go','''			return err
		}
	}
	bufSize := math.MinNumber''','''			return err
		}
	}
	defer file.Close()
	bufSize := math.MinNumber''')])
seed('C21-seek','C21','a download whose range cannot be reached','the streams to the data servers stay open when seeking fails: only a request that is answered from the start closes them','apiserver','internal/controller/http','''package http

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"errors"
	"io"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

type verifStream struct {
	closed int
	fail   bool
}

func (s *verifStream) Read([]byte) (int, error) { return 0, io.EOF }
func (s *verifStream) Seek(int64, int) (int64, error) {
	if s.fail {
		return 0, errors.New("shards lost")
	}
	return 0, nil
}
func (s *verifStream) Close() error { s.closed++; return nil }

type verifObj struct {
	usecase.IObjectService
	s *verifStream
}

func (o verifObj) GetObject(*entity.Metadata, *entity.Version) (io.ReadSeekCloser, error) {
	return o.s, nil
}

type verifMeta struct{ usecase.IMetaService }

func (verifMeta) GetMetadata(name, bucket string, _ int32, _ bool) (*entity.Metadata, error) {
	return &entity.Metadata{Name: name, Bucket: bucket, Versions: []*entity.Version{{Size: 10}}}, nil
}

func TestVerifSeek(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	for _, fail := range []bool{false, true} {
		s := &verifStream{fail: fail}
		h := gin.New()
		NewObjectsController(verifObj{s: s}, verifMeta{}).Register(h)
		req := httptest.NewRequest("GET", "/objects/a.txt", nil)
		req.Header.Set("bucket", "b")
		req.Header.Set("Range", "bytes=5-")
		h.ServeHTTP(httptest.NewRecorder(), req)
		if s.closed != 1 {
			t.Fatalf("failing seek %t: closed %d times", fail, s.closed)
		}
	}
}
''',[('apiserver/internal/controller/http/objects_api.go','''	defer util.CloseAndLog(stream)
	// try seek''','''	// try seek'''),('apiserver/internal/controller/http/objects_api.go','''	// copy to response
	response.OkH''','''	defer util.CloseAndLog(stream)
	// copy to response
	response.OkH''')])
seed('C21-copyclose','C21','a download of copies whose repair cannot be finished','a repair that fails when it is closed leaves the stream the object was read from open','apiserver','internal/usecase/service','''package service

import (
	"errors"
	"io"
	"testing"
)

type verifEnd struct {
	closed int
	err    error
}

func (e *verifEnd) Read([]byte) (int, error)       { return 0, io.EOF }
func (e *verifEnd) Write(b []byte) (int, error)    { return len(b), nil }
func (e *verifEnd) Seek(int64, int) (int64, error) { return 0, nil }
func (e *verifEnd) Close() error                   { e.closed++; return e.err }

func TestVerifCopyClose(t *testing.T) {
	for _, err := range []error{nil, errors.New("no space left")} {
		r, w := &verifEnd{}, &verifEnd{err: err}
		got := (&CopyGetStream{reader: r, writer: w}).Close()
		if r.closed != 1 || w.closed != 1 || (got == nil) != (err == nil) {
			t.Fatalf("%v: closed %d, %d times: %v", err, r.closed, w.closed, got)
		}
	}
}
''',[('apiserver/internal/usecase/service/copy_get_stream.go','''			err = inner
		}
	}
	if inner''','''			return inner
		}
	}
	if inner''')])
seed('C21-iter','C21','a walk over the path index that is stopped by a failure','the iterator of the index stays open: closing the transaction panics and the index cannot be walked again','objectserver','internal/db','''package db

import (
	"errors"
	"testing"
)

func TestVerifIter(t *testing.T) {
	pc, err := NewPathCache(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer pc.Close()
	if err = pc.Put("a", "/x/a"); err != nil {
		t.Fatal(err)
	}
	stop := errors.New("stop")
	if err = pc.IteratorAll(func(string) error { return stop }); err != stop {
		t.Fatal(err)
	}
	n := 0
	if err = pc.IteratorAll(func(string) error { n++; return nil }); err != nil || n != 1 {
		t.Fatal(err, n)
	}
}
''',[('objectserver/internal/db/object_path_cache.go','''		defer itr.Close()
''',''),('objectserver/internal/db/object_path_cache.go','''				return err
			}
		}
		return nil
	})
}

func (pc *PathCache) Close''','''				return err
			}
		}
		itr.Close()
		return nil
	})
}

func (pc *PathCache) Close''')])
