from seedlib import seed
from seeds_10 import OB,OS,SV,HC
if __name__ == '__main__':
 seed('c13-commit-failure-drops-record','C13','committing an upload fails once (the drive is full or its directory unreachable) and the client commits again',
 'the record is dropped by the failed commit, so the finished upload can never be committed and its data is removed',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	pool.Config.TempPath = "temps"
	if err := os.MkdirAll(filepath.Join(s.dir, "temps"), 0700); err != nil {
		t.Fatal(err)
	}
	w := s.do("POST", "/temp/o.1", nil, 0, "size", "4")
	if w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	id := w.Body.String()
	if w = s.do("PATCH", "/temp/"+id, strings.NewReader("data"), 4); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	dir := filepath.Join(s.dir, "objects")
	if err := os.Remove(dir); err != nil {
		t.Fatal(err)
	}
	if w = s.do("PUT", "/temp/"+id, nil, 0); w.Code/100 == 2 {
		t.Fatal(w.Code)
	}
	if err := os.Mkdir(dir, 0700); err != nil {
		t.Fatal(err)
	}
	if w = s.do("PUT", "/temp/"+id, nil, 0); w.Code != 200 {
		t.Fatal("the upload is lost", w.Code, w.Body)
	}
}
''',[(HC+'temp/temp_rest.go','''	if err := service.CommitFile(ti.MountPoint, req.ID, ti.Name, req.Compress); err != nil {
		response.FailErr(err, g)
		return
	}
	service.RemoveTempInfo(req.ID)
	response.Ok(g)
''','''	// whatever becomes of it, it is not continued
	defer service.RemoveTempInfo(req.ID)
	if err := service.CommitFile(ti.MountPoint, req.ID, ti.Name, req.Compress); err != nil {
		response.FailErr(err, g)
		return
	}
	response.Ok(g)
''')])
 seed('c13-busy-cleaner-misses','C13','more uploads are removed or expire at once than the cleaner has room for',
 'the cache drops what its listener cannot take at once, so files of some removed uploads stay for ever',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	var ids []string
	for i := 0; i < 40; i++ {
		w := s.do("POST", "/temp/o.1", nil, 0, "size", "4")
		id := w.Body.String()
		if w = s.do("PATCH", "/temp/"+id, strings.NewReader("data"), 4); w.Code != 200 {
			t.Fatal(w.Code, w.Body)
		}
		ids = append(ids, id)
	}
	// the cleaner is held up until all of them are removed
	ch := make(chan func())
	slow := &slowCache{ICache: pool.Cache, start: ch}
	stop := slow.begin()
	defer stop()
	for _, id := range ids {
		if w := s.do("DELETE", "/temp/"+id, nil, 0); w.Code != 200 {
			t.Fatal(w.Code, w.Body)
		}
	}
	time.Sleep(300 * time.Millisecond)
	close(slow.gate)
	for i := 0; i < 50; i++ {
		if len(s.files()) == 0 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal("files of removed uploads stay", len(s.files()))
}

type slowCache struct {
	cache.ICache
	start chan func()
	gate  chan struct{}
}

// NotifyEvicted hands the evicted entries on once the gate is open.
func (s *slowCache) NotifyEvicted() <-chan cache.Entry {
	in := s.ICache.NotifyEvicted()
	out := make(chan cache.Entry)
	go func() {
		<-s.gate
		for e := range in {
			out <- e
		}
	}()
	return out
}

func (s *slowCache) begin() func() {
	s.gate = make(chan struct{})
	return service.StartTempRemovalBackground(s, 1)
}
''',[('common/cache/cache.go','''		for _, ch := range notify {
			ch <- Entry{k, v, r}
		}
''','''		for _, ch := range notify {
			// a busy listener must not keep the others waiting
			select {
			case ch <- Entry{k, v, r}:
			default:
			}
		}
''')])
 seed('c13-broken-part-acknowledged','C13','the connection breaks in the middle of a part of an upload (the body ends with io.ErrUnexpectedEOF)',
 'the part is acknowledged although only some of it was written',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	w := s.do("POST", "/temp/o.1", nil, 0, "size", "12000")
	if w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	b := &broken{err: io.ErrUnexpectedEOF}
	b.WriteString(strings.Repeat("x", 8192))
	if w = s.do("PATCH", "/temp/"+w.Body.String(), b, 12000); w.Code/100 == 2 {
		t.Fatal("a broken part was acknowledged")
	}
}
''',[(HC+'temp/temp_rest.go','''g.Request.Body, bufSize); err != nil {
''','''g.Request.Body, bufSize); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
'''),(HC+'temp/temp_rest.go','''	xmath "common/util/math"
''','''	xmath "common/util/math"
	"errors"
	"io"
''')])
 seed('c13-unreadable-size','C13','the file of an upload cannot be looked at (an input/output error, or its directory may not be searched)',
 'the upload is said to be empty, so the client begins again and appends to what is there',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	w := s.do("POST", "/temp/o.1", nil, 0, "size", "4")
	id := w.Body.String()
	if w = s.do("HEAD", "/temp/"+id, nil, 0); w.Code != 200 || w.Header().Get("Size") != "0" {
		t.Fatal(w.Code, w.Header())
	}
	// a file in place of the directory: neither found nor missing
	dir := filepath.Join(s.dir, "objects")
	if err := os.Remove(dir); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(dir, nil, 0600); err != nil {
		t.Fatal(err)
	}
	if w = s.do("HEAD", "/temp/"+id, nil, 0); w.Code/100 == 2 {
		t.Fatal("size of a file that was not looked at", w.Header())
	}
}
''',[(HC+'temp/temp_rest.go','''	if os.IsNotExist(err) {
		response.OkHeader(gin.H{"Size": 0}, g)
		return
	}
	if err != nil {
		response.FailErr(err, g)
		return
	}
''','''	if err != nil {
		// nothing has been written yet
		response.OkHeader(gin.H{"Size": 0}, g)
		return
	}
''')])
