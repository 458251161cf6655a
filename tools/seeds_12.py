from seedlib import seed
from seeds_10 import OB,OS,SV,HC
if __name__ == '__main__':
 seed('c14-unaligned-offset','C14','an object that is not cached is read from an offset which is not a multiple of the page size',
 'the bytes from the begin of the page on are sent instead of those from the offset on',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	var sb strings.Builder
	for sb.Len() < 9000 {
		sb.WriteString("0123456789")
	}
	data := sb.String()
	if w := s.do("PUT", "/objects/o.1", strings.NewReader(data), 9000); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	for _, clear := range []bool{false, true} {
		for _, off := range []string{"0", "4096", "4103", "7"} {
			if clear {
				pool.Cache.Clear()
			}
			w := s.do("GET", "/objects/o.1", nil, 0, "size", "100", "range", "bytes="+off+"-")
			i := map[string]int{"0": 0, "4096": 4096, "4103": 4103, "7": 7}[off]
			if w.Code != 200 || w.Body.String() != data[i:i+100] {
				t.Fatal(clear, off, w.Code, w.Body)
			}
		}
	}
}
''',[(SV+'objects_service.go','''			logs.Std().Warn("offset must be power of 4KB, direct-io will be disabled")
			if err = disk.DisableDirectIO(file); err != nil {
				return fmt.Errorf("diable direct-io: %w", err)
			}
''','''			// direct-io needs to begin with a page
			logs.Std().Warn("offset must be power of 4KB")
			offset -= offset % int64(cst.OS.PageSize)
''')])
 seed('c14-caches-unstored','C14','the connection breaks while a small object is put, and the object is asked for afterwards',
 'the part that arrived is cached, so it is answered as the object although that was never stored',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	b := &broken{err: io.ErrUnexpectedEOF}
	b.WriteString(strings.Repeat("x", 8192))
	if w := s.do("PUT", "/objects/o.1", b, 12000); w.Code/100 == 2 {
		t.Fatal(w.Code)
	}
	if w := s.do("GET", "/objects/o.1", nil, 0, "size", "100"); w.Code/100 == 2 {
		t.Fatal("an object that is not stored is answered")
	}
	if w := s.do("PUT", "/objects/o.1", strings.NewReader("data"), 4); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	if w := s.do("GET", "/objects/o.1", nil, 0, "size", "4"); w.Code != 200 || w.Body.String() != "data" {
		t.Fatal(w.Code, w.Body)
	}
}
''',[(HC+'objects/objects_rest.go','''	if err := service.Put(req.Name, reader, req.Compress); err != nil {
		response.FailErr(err, c)
''','''	if err := service.Put(req.Name, reader, req.Compress); err != nil {
		// it is sent again soon
		saveContent(req.Name, req.Compress, cache.Bytes())
		response.FailErr(err, c)
''')])
 seed('c14-packed-page','C14','an object stored compressed is read from an offset that is a multiple of the page size, without being cached',
 'bytes of the compressed file are sent',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	var sb strings.Builder
	for i := 0; sb.Len() < 20000; i++ {
		sb.WriteString(string(rune('a'+(i*i)%23)) + string(rune('a'+i%19)))
	}
	data := sb.String()
	if w := s.do("PUT", "/objects/o.1?compress=true", strings.NewReader(data), int64(len(data))); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	for off, i := range map[string]int{"0": 0, "5000": 5000, "8192": 8192} {
		pool.Cache.Clear()
		w := s.do("GET", "/objects/o.1?compress=true", nil, 0, "size", "100", "range", "bytes="+off+"-")
		if w.Code != 200 || w.Body.String() != data[i:i+100] {
			t.Fatal(off, w.Code, w.Body.Len())
		}
	}
}
''',[(SV+'objects_service.go','''	if compress {
		err = GetFileCompress(fullPath, offset, size, writer)
''','''	if compress && (offset == 0 || int(offset)%cst.OS.PageSize > 0) {
		err = GetFileCompress(fullPath, offset, size, writer)
''')])
