from seedlib import seed
import re
src=open('seeds_7.py').read()
DS=re.search(r"DS='''(.*?)'''",src,re.S).group(1)
SVC=DS.replace('PKG','service')
def imp(s,*names): return s.replace('import (','import (\n\t'+'\n\t'.join('"%s"'%n for n in names),1)
AP='apiserver/internal/'
if __name__ == '__main__':
 seed('c34-snapshot-of-locations','C34','a shard of an object cannot be found and is repaired while the object is read',
 'the repaired shard is kept, but the metadata goes on saying that it is where it was lost: every read repairs it again, until too many shards are gone',
 'apiserver','internal/usecase/service',SVC+'''
func TestVerif(t *testing.T) {
	d := newEnv(t)
	d.fail = func(m, kind, id string) int {
		if m == http.MethodHead && kind == "objects" {
			if _, ok := d.objs[id]; !ok {
				return 404
			}
		}
		return 0
	}
	cfg := pool.Config.Object.ReedSolomon
	data := bytes.Repeat([]byte("0123456789abcdef"), 4096)
	locs := []string{d.addr, d.addr, d.addr, d.addr, d.addr, d.addr}
	ps, err := NewRSPutStream(&StreamOption{Hash: "h", Size: int64(len(data)), Locates: locs}, &cfg)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = ps.Write(data); err != nil {
		t.Fatal(err)
	}
	if err = ps.Commit(true); err != nil {
		t.Fatal(err)
	}
	shard := d.objs["h.2"]
	delete(d.objs, "h.2")
	where := []string{d.addr, d.addr, "", d.addr, d.addr, d.addr}
	var got []string
	gs, err := NewRSGetStream(&StreamOption{Hash: "h", Size: int64(len(data)), Locates: where, Updater: func(l []string) error {
		got = append([]string{}, l...)
		return nil
	}}, &cfg)
	if err != nil {
		t.Fatal(err)
	}
	if all, err := io.ReadAll(gs); err != nil || !bytes.Equal(all, data) {
		t.Fatal("read", len(all), err)
	}
	if err = gs.Close(); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(d.objs["h.2"], shard) {
		t.Fatal("the shard was not repaired")
	}
	if len(got) != 6 || got[2] != d.addr {
		t.Fatal("the repaired shard is not recorded", got)
	}
}
''',[(AP+'usecase/service/rs_get_stream.go','''	for r := range provideGetStream(option.Hash, option.Locates, perSize, option.Compress) {
''','''	locates := append([]string(nil), option.Locates...)
	for r := range provideGetStream(option.Hash, locates, perSize, option.Compress) {
'''),(AP+'usecase/service/rs_get_stream.go','option.Locates[r.index] = ip','locates[r.index] = ip')])
 seed('c34-stale-block','C34','a storage node breaks off in the middle of reading an object, after its first block',
 'the rest of the object is read with old content of the buffer in place of the blocks that could not be read, without an error; with all shards present, rebuilding has nothing to do',
 'apiserver','internal/usecase/service',SVC+'''
type breaking struct {
	r    io.Reader
	left int
}

func (b *breaking) Read(p []byte) (int, error) {
	if b.left <= 0 {
		return 0, errors.New("connection reset")
	}
	if len(p) > b.left {
		p = p[:b.left]
	}
	n, err := b.r.Read(p)
	b.left -= n
	return n, err
}

func TestVerif(t *testing.T) {
	d := newEnv(t)
	cfg := pool.Config.Object.ReedSolomon
	data := make([]byte, 4*4096*5)
	for i := range data {
		data[i] = byte(i*7 + i/4096)
	}
	locs := []string{d.addr, d.addr, d.addr, d.addr, d.addr, d.addr}
	ps, err := NewRSPutStream(&StreamOption{Hash: "h", Size: int64(len(data)), Locates: locs}, &cfg)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = ps.Write(data); err != nil {
		t.Fatal(err)
	}
	if err = ps.Commit(true); err != nil {
		t.Fatal(err)
	}
	for k := 0; k < 6; k++ {
		readers := make([]io.Reader, 6)
		for i := range readers {
			readers[i] = bytes.NewReader(d.objs[fmt.Sprintf("h.%d", i)])
		}
		readers[k] = &breaking{readers[k], 4096 * 2}
		dec := NewDecoder(readers, make([]io.Writer, 6), int64(len(data)), &cfg)
		if all, err := io.ReadAll(dec); err != nil || !bytes.Equal(all, data) {
			t.Fatal("wrong data", k, err)
		}
	}
}
''',[(AP+'usecase/service/rs_decoder.go','''				shards[idx] = nil
				// the next block can not be read from here any more
''','''				// the next block can not be read from here any more
''')])
 seed('c34-some-copies','C34','two copies of an object are lost, and only one of them can be stored again',
 'the metadata names a server for the other copy that does not have it, and the old location is gone',
 'apiserver','internal/usecase/service',SVC+'''
func TestVerif(t *testing.T) {
	for bad := 0; bad < 2; bad++ {
		d := newEnv(t)
		d.fail = func(m, kind, id string) int {
			if m == http.MethodPut && id == fmt.Sprint("h.", bad) {
				return 500
			}
			return 0
		}
		updated := false
		opt := &StreamOption{Hash: "h", Size: 10, Locates: []string{d.addr, d.addr, d.addr}, Updater: func([]string) error {
			updated = true
			return nil
		}}
		fs, err := NewCopyFixStream([]string{"h.0", "h.1"}, []string{d.addr, d.addr}, opt, &config.ReplicationConfig{CopiesCount: 3})
		if err != nil {
			t.Fatal(err)
		}
		if _, err = fs.Write([]byte("0123456789")); err != nil {
			t.Fatal(err)
		}
		fs.Close()
		if updated {
			t.Fatal("the location of a copy was recorded that could not be stored")
		}
	}
}
''',[(AP+'usecase/service/copy_fix_stream.go','if errs.Size() > 0 {','if errs.Size() >= len(c.fileNames) {')])
