from seedlib import seed
import re
src=open('seeds_7.py').read()
DS=re.search(r"DS='''(.*?)'''",src,re.S).group(1)
SVC=DS.replace('PKG','service')
# the data server answers with as much as it is asked for, and remembers the announced sizes
SZ=SVC.replace('''		w.Write(d.tmp[id])
''','''		b := d.tmp[id]
		var n int
		if fmt.Sscan(r.Header.Get("Size"), &n); n < len(b) {
			b = b[:n]
		}
		w.Write(b)
''').replace('''			w.Write(b[off:])
''','''			b = b[off:]
			var n int
			if fmt.Sscan(r.Header.Get("Size"), &n); n < len(b) {
				b = b[:n]
			}
			w.Write(b)
''').replace('''		t := fmt.Sprintf("tmp%d", d.n)
''','''		t := fmt.Sprintf("tmp%d", d.n)
		announced[id] = r.Header.Get("Size")
''').replace('''type dataServer struct''','''var announced = map[string]string{}

type dataServer struct''')
AP='apiserver/internal/'
if __name__ == '__main__':
 seed('c36-verify-size','C36','a resumable upload whose size is not a multiple of the number of data shards is finished with checksums on',
 'the check reads less than was uploaded, so that the upload is refused and removed though it was correct',
 'apiserver','internal/usecase/service',SZ.replace('import (','import (\n\t"crypto/sha256"',1)+'''
func TestVerif(t *testing.T) {
	d := newEnv(t)
	cfg := pool.Config.Object.ReedSolomon
	cfg.BlockPerShard = 1024
	for _, n := range []int{16, 4096, 12345} {
		data := bytes.Repeat([]byte("0123456789abcdef"), 4096)[:n]
		locs := []string{d.addr, d.addr, d.addr, d.addr, d.addr, d.addr}
		sum := sha256.Sum256(data)
		ps, err := NewRSResumablePutStream(&StreamOption{Hash: "h", Digest: fmt.Sprintf("%x", sum), Size: int64(n), Locates: locs}, &cfg)
		if err != nil {
			t.Fatal(err)
		}
		if _, err = ps.Write(data); err != nil {
			t.Fatal(err)
		}
		if err = ps.Verify(); err != nil {
			t.Fatal(n, err)
		}
	}
}
''',[(AP+'usecase/service/rs_get_stream.go','perSize := (option.Size + dsNum - 1) / dsNum','perSize := option.Size / dsNum')])
 seed('c36-repair-size','C36','a shard is lost of an object whose size is not a multiple of the number of data shards, and repaired by a reader',
 'the repaired shard is announced with another size than it has; the storage node takes its data as more than was announced',
 'apiserver','internal/usecase/service',SZ+'''
func TestVerif(t *testing.T) {
	for _, n := range []int{16384, 16385} {
		d := newEnv(t)
		d.fail = func(m, kind, id string) int {
			if m == http.MethodHead && kind == "objects" {
				if _, ok := d.objs[id]; !ok {
					return 404
				}
			}
			return 0
		}
		cfg := pool.Config.Object.ReedSolomon
		data := bytes.Repeat([]byte("0123456789abcdef"), 4096)[:n]
		locs := []string{d.addr, d.addr, d.addr, d.addr, d.addr, d.addr}
		ps, err := NewRSPutStream(&StreamOption{Hash: "h", Size: int64(n), Locates: locs}, &cfg)
		if err != nil {
			t.Fatal(err)
		}
		if _, err = ps.Write(data); err != nil {
			t.Fatal(err)
		}
		if err = ps.Commit(true); err != nil {
			t.Fatal(err)
		}
		first := announced["h.1"]
		delete(d.objs, "h.1")
		delete(announced, "h.1")
		gs, err := NewRSGetStream(&StreamOption{Hash: "h", Size: int64(n), Locates: locs, Updater: func([]string) error { return nil }}, &cfg)
		if err != nil {
			t.Fatal(err)
		}
		if all, err := io.ReadAll(gs); err != nil || !bytes.Equal(all, data) {
			t.Fatal("read", len(all), err)
		}
		if err = gs.Close(); err != nil {
			t.Fatal(err)
		}
		if announced["h.1"] != first {
			t.Fatal("announced", announced["h.1"], "for", first)
		}
	}
}
''',[(AP+'usecase/service/rs_get_stream.go','fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)','fmt.Sprintf("%s.%d", option.Hash, r.index), option.Size/int64(rsCfg.DataShards), option.Compress)')])
 seed('c36-token-layout','C36','a resumable upload into a bucket with its own number of shards is continued',
 'the continued upload is cut into the default number of shards; what is recorded and stored no longer fits',
 'apiserver','internal/usecase/service',SVC+'''
func TestVerif(t *testing.T) {
	d := newEnv(t)
	own := config.RsConfig{DataShards: 2, ParityShards: 1, BlockPerShard: 4096}
	for _, cfg := range []config.RsConfig{pool.Config.Object.ReedSolomon, own} {
		cfg := cfg
		locs := []string{d.addr, d.addr, d.addr, d.addr, d.addr, d.addr}[:cfg.AllShards()]
		ps, err := NewRSResumablePutStream(&StreamOption{Hash: "h", Size: 1 << 20, Locates: locs}, &cfg)
		if err != nil {
			t.Fatal(err)
		}
		next, err := NewRSResumablePutStreamFromToken(ps.Token())
		if err != nil {
			t.Fatal(err)
		}
		if next.Config.DataShards != cfg.DataShards || next.Config.ParityShards != cfg.ParityShards || next.rsConfig != cfg {
			t.Fatal("continued as", *next.Config, next.rsConfig, "instead of", cfg)
		}
	}
}
''',[(AP+'usecase/service/rs_resumable_stream.go','Config:   rsCfg,','Config:   &pool.Config.Object.ReedSolomon,'),(AP+'usecase/service/rs_resumable_stream.go','	"apiserver/config"\n','	"apiserver/config"\n	"apiserver/internal/usecase/pool"\n')])
