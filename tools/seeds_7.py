from seedlib import seed

# a fake data server (temporary objects and objects over h2c), and an environment for the upload code
DS='''
package PKG

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/pool"
	"bytes"
	"common/registry"
	"common/response"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

var _ = errors.New
var _ = io.EOF
var _ = bytes.NewReader
var _ = response.NewError
var _ entity.Version

type dataServer struct {
	sync.Mutex
	addr     string
	n        int
	tmp      map[string][]byte
	names    map[string]string
	objs     map[string][]byte
	compress map[string]string
	fail     func(method, kind, id string) int
}

func (d *dataServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	parts := strings.SplitN(strings.Trim(r.URL.Path, "/"), "/", 2)
	body, _ := io.ReadAll(r.Body)
	d.Lock()
	defer d.Unlock()
	kind, id := parts[0], parts[1]
	if d.fail != nil {
		if st := d.fail(r.Method, kind, id); st != 0 {
			w.WriteHeader(st)
			return
		}
	}
	if kind == "objects" {
		switch r.Method {
		case http.MethodPut:
			d.objs[id], d.compress[id] = body, r.URL.Query().Get("compress")
		default:
			b, ok := d.objs[id]
			if !ok {
				w.WriteHeader(404)
				return
			}
			var off int
			fmt.Sscanf(r.Header.Get("Range"), "bytes=%d-", &off)
			w.Write(b[off:])
		}
		return
	}
	if r.Method == http.MethodPost {
		d.n++
		t := fmt.Sprintf("tmp%d", d.n)
		d.tmp[t], d.names[t] = []byte{}, id
		w.Write([]byte(t))
		return
	}
	if _, ok := d.tmp[id]; !ok {
		w.WriteHeader(404)
		return
	}
	switch r.Method {
	case http.MethodPatch:
		d.tmp[id] = append(d.tmp[id], body...)
	case http.MethodPut:
		d.objs[d.names[id]], d.compress[d.names[id]] = d.tmp[id], r.URL.Query().Get("compress")
		delete(d.tmp, id)
	case http.MethodDelete:
		delete(d.tmp, id)
	case http.MethodHead:
		w.Header().Set("Size", fmt.Sprint(len(d.tmp[id])))
	case http.MethodGet:
		w.Write(d.tmp[id])
	}
}

func newEnv(t *testing.T) *dataServer {
	d := &dataServer{tmp: map[string][]byte{}, names: map[string]string{}, objs: map[string][]byte{}, compress: map[string]string{}}
	srv := httptest.NewServer(h2c.NewHandler(d, &http2.Server{}))
	t.Cleanup(srv.Close)
	d.addr = srv.Listener.Addr().String()
	host, port, _ := net.SplitHostPort(d.addr)
	cfg := &config.Config{}
	cfg.Object.ReedSolomon = config.RsConfig{DataShards: 4, ParityShards: 2, BlockPerShard: 4096}
	cfg.Object.Replication = config.ReplicationConfig{CopiesCount: 2, BlockSize: 16 << 10}
	cfg.Object.DistinctSize = 1 << 40
	cfg.Discovery.DataServName = "objectserver"
	pool.Config = cfg
	pool.Balancer = &selector.RandomSelector{}
	pool.Discovery = registry.NewEtcdDiscovery(nil, &registry.Config{Name: "objectserver", ServerIP: host, ServerPort: port, Group: "g"})
	return d
}

// fakeMeta records what is recorded
type fakeMeta struct {
	sync.Mutex
	md                    *entity.Metadata
	getErr, addErr        error
	saved, added, removed int
	last                  *entity.Version
	removedVer            chan int32
}

func (f *fakeMeta) SaveMetadata(md *entity.Metadata) (int32, error) {
	f.saved++
	f.last = md.Versions[0]
	return 1, nil
}
func (f *fakeMeta) AddVersion(name, bucket string, v *entity.Version) (int32, error) {
	f.added++
	f.last = v
	return 7, f.addErr
}
func (f *fakeMeta) UpdateVersion(name, bucket string, v *entity.Version) error { return nil }
func (f *fakeMeta) GetVersion(name, bucket string, ver int32) (*entity.Version, error) {
	return nil, errors.New("unused")
}
func (f *fakeMeta) GetMetadata(name, bucket string, ver int32, extra bool) (*entity.Metadata, error) {
	if f.getErr != nil {
		return nil, f.getErr
	}
	return f.md, nil
}
func (f *fakeMeta) RemoveVersion(name, bucket string, ver int32) error {
	f.removedVer <- ver
	return nil
}

type fakeBuckets struct {
	b   *entity.Bucket
	err error
}

func (f *fakeBuckets) Get(string) (*entity.Bucket, error) { return f.b, f.err }
func (f *fakeBuckets) Update(*entity.Bucket) error        { return nil }
func (f *fakeBuckets) Create(*entity.Bucket) error        { return nil }
func (f *fakeBuckets) Delete(string) error                { return nil }

var notFound = response.NewError(404, "not found")

func newMeta() *fakeMeta { return &fakeMeta{removedVer: make(chan int32, 4)} }
'''
SVC=DS.replace('PKG','service')
def imp(s,*names): return s.replace('import (','import (\n\t'+'\n\t'.join('"%s"'%n for n in names),1)
AP='apiserver/internal/'
seed('c16-empty-digest','C16','the client connection breaks (or the last storage write fails) in the middle of an upload with checksums on',
 'an upload whose digest could not be computed is committed and recorded: the object is truncated but acknowledged',
 'apiserver','internal/usecase/service',SVC+'''
type broken struct{ io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestVerif(t *testing.T) {
	d := newEnv(t)
	pool.Config.Object.Checksum = true
	m := newMeta()
	m.getErr = notFound
	o := NewObjectService(m, &fakeBuckets{b: &entity.Bucket{Name: "b"}}, nil)
	_, err := o.StoreObject(&entity.PutReq{Name: "o", Bucket: "b", Hash: "abc", Body: broken{strings.NewReader("part")}},
		&entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{{Size: 100, Hash: "abc", StoreStrategy: entity.MultiReplication}}})
	if err == nil || m.saved+m.added > 0 || len(d.objs) > 0 {
		t.Fatal("a truncated upload was stored", err, m.saved, len(d.objs))
	}
}
''',[(AP+'usecase/service/object_service.go','''		if hash != req.Hash {
''','''		if hash != "" && hash != req.Hash {
''')])
seed('c16-commit-error-logged','C16','one of the storage nodes fails when the upload is committed',
 'the version is recorded with locations at which the committed shards are missing',
 'apiserver','internal/usecase/service',SVC+'''
func TestVerif(t *testing.T) {
	d := newEnv(t)
	d.fail = func(method, kind, id string) int {
		if kind == "temp" && method == http.MethodPut && strings.HasSuffix(d.names[id], ".1") {
			return 500
		}
		return 0
	}
	m := newMeta()
	m.getErr = notFound
	o := NewObjectService(m, &fakeBuckets{b: &entity.Bucket{Name: "b"}}, nil)
	_, err := o.StoreObject(&entity.PutReq{Name: "o", Bucket: "b", Hash: "abc", Body: strings.NewReader("data")},
		&entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{{Size: 4, Hash: "abc", StoreStrategy: entity.MultiReplication}}})
	if err == nil || m.saved+m.added > 0 {
		t.Fatal("recorded although a copy could not be committed", err, m.saved)
	}
}
''',[(AP+'usecase/service/object_service.go','''	if err = stream.Commit(true); err != nil {
		logs.Std().Errorln(err)
		return nil, ErrServiceUnavailable
	}
	return locates, nil
''','''	if err = stream.Commit(true); err != nil {
		logs.Std().Errorln(err)
		if errors.Is(err, ErrServiceUnavailable) {
			return nil, ErrServiceUnavailable
		}
	}
	return locates, nil
''')])
seed('c18-wait-ignores-meta-error','C18','the metadata lookup fails for another reason than absence (timeout, no leader) while the bucket is found',
 'a failed lookup is treated as a missing object: the version is stored and recorded',
 'apiserver','internal/usecase/service',imp(SVC,'time')+'''
var _ = time.Second

func TestVerif(t *testing.T) {
	newEnv(t)
	m := newMeta()
	m.getErr = response.NewError(503, "no leader")
	o := NewObjectService(m, &fakeBuckets{b: &entity.Bucket{Name: "b"}}, nil)
	_, err := o.StoreObject(&entity.PutReq{Name: "o", Bucket: "b", Hash: "abc", Body: strings.NewReader("data")},
		&entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{{Size: 4, Hash: "abc", StoreStrategy: entity.MultiReplication}}})
	if err == nil || m.saved+m.added > 0 {
		t.Fatal("recorded although the object could not be looked up", err, m.saved)
	}
}
''',[(AP+'usecase/service/object_service.go','''	if err = dg.WaitUntilError(); err != nil {
		return
	}
''','''	if dg.Wait(); bucket == nil {
		return 0, <-dg.WaitError()
	}
''')])
seed('c18-status-range','C18','a metadata server answers with another client error (for instance 409 or 403) when the object is looked up',
 'any 4xx failure of the lookup counts as "not there", so existing objects are created again',
 'apiserver','internal/usecase/service',SVC+'''
func TestVerif(t *testing.T) {
	newEnv(t)
	m := newMeta()
	m.getErr = response.NewError(403, "forbidden")
	o := NewObjectService(m, &fakeBuckets{b: &entity.Bucket{Name: "b"}}, nil)
	_, err := o.StoreObject(&entity.PutReq{Name: "o", Bucket: "b", Hash: "abc", Body: strings.NewReader("data")},
		&entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{{Size: 4, Hash: "abc", StoreStrategy: entity.MultiReplication}}})
	if err == nil || m.saved+m.added > 0 {
		t.Fatal("recorded although the object could not be looked up", err, m.saved)
	}
}
''',[('common/response/errors.go','''	return respErr.GetStatus() == status
''','''	return respErr.GetStatus()/100 == status/100
''')])
seed('c19-compress-needs-strategy','C19','a bucket that forces compression but leaves the storage strategy to the objects',
 'objects in the bucket are stored uncompressed',
 'apiserver','internal/usecase/service',SVC+'''
func TestVerif(t *testing.T) {
	d := newEnv(t)
	m := newMeta()
	m.getErr = notFound
	o := NewObjectService(m, &fakeBuckets{b: &entity.Bucket{Name: "b", Compress: true}}, nil)
	_, err := o.StoreObject(&entity.PutReq{Name: "o", Bucket: "b", Hash: "abc", Body: strings.NewReader("data")},
		&entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{{Size: 4, Hash: "abc", StoreStrategy: entity.MultiReplication}}})
	if err != nil {
		t.Fatal(err)
	}
	for id, c := range d.compress {
		if c != "true" {
			t.Fatal(id, "stored uncompressed")
		}
	}
}
''',[(AP+'entity/metadata.go','''	if b.Compress {
		ver.Compress = true
	}
	// copy of config
	rsConf, rpConf := conf.ReedSolomon, conf.Replication

	if b.StoreStrategy > 0 {
''','''	// copy of config
	rsConf, rpConf := conf.ReedSolomon, conf.Replication

	if b.StoreStrategy > 0 {
		ver.Compress = ver.Compress || b.Compress
''')])
seed('c19-remains-off-by-one','C19','an object of a versioned bucket that holds one version less than the bucket keeps',
 'the oldest version is removed although the bucket has room for it',
 'apiserver','internal/usecase/service',imp(SVC,'time')+'''
func TestVerif(t *testing.T) {
	newEnv(t)
	m := newMeta()
	m.md = &entity.Metadata{Name: "o", Bucket: "b", Extra: entity.Extra{Total: 2, FirstVersion: 1, LastVersion: 2}}
	o := NewObjectService(m, &fakeBuckets{b: &entity.Bucket{Name: "b", Versioning: true, VersionRemains: 3}}, nil)
	_, err := o.StoreObject(&entity.PutReq{Name: "o", Bucket: "b", Hash: "abc", Body: strings.NewReader("data")},
		&entity.Metadata{Name: "o", Bucket: "b", Versions: []*entity.Version{{Size: 4, Hash: "abc", StoreStrategy: entity.MultiReplication}}})
	if err != nil {
		t.Fatal(err)
	}
	select {
	case v := <-m.removedVer:
		t.Fatal("removed version", v)
	case <-time.After(300 * time.Millisecond):
	}
}
''',[(AP+'usecase/service/object_service.go','''	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
''','''	if metadata.Total > 0 && !bucket.Versioning || metadata.Total+1 >= bucket.VersionRemains {
''')])
