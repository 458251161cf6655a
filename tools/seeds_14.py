from seedlib import seed
from seeds_10 import OB,OS,SV,HC
from seeds_13 import MG
if __name__ == '__main__':
 seed('c38-escaped-name','C38','an object is put under a name that contains an escaped separator',
 'the object is written out of the storage directory',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	if w := s.do("PUT", "/objects/o.1", strings.NewReader("data"), 4); w.Code != 200 || len(s.files()) != 1 {
		t.Fatal(w.Code, w.Body)
	}
	s.do("PUT", "/objects/..%252Fout", strings.NewReader("data"), 4)
	if _, err := os.Stat(filepath.Join(s.dir, "out")); err == nil {
		t.Fatal("a file was written out of the storage directory")
	}
}
''',[(SV+'objects_service.go','''	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
''','''	// names may be sent escaped
	if name, e := url.PathUnescape(fileName); e == nil {
		fileName = name
	}
	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
'''),(SV+'objects_service.go','''	"io"
''','''	"io"
	"net/url"
''')])
 seed('c38-chosen-id','C38','a client that chooses the id of its upload gives one that leads upwards, and the upload expires',
 'a file out of the directory of temporary files is removed',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	defer service.StartTempRemovalBackground(pool.Cache, 1)()
	out := filepath.Join(s.dir, "out")
	if err := os.WriteFile(out, nil, 0600); err != nil {
		t.Fatal(err)
	}
	w := s.do("POST", "/temp/o.1", nil, 0, "size", "4", "upload-id", "/../../out")
	if w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	time.Sleep(200 * time.Millisecond)
	pool.Cache.Delete(w.Body.String())
	time.Sleep(time.Second)
	if _, err := os.Stat(out); err != nil {
		t.Fatal("another file was removed:", err)
	}
}
''',[(HC+'temp/temp_rest.go','''		Id:         service.GenerateTempID(),
''','''		Id:         uploadID(g.GetHeader("upload-id")),
'''),(HC+'temp/temp_rest.go','''func Put(g *gin.Context) {
''','''// uploadID is the id of a new upload. a client may choose it to find the upload again.
func uploadID(chosen string) string {
	if chosen == "" {
		return service.GenerateTempID()
	}
	return entity.TempKeyPrefix + chosen
}

func Put(g *gin.Context) {
''')])
 seed('c38-take-over-path','C38','another server asks to take an object over whose name leads upwards',
 'a file out of the storage directory is taken as the object',
 'objectserver','internal/usecase/service',MG+'''
func TestVerif(t *testing.T) {
	ms, dir := newSvc(t, 200)
	for _, f := range []string{"objects/o.1", "p.1"} {
		if err := os.WriteFile(filepath.Join(dir, f), []byte("data"), 0600); err != nil {
			t.Fatal(err)
		}
	}
	if err := ms.FinishObject(&pb.ObjectInfo{FileName: "o.1", Size: 4}); err != nil {
		t.Fatal(err)
	}
	if err := ms.FinishObject(&pb.ObjectInfo{FileName: "../p.1", Size: 4}); err == nil {
		t.Fatal("a file that is no object is taken over")
	}
}
''',[('objectserver/internal/usecase/service/migration_service.go','''	realPath, ok := FindRealStoragePath(data.FileName)
	if !ok {
''','''	// the path index may be behind after a transfer, so look at the disks
	realPath, err := pool.DriverManager.FindMountPath(filepath.Join(pool.Config.StoragePath, data.FileName))
	if err != nil {
'''),('objectserver/internal/usecase/service/migration_service.go','''	if statInfo.Size() != data.Size {
		return fmt.Errorf("file %s size excpect''','''	if realPath == "" || statInfo.Size() != data.Size {
		return fmt.Errorf("file %s size excpect''')])
