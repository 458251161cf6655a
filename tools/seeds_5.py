from seedlib import seed
exec(open('seeds_2.py').read().split("seed('c04-remove-hash-entry'")[0])
BOLT=BOLT.replace('var _ usecase','var _ msg.Bucket\nvar _ usecase')
seed('c07-drop-range-late','C07','an object with several versions that were read, is removed, and an object of the same name is added',
 'the range of cached versions to drop is determined after the removal, so versions of the removed object are served for the new one',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewMetadataRepo(s, NewMetadataCacheRepo(mem()))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}))
	for _, u := range []string{"u1", "u2", "u3"} {
		must(t, r.AddVersion("b/o", &msg.Version{Hash: "h" + u, UniqueId: u}))
	}
	must(t, r.RemoveMetadata("b/o"))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}))
	if v, err := r.GetVersion("b/o", 3); err == nil {
		t.Fatalf("version of a removed object returned: %+v", v)
	}
}
''',[(MS+'usecase/repo/metadata_repo.go','''	lastVer := m.GetLastVersionNumber(name)
	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
		return err
	}
''','''	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
		return err
	}
	lastVer := m.GetLastVersionNumber(name)
''')])
seed('c07-duplicate-cached','C07','a duplicate of an object is added, as a retry or a migration does',
 'the repeated addition is reported as success and its record cached, although the store keeps the first one',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewMetadataRepo(s, NewMetadataCacheRepo(mem()))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b", CreateTime: 1}))
	_ = r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b", CreateTime: 2})
	m, err := r.GetMetadata("b/o")
	must(t, err)
	if m.CreateTime != 1 {
		t.Fatalf("record served was never stored: %+v", m)
	}
}
''',[(MS+'usecase/repo/metadata_repo.go','''	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
''','''	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil && !errors.Is(err, usecase.ErrExists) {
''')])
seed('c07-bucket-hit','C07','a cached bucket record that cannot be decoded',
 'a cached record that fails to decode is returned with no error, so an empty bucket is served',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	m := mem()
	m.Set("bucket_x", []byte{0xc1})
	if b, err := NewBucketCacheRepo(m).Get("x"); err == nil {
		t.Fatalf("undecodable record returned: %+v", b)
	}
}
''',[(MS+'usecase/repo/bucket_cache_repo.go','''	err := util.DecodeMsgp(&i, bt)
	return &i, err
''','''	util.LogErr(util.DecodeMsgp(&i, bt))
	return &i, nil
''')])
seed('c33-count-is-latest','C33','an object whose oldest version was removed is read without a version number',
 'the latest version is looked up under the number of versions, which is lower than the highest number once versions were removed',
 'metaserver','internal/usecase/service','''
package service

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/repo"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func TestVerif(t *testing.T) {
	s := db.NewStorage()
	if err := s.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	r := repo.NewMetadataRepo(s, repo.NewMetadataCacheRepo(cache.NewCache(bigcache.DefaultConfig(time.Minute))))
	m := &MetadataService{repo: r}
	if err := r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}); err != nil {
		t.Fatal(err)
	}
	for _, u := range []string{"u1", "u2", "u3"} {
		if err := r.AddVersion("b/o", &msg.Version{Hash: "h" + u, UniqueId: u}); err != nil {
			t.Fatal(err)
		}
	}
	if err := r.RemoveVersion("b/o", 1); err != nil {
		t.Fatal(err)
	}
	v, err := m.GetVersion("b/o", -1)
	if err != nil || v.Sequence != 3 {
		t.Fatalf("latest version is %+v, %v", v, err)
	}
}
''',[(MS+'usecase/service/metadata_service.go','''		return m.repo.GetVersion(name, m.repo.GetLastVersionNumber(name))
''','''		extra, err := m.repo.GetExtra(name)
		if err != nil {
			return nil, err
		}
		return m.repo.GetVersion(name, uint64(extra.Total))
''')])
