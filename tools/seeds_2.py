from seedlib import seed
MS='metaserver/internal/'
BOLT='''
package repo

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/logic"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
	bolt "go.etcd.io/bbolt"
)

var _ usecase.TxFunc
var _ *bolt.Tx
var _ = logic.GetVer

func open(t *testing.T) *db.Storage {
	s := db.NewStorage()
	if err := s.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	return s
}

func mem() cache.ICache { return cache.NewCache(bigcache.DefaultConfig(time.Minute)) }

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}
'''
seed('c04-remove-hash-entry','C04','two versions with the same content hash, one of which is removed',
 'removing one version drops the whole hash entry, so the other versions with that content can no longer be found by hash and their shard locations go stale',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewBatchRepo(s, NewMetadataCacheRepo(mem()))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}))
	must(t, r.AddVersion("b/o", &msg.Version{Hash: "h", UniqueId: "u1"}))
	must(t, r.AddVersion("b/o", &msg.Version{Hash: "h", UniqueId: "u2"}))
	must(t, r.RemoveVersion("b/o", 1))
	var keys []string
	must(t, s.View(func(tx *bolt.Tx) error {
		err := logic.NewHashIndexLogic().GetIndex("h", &keys)(tx)
		if len(keys) != 1 {
			t.Errorf("%d versions are indexed under the hash, 1 exists", len(keys))
		}
		return err
	}))
}
''',[(MS+'usecase/logic/hash_index_logic.go','''		if hashBuk := buk.Bucket(util.StrToBytes(hash)); hashBuk != nil {
			return hashBuk.Delete(util.StrToBytes(key))''','''		if hashBuk := buk.Bucket(util.StrToBytes(hash)); hashBuk != nil {
			// nothing else to keep once the key is the first of its entry
			if k, _ := hashBuk.Cursor().First(); string(k) == key {
				return buk.DeleteBucket(util.StrToBytes(hash))
			}
			return hashBuk.Delete(util.StrToBytes(key))''')])
seed('c04-add-index-by-store','C04','a version that is added while a version with the same hash is already indexed (same content uploaded twice)',
 'the second version is missing from the hash index',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewBatchRepo(s, NewMetadataCacheRepo(mem()))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}))
	must(t, r.AddVersion("b/o", &msg.Version{Hash: "h", UniqueId: "u1"}))
	must(t, r.AddVersion("b/o", &msg.Version{Hash: "h", UniqueId: "u2"}))
	var keys []string
	must(t, s.View(func(tx *bolt.Tx) error {
		err := logic.NewHashIndexLogic().GetIndex("h", &keys)(tx)
		if len(keys) != 2 {
			t.Errorf("%d versions are indexed under the hash, 2 exist", len(keys))
		}
		return err
	}))
}
''',[(MS+'usecase/logic/hash_index_logic.go','''		hashBuk, err := buk.CreateBucketIfNotExists(util.StrToBytes(hash))
		if err != nil {
			return err
		}''','''		hashBuk, err := buk.CreateBucket(util.StrToBytes(hash))
		if err == bolt.ErrBucketExists {
			// already indexed
			return nil
		}
		if err != nil {
			return err
		}''')])
seed('c05-update-keeps-hash','C05','an update of a version that carries another hash than the stored one',
 'an update can change which content a stored version points to, and the hash index keeps the old hash',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewBatchRepo(s, NewMetadataCacheRepo(mem()))
	must(t, r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}))
	must(t, r.AddVersion("b/o", &msg.Version{Hash: "h", UniqueId: "u1", Ts: 1}))
	for i, h := range []string{"", "other"} {
		must(t, r.UpdateVersion("b/o", &msg.Version{Hash: h, Sequence: 1, Ts: int64(i) + 2}))
		var v msg.Version
		must(t, s.View(logic.GetVer("b/o", 1, &v)))
		if v.Hash != "h" || v.UniqueId != "u1" {
			t.Fatalf("the update changed the hash to %q", v.Hash)
		}
	}
}
''',[(MS+'usecase/logic/metadata_logic.go','''			data.Hash = origin.Hash
''','''			if data.Hash == "" {
				data.Hash = origin.Hash
			}
''')])
seed('c05-same-ts-bucket','C05','two updates of a bucket with the same time stamp arriving out of order (replayed log entry after a newer one)',
 'an update that is not newer replaces the stored bucket',
 'metaserver','internal/usecase/repo',BOLT+'''
func TestVerif(t *testing.T) {
	s := open(t)
	r := NewBatchBucketRepo(s, NewBucketCacheRepo(mem()))
	must(t, r.Create(&msg.Bucket{Name: "b", CreateTime: 5, UpdateTime: 10}))
	if err := r.Update(&msg.Bucket{Name: "b", Readonly: true, UpdateTime: 10}); err == nil {
		t.Fatal("an update that is not newer was applied")
	}
	must(t, r.Update(&msg.Bucket{Name: "b", Readonly: true, UpdateTime: 11}))
	if err := r.Create(&msg.Bucket{Name: "b"}); err == nil {
		t.Fatal("an existing bucket was created again")
	}
}
''',[(MS+'usecase/logic/bucket_logic.go','if data.UpdateTime <= origin.UpdateTime {','if data.UpdateTime < origin.UpdateTime {')])
