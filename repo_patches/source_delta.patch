From 4a18ad53f9ee95a3302f33ac8f0bc600af49a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 01/93] fix: report an unrecognised state machine response
 instead of applying the entry twice

---
 src/metaserver/internal/usecase/raftimpl/raft_apply.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/raft_apply.go b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
index bdb09f4..28817d7 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_apply.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
@@ -35,7 +35,8 @@ func (r *raftApplier) ApplyRaft(data *entity.RaftData) (bool, any, error) {
 		}
 		if rp, ok := resp.(error); ok {
 			return true, nil, rp
-		}		
+		}
+		return true, nil, fmt.Errorf("unknown response from fsm: %v", resp)
 	}
 	return false, nil, nil
 }
-- 
2.43.0


From fc374c834833b8c98ee2c86ed7f553f3c0f4e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 02/93] fix: apply the writable check to UpdateVersion

---
 src/metaserver/internal/controller/grpc/middleware.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index ffb3d33..fd8e716 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -34,7 +34,7 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.HashSlot/StreamingReceive",
 	"/proto.MetadataApi/SaveVersion",
 	"/proto.MetadataApi/SaveMetadata",
-	"/proto.MetadataApi/UpdateMetadata",
+	"/proto.MetadataApi/UpdateVersion",
 	"/proto.MetadataApi/SaveBucket",
 	"/proto.MetadataApi/RemoveVersion",
 })
-- 
2.43.0


From 5d0a6b002748db97a0393056566f897085027c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 03/93] fix: report a failed sync for the batch entries it
 affects

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..602de1a 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -155,8 +155,8 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 	if err := f.metaBatch.Sync(); err != nil {
 		err = fmt.Errorf("sync fail: %s", err)
 		for i := range res {
-			if res[i] == nil {
-				res[i] = err
+			if resp, ok := res[i].(*FSMResponse); ok && resp.Ok() {
+				res[i] = FSMResult(err)
 			}
 		}
 	}
-- 
2.43.0


From 53592b001006480c85a0959e83ebcc3aa4f8d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 04/93] fix: index a migrated or replicated version under its
 own unique id

---
 src/metaserver/internal/usecase/logic/metadata_logic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..b24622f 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -159,7 +159,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
-- 
2.43.0


From 830b7f756b686e2628c6ca4200675753cbee2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 05/93] fix: remove the unique-id index entry of a removed
 version

---
 src/metaserver/internal/usecase/logic/metadata_logic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index b24622f..b74dfa7 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -212,7 +212,7 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove uniqueId-index err: %w", err)
 		}
 		return b.Delete(key)
-- 
2.43.0


From fa6a2425bb63f3affac8510af01854b08c92b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 06/93] fix: remove the index entries of all versions when they
 are dropped

---
 .../internal/usecase/logic/metadata_logic.go  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index b74dfa7..82c000d 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -288,9 +288,34 @@ func CreateVersionBucket(tx *bolt.Tx, name string) error {
 }
 
 func RemoveVersionBucket(tx *bolt.Tx, name string) error {
+	if err := removeVersionIndexes(tx, name); err != nil {
+		return err
+	}
 	return getVersionRoot(tx).DeleteBucket(util.StrToBytes(name))
 }
 
+// removeVersionIndexes remove index entries of all versions for given name
+func removeVersionIndexes(tx *bolt.Tx, name string) error {
+	b := GetVersionBucket(tx, name)
+	if b == nil {
+		return nil
+	}
+	return b.ForEach(func(k, v []byte) error {
+		var data msg.Version
+		if err := util.DecodeMsgp(&data, v); err != nil {
+			return err
+		}
+		key := string(k)
+		if err := NewHashIndexLogic().RemoveIndex(data.Hash, key)(tx); err != nil {
+			return fmt.Errorf("remove hash-index err: %w", err)
+		}
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, key)(tx); err != nil {
+			return fmt.Errorf("remove uniqueId-index err: %w", err)
+		}
+		return nil
+	})
+}
+
 // getVersionRoot get or create version root bucket
 func getVersionRoot(tx *bolt.Tx) *bolt.Bucket {
 	if tx.Writable() {
-- 
2.43.0


From 348ada8a5d1be36b68cded91b83ea18c9dba0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 07/93] fix: compare version numbers as numbers, not as text

---
 .../internal/usecase/logic/metadata_logic.go  | 26 +++++----
 .../internal/usecase/repo/metadata_repo.go    | 55 +++++++------------
 2 files changed, 37 insertions(+), 44 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 82c000d..b689bf5 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	. "metaserver/internal/usecase"
+	"sort"
 
 	"github.com/google/uuid"
 	bolt "go.etcd.io/bbolt"
@@ -109,21 +110,26 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 			return ErrNotFound
 		}
 		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
-		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		if nums := VersionNumbers(b); len(nums) > 0 {
+			extra.FirstVersion, extra.LastVersion = int(nums[0]), int(nums[len(nums)-1])
 		}
 		return nil
 	}
 }
 
+// VersionNumbers returns the numbers of all versions in a version bucket in ascending order.
+// Keys can not be used for that since they are sorted as text: 'name.10' is placed before 'name.9'.
+func VersionNumbers(b *bolt.Bucket) (nums []uint64) {
+	_ = b.ForEach(func(k, v []byte) error {
+		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 && v != nil {
+			nums = append(nums, util.ToUint64(string(k[idx+1:])))
+		}
+		return nil
+	})
+	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
+	return
+}
+
 func ExistsByUniqueId(tx *bolt.Tx, uniqueId string) error {
 	var byUniqueId []string
 	if err := NewUniqueIdIndex().GetIndex(uniqueId, &byUniqueId)(tx); err != nil {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..e61420a 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -8,7 +8,6 @@ import (
 	"common/proto/msg"
 	"common/util"
 	"errors"
-	"fmt"
 	"io"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -181,45 +180,31 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 }
 
 func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
-	var fst uint64 = 1
-	if err := m.MainDB.View(func(tx *bolt.Tx) error {
-		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
-		}
-		return nil
-	}); err != nil {
-		return 0
-	}
+	fst, _ := m.versionRange(name)
 	return fst
 }
 
 func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
-	var max uint64 = 1
+	_, last := m.versionRange(name)
+	return last
+}
+
+// versionRange returns (1, 1) if no bucket for the name and (0, 0) if the bucket is empty
+func (m *MetadataRepo) versionRange(name string) (first, last uint64) {
+	first, last = 1, 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
+			nums := logic.VersionNumbers(buk)
+			if len(nums) == 0 {
 				return usecase.ErrNotFound
 			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			first, last = nums[0], nums[len(nums)-1]
 		}
 		return nil
 	}); err != nil {
-		return 0
+		return 0, 0
 	}
-	return max
+	return
 }
 
 func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error) {
@@ -250,13 +235,15 @@ func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		c := buk.Cursor()
-
-		min := util.StrToBytes(fmt.Sprint(name, logic.Sep, start))
-
-		for k, v := c.Seek(min); k != nil && len(lst) < size; k, v = c.Next() {
+		for _, n := range logic.VersionNumbers(buk) {
+			if n < uint64(start) {
+				continue
+			}
+			if len(lst) >= size {
+				break
+			}
 			data := &msg.Version{}
-			if err := util.DecodeMsgp(data, v); err != nil {
+			if err := logic.GetVer(name, n, data)(tx); err != nil {
 				return err
 			}
 			lst = append(lst, data)
-- 
2.43.0


From 287f17539bdcff6b908c92ce5e66f87d90ef53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 08/93] fix: return one page of versions, not one page and the
 first of the next

---
 src/metaserver/internal/usecase/service/metadata_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 3435f96..9691405 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -172,7 +172,7 @@ func (m *MetadataService) ListVersions(name string, page int, size int) ([]*msg.
 	}
 	// start at 1
 	start := (page-1)*size + 1
-	return m.repo.ListVersions(name, start, start+size)
+	return m.repo.ListVersions(name, start, start+size-1)
 }
 
 func (m *MetadataService) ListMetadata(prefix string, size int) ([]*msg.Metadata, int, error) {
-- 
2.43.0


From bb3a1e61e61f05241ad38b2b84e8ac924259df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 09/93] fix: keep cached versions apart from cached objects
 named alike

---
 .../internal/usecase/repo/metadata_cache_repo.go          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..7d9383d 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -32,6 +32,8 @@ func (pe *partlyErr) Error() string {
 
 const (
 	MetaCachePrefix = "metadata_"
+	// VersionCachePrefix must not be MetaCachePrefix: an object may be named like the version key of another object
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
@@ -58,7 +60,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -94,7 +96,7 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -117,7 +119,7 @@ func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.cache.Delete(fmt.Sprint(VersionCachePrefix, s, logic.Sep, u))
 	return nil
 }
 
-- 
2.43.0


From c4563df6866c4bcb97b68da537d188f43e82b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 10/93] fix: update cached records before a change or a read
 returns

---
 .../internal/usecase/repo/bucket_repo.go      | 59 +++++-----------
 .../internal/usecase/repo/metadata_repo.go    | 68 ++++---------------
 2 files changed, 33 insertions(+), 94 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..f304460 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -29,50 +28,31 @@ func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
 		return data, nil
 	}
 	res = new(msg.Bucket)
-	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
-			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
+	if err = b.db.View(b.logic.Get(name, res)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Create(res))
+	}
 	return
 }
 
 func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Create(bucket))
+	if err = b.db.Update(b.logic.Create(bucket)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
+	}
+	return
 }
 
 func (b *BucketRepo) Remove(name string) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Delete(name))
+	if err = b.db.Update(b.logic.Delete(name)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	}
+	return
 }
 
 func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
-	}()
-
-	return b.db.Update(b.logic.Update(bucket))
+	if err = b.db.Update(b.logic.Update(bucket)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
+	}
+	return
 }
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
@@ -83,12 +63,9 @@ func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
-		for _, item := range list {
-			util.LogErrWithPre("bucket cache", b.cache.Create(item))
-		}
-	}()
+	for _, item := range list {
+		util.LogErrWithPre("bucket cache", b.cache.Create(item))
+	}
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index e61420a..48831da 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -35,11 +34,7 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.AddMetadata(id, data))
 	return nil
 }
 
@@ -50,11 +45,7 @@ func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.UpdateMetadata(name, data))
 	return nil
 }
 
@@ -63,13 +54,10 @@ func (m *MetadataRepo) RemoveMetadata(name string) error {
 	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
+	for i := uint64(1); i <= lastVer; i++ {
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -81,10 +69,7 @@ func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
 	return data, nil
 }
 
@@ -101,11 +86,7 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.AddVersion(id, data))
 	return nil
 }
 
@@ -122,11 +103,7 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.AddVersionFromRaft(id, data))
 	return nil
 }
 
@@ -137,11 +114,7 @@ func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.UpdateVersion(id, data))
 	return nil
 }
 
@@ -149,11 +122,7 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, ver))
 	return nil
 }
 
@@ -169,13 +138,9 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	}); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
+	for i := uint64(0); i <= last; i++ {
+		util.LogErrWithPre("remove version cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -215,10 +180,7 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
 	return data, nil
 }
 
-- 
2.43.0


From ac8a3eb6337e62930483bdcdec03f2d2d33d2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 11/93] fix: keep the cache up to date when changes are applied
 in batches

---
 src/metaserver/internal/app/app.go            | 10 ++-
 .../usecase/repo/batch_bucket_repo.go         | 22 ++++--
 .../internal/usecase/repo/batch_meta_repo.go  | 74 ++++++++++++++++---
 3 files changed, 87 insertions(+), 19 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..e4ffb37 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -23,17 +23,19 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.Close()
 	// init repos
-	metaRepo := repo.NewMetadataRepo(pool.Storage, repo.NewMetadataCacheRepo(pool.Cache))
-	bucketRepo := repo.NewBucketRepo(pool.Storage, repo.NewBucketCacheRepo(pool.Cache))
+	metaCache, bucketCache := repo.NewMetadataCacheRepo(pool.Cache), repo.NewBucketCacheRepo(pool.Cache)
+	metaRepo := repo.NewMetadataRepo(pool.Storage, metaCache)
+	metaBatch := repo.NewBatchRepo(pool.Storage, metaCache)
+	bucketRepo := repo.NewBucketRepo(pool.Storage, bucketCache)
 	// init raft
-	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage), bucketRepo, repo.NewBatchBucketRepo(pool.Storage), metaRepo)
+	fsm := raftimpl.NewFSM(metaRepo, metaBatch, bucketRepo, repo.NewBatchBucketRepo(pool.Storage, bucketCache), metaRepo)
 	raftWrapper := raftimpl.NewRaft(util.ServerAddress(cfg.Port), cfg.Cluster, fsm)
 	pool.RaftWrapper = raftWrapper
 	// init services
 	bucketServ := service.NewBucketService(bucketRepo, raftWrapper)
 	metaService := service.NewMetadataService(
 		metaRepo,
-		repo.NewBatchRepo(pool.Storage),
+		metaBatch,
 		repo.NewHashIndexRepo(pool.Storage),
 		raftWrapper,
 	)
diff --git a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
index 3bc917a..825eb2f 100644
--- a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
@@ -2,6 +2,8 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
+	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
 )
@@ -9,22 +11,32 @@ import (
 type BatchBucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
+	cache usecase.BucketRepo
 }
 
-func NewBatchBucketRepo(db *db.Storage) *BatchBucketRepo {
-	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud()}
+func NewBatchBucketRepo(db *db.Storage, cache usecase.BucketRepo) *BatchBucketRepo {
+	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
 }
 
 func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Create(bucket))
+	if err = b.db.Batch(b.logic.Create(bucket)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
+	}
+	return
 }
 
 func (b *BatchBucketRepo) Remove(name string) (err error) {
-	return b.db.Batch(b.logic.Delete(name))
+	if err = b.db.Batch(b.logic.Delete(name)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	}
+	return
 }
 
 func (b *BatchBucketRepo) Update(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Update(bucket))
+	if err = b.db.Batch(b.logic.Update(bucket)); err == nil {
+		util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
+	}
+	return
 }
 
 func (b *BatchBucketRepo) Sync() error {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..04451b8 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,6 +2,7 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
 	bolt "go.etcd.io/bbolt"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -10,10 +11,11 @@ import (
 
 type BatchMetaRepo struct {
 	Storage *db.Storage
+	Cache   usecase.IMetaCache
 }
 
-func NewBatchRepo(stroe *db.Storage) *BatchMetaRepo {
-	return &BatchMetaRepo{Storage: stroe}
+func NewBatchRepo(stroe *db.Storage, c usecase.IMetaCache) *BatchMetaRepo {
+	return &BatchMetaRepo{Storage: stroe, Cache: c}
 }
 
 func (br *BatchMetaRepo) Sync() error {
@@ -28,49 +30,101 @@ func (br *BatchMetaRepo) AddVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddVer(name, data))
+	if err := br.Storage.Batch(logic.AddVer(name, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.AddVersion(name, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) UpdateVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.UpdateVer(name, data))
+	if err := br.Storage.Batch(logic.UpdateVer(name, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.UpdateVersion(name, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) RemoveVersion(name string, ver uint64) error {
-	return br.Storage.Batch(logic.RemoveVer(name, ver))
+	if err := br.Storage.Batch(logic.RemoveVer(name, ver)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.RemoveVersion(name, ver))
+	return nil
 }
 
 func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddMeta(id, data))
+	if err := br.Storage.Batch(logic.AddMeta(id, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.AddMetadata(id, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
-	return br.Storage.Batch(logic.UpdateMeta(name, data))
+	if err := br.Storage.Batch(logic.UpdateMeta(name, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.UpdateMetadata(name, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) RemoveMetadata(name string) error {
-	return br.Storage.Batch(logic.RemoveMeta(name))
+	lastVer := br.lastVersionNumber(name)
+	if err := br.Storage.Batch(logic.RemoveMeta(name)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.RemoveMetadata(name))
+	br.removeCachedVersions(name, lastVer)
+	return nil
 }
 
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddVerWithSequence(id, data))
+	if err := br.Storage.Batch(logic.AddVerWithSequence(id, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.AddVersionFromRaft(id, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(func(tx *bolt.Tx) error {
+	lastVer := br.lastVersionNumber(id)
+	if err := br.Storage.Batch(func(tx *bolt.Tx) error {
 		// delete bucket
 		if err := logic.RemoveVersionBucket(tx, id); err != nil {
 			return err
 		}
 		// create an empty bucket
 		return logic.CreateVersionBucket(tx, id)
+	}); err != nil {
+		return err
+	}
+	br.removeCachedVersions(id, lastVer)
+	return nil
+}
+
+func (br *BatchMetaRepo) lastVersionNumber(name string) (last uint64) {
+	_ = br.Storage.View(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, name); buk != nil {
+			for _, last = range logic.VersionNumbers(buk) {
+			}
+		}
+		return nil
 	})
+	return
+}
+
+func (br *BatchMetaRepo) removeCachedVersions(name string, last uint64) {
+	for i := uint64(1); i <= last; i++ {
+		util.LogErrWithPre("metadata cache", br.Cache.RemoveVersion(name, i))
+	}
 }
-- 
2.43.0


From e0d49e7ea85c629256b62fdef198f836ce461404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 12/93] fix: copy keys and values that outlive the transaction
 they were read in

---
 src/metaserver/internal/usecase/logic/bucket_logic.go       | 6 ++++--
 src/metaserver/internal/usecase/logic/hash_index_logic.go   | 4 ++--
 .../internal/usecase/logic/unique_id_index_logic.go         | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..cd99c0d 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// the value is only valid during the transaction
+		*bt = append([]byte(nil), v...)
 		return nil
 	}
 }
diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..dd56456 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,7 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
@@ -70,7 +70,7 @@ func (HashIndexLogic) GetIndexPrefix(hash string, prefix []byte, res *[][]byte)
 		}
 		cur := hashBuk.Cursor()
 		for k, v := cur.Seek(prefix); k != nil && bytes.HasPrefix(k, prefix); k, v = cur.Next() {
-			*res= append(*res, v)
+			*res = append(*res, append([]byte(nil), v...))
 		}
 		return nil
 	}
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..93bbb12 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,7 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
-- 
2.43.0


From 6bee9e1847398449d0dca771c50c168cec07fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 13/93] fix: drop cached versions whose location changed

---
 .../internal/usecase/repo/metadata_repo.go          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 48831da..807ede4 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -337,8 +337,8 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		var keys []string
+	var keys []string
+	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
@@ -356,7 +356,14 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string)
 			}
 		}
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
+	for _, key := range keys {
+		idx := strings.LastIndexByte(key, '.')
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(key[:idx], util.ToUint64(key[idx+1:])))
+	}
+	return nil
 }
 
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
-- 
2.43.0


From 8bd67b45a9a440293fe512bd3b9969ed83443079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 14/93] fix: clear the cache when the store is replaced by a
 snapshot

---
 src/common/cache/cache.go                                  | 5 +++++
 src/common/cache/interface.go                              | 1 +
 src/metaserver/internal/usecase/interfaces.go              | 2 ++
 .../internal/usecase/repo/metadata_cache_repo.go           | 4 ++++
 src/metaserver/internal/usecase/repo/metadata_repo.go      | 7 ++++++-
 5 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/common/cache/cache.go b/src/common/cache/cache.go
index eb04342..7546180 100644
--- a/src/common/cache/cache.go
+++ b/src/common/cache/cache.go
@@ -86,6 +86,11 @@ func (c *Cache) Delete(k string) {
 	_ = c.cache.Delete(k)
 }
 
+// Clear removes all entries
+func (c *Cache) Clear() {
+	_ = c.cache.Reset()
+}
+
 func (c *Cache) Close() error {
 	defer c.close()
 	// make it closing by GC
diff --git a/src/common/cache/interface.go b/src/common/cache/interface.go
index 58fcc36..20e143a 100644
--- a/src/common/cache/interface.go
+++ b/src/common/cache/interface.go
@@ -9,5 +9,6 @@ type ICache interface {
 	SetGob(k string, v interface{}) bool
 	Refresh(k string)
 	Delete(k string)
+	Clear()
 	Close() error
 }
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1922298..f40d699 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -121,6 +121,8 @@ type (
 	IMetaCache interface {
 		ReadableRepo
 		WritableRepo
+		// Clear removes everything, not only metadata
+		Clear()
 	}
 
 	BucketWritableRepo interface {
diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 7d9383d..49dffef 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -130,3 +130,7 @@ func (m *MetadataCacheRepo) RemoveAllVersion(string) error {
 func (m *MetadataCacheRepo) AddVersionFromRaft(s string, version *msg.Version) error {
 	return m.AddVersion(s, version)
 }
+
+func (m *MetadataCacheRepo) Clear() {
+	m.cache.Clear()
+}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 807ede4..806dc76 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -273,7 +273,12 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 		return err
 	}
 	// reopen db
-	return m.MainDB.Replace(dbPath)
+	if err := m.MainDB.Replace(dbPath); err != nil {
+		return err
+	}
+	// nothing cached belongs to the new db
+	m.Cache.Clear()
+	return nil
 }
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
-- 
2.43.0


From 3b946fda6dbe14a40da1149efd6e7a5f985dfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 15/93] fix: report a snapshot that could not be written, so
 that its log entries are kept

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 602de1a..cf79dd6 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -189,9 +189,14 @@ func (s *snapshot) Persist(sink raft.SnapshotSink) error {
 	gzipWt := gzip.NewWriter(sink)
 	if _, err := s.WriteTo(gzipWt); err != nil {
 		fsmLog.Error(err)
-		return sink.Cancel()
+		util.LogErr(sink.Cancel())
+		return err
+	}
+	if err := gzipWt.Close(); err != nil {
+		fsmLog.Error(err)
+		util.LogErr(sink.Cancel())
+		return err
 	}
-	util.LogErr(gzipWt.Close())
 	return sink.Close()
 }
 
-- 
2.43.0


From 037c4f557d2ff7f0c181c3048ca13699a08c4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 16/93] fix: do not leak or reuse the old content of a restore
 file

---
 src/metaserver/internal/usecase/repo/metadata_repo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 806dc76..8b57106 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -257,7 +257,7 @@ func (m *MetadataRepo) Snapshot() (usecase.SnapshotTx, error) {
 func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	dbPath := m.MainDB.DB().Path() + "_replace"
 	// open new db file
-	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, cst.OS.ModeUser)
 	if err != nil {
 		logs.Std().Errorf("restore fail on open new file: %v", err)
 		return err
@@ -266,6 +266,7 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	n, err := io.Copy(newFile, r)
 	if err != nil {
 		logs.Std().Errorf("restore fail on copy data to new file: %v, written %d", err, n)
+		_ = newFile.Close()
 		return err
 	}
 	if err := newFile.Close(); err != nil {
-- 
2.43.0


From 4e8fc2bbc683fe9ddff93ecf3d851028e281b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 17/93] fix: do not panic when an object without versions is
 walked

---
 src/metaserver/internal/usecase/repo/metadata_repo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 8b57106..e5a6e29 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -284,13 +284,16 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	_ = m.MainDB.View(func(tx *bolt.Tx) error {
-		_ = logic.GetVersionBucket(tx, name).ForEach(func(k, v []byte) error {
+		buk := logic.GetVersionBucket(tx, name)
+		if buk == nil {
+			return usecase.ErrNotFound
+		}
+		return buk.ForEach(func(k, v []byte) error {
 			if !fn(v) {
 				return usecase.ErrNotFound
 			}
 			return nil
 		})
-		return nil
 	})
 }
 
-- 
2.43.0


From 01d376fbf5018364487c552191d13dc0ee667c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 18/93] fix: keep migrated data until the target has taken over
 its slots

---
 .../usecase/service/hashslot_service.go       | 91 ++++++++++++-------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9e39cd9..210bc28 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -1,7 +1,6 @@
 package service
 
 import (
-	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"common/proto"
@@ -11,6 +10,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"io"
 	"metaserver/config"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
@@ -241,10 +241,9 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		return err
 	}
 	delEdges, _ := hashslot.WrapSlotsToEdges(slots, "")
-	var errs []error
-	errs = append(errs, h.migrateMetadata(stream, delEdges)...)
-	errs = append(errs, h.migrateBuckets(stream, delEdges)...)
-	if len(errs) > 0 {
+	metaKeys, errs := h.migrateMetadata(stream, delEdges)
+	buckets, bucketErrs := h.migrateBuckets(stream, delEdges)
+	if errs = append(errs, bucketErrs...); len(errs) > 0 {
 		return errors.Join(errs...)
 	}
 	// all migrate success
@@ -252,26 +251,64 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		hsLog.Debugf("switch status to normal err: %s", err)
 	}
 	// remove slots from current slot-info
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	info, exist, err := h.Store.Get(h.Cfg.StoreID)
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
+	if !exist {
+		return fmt.Errorf("update slot fails after finish migration: no slot-info of %s", h.Cfg.StoreID)
+	}
+	old := *info
 	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
 	info.Slots = hashslot.RemoveEdges(curEdges, delEdges).Strings()
 	// save new slot-info
 	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
 		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
-	// close stream as success
-	if err = stream.CloseSend(); err != nil {
-		hsLog.Error(err)
+	// close stream as success, and wait until the target has taken over the slots
+	if err = finishSend(stream); err != nil {
+		// take the slots back, their data is still here
+		if inner := logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, &old); inner != nil {
+			err = errors.Join(err, inner)
+		}
+		return fmt.Errorf("target fails to finish migration: %w", err)
 	}
+	// nobody reads the migrated data from this server any more
+	h.removeMigrated(metaKeys, buckets)
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
 
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var sucNum int
+// finishSend half-closes the stream and waits until the target has finished it
+func finishSend(stream pb.HashSlot_StreamingReceiveClient) error {
+	if err := stream.CloseSend(); err != nil {
+		return err
+	}
+	switch _, err := stream.Recv(); err {
+	case io.EOF:
+		return nil
+	case nil:
+		return errors.New("unexpected response")
+	default:
+		return err
+	}
+}
+
+func (h *HashSlotService) removeMigrated(metaKeys, buckets []string) {
+	for _, key := range metaKeys {
+		if err := h.Service.RemoveMetadata(key); err != nil {
+			hsLog.Errorf("delete-metadata %s fail: %s", key, err)
+		}
+	}
+	for _, name := range buckets {
+		if err := h.BucketService.Remove(name); err != nil {
+			hsLog.Errorf("delete-bucket %s err: %s", name, err)
+		}
+	}
+}
+
+// migrateMetadata returns the keys which have been received by the target with all their versions
+func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (migrated []string, errs []error) {
 	metaKeys := h.Service.FilterKeys(func(s string) bool {
 		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
 	})
@@ -327,34 +364,26 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 		if !allVersionSuccess {
 			continue
 		}
-		sucNum++
-		// delete if all success
-		go func() {
-			defer graceful.Recover()
-			if inner := h.Service.RemoveMetadata(key); inner != nil {
-				hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
-			}
-		}()
+		migrated = append(migrated, key)
 	}
-	hsLog.Infof("migration totally %d metadata and successed %d verions", total, sucNum)
+	hsLog.Infof("migration totally %d metadata and successed %d", total, len(migrated))
 	return
 }
 
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var successBuckets int
-	var migKeys [][]byte
+// migrateBuckets returns the names of the buckets which have been received by the target
+func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (migrated []string, errs []error) {
+	var migKeys []string
 	err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
 		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
 			return nil
 		}
-		migKeys = append(migKeys, k)
+		migKeys = append(migKeys, string(k))
 		return nil
 	})
 	total := len(migKeys)
 	for len(migKeys) > 0 {
-		k := migKeys[0]
+		keyStr := migKeys[0]
 		migKeys = migKeys[1:] // for earlier GC
-		keyStr := util.BytesToStr(k)
 		v, err := h.BucketService.GetBytes(keyStr)
 		if err != nil {
 			errs = append(errs, err)
@@ -377,17 +406,11 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 			errs = append(errs, err)
 			continue
 		}
-		successBuckets++
-		go func() {
-			defer graceful.Recover()
-			if err := h.BucketService.Remove(keyStr); err != nil {
-				hsLog.Errorf("delete-bucket %s err: %s", keyStr, err)
-			}
-		}()
+		migrated = append(migrated, keyStr)
 	}
 	if err != nil {
 		errs = append(errs, err)
 	}
-	hsLog.Infof("migration totally %d buckets and successed %d", total, successBuckets)
+	hsLog.Infof("migration totally %d buckets and successed %d", total, len(migrated))
 	return
 }
-- 
2.43.0


From 28fac4748a6639c7e3a9148df6308693c66007d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 19/93] fix: refuse migration items and slot changes that
 cannot be stored

---
 src/metaserver/internal/usecase/service/hashslot_service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 210bc28..2feeed4 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -174,10 +174,13 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	if !success {
 		return nil
 	}
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	info, exist, err := h.Store.Get(h.Cfg.StoreID)
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
+	if !exist {
+		return fmt.Errorf("update slot fails after finish migration: no slot-info of %s", h.Cfg.StoreID)
+	}
 	// combine to new slots, ignore error because both have been validated
 	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
 	newEdges, _ := hashslot.WrapSlotsToEdges(newSlots, "")
@@ -214,6 +217,7 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		err = h.BucketService.Create(&i)
 	default:
 		hsLog.Errorf("unknown migration item: %d", item.Dest)
+		err = fmt.Errorf("unknown migration item: %d", item.Dest)
 	}
 	if err != nil && !errors.Is(err, usecase.ErrExists) {
 		return err
-- 
2.43.0


From f22bbd2a73a698060aae58354fb6c9d07e66c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 20/93] fix: list versions by position

Pages were bounded by version numbers, so after old versions were removed
neighbouring pages overlapped and the last versions were on no page.
---
 .../internal/usecase/repo/metadata_repo.go    | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index e5a6e29..0ad233c 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -184,26 +184,20 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	return data, nil
 }
 
+// ListVersions returns the versions at positions [start, end] in ascending order, starting at 1.
+// positions are not version numbers: numbers of removed versions are not used again
 func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg.Version, total int, err error) {
-	size := end - start + 1
-	lst, _, err = m.Cache.ListVersions(name, start, end)
-	if util.InstanceOf[PartlyMatchedErr](err) {
-		start = err.(PartlyMatchedErr).Last()
-	} else if err != nil {
-		return
-	}
+	lst = []*msg.Version{}
 	err = m.MainDB.View(func(tx *bolt.Tx) error {
 		buk := logic.GetVersionBucket(tx, name)
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		for _, n := range logic.VersionNumbers(buk) {
-			if n < uint64(start) {
+		nums := logic.VersionNumbers(buk)
+		for i, n := range nums {
+			if i+1 < start || i+1 > end {
 				continue
 			}
-			if len(lst) >= size {
-				break
-			}
 			data := &msg.Version{}
 			if err := logic.GetVer(name, n, data)(tx); err != nil {
 				return err
@@ -211,7 +205,7 @@ func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg
 			lst = append(lst, data)
 		}
 		// record total
-		total = buk.Stats().KeyN
+		total = len(nums)
 		return nil
 	})
 	return
-- 
2.43.0


From f8bac65ef63f7335208257daf3ba8ebd248aa5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 21/93] fix: copy performance keys out of the transaction they
 are read in

---
 src/common/performance/local_store.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 942b818..ad94615 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -136,7 +136,7 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 				k, v = cur.First()
 			}
 			for k != nil {
-				act := ls.keyPrefix(util.BytesToStr(k))
+				act := ls.keyPrefix(string(k))
 				if action != "" && act != action {
 					break
 				}
@@ -157,18 +157,18 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			return actBuk.ForEach(func(k, v []byte) error {
 				if v == nil {
 					// if k is a nest bucket (when action is emtpy, action root bucket has nest buckets)
-					actBuk.Bucket(k).ForEach(func(k, v []byte) error {
+					nestAction := string(k)
+					return actBuk.Bucket(k).ForEach(func(k, v []byte) error {
 						res = append(res, &Perform{
-							KindOf: ls.keyPrefix(util.BytesToStr(k)),
-							Action: util.BytesToStr(k),
+							KindOf: ls.keyPrefix(string(k)),
+							Action: nestAction,
 							Cost:   time.Duration(util.BytesToInt(v)),
 						})
 						return nil
 					})
-					return nil
 				}
 				res = append(res, &Perform{
-					KindOf: ls.keyPrefix(util.BytesToStr(k)),
+					KindOf: ls.keyPrefix(string(k)),
 					Action: action,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
-- 
2.43.0


From 006004e6c9a3cec363d3ad4a122f3eb18953ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 22/93] fix: copy values read from the path database before
 keeping or extending them

---
 src/objectserver/internal/db/object_path_cache.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..f2e631e 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -38,17 +38,12 @@ func NewPathCache(storePath string) (*PathCache, error) {
 }
 
 func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
-	var res []byte
 	item, err := txn.Get(key)
-	if err == nil {
-		if err = item.Value(func(val []byte) error {
-			res = val
-			return nil
-		}); err != nil {
-			return nil, err
-		}
+	if err != nil {
+		return nil, err
 	}
-	return res, err
+	// the value belongs to badger, it is neither allowed to be kept nor to be appended to
+	return item.ValueCopy(nil)
 }
 
 func (pc *PathCache) encodeValue(val []byte) []byte {
-- 
2.43.0


From e74c636729d8517fed63d5bb6ab9391705ec5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 23/93] fix: a recovered panic is logged, not raised again

PrintStacks used Panicf, so every goroutine that recovered with
graceful.Recover still took the process down.
---
 src/common/graceful/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graceful/recover.go b/src/common/graceful/recover.go
index 32cdec0..8fd613d 100644
--- a/src/common/graceful/recover.go
+++ b/src/common/graceful/recover.go
@@ -19,7 +19,7 @@ func Recover(fn ...func(msg string)) {
 }
 
 func PrintStacks(msg any) {
-	logger.Panicf("%s\n%s", msg, GetStacks())
+	logger.Errorf("%s\n%s", fmt.Sprint(msg), GetStacks())
 }
 
 func GetStacks() string {
-- 
2.43.0


From 1654cc7980730ce32fdb02ab7894336923b21d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 24/93] fix: a delivered error is never lost by
 DoneGroup.WaitUntilError

When the group was done and an error was waiting, select picked either one
at random; a panic was only reported after the group was counted done.
---
 src/common/util/done_group.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..5e7dcdf 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -56,12 +56,12 @@ func (d *doneGroup) Done() {
 			d.Error(errors.New(fmt.Sprint(err)))
 		}
 	}()
-	d.WaitGroup.Done()
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine, and report it before the waiting one may go on
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		d.Error(errors.New(fmt.Sprint(err)))
 	}
+	d.WaitGroup.Done()
 }
 
 // Todo equals to wg.Add(1)
@@ -103,7 +103,6 @@ func (d *doneGroup) WaitDone() <-chan struct{} {
 		}()
 		defer close(ch)
 		d.Wait()
-		ch <- struct{}{}
 	}()
 	return ch
 }
@@ -119,7 +118,13 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
+		// everything is done, but an error may have been delivered before
+		select {
+		case e := <-d.WaitError():
+			return e
+		default:
+			return nil
+		}
 	case e := <-d.WaitError():
 		return e
 	}
@@ -141,13 +146,13 @@ func (ldg *limitDoneGroup) Todo() {
 }
 
 func (ldg *limitDoneGroup) Done() {
-	ldg.DoneGroup.Done()
-	<-ldg.limitChan
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine, and report it before the waiting one may go on
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		ldg.Error(errors.New(fmt.Sprint(err)))
 	}
+	ldg.DoneGroup.Done()
+	<-ldg.limitChan
 }
 
 func (ldg *limitDoneGroup) Close() {
-- 
2.43.0


From a487568081852743ab13137e93b8a197ce85be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 25/93] fix: a failed metadata lookup is not treated as a
 missing object

The goroutine looked at the wrong error, so an upload went on as if the
object did not exist whenever the lookup failed.
---
 src/apiserver/internal/controller/http/big_api.go        | 2 +-
 src/apiserver/internal/usecase/service/object_service.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..89d5bdc 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -225,7 +225,7 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 		defer dg.Done()
 		var inner error
 		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..b6669a4 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -119,7 +119,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		defer dg.Done()
 		var inner error
 		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
-- 
2.43.0


From 6e4572cf6e9a055f0a2df7dfc65927b7f5b187a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 26/93] fix: discard the temporary parts of an upload whose
 last block cannot be written

Commit returned before telling the data servers, and an aborted upload
still sent the buffered block.
---
 .../internal/usecase/service/copy_put_stream.go     | 13 ++++++++++---
 .../internal/usecase/service/rs_put_stream.go       | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..f5f1848 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -93,8 +93,12 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
-		return err
+	var flushErr error
+	if ok {
+		// copies which are not completely written must be discarded
+		if flushErr = c.Flush(); flushErr != nil {
+			ok = false
+		}
 	}
 	wg := util.NewDoneGroup()
 	defer wg.Close()
@@ -109,5 +113,8 @@ func (c *CopyPutStream) Commit(ok bool) error {
 			}(w.(Committer))
 		}
 	}
-	return wg.WaitUntilError()
+	if err := wg.WaitUntilError(); err != nil {
+		return err
+	}
+	return flushErr
 }
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..db9703e 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -46,8 +46,12 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
-		return err
+	var flushErr error
+	if ok {
+		// shards which are not completely written must be discarded
+		if _, flushErr = p.Flush(); flushErr != nil {
+			ok = false
+		}
 	}
 
 	wg := util.NewDoneGroup()
@@ -64,5 +68,8 @@ func (p *RSPutStream) Commit(ok bool) error {
 			}
 		}(w)
 	}
-	return wg.WaitUntilError()
+	if err := wg.WaitUntilError(); err != nil {
+		return err
+	}
+	return flushErr
 }
-- 
2.43.0


From 9c5dc4ab4f04927bb23664d56fa3d3a205f181ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 27/93] fix: record that a resumable upload is stored
 compressed

The shards were compressed when committed, but the version said they are
not, so they could not be read back.
---
 src/apiserver/internal/controller/http/big_api.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index 89d5bdc..6f45b0d 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -180,6 +180,7 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
 		Hash:          stream.Hash,
 		Size:          stream.Size,
+		Compress:      stream.Compress,
 		Locate:        stream.Servers,
 		DataShards:    stream.Config.DataShards,
 		ParityShards:  stream.Config.ParityShards,
-- 
2.43.0


From 8c57eb3e585e961c571aee0bcecb4273a1395e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 28/93] fix: store a resumable upload before recording its
 version

The version was saved first; when committing the shards failed afterwards
the object existed but could not be read.
---
 .../internal/controller/http/big_api.go         | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index 6f45b0d..84d7c2f 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -76,7 +76,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf, nil)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -186,16 +186,12 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	}, stream.Config, func() error { return stream.Commit(true) })
 	if err != nil {
 		util.LogErr(stream.Commit(false))
 		response.FailErr(err, g)
 		return
 	}
-	if err = stream.Commit(true); err != nil {
-		response.FailErr(err, g)
-		return
-	}
 	response.OkJson(&entity.PutResp{
 		Name:    stream.Name,
 		Bucket:  stream.Bucket,
@@ -203,7 +199,8 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
+// finishUpload records a new version. store makes the uploaded data durable, nil if it is already stored
+func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig, store func() error) (verNum int32, err error) {
 	// validate digest
 	if pool.Config.Object.Checksum {
 		getStream := service.NewRSTempStream(&service.StreamOption{
@@ -245,6 +242,12 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 	if err = dg.WaitUntilError(); err != nil {
 		return
 	}
+	// the data must be stored before anything refers to it
+	if store != nil {
+		if err = store(); err != nil {
+			return
+		}
+	}
 	if metadata != nil {
 		// update metadata
 		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-- 
2.43.0


From b12148f591afe6454a5156f4d7748740854ebe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 29/93] fix: a resumable upload cannot finish in a readonly
 bucket

---
 src/apiserver/internal/controller/http/big_api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index 84d7c2f..eebfc2e 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -242,6 +242,10 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 	if err = dg.WaitUntilError(); err != nil {
 		return
 	}
+	// check bucket writable
+	if bucket.Readonly {
+		return 0, response.NewError(http.StatusBadRequest, "bucket is readonly")
+	}
 	// the data must be stored before anything refers to it
 	if store != nil {
 		if err = store(); err != nil {
-- 
2.43.0


From 4f352ccf6769db69a5a9b65afe401640af31592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 30/93] fix: compare the digest of a resumable upload to the
 one the client gave

The check read the parts under names they never have and compared the
result to the derived hash, so with checksum on no resumable upload could
finish, not even of an object that is already stored.
---
 .../internal/controller/http/big_api.go       | 30 ++++++++-----------
 .../internal/usecase/service/rs_get_stream.go |  5 ++--
 .../usecase/service/rs_resumable_stream.go    | 18 +++++++++++
 .../usecase/service/stream_provider.go        |  1 +
 4 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index eebfc2e..3a62a50 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -1,7 +1,6 @@
 package http
 
 import (
-	"apiserver/config"
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/pool"
@@ -10,7 +9,6 @@ import (
 	"common/graceful"
 	"common/response"
 	"common/util"
-	"common/util/crypto"
 	"fmt"
 
 	"apiserver/internal/usecase/logic"
@@ -76,7 +74,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf, nil)
+		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, nil)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -95,6 +93,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 	}
 	stream, e := service.NewRSResumablePutStream(&service.StreamOption{
 		Hash:     uniqueHash,
+		Digest:   req.Hash,
 		Name:     req.Name,
 		Size:     req.Size,
 		Bucket:   req.Bucket,
@@ -186,7 +185,15 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config, func() error { return stream.Commit(true) })
+	}, func() error {
+		// validate digest
+		if pool.Config.Object.Checksum {
+			if inner := stream.Verify(); inner != nil {
+				return inner
+			}
+		}
+		return stream.Commit(true)
+	})
 	if err != nil {
 		util.LogErr(stream.Commit(false))
 		response.FailErr(err, g)
@@ -200,20 +207,7 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 }
 
 // finishUpload records a new version. store makes the uploaded data durable, nil if it is already stored
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig, store func() error) (verNum int32, err error) {
-	// validate digest
-	if pool.Config.Object.Checksum {
-		getStream := service.NewRSTempStream(&service.StreamOption{
-			Hash:    v.Hash,
-			Size:    v.Size,
-			Locates: v.Locate,
-		}, conf)
-		hash := crypto.SHA256IO(getStream)
-		if hash != v.Hash {
-			err = response.NewError(http.StatusForbidden, "signature authentication failure")
-			return
-		}
-	}
+func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, store func() error) (verNum int32, err error) {
 	dg := util.NewDoneGroup()
 	defer dg.Close()
 	// get metadata if exist
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..c50e7bf 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -71,13 +71,14 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	return &RSGetStream{dec, option}, nil
 }
 
-func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
+// NewRSTempStream read uploaded but not committed shards by theirs temporary ids
+func NewRSTempStream(option *StreamOption, ids []string, rsCfg *config.RsConfig) *RSGetStream {
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	dsNum := int64(rsCfg.DataShards)
 	perSize := (option.Size + dsNum - 1) / dsNum
 	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+		readers[idx] = NewTempStream(loc, ids[idx], perSize)
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
 	return &RSGetStream{dec, option}
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 0144921..9bdb362 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -3,9 +3,12 @@ package service
 import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
+	"common/response"
 	"common/util"
+	"common/util/crypto"
 	"encoding/base64"
 	"fmt"
+	"net/http"
 )
 
 type resumeToken struct {
@@ -13,6 +16,7 @@ type resumeToken struct {
 	Size     int64            `json:"size"`
 	Name     string           `json:"name"`
 	Hash     string           `json:"hash"`
+	Digest   string           `json:"digest"`
 	Bucket   string           `json:"bucket"`
 	Servers  []string         `json:"servers"`
 	Ids      []string         `json:"ids"`
@@ -51,6 +55,7 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 	token := &resumeToken{
 		Name:     opt.Name,
 		Hash:     opt.Hash,
+		Digest:   opt.Digest,
 		Bucket:   opt.Bucket,
 		Servers:  opt.Locates,
 		Size:     opt.Size,
@@ -76,6 +81,19 @@ func (p *RSResumablePutStream) CurrentSize() (int64, error) {
 	return size, nil
 }
 
+// Verify IO: read the uploaded data back and compare its digest to the requested one
+func (p *RSResumablePutStream) Verify() error {
+	if _, err := p.Flush(); err != nil {
+		return err
+	}
+	temp := NewRSTempStream(&StreamOption{Size: p.Size, Locates: p.Servers}, p.Ids, p.Config)
+	defer util.CloseAndLog(temp)
+	if crypto.SHA256IO(temp) != p.Digest {
+		return response.NewError(http.StatusForbidden, "signature authentication failure")
+	}
+	return nil
+}
+
 // Token 上传记录
 func (p *RSResumablePutStream) Token() string {
 	return base64.StdEncoding.EncodeToString(util.GobEncode(p.resumeToken))
diff --git a/src/apiserver/internal/usecase/service/stream_provider.go b/src/apiserver/internal/usecase/service/stream_provider.go
index 4c21d2a..f024c9d 100644
--- a/src/apiserver/internal/usecase/service/stream_provider.go
+++ b/src/apiserver/internal/usecase/service/stream_provider.go
@@ -8,6 +8,7 @@ type StreamOption struct {
 	Locates  []string
 	Bucket   string
 	Hash     string
+	Digest   string
 	Name     string
 	Size     int64
 	Compress bool
-- 
2.43.0


From 8e4b05eedbee0d8f15ab083ecd1f30b477c6e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 31/93] fix: keep repaired shards only if they were rewritten
 completely

Reading a part of an object, or failing while rewriting, committed
truncated shards and recorded their new locations; blocks written
asynchronously could overtake each other. The readers are closed as well.
---
 .../internal/usecase/service/rs_decoder.go    | 40 +++++++++++++------
 .../internal/usecase/service/rs_get_stream.go | 18 ++++++---
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..564cb70 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -5,6 +5,7 @@ import (
 	"apiserver/internal/usecase"
 	"common/graceful"
 	"common/logs"
+	"common/util"
 	"io"
 	"sync"
 
@@ -21,6 +22,8 @@ type rsDecoder struct {
 	cursor       int
 	total        int64
 	size         int64
+	rewriting    util.DoneGroup // rewriting is the current rewriting of lost shards
+	rewriteErr   error
 }
 
 func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
@@ -85,6 +88,12 @@ func (d *rsDecoder) getData() error {
 			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 				logs.Std().Debugf("read shard %d err: %s", idx, err)
 				shards[idx] = nil
+				// the next block can not be read from here any more
+				if cl, ok := d.readers[idx].(io.Closer); ok {
+					util.CloseAndLog(cl)
+				}
+				d.readers[idx] = nil
+				return
 			}
 			shards[idx] = shards[idx][:n]
 		}(i)
@@ -96,26 +105,24 @@ func (d *rsDecoder) getData() error {
 		return err
 	}
 
-	// save lost shards
-	var err error
-	go func() {
-		defer graceful.Recover()
+	// save lost shards after those of the last block, or the blocks get mixed up
+	if d.waitRewrite() == nil {
+		dg := util.NewDoneGroup()
 		for i, w := range d.writers {
 			if w == nil {
 				continue
 			}
-			wg.Add(1)
+			dg.Todo()
 			go func(idx int, wt io.Writer) {
-				defer graceful.Recover()
-				defer wg.Done()
+				defer dg.Done()
 				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
 					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
+					dg.Error(inner)
 				}
 			}(i, w)
 		}
-	}()
+		d.rewriting = dg
+	}
 
 	// combine data shards
 	for i := range shards[:d.rsCfg.DataShards] {
@@ -129,9 +136,18 @@ func (d *rsDecoder) getData() error {
 	}
 
 	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
+		return d.waitRewrite()
 	}
 
 	return nil
 }
+
+// waitRewrite wait for the rewriting of the last block. once it fails, the rewritten shards are useless
+func (d *rsDecoder) waitRewrite() error {
+	if d.rewriting != nil {
+		d.rewriteErr = d.rewriting.WaitUntilError()
+		d.rewriting.Close()
+		d.rewriting = nil
+	}
+	return d.rewriteErr
+}
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index c50e7bf..ebd2514 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -114,21 +114,29 @@ func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 func (g *RSGetStream) Close() error {
 	wg := util.NewDoneGroup()
 	defer wg.Close()
+	for _, r := range g.readers {
+		if cl, is := r.(io.Closer); is {
+			util.CloseAndLog(cl)
+		}
+	}
+	// lost shards are only kept if they have been rewritten completely
+	err := g.waitRewrite()
+	complete := err == nil && g.total == g.size
 	var needUpdate bool
 	for _, w := range g.writers {
 		if util.InstanceOf[Committer](w) {
-			needUpdate = true
+			needUpdate = complete
 			wg.Todo()
 			go func(cm Committer) {
 				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
+				if e := cm.Commit(complete); e != nil {
 					wg.Error(e)
 				}
 			}(w.(Committer))
 		}
 	}
-	if err := wg.WaitUntilError(); err != nil {
-		return err
+	if inner := wg.WaitUntilError(); inner != nil {
+		return inner
 	}
 	if needUpdate {
 		if g.Updater == nil {
@@ -136,5 +144,5 @@ func (g *RSGetStream) Close() error {
 		}
 		return g.Updater(g.Locates)
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 4f9964010d5a19a9f7134112c49bbc2ecb201a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 32/93] fix: repair lost copies only from a complete read and
 keep all locations

Reading a range wrote truncated copies, and the recorded locations were
replaced by those of the repaired copies alone.
---
 .../internal/usecase/service/copy_fix_stream.go      | 12 ++++++++++--
 .../internal/usecase/service/copy_get_stream.go      |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index f72fb47..c82c8d3 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -15,6 +15,8 @@ import (
 type CopyFixStream struct {
 	fileNames []string
 	locates   []string
+	all       []string // all locations of the copies, including the new ones
+	size      int64
 	compress  bool
 	buffer    *bytes.Buffer
 	rpConfig  *config.ReplicationConfig
@@ -25,6 +27,8 @@ func NewCopyFixStream(lostNames []string, newLocates []string, opt *StreamOption
 	return &CopyFixStream{
 		fileNames: lostNames,
 		locates:   newLocates,
+		all:       opt.Locates,
+		size:      opt.Size,
 		rpConfig:  cfg,
 		compress:  opt.Compress,
 		buffer:    bytes.NewBuffer(make([]byte, 0, opt.Size)),
@@ -37,6 +41,10 @@ func (c *CopyFixStream) Write(bt []byte) (int, error) {
 }
 
 func (c *CopyFixStream) Close() error {
+	if int64(c.buffer.Len()) != c.size {
+		// not read completely, a truncated copy is worse than a lost one
+		return nil
+	}
 	wait := c.startFix()
 	if c.rpConfig.CopyAsync {
 		go func() {
@@ -61,7 +69,7 @@ func (c *CopyFixStream) startFix() func() error {
 			go func(i int, key string) {
 				defer wg.Done()
 				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
-					errs.Add(fmt.Sprintf("fix %s put-api err: %w", key, err))
+					errs.Add(fmt.Sprintf("fix %s put-api err: %s", key, err))
 				}
 			}(idx, name)
 		}
@@ -74,7 +82,7 @@ func (c *CopyFixStream) startFix() func() error {
 			dg.Error(errors.New("locates updater required but nil"))
 			return
 		}
-		if err := c.Updater(c.locates); err != nil {
+		if err := c.Updater(c.all); err != nil {
 			dg.Error(err)
 			return
 		}
diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 894178e..bfd533c 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -45,8 +45,8 @@ func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 func (c *CopyGetStream) Read(p []byte) (n int, err error) {
 	n, err = c.reader.Read(p)
 	if c.writer != nil && n > 0 {
-		if n, err = c.writer.Write(p[:n]); err != nil {
-			return
+		if _, inner := c.writer.Write(p[:n]); inner != nil {
+			return n, inner
 		}
 	}
 	return
-- 
2.43.0


From 4ce041787a468747040d850988dc55d72d9b5069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 33/93] fix: do not leave goroutines and temporary shards
 behind when a repair cannot start

---
 .../internal/usecase/service/rs_get_stream.go       | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index ebd2514..8162c2a 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -25,7 +25,7 @@ type provideStream struct {
 }
 
 func provideGetStream(hash string, locates []string, shardSize int, compress bool) <-chan *provideStream {
-	respChan := make(chan *provideStream, 1)
+	respChan := make(chan *provideStream, len(locates))
 	go func() {
 		defer graceful.Recover()
 		defer close(respChan)
@@ -59,6 +59,8 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 			ip := lb.Select()
 			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
 			if r.err != nil {
+				writers[r.index] = nil
+				discardAll(writers)
 				return nil, r.err
 			}
 			// metadata update required
@@ -71,6 +73,15 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	return &RSGetStream{dec, option}, nil
 }
 
+// discardAll abort those writers which are opened
+func discardAll(writers []io.Writer) {
+	for _, w := range writers {
+		if cm, is := w.(Committer); is {
+			util.LogErr(cm.Commit(false))
+		}
+	}
+}
+
 // NewRSTempStream read uploaded but not committed shards by theirs temporary ids
 func NewRSTempStream(option *StreamOption, ids []string, rsCfg *config.RsConfig) *RSGetStream {
 	readers := make([]io.Reader, rsCfg.AllShards())
-- 
2.43.0


From bf38273db25a31508b352c2f6ed39b9004bb3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 34/93] fix: an object counts as located only if every shard
 was found

Two replies for one shard made up for a missing one, so the upload was
skipped and a version without some location was recorded.
---
 .../usecase/service/object_service.go         | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index b6669a4..22f3af1 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -28,18 +28,13 @@ import (
 )
 
 // getLocateResp raw must like "ip#idx"
-func getLocateResp(raw string) (ip string, idx int) {
-	var err error
+func getLocateResp(raw string) (ip string, idx int, ok bool) {
 	strs := strings.Split(raw, "#")
 	if len(strs) != 2 {
-		panic("err format locating resp: " + raw)
-	}
-	idx, err = strconv.Atoi(strs[1])
-	if err != nil {
-		panic(err)
+		return
 	}
-	ip = strs[0]
-	return
+	idx, err := strconv.Atoi(strs[1])
+	return strs[0], idx, err == nil
 }
 
 type ObjectService struct {
@@ -95,10 +90,17 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 				return nil, false
 			}
 			for _, event := range resp.Events {
-				ip, idx := getLocateResp(string(event.Kv.Value))
+				ip, idx, ok := getLocateResp(string(event.Kv.Value))
+				if !ok || ip == "" || idx < 0 || idx >= len(locates) {
+					logs.Std().Errorf("err format locating resp: %s", event.Kv.Value)
+					continue
+				}
 				logs.Std().Debugf("located success for index %d of %s at %s", idx, hash, ip)
+				// more than one server may hold the same shard
+				if locates[idx] == "" {
+					cnt++
+				}
 				locates[idx] = ip
-				cnt++
 			}
 		case <-tt.C:
 			logs.Std().Warnf("locate object %s timeout!", hash)
-- 
2.43.0


From 8329869e7f1db1e9e2690db146c5778f55213245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 35/93] fix: joining an object server checks the peers' answers

RequireSend answers with Success=false without an error when the peer
fails, and the result flag was written by several goroutines at once.
---
 .../internal/controller/grpc/migration_server.go          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index c9b6327..2ebdaf7 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -3,6 +3,7 @@ package grpc
 import (
 	"common/graceful"
 	"common/logs"
+	"common/proto"
 	"common/proto/pb"
 	"common/util"
 	"context"
@@ -132,6 +133,7 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 		cliMap[k] = pb.NewObjectMigrationClient(cc)
 	}
 	wg := sync.WaitGroup{}
+	mux := sync.Mutex{}
 	success := true
 	// sending request to all servers
 	for k, v := range sizeMap {
@@ -139,11 +141,13 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 		go func(key string, value int64) {
 			defer graceful.Recover()
 			defer wg.Done()
-			if _, inner := cliMap[key].RequireSend(context.Background(), &pb.RequiredInfo{
+			if _, inner := proto.ResolveResponse(cliMap[key].RequireSend(context.Background(), &pb.RequiredInfo{
 				RequiredSize:  value,
 				TargetAddress: curLocate,
-			}); inner != nil {
+			})); inner != nil {
+				mux.Lock()
 				success = false
+				mux.Unlock()
 				logs.Std().Error(inner)
 			}
 		}(k, v)
-- 
2.43.0


From 061dd2340ae3c216588df4842cc1cb02acf537b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 36/93] fix: joining a leader checks the answer to
 RemoveFollower

---
 src/metaserver/internal/controller/grpc/raft_cmd_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 82403ea..8004227 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -177,9 +177,9 @@ func (rcs *RaftCmdServerImpl) JoinLeader(ctx context.Context, req *pb.JoinLeader
 	if rcs.rf.LeaderID() != req.MasterId {
 		if rcs.rf.LeaderID() != "" {
 			// demote voter
-			_, err = client.RemoveFollower(ctx, &pb.RemoveFollowerReq{
+			_, err = proto.ResolveResponse(client.RemoveFollower(ctx, &pb.RemoveFollowerReq{
 				FollowerId: rcs.rf.ID,
-			})
+			}))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From f3fb2a699d02194b87452bfd63ac9934d8a1fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 37/93] fix: leaving a raft cluster reports the server's
 refusal

---
 .../internal/usecase/logic/metadata_logic.go           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..0067caa 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -192,8 +192,14 @@ func (m Metadata) LeaveRaftCluster(servId string) error {
 	if err != nil {
 		return err
 	}
-	_, err = pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
-	return err
+	resp, err := pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
+	if err != nil {
+		return err
+	}
+	if !resp.Success {
+		return response.NewError(400, resp.Message)
+	}
+	return nil
 }
 
 func (m Metadata) JoinRaftCluster(masterId, servId string) error {
-- 
2.43.0


From bc09b2a6dc1e53e06239f02f957c80b2d855e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 38/93] fix: a peer's capacity is only taken from a successful
 answer

---
 .../internal/usecase/service/migration_service.go            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 25e6041..2a9d243 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -57,6 +57,11 @@ func (ms *MigrationService) getPeersCapacity() map[string]int64 {
 			msLog.Errorf("get capacity from %s err: %s", ip, err)
 			continue
 		}
+		_ = resp.Body.Close()
+		if resp.StatusCode != http.StatusOK {
+			msLog.Errorf("get capacity from %s got status: %s", ip, resp.Status)
+			continue
+		}
 		res[ip] = util.ToInt64(resp.Header.Get("Capacity"))
 	}
 	return res
-- 
2.43.0


From 8167249b9d9b38536307bff15bbd84ce05b3a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 39/93] fix: metadata that cannot be encoded is not sent as
 empty

---
 .../internal/usecase/grpcapi/meta_server.go          | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index 0a16c4a..eacdf13 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -134,6 +134,9 @@ func UpdateVersion(ip, id string, body *entity.Version) error {
 		Hash:          body.Hash,
 		Locate:        body.Locate,
 	})
+	if err != nil {
+		return err
+	}
 	_, err = pb.NewMetadataApiClient(conn).UpdateVersion(context.Background(), &pb.Metadata{
 		Id:      id,
 		Msgpack: bt,
@@ -157,6 +160,9 @@ func SaveVersion(ip, id string, body *entity.Version) (int32, error) {
 		Hash:          body.Hash,
 		Locate:        body.Locate,
 	})
+	if err != nil {
+		return 0, err
+	}
 	res, err := pb.NewMetadataApiClient(conn).SaveVersion(context.Background(), &pb.Metadata{
 		Id:      id,
 		Version: body.Sequence,
@@ -178,6 +184,9 @@ func SaveMetadata(ip, id string, body *entity.Metadata) error {
 		Name:   body.Name,
 		Bucket: body.Bucket,
 	})
+	if err != nil {
+		return err
+	}
 	_, err = pb.NewMetadataApiClient(conn).SaveMetadata(context.Background(), &pb.Metadata{
 		Id:      id,
 		Msgpack: bt,
@@ -202,6 +211,9 @@ func SaveBucket(ip string, body *entity.Bucket) error {
 		Name:           body.Name,
 		Policies:       body.Policies,
 	})
+	if err != nil {
+		return err
+	}
 	_, err = pb.NewMetadataApiClient(conn).SaveBucket(context.Background(), &pb.Metadata{
 		Id:      body.Name,
 		Msgpack: bt,
-- 
2.43.0


From ede8e29e0fcf97d7e6edc9f8d301888fa9ec154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 40/93] fix: removing a version resolves the error like other
 requests

---
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index eacdf13..75ff5b2 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -250,5 +250,5 @@ func RemoveVersion(ip, id string, version int32) error {
 		return err
 	}
 	_, err = pb.NewMetadataApiClient(conn).RemoveVersion(context.Background(), &pb.MetaReq{Id: id, Version: version})
-	return err
+	return proto.ResolveErr(err)
 }
-- 
2.43.0


From 288349793f64fef45ef705026d149f6f27ad96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 41/93] fix: the api credential is not overwritten when it
 cannot be looked up

---
 .../internal/usecase/componet/auth/password_validator.go     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index dcaeeef..84a5874 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -32,8 +32,11 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	}
 	resp, err := pv.cli.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
 	if err != nil {
+		// the credential may exist, never overwrite it
 		logs.Std().Errorf("init PasswordValidator: %s", err)
-	} else if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
+		return
+	}
+	if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
 		logs.Std().Info("exist credential, skip init admin credential")
 		return
 	}
-- 
2.43.0


From 84a31ec2b586b7b8fb8e474702bdf629b352885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 42/93] fix: passwords are not written to the log

---
 .../internal/usecase/componet/auth/password_validator.go        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index 84a5874..54a9a9a 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -67,7 +67,7 @@ func (pv *PasswordValidator) Verify(token Credential) error {
 		return err
 	}
 	if token.GetUsername() != admin.Username || token.GetPassword() != admin.Password {
-		logs.Std().Tracef("%s:%s not match %s:%s", token.GetUsername(), token.GetPassword(), admin.Username, admin.Password)
+		logs.Std().Tracef("credential of %s does not match", token.GetUsername())
 		return response.NewError(http.StatusUnauthorized, "username or password wrong")
 	}
 	return nil
-- 
2.43.0


From 8ad3e65b9a40a5ac0d532475118ab0adf921c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 43/93] fix: a request the callback denies is not answered as
 successful

---
 .../internal/usecase/componet/auth/callback_validator.go  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..774bf29 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -29,8 +29,14 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
-		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		status := resp.StatusCode
+		if response.IsOk(status) {
+			// a denied request must not be answered as a successful one
+			status = http.StatusForbidden
+		}
+		return response.NewError(status, response.MessageFromJSONBody(resp.Body))
 	}
 	return nil
 }
-- 
2.43.0


From 74d616cd9a1f319d0b98cfc9b77d183572ee13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 44/93] fix: a request body that breaks off is not stored as
 complete

---
 src/common/system/disk/aligend_reader.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..490c7f2 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -35,9 +35,18 @@ func NewAlignedReader(rd io.Reader) *AlignedReader {
 
 func (ar *AlignedReader) Read(p []byte) (n int, err error) {
 	length := len(p)
-	n, err = io.ReadFull(ar.Reader, p)
-	if err == io.ErrUnexpectedEOF {
-		err = io.EOF
+	// not io.ReadFull: an io.ErrUnexpectedEOF of the underlying reader means that data is missing
+	// and should not be mixed up with the end of the data
+	for n < length && err == nil {
+		var nr int
+		nr, err = ar.Reader.Read(p[n:])
+		n += nr
+	}
+	if err != nil && err != io.EOF {
+		return n, err
+	}
+	if n == length {
+		err = nil
 	}
 	// padding zero if needed
 	paddingEnd := math.MinInt(length, AlignedSize(n))
-- 
2.43.0


From 41826c8f9c32e03913945dcc269c8fb2eb4d5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 45/93] fix: an object gets its name only after all of its data
 is stored

---
 .../usecase/service/objects_service.go        | 179 +++++++++---------
 1 file changed, 94 insertions(+), 85 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..cc1a553 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -4,12 +4,12 @@ import (
 	"bytes"
 	"common/cst"
 	"common/datasize"
-	"common/graceful"
 	"common/logs"
 	"common/response"
 	"common/system/disk"
 	"common/util"
 	"common/util/math"
+	"errors"
 	"fmt"
 	"io"
 	global "objectserver/internal/usecase/pool"
@@ -23,42 +23,34 @@ const (
 	LocateKeyPrefix = "LocateCache#"
 )
 
-// Exist check if the object exists. pass to ExistPath
+// Exist check if the object exists. pass to FindRealStoragePath
 func Exist(name string) bool {
-	if global.Cache.Has(LocateKeyPrefix+name) || global.Cache.Has(name) {
+	if global.Cache.Has(LocateKeyPrefix + name) {
 		return true
 	}
-	realPath, ok := FindRealStoragePath(name)
-	if !ok {
-		return false
-	}
-	if ExistPath(realPath) {
-		MarkExist(name)
-		return true
-	} else {
-		// remove this no existed path from path-db
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Remove(name, realPath))
-		}()
+	if _, ok := FindRealStoragePath(name); !ok {
 		return false
 	}
+	MarkExist(name)
+	return true
 }
 
-// FindRealStoragePath find storage path with real mount point of this file
+// FindRealStoragePath find storage path with real mount point of this file. the returned path exists on the disk.
 func FindRealStoragePath(fileName string) (string, bool) {
 	path, err := global.PathDB.GetLast(fileName)
-	if err != nil {
-		path, err = global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
-		if err != nil {
-			return "", false
+	if err == nil {
+		if ExistPath(path) {
+			return path, true
 		}
-		// save path to path-cache
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Put(fileName, path))
-		}()
+		// remove this no existed path from path-db
+		util.LogErrWithPre("path-db remove", global.PathDB.Remove(fileName, path))
 	}
+	path, err = global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
+	if err != nil {
+		return "", false
+	}
+	// save path to path-cache
+	util.LogErrWithPre("path-db put", global.PathDB.Put(fileName, path))
 	return path, true
 }
 
@@ -78,40 +70,54 @@ func UnMarkExist(name string) {
 	global.Cache.Delete(LocateKeyPrefix + name)
 }
 
-// Put save object to storage path
+// Put save object to storage path. the object gets its name only after all of its data has been written.
 func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
-	if Exist(fileName) {
+	// the mark in the cache may be outdated. only the disk tells if the object is stored
+	if _, ok := FindRealStoragePath(fileName); ok {
 		return
 	}
 
 	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
 	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
+	tempPath := filepath.Join(mp, global.Config.TempPath, GenerateTempID())
 
-	var size int64
 	if compress {
-		size, err = WriteFileCompress(fullPath, fileStream)
+		_, err = WriteFileCompress(tempPath, fileStream)
 	} else {
-		size, err = WriteFile(fullPath, fileStream)
+		_, err = WriteFile(tempPath, fileStream)
+	}
+	if err == nil {
+		err = SaveAs(tempPath, fullPath, fileName)
 	}
 	if err != nil {
-		return
+		_, inner := DeleteFile(tempPath, "")
+		util.LogErrWithPre("remove unfinished file", inner)
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.AddCap(size)
-		util.LogErr(global.PathDB.Put(fileName, fullPath))
-		MarkExist(fileName)
-	}()
 	return
 }
 
+// SaveAs move a completely written file to the path of the object and record it
+func SaveAs(tempPath, fullPath, fileName string) error {
+	info, err := os.Stat(tempPath)
+	if err != nil {
+		return err
+	}
+	if err = os.Rename(tempPath, fullPath); err != nil {
+		return err
+	}
+	global.ObjectCap.AddCap(info.Size())
+	util.LogErrWithPre("path-db put", global.PathDB.Put(fileName, fullPath))
+	MarkExist(fileName)
+	return nil
+}
+
 // Get read object to writer with provided size. pass to GetFile
 func Get(name string, offset, size int64, compress bool, writer io.Writer) (err error) {
-	if !Exist(name) {
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
+		UnMarkExist(name)
 		return response.NewError(404, "object not found")
 	}
-
-	fullPath, _ := FindRealStoragePath(name)
 	if compress {
 		err = GetFileCompress(fullPath, offset, size, writer)
 	} else {
@@ -153,27 +159,25 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 
 // Delete remove the object under the storage path
 func Delete(name string) error {
-	if !Exist(name) {
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
+		UnMarkExist(name)
 		return nil
 	}
-	fullPath, _ := FindRealStoragePath(name)
 	size, err := DeleteFile(fullPath, "")
 	if err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.SubCap(size)
-		util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
-		UnMarkExist(name)
-	}()
+	UnMarkExist(name)
+	global.ObjectCap.SubCap(size)
+	util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
 	return nil
 }
 
 // DeleteFile will remove the file under the path. if file not exist, it will do nothing.
 func DeleteFile(path, name string) (int64, error) {
 	pt := filepath.Join(path, name)
-	info, err := os.Stat(path)
+	info, err := os.Stat(pt)
 	if os.IsNotExist(err) {
 		return 0, nil
 	}
@@ -232,8 +236,9 @@ func AppendFileAligned(fullPath string, fileStream io.Reader, bufSize int) (int6
 	if err != nil {
 		return 0, err
 	}
-	defer file.Close()
-	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	n, err := io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	// data is not written until the file has been closed without error
+	return n, errors.Join(err, file.Close())
 }
 
 // WriteFile will append data to file and work with DIO. make sure size of each write is a multiple of 4096 (except last)
@@ -251,13 +256,15 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	reader := s2.NewReader(file)
+	// offset is about the plain data
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		if err = reader.Skip(offset); err != nil {
 			return err
 		}
 	}
 	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	_, err = io.CopyBuffer(writer, io.LimitReader(reader, size), make([]byte, bufSize))
 	return err
 }
 
@@ -267,14 +274,14 @@ func AppendFileCompress(fullPath string, fileStream io.Reader, bufSize int) (int
 	if err != nil {
 		return 0, err
 	}
-	defer file.Close()
 	blockSize := math.MinInt(2*datasize.MB.Int(), math.MaxInt(bufSize, 4*datasize.KB.Int()))
 	wt := s2.NewWriter(file, s2.WriterBetterCompression(), s2.WriterBlockSize(blockSize))
 	n, err := io.CopyBuffer(wt, fileStream, make([]byte, bufSize))
-	if err != nil {
-		return n, err
+	if err == nil {
+		err = wt.Close()
 	}
-	return n, wt.Close()
+	// data is not written until the file has been closed without error
+	return n, errors.Join(err, file.Close())
 }
 
 // WriteFileCompress append data to file compressing by s2 and work with COW
@@ -290,37 +297,39 @@ func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
 		return nil
 	}
 	if compress {
-		tmp, err := os.Open(tempPath)
-		if err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
-			return err
+		packedPath := filepath.Join(mountPoint, global.Config.TempPath, GenerateTempID())
+		err := compressTo(packedPath, tempPath)
+		if err == nil {
+			err = SaveAs(packedPath, filePath, fileName)
 		}
-		defer util.CloseAndLog(tmp)
-		tmpStat, err := tmp.Stat()
 		if err != nil {
-			return err
+			_, inner := DeleteFile(packedPath, "")
+			util.LogErrWithPre("remove unfinished file", inner)
 		}
-		bufSize := math.MinInt(4*datasize.MB.Int(), int(tmpStat.Size()))
-		_, err = AppendFileCompress(filePath, tmp, bufSize)
+		return notFoundErr(err)
+	}
+	return notFoundErr(SaveAs(tempPath, filePath, fileName))
+}
+
+// compressTo write the data of the file to a new file compressing by s2
+func compressTo(newPath, path string) error {
+	file, err := os.Open(path)
+	if err != nil {
 		return err
-	} else {
-		if err := os.Rename(tempPath, filePath); err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
-			return err
-		}
 	}
+	defer util.CloseAndLog(file)
+	stat, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	bufSize := math.MaxInt(1, math.MinInt(4*datasize.MB.Int(), int(stat.Size())))
+	_, err = AppendFileCompress(newPath, file, bufSize)
+	return err
+}
 
-	go func() {
-		defer graceful.Recover()
-		if info, err := os.Stat(filePath); err == nil {
-			global.ObjectCap.AddCap(info.Size())
-			util.LogErr(global.PathDB.Put(fileName, filePath))
-			MarkExist(fileName)
-		}
-	}()
-	return nil
+func notFoundErr(err error) error {
+	if os.IsNotExist(err) {
+		return response.NewError(404, "object not found")
+	}
+	return err
 }
-- 
2.43.0


From 41b13206de8a6f3edd410dd9f49a6f4edaf9a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 46/93] fix: files of removed, expired and left over temp
 uploads are removed

---
 .../internal/controller/http/temp/temp_mid.go      |  4 ++--
 .../internal/usecase/service/common.go             | 14 +++++++++-----
 .../internal/usecase/service/temp_service.go       |  2 +-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/objectserver/internal/controller/http/temp/temp_mid.go b/src/objectserver/internal/controller/http/temp/temp_mid.go
index de768c5..b3c098b 100644
--- a/src/objectserver/internal/controller/http/temp/temp_mid.go
+++ b/src/objectserver/internal/controller/http/temp/temp_mid.go
@@ -2,14 +2,14 @@ package temp
 
 import (
 	"net/http"
-	"objectserver/internal/usecase/pool"
+	"objectserver/internal/usecase/service"
 
 	"github.com/gin-gonic/gin"
 )
 
 func FilterExpired(c *gin.Context) {
 	id := c.Param("name")
-	if !pool.Cache.Has(id) {
+	if _, ok := service.GetTempInfo(id); !ok {
 		c.AbortWithStatus(http.StatusNotFound)
 	}
 }
diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 88fc5c6..2339b79 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"common/logs"
+	"common/util"
 	"io/fs"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
@@ -12,19 +13,22 @@ import (
 // WarmUpLocateCache walk all objects under the storage path and save marks to cache
 func WarmUpLocateCache() {
 	for _, mp := range pool.DriverManager.GetAllMountPoint() {
-		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(_ string, info fs.FileInfo, err error) error {
+		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(path string, info fs.FileInfo, err error) error {
 			if err != nil {
 				return err
 			}
 			fileName := info.Name()
-			// skip temp file
+			if info.IsDir() {
+				return nil
+			}
+			// a temp file is left over by the last run. its upload is unknown now
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+				_, err = DeleteFile(path, "")
+				util.LogErrWithPre("remove temp file", err)
 				return nil
 			}
 			pool.ObjectCap.AddCap(info.Size())
-			if !info.IsDir() {
-				MarkExist(fileName)
-			}
+			MarkExist(fileName)
 			return nil
 		})
 		if err != nil {
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index d40e0da..ce5e021 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -45,7 +45,7 @@ func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
 				if strings.HasPrefix(entry.Key, entity.TempKeyPrefix) {
 					var ti entity.TempInfo
 					if ok := util.GobDecode(entry.Value, &ti); ok {
-						if _, err := DeleteFile(pool.Config.TempPath, ti.Id); err != nil {
+						if _, err := DeleteFile(ti.FullPath, ""); err != nil {
 							logger.Errorf("remove temp %v(name=%v) error, %v", ti.Id, ti.Name, err)
 							break
 						}
-- 
2.43.0


From 520eae77a4594ecabf46fc62803c8043cbec161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 47/93] fix: the object cache answers only with the requested
 bytes

---
 .../controller/http/objects/objects_cache.go  | 48 +++++++++++++----
 .../controller/http/objects/objects_rest.go   | 54 +++++++++----------
 2 files changed, 65 insertions(+), 37 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..05e5e1b 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -2,21 +2,51 @@ package objects
 
 import (
 	"common/logs"
+	"common/response"
+	"fmt"
 	"net/http"
 	"objectserver/internal/usecase/pool"
 
 	"github.com/gin-gonic/gin"
 )
 
+// contentKeyPrefix keeps cached data of objects apart from the other users of the cache
+const contentKeyPrefix = "ObjectContent#"
+
+// contentKey an object which is stored compressed differs if it is not read compressed
+func contentKey(name string, compress bool) string {
+	return fmt.Sprint(contentKeyPrefix, compress, "#", name)
+}
+
+// saveContent save the leading bytes of the object to cache
+func saveContent(name string, compress bool, bt []byte) {
+	if len(bt) > 0 {
+		pool.Cache.Set(contentKey(name, compress), bt)
+	}
+}
+
+func removeContent(name string) {
+	pool.Cache.Delete(contentKey(name, true))
+	pool.Cache.Delete(contentKey(name, false))
+}
+
+// GetFromCache response with the cached data if all requested bytes are cached
 func GetFromCache(g *gin.Context) {
-	name := g.Param("name")
-	if bt, ok := pool.Cache.HasGet(name); ok {
-		if _, e := g.Writer.Write(bt); e != nil {
-			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
-			g.AbortWithStatus(http.StatusInternalServerError)
-		} else {
-			logs.Std().Debugf("match file cache %v", name)
-			g.AbortWithStatus(http.StatusOK)
-		}
+	req, offset, err := bindGet(g)
+	if err != nil {
+		response.FailErr(err, g)
+		g.Abort()
+		return
+	}
+	bt, ok := pool.Cache.HasGet(contentKey(req.Name, req.Compress))
+	if !ok || offset < 0 || req.Size < 0 || offset > int64(len(bt)) || req.Size > int64(len(bt))-offset {
+		return
+	}
+	g.Abort()
+	g.Status(http.StatusOK)
+	if _, e := g.Writer.Write(bt[offset : offset+req.Size]); e != nil {
+		logs.Std().Debugf("match file cache %v, but written to response error: %v", req.Name, e)
+	} else {
+		logs.Std().Debugf("match file cache %v", req.Name)
 	}
 }
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..5692331 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -2,7 +2,6 @@ package objects
 
 import (
 	"bytes"
-	"common/graceful"
 	"common/request"
 	"common/response"
 	"io"
@@ -24,10 +23,6 @@ func Put(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	if service.Exist(req.Name) {
-		response.Ok(c)
-		return
-	}
 	var reader io.Reader = c.Request.Body
 	var cache bytes.Buffer
 	if uint64(c.Request.ContentLength) <= pool.Config.Cache.MaxItemSize.Byte() {
@@ -38,44 +33,50 @@ func Put(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	if cache.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, cache.Bytes())
-		}()
-	}
+	saveContent(req.Name, req.Compress, cache.Bytes())
 	response.Ok(c)
 }
 
 func Delete(c *gin.Context) {
 	name := c.Param("name")
-	pool.Cache.Delete(name)
 	if err := service.Delete(name); err != nil {
 		response.FailErr(err, c)
 		return
 	}
+	removeContent(name)
 	c.Status(http.StatusNoContent)
 }
 
-func Get(c *gin.Context) {
-	req := &struct {
-		Name     string `uri:"name"`
-		Range    string `header:"range"`
-		Size     int64  `header:"size" binding:"required"`
-		Compress bool   `form:"compress"`
-	}{}
-	if err := entity.BindAll(c, req, binding.Uri, binding.Query, binding.Header); err != nil {
-		response.FailErr(err, c)
+type getReq struct {
+	Name     string `uri:"name"`
+	Range    string `header:"range"`
+	Size     int64  `header:"size" binding:"required"`
+	Compress bool   `form:"compress"`
+}
+
+// bindGet returns the request to get an object and the offset of the first requested byte
+func bindGet(c *gin.Context) (req getReq, offset int64, err error) {
+	if err = entity.BindAll(c, &req, binding.Uri, binding.Query, binding.Header); err != nil {
 		return
 	}
 	var rg request.Range
-	var offset int64
 	if ok := rg.ConvertFrom(req.Range); ok {
 		offset = rg.FirstBytes().First
 	}
+	return
+}
+
+func Get(c *gin.Context) {
+	req, offset, err := bindGet(c)
+	if err != nil {
+		response.FailErr(err, c)
+		return
+	}
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
+	// only the leading bytes of an object are cached
+	cacheable := offset == 0 && uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte()
+	if cacheable {
 		buf.Grow(int(req.Size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
@@ -83,11 +84,8 @@ func Get(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	if buf.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, buf.Bytes())
-		}()
+	if cacheable {
+		saveContent(req.Name, req.Compress, buf.Bytes())
 	}
 	c.Status(http.StatusOK)
 }
-- 
2.43.0


From 5cf26c67e7370450a67297570e0f98fbedc89f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 48/93] fix: the path index finds and removes exactly the paths
 put

---
 .../internal/db/object_path_cache.go          | 60 +++++++++----------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index f2e631e..3bd8df3 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -13,6 +13,8 @@ import (
 var (
 	Sep    = []byte(",")
 	SepEnc = []byte("%2C")
+	Esc    = []byte("%")
+	EscEnc = []byte("%25")
 )
 
 type PathCache struct {
@@ -46,14 +48,15 @@ func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
 	return item.ValueCopy(nil)
 }
 
+// encodeValue escapes the separator as well as the beginning of an escape sequence
 func (pc *PathCache) encodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, Sep, SepEnc)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, Esc, EscEnc), Sep, SepEnc)
 }
 
 func (pc *PathCache) decodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, SepEnc, Sep)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, SepEnc, Sep), EscEnc, Esc)
 }
 
 func (pc *PathCache) Put(name, path string) error {
@@ -64,11 +67,16 @@ func (pc *PathCache) Put(name, path string) error {
 		if err != nil && err != badger.ErrKeyNotFound {
 			return err
 		}
-		// not use bytes.Join to avoid memory copy
+		// the last path is the one put last, each path is recorded once
+		var paths [][]byte
 		if len(origin) > 0 {
-			value = append(append(origin, Sep...), value...)
+			for _, b := range bytes.Split(origin, Sep) {
+				if !bytes.Equal(b, value) {
+					paths = append(paths, b)
+				}
+			}
 		}
-		return txn.Set(key, value)
+		return txn.Set(key, bytes.Join(append(paths, value), Sep))
 	})
 }
 
@@ -81,10 +89,10 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 		if err != nil {
 			return err
 		}
-		sp := bytes.Split(value, Sep)
-		if len(sp) == 0 {
+		if len(value) == 0 {
 			return badger.ErrKeyNotFound
 		}
+		sp := bytes.Split(value, Sep)
 		res = make([]string, 0, len(sp))
 		for _, b := range sp {
 			res = append(res, util.BytesToStr(pc.decodeValue(b)))
@@ -99,23 +107,11 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 
 // GetLast if not found, return os.ErrNotExist
 func (pc *PathCache) GetLast(name string) (string, error) {
-	var res string
-	err := pc.db.View(func(txn *badger.Txn) error {
-		key := util.StrToBytes(name)
-		value, err := pc.get(txn, key)
-		if err != nil {
-			return err
-		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
-		}
-		return badger.ErrKeyNotFound
-	})
-	if err == badger.ErrKeyNotFound {
-		err = os.ErrNotExist
+	res, err := pc.Get(name)
+	if err != nil {
+		return "", err
 	}
-	return res, err
+	return res[len(res)-1], nil
 }
 
 func (pc *PathCache) Remove(name, path string) error {
@@ -125,17 +121,17 @@ func (pc *PathCache) Remove(name, path string) error {
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
-		if !ok {
-			return badger.ErrKeyNotFound
+		encoded := pc.encodeValue(util.StrToBytes(path))
+		var left [][]byte
+		for _, b := range bytes.Split(val, Sep) {
+			if !bytes.Equal(b, encoded) {
+				left = append(left, b)
+			}
 		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		if len(left) == 0 {
+			return txn.Delete(key)
 		}
-		return txn.Set(key, after)
+		return txn.Set(key, bytes.Join(left, Sep))
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
-- 
2.43.0


From a6c59ad0108f5223695cfce999436136100eaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 49/93] fix: shutdown of the object server waits for the
 servers

---
 src/objectserver/internal/controller/http/router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 8ff46b6..b011311 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -62,5 +62,6 @@ func (s *Server) Shutdown(c context.Context) error {
 		defer dg.Done()
 		err2 = s.Server.Shutdown(c)
 	}()
+	dg.Wait()
 	return errors.Join(err1, err2)
 }
-- 
2.43.0


From 371063db8401277fd92fab8a13df041a0f1434cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 50/93] fix: a migrated object is neither partial at the
 receiver nor lost with its sender

---
 .../controller/grpc/migration_server.go       |  13 ++-
 .../usecase/service/migration_service.go      | 109 ++++++++++++++----
 2 files changed, 99 insertions(+), 23 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index 2ebdaf7..e5932dc 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -29,13 +29,22 @@ func NewMigrationServer(service *service.MigrationService) *MigrationServer {
 }
 
 func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServer) (err error) {
-	var file io.WriteCloser
+	var file *service.ReceivingFile
 	var data *pb.ObjectData
-	defer util.CloseAndLog(file)
+	defer func() {
+		if file != nil {
+			util.LogErr(file.Close())
+		}
+	}()
 	logs.Std().Debug("start receive data...")
 	for {
 		data, err = stream.Recv()
 		if err == io.EOF {
+			if file != nil {
+				if err = file.Finish(); err != nil {
+					break
+				}
+			}
 			return stream.SendMsg(&pb.Response{Success: true})
 		}
 		if err != nil {
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 2a9d243..2c3d5fa 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"net/http"
 	"objectserver/internal/db"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/webapi"
 	"os"
@@ -192,8 +193,9 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 	success := true
 	dg := util.LimitDoneGroup(128)
 	go func() {
-		defer graceful.Recover(func(string) { success = false })
 		defer dg.Close()
+		defer dg.Wait()
+		defer graceful.Recover(func(msg string) { dg.Error(errors.New(msg)) })
 		cur := slices.First(addrs)
 		slices.RemoveFirst(&addrs)
 		leftSize := sizeMap[cur]
@@ -204,7 +206,8 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 					msLog.Errorf("walk path %s err: %s, will skip this path", path, err)
 					return nil
 				}
-				if info.IsDir() {
+				// temp files belong to unfinished uploads
+				if info.IsDir() || strings.HasPrefix(info.Name(), entity.TempKeyPrefix) {
 					return nil
 				}
 				client := clientMap[cur]
@@ -226,7 +229,7 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						metric[toAddr].Add(1)
 						// remove local file
 						if inner := Delete(info.Name()); inner != nil {
-							msLog.Errorf("migrate %s success, but delete fail: %s", path, err)
+							msLog.Errorf("migrate %s success, but delete fail: %s", path, inner)
 						}
 					}()
 				}(cur)
@@ -280,13 +283,14 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if statInfo.Size() != data.Size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", data.FileName, data.Size, statInfo.Size())
 	}
-	// add to capacity db
-	pool.ObjectCap.AddCap(data.Size)
 	newLoc, ok := pool.Discovery.GetService(pool.Config.Registry.Name, pool.Config.Registry.SID())
 	if !ok {
 		return fmt.Errorf("server unregister yet")
 	}
 	idx := strings.LastIndexByte(data.FileName, '.')
+	if idx < 0 {
+		return fmt.Errorf("file %s is not a part of an object", data.FileName)
+	}
 	seq := util.ToInt(data.FileName[idx+1:])
 	hash := data.FileName[:idx]
 	// get metadata locations of file
@@ -299,8 +303,8 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	for _, addr := range servs {
 		wg.Add(1)
 		go func(ip string) {
-			defer graceful.Recover()
 			defer wg.Done()
+			defer graceful.Recover(func(string) { failNum.Add(1) })
 			inner := webapi.UpdateVersionLocates(ip, hash, seq, newLoc)
 			// ignore not found failure
 			if response.CheckErrStatus(http.StatusNotFound, inner) {
@@ -313,29 +317,92 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 		}(addr)
 	}
 	wg.Wait()
-	if fails := failNum.Load(); fails >= int32(xmath.CeilDiv(len(servs), 2)) {
-		return fmt.Errorf("too much failures when updating metadata (%d/%d)", fails, len(servs))
+	// the sender will remove its file, no metadata is allowed to keep the old location
+	if fails := failNum.Load(); fails > 0 {
+		return fmt.Errorf("failures when updating metadata (%d/%d)", fails, len(servs))
 	}
 	msLog.Debugf("success finish object %s", data.FileName)
 	return nil
 }
 
-func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
-	path, ok := FindRealStoragePath(name)
-	if !ok {
-		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
-		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
-	}
-	stat, err := os.Stat(path)
-	if err == nil {
+// ReceivingFile is a file which is received from another server. it gets its name once it is completely received.
+type ReceivingFile struct {
+	*os.File
+	name     string
+	size     int64
+	fullPath string
+	received bool
+
+	replaced     string
+	replacedSize int64
+}
+
+// OpenFile open a file for receiving data. if the file is already stored, it returns os.ErrExist
+func (ms *MigrationService) OpenFile(name string, size int64) (*ReceivingFile, error) {
+	var replaced string
+	var replacedSize int64
+	if path, ok := FindRealStoragePath(name); ok {
+		stat, err := os.Stat(path)
+		if err != nil {
+			return nil, err
+		}
 		// if size equals, see as existed
 		if stat.Size() == size {
 			return nil, os.ErrExist
 		}
-		// some file may migrate failure. remove it if exists.
-		if err = os.Remove(path); err != nil {
-			return nil, err
-		}
+		// it is not removed until the new one is completely received
+		replaced, replacedSize = path, stat.Size()
+	}
+	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+	file, err := os.OpenFile(filepath.Join(mp, pool.Config.TempPath, GenerateTempID()), os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	if err != nil {
+		return nil, err
+	}
+	return &ReceivingFile{
+		File:     file,
+		name:     name,
+		size:     size,
+		fullPath: filepath.Join(mp, pool.Config.StoragePath, name),
+
+		replaced:     replaced,
+		replacedSize: replacedSize,
+	}, nil
+}
+
+// Finish save the received file with its name if all of its data has been received
+func (rf *ReceivingFile) Finish() error {
+	info, err := rf.File.Stat()
+	if err != nil {
+		return err
+	}
+	if info.Size() != rf.size {
+		return fmt.Errorf("file %s size expect %d, received %d", rf.name, rf.size, info.Size())
+	}
+	if err = rf.File.Close(); err != nil {
+		return err
+	}
+	if err = SaveAs(rf.File.Name(), rf.fullPath, rf.name); err != nil {
+		return err
+	}
+	rf.received = true
+	if rf.replaced == "" {
+		return nil
+	}
+	pool.ObjectCap.SubCap(rf.replacedSize)
+	if rf.replaced != rf.fullPath {
+		util.LogErrWithPre("path-db remove", pool.PathDB.Remove(rf.name, rf.replaced))
+		_, err = DeleteFile(rf.replaced, "")
+		util.LogErrWithPre("remove replaced file", err)
+	}
+	return nil
+}
+
+// Close remove the received data if it is not finished
+func (rf *ReceivingFile) Close() error {
+	if rf.received {
+		return nil
 	}
-	return os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	_ = rf.File.Close()
+	_, err := DeleteFile(rf.File.Name(), "")
+	return err
 }
-- 
2.43.0


From b9147c0d54d4734676219ac21c99ca788804a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 51/93] fix: names of objects do not lead out of the storage
 path

---
 .../internal/usecase/service/migration_service.go |  3 +++
 .../internal/usecase/service/objects_service.go   | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 2c3d5fa..7222586 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -339,6 +339,9 @@ type ReceivingFile struct {
 
 // OpenFile open a file for receiving data. if the file is already stored, it returns os.ErrExist
 func (ms *MigrationService) OpenFile(name string, size int64) (*ReceivingFile, error) {
+	if !ValidName(name) {
+		return nil, fmt.Errorf("invalid file name %s", name)
+	}
 	var replaced string
 	var replacedSize int64
 	if path, ok := FindRealStoragePath(name); ok {
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index cc1a553..08e88be 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -15,6 +15,7 @@ import (
 	global "objectserver/internal/usecase/pool"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/klauspost/compress/s2"
 )
@@ -37,6 +38,9 @@ func Exist(name string) bool {
 
 // FindRealStoragePath find storage path with real mount point of this file. the returned path exists on the disk.
 func FindRealStoragePath(fileName string) (string, bool) {
+	if !ValidName(fileName) {
+		return "", false
+	}
 	path, err := global.PathDB.GetLast(fileName)
 	if err == nil {
 		if ExistPath(path) {
@@ -54,6 +58,11 @@ func FindRealStoragePath(fileName string) (string, bool) {
 	return path, true
 }
 
+// ValidName check if the name is the name of a file right under the storage path
+func ValidName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\\\x00")
+}
+
 // ExistPath check if the given path exists.
 func ExistPath(fullPath string) bool {
 	_, err := os.Stat(fullPath)
@@ -72,6 +81,9 @@ func UnMarkExist(name string) {
 
 // Put save object to storage path. the object gets its name only after all of its data has been written.
 func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
+	if !ValidName(fileName) {
+		return response.NewError(400, "invalid name")
+	}
 	// the mark in the cache may be outdated. only the disk tells if the object is stored
 	if _, ok := FindRealStoragePath(fileName); ok {
 		return
@@ -291,6 +303,9 @@ func WriteFileCompress(fullPath string, fileStream io.Reader) (int64, error) {
 
 // CommitFile move the temp file to storage path with a new name
 func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
+	if !ValidName(tmpName) || !ValidName(fileName) {
+		return response.NewError(400, "invalid name")
+	}
 	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
 	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
 	if ExistPath(filePath) {
-- 
2.43.0


From 98dedcaff3b7cef14bac9a6f96a18098abccfb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 52/93] fix: only ids of temp uploads are looked up as such

---
 src/objectserver/internal/usecase/service/temp_service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index ce5e021..b175416 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -18,11 +18,17 @@ func SetTempInfo(t *entity.TempInfo) bool {
 }
 
 func GetTempInfo(key string) (*entity.TempInfo, bool) {
+	// the cache is not only used for temp info
+	if !strings.HasPrefix(key, entity.TempKeyPrefix) {
+		return nil, false
+	}
 	return cache.GetGob[entity.TempInfo](pool.Cache, key)
 }
 
 func RemoveTempInfo(key string) {
-	pool.Cache.Delete(key)
+	if strings.HasPrefix(key, entity.TempKeyPrefix) {
+		pool.Cache.Delete(key)
+	}
 }
 
 func GenerateTempID() string {
-- 
2.43.0


From b2c30b4247a14746fdb9a8575d6dc47f91a130ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 53/93] fix: MultiReader does not report a failed read as the
 end of the data

---
 src/common/system/disk/multi_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/system/disk/multi_reader.go b/src/common/system/disk/multi_reader.go
index 3956cc1..f6e89b8 100644
--- a/src/common/system/disk/multi_reader.go
+++ b/src/common/system/disk/multi_reader.go
@@ -40,6 +40,9 @@ func (mr *multiReader) Read(p []byte) (n int, err error) {
 			// after performing flatten (Issue 18232).
 			mr.readers[0] = eofReader{} // permit earlier GC
 			mr.readers = mr.readers[1:]
+		} else if err != nil {
+			// data may be missing, do not go on with the next reader or report the end of the data
+			return n, err
 		}
 		if n >= bufSize {
 			if err == io.EOF && len(mr.readers) > 0 {
-- 
2.43.0


From 6042d3fae286cc43adf287fe665a87591db41ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 54/93] fix: an object which cannot be looked at is not taken
 as stored

---
 src/objectserver/internal/usecase/component/driver_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 535d6ec..d81b701 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -107,7 +107,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
 	for _, d := range dm.drivers {
 		fullPath := filepath.Join(d.MountPoint, path)
-		if _, err := os.Stat(fullPath); !os.IsNotExist(err) {
+		if _, err := os.Stat(fullPath); err == nil {
 			return fullPath, nil
 		}
 	}
-- 
2.43.0


From 2e88d83c8222b5b286a6f7056fa3a2ab2d25dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 55/93] fix: objects whose size is not a multiple of the page
 size are read with direct-io

---
 src/objectserver/internal/usecase/service/objects_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 08e88be..580b6a3 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -164,7 +164,8 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 			return err
 		}
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
+	// direct-io reads only whole pages
+	bufSize := math.MinInt(disk.AlignedSize(int(size)), 8*cst.OS.PageSize)
 	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
 	return err
 }
-- 
2.43.0


From fcb28369de482d7d354bfb02994c7e8e75404ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 56/93] fix: an object is written in the layout it is read by

The size of the blocks followed from the bucket for some uploads, from the
object's size for others, and always from the latter for reads; objects of
less bytes than data shards had empty blocks, writing them never ended.
---
 src/apiserver/config/config.go                 | 18 ++++++++++++++++++
 src/apiserver/internal/entity/metadata.go      | 11 +++--------
 .../internal/usecase/service/object_service.go | 10 +---------
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..04f5ab3 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -8,6 +8,7 @@ import (
 	"common/logs"
 	"common/performance"
 	"common/registry"
+	"common/util/math"
 	"os"
 	"time"
 
@@ -92,6 +93,23 @@ func (r *RsConfig) FullSize() int {
 	return r.BlockPerShard * r.AllShards()
 }
 
+// ForObject returns the layout of an object. It must only depend on what its version records,
+// since an object can only be read by the layout it was written in.
+func (r RsConfig) ForObject(dataShards, parityShards int, size int64) RsConfig {
+	r.DataShards = dataShards
+	r.ParityShards = parityShards
+	// aligned block size
+	if i := r.BlockSize() % cst.OS.NetPkgSize; i > 0 {
+		newSize := math.MinInt(r.BlockSize()-i+cst.OS.NetPkgSize, int(size))
+		r.BlockPerShard = newSize / r.DataShards
+		if r.BlockPerShard < 1 {
+			// less than one byte per shard
+			r.BlockPerShard = 1
+		}
+	}
+	return r
+}
+
 func (r *RsConfig) ShardSize(totalSize int64) int {
 	dsNum := int64(r.DataShards)
 	return int((totalSize + dsNum - 1) / dsNum)
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..5acd8b8 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -2,8 +2,6 @@ package entity
 
 import (
 	"apiserver/config"
-	"common/cst"
-	"common/util/math"
 )
 
 type VerMode int32
@@ -103,16 +101,13 @@ func (b *Bucket) MakeVersion(ver *Version, conf *config.ObjectConfig) {
 func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg config.ObjectConfig) {
 	// copy of config
 	cfg = *conf
+	ds, ps := cfg.ReedSolomon.DataShards, cfg.ReedSolomon.ParityShards
 	switch b.StoreStrategy {
 	case ECReedSolomon:
-		cfg.ReedSolomon.DataShards = b.DataShards
-		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
+		ds, ps = b.DataShards, b.ParityShards
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
+	cfg.ReedSolomon = cfg.ReedSolomon.ForObject(ds, ps, objectSize)
 	return
 }
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 22f3af1..97735e2 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -14,7 +14,6 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
-	"common/util/math"
 	"context"
 	"errors"
 	"fmt"
@@ -254,14 +253,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 	default:
 		fallthrough
 	case entity.ECReedSolomon:
-		cfg := pool.Config.Object.ReedSolomon
-		cfg.DataShards = ver.DataShards
-		cfg.ParityShards = ver.ParityShards
-		// aligned block size
-		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
-		}
+		cfg := pool.Config.Object.ReedSolomon.ForObject(ver.DataShards, ver.ParityShards, opt.Size)
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
 		cfg := pool.Config.Object.Replication
-- 
2.43.0


From c6bb15c7cf04c88d838edf3f9ff87903519d32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 57/93] fix: names of buckets are escaped in the urls of
 requests to metadata servers

---
 src/apiserver/internal/usecase/webapi/bucket_api.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/webapi/bucket_api.go b/src/apiserver/internal/usecase/webapi/bucket_api.go
index 18205c4..a4e577b 100644
--- a/src/apiserver/internal/usecase/webapi/bucket_api.go
+++ b/src/apiserver/internal/usecase/webapi/bucket_api.go
@@ -7,11 +7,12 @@ import (
 	"common/util"
 	"fmt"
 	"net/http"
+	"net/url"
 )
 
 func GetBucket(ip, name string) (*entity.Bucket, error) {
 	defer perform(false)()
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -28,7 +29,7 @@ func GetBucket(ip, name string) (*entity.Bucket, error) {
 
 func PutBucket(ip string, data *entity.Bucket) error {
 	defer perform(true)()
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, data.Name), data)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(data.Name)), data)
 	if err != nil {
 		return err
 	}
@@ -62,7 +63,7 @@ func PostBucket(ip string, data *entity.Bucket) error {
 
 func DeleteBucket(ip, name string) error {
 	defer perform(true)()
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e3f0ec7e7cd226c780daa3162d4f1ae2ce336b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 58/93] fix: servers that come and go are followed also when
 etcd fails at times

---
 src/common/cst/etcd_prefix.go         |   5 ++
 src/common/registry/etcd_discovery.go | 102 +++++++++++++-------------
 src/common/registry/etcd_registry.go  |   4 +-
 src/common/registry/service_list.go   |  21 +++++-
 4 files changed, 75 insertions(+), 57 deletions(-)

diff --git a/src/common/cst/etcd_prefix.go b/src/common/cst/etcd_prefix.go
index 7c93736..7d64ce7 100644
--- a/src/common/cst/etcd_prefix.go
+++ b/src/common/cst/etcd_prefix.go
@@ -28,6 +28,11 @@ func (e *etcdPrefix) FmtRegistry(groupName, serviceName string) string {
 	return fmt.Sprintf("%s/%s/%s", groupName, e.Registry, serviceName)
 }
 
+// FmtRegistryOf is what the keys of all instances of the service, and of no other, start with
+func (e *etcdPrefix) FmtRegistryOf(groupName, serviceName string) string {
+	return e.FmtRegistry(groupName, serviceName) + "/"
+}
+
 func (e *etcdPrefix) FmtHashSlot(groupName, id string) string {
 	return fmt.Sprintf("%s/%s/%s", groupName, e.HashSlot, id)
 }
diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..3c429d1 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -30,74 +30,74 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 		context:  ctx,
 		Close:    cancel,
 	}
+	// the lists are all there before anything reads or follows them
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
-		d.initService(s)
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
 	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	for _, s := range cfg.Services {
+		d.initService(s)
+	}
 	return d
 }
 
+// initService follows the registered addresses of the service until the discovery is closed
 func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
-		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
-		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-		defer cancel()
-		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
-		if err != nil {
-			registryLog.Warnf("discovery init service %s error: %s", prefix, err)
-			return
-		}
-		// wrap kvs
-		mp := make(map[string]string)
-		for _, kv := range res.Kvs {
-			mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+		prefix := cst.EtcdPrefix.FmtRegistryOf(e.group, serv)
+		for e.context.Err() == nil {
+			if err := e.follow(serv, prefix); err != nil {
+				registryLog.Errorf("discovery for %s abort: %s", prefix, err)
+			}
+			// wait 2 sec before retry
+			select {
+			case <-e.context.Done():
+			case <-time.After(2 * time.Second):
+			}
 		}
-		// init serv
-		e.services[serv].combine(mp)
-		// start watch change
-		e.asyncWatch(serv, prefix)
 	}()
 }
 
-func (e *EtcdDiscovery) asyncWatch(serv, prefix string) {
-	go func() {
-		defer graceful.Recover()
-		for {
-			var success bool
-			ch := e.cli.Watch(e.context, prefix, clientv3.WithPrefix())
-			for res := range ch {
-				if res.Canceled {
-					registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
-					success = false
-					break
-				}
-				for _, event := range res.Events {
-					// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
-					key := util.BytesToStr(event.Kv.Key)
-					addr := util.BytesToStr(event.Kv.Value)
-					switch event.Type {
-					case mvccpb.PUT:
-						registryLog.Tracef("%s:%s added", serv, addr)
-						e.addService(serv, addr, key)
-					case mvccpb.DELETE:
-						registryLog.Tracef("%s:%s removed", serv, key)
-						e.removeService(serv, key)
-					}
-				}
-			}
-			// break if canceled by context
-			if success {
-				break
+// follow takes over what is registered now and then every change made since, until the watch ends
+func (e *EtcdDiscovery) follow(serv, prefix string) error {
+	getCtx, cancelGet := context.WithTimeout(e.context, 5*time.Second)
+	defer cancelGet()
+	res, err := e.cli.Get(getCtx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return err
+	}
+	// wrap kvs
+	mp := make(map[string]string, len(res.Kvs))
+	for _, kv := range res.Kvs {
+		mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+	}
+	// those no longer registered are dropped
+	e.services[serv].replace(prefix, mp)
+	// watch changes since then
+	watchCtx, cancelWatch := context.WithCancel(e.context)
+	defer cancelWatch()
+	for resp := range e.cli.Watch(watchCtx, prefix, clientv3.WithPrefix(), clientv3.WithRev(res.Header.Revision+1)) {
+		if err = resp.Err(); err != nil {
+			return err
+		}
+		for _, event := range resp.Events {
+			// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
+			key := util.BytesToStr(event.Kv.Key)
+			addr := util.BytesToStr(event.Kv.Value)
+			switch event.Type {
+			case mvccpb.PUT:
+				registryLog.Tracef("%s:%s added", serv, addr)
+				e.addService(serv, addr, key)
+			case mvccpb.DELETE:
+				registryLog.Tracef("%s:%s removed", serv, key)
+				e.removeService(serv, key)
 			}
-			// sleep 2 sec before retry
-			time.Sleep(2 * time.Second)
 		}
-	}()
+	}
+	return nil
 }
 
 func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
@@ -143,7 +143,7 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
-		res := make(map[string]string, len(sl.data))
+		res := make(map[string]string)
 		for k, addr := range sl.copy() {
 			idx := strings.LastIndexByte(k, '/')
 			if idx < 0 {
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..7def386 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -51,7 +51,7 @@ func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
 }
 
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistryOf(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Errorf("get services: %s", err)
 		return map[string]string{}
@@ -72,7 +72,7 @@ func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 }
 
 func (e *EtcdRegistry) GetServices(name string) []string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistryOf(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Infof("get services: %s", err)
 		return []string{}
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..f963660 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -1,6 +1,9 @@
 package registry
 
-import "sync"
+import (
+	"strings"
+	"sync"
+)
 
 type serviceList struct {
 	data map[string]string // key=address value=registered key
@@ -15,7 +18,15 @@ func newServiceListOf(mp map[string]string) *serviceList {
 	return &serviceList{mp, &sync.RWMutex{}}
 }
 
-func (s *serviceList) combine(mp map[string]string) {
+// replace makes mp all there is under the prefix
+func (s *serviceList) replace(prefix string, mp map[string]string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	for k := range s.data {
+		if _, ok := mp[k]; !ok && strings.HasPrefix(k, prefix) {
+			delete(s.data, k)
+		}
+	}
 	for k, v := range mp {
 		s.data[k] = v
 	}
@@ -34,9 +45,9 @@ func (s *serviceList) remove(registerKey string) {
 }
 
 func (s *serviceList) list() []string {
-	ls := make([]string, 0, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make([]string, 0, len(s.data))
 	for _, v := range s.data {
 		ls = append(ls, v)
 	}
@@ -45,9 +56,9 @@ func (s *serviceList) list() []string {
 
 // copy returns a map of value=address key=registered key
 func (s *serviceList) copy() map[string]string {
-	ls := make(map[string]string, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make(map[string]string, len(s.data))
 	for k, v := range s.data {
 		ls[k] = v
 	}
@@ -55,5 +66,7 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.data)
 }
-- 
2.43.0


From 106f2baacd4e3e771b1131bd7b3ec7c90ed42a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 59/93] fix: a lease that could not be granted is granted later

---
 src/common/registry/etcd_lifecycle.go | 48 +++++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 927c85f..17bce5b 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -29,11 +29,11 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	}
 }
 
-func (lc *Lifecycle) notifying() {
+func (lc *Lifecycle) notifying(lease clientv3.LeaseID) {
 	for _, f := range lc.notifyLease {
 		go func(fn func(id clientv3.LeaseID)) {
 			defer graceful.Recover()
-			fn(lc.lease)
+			fn(lease)
 		}(f)
 	}
 }
@@ -44,38 +44,50 @@ func (lc *Lifecycle) Lease() clientv3.LeaseID {
 	return lc.lease
 }
 
+func (lc *Lifecycle) setLease(id clientv3.LeaseID) {
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+	lc.lease = id
+}
+
+// pause waits before the next attempt, no longer than until it is closed
+func (lc *Lifecycle) pause() {
+	select {
+	case <-lc.ctx.Done():
+	case <-time.After(5 * time.Second):
+	}
+}
+
 func (lc *Lifecycle) DeadLoop() {
 	defer graceful.Recover()
-	for {
-		// lock to update lease
-		lc.mux.Lock()
-		leaseResp, err := lc.Client.Grant(context.Background(), int64(lc.ttl.Seconds()))
+	for lc.ctx.Err() == nil {
+		leaseResp, err := lc.Client.Grant(lc.ctx, int64(lc.ttl.Seconds()))
 		if err != nil {
 			registryLog.Errorf("grant lifecycle lease err: %s", err)
-			time.Sleep(5 * time.Second)
+			lc.pause()
 			continue
 		}
-		lc.lease = leaseResp.ID
-		lc.mux.Unlock()
+		lease := leaseResp.ID
+		lc.setLease(lease)
 
 		// notify lease change
-		lc.notifying()
+		lc.notifying(lease)
 
 		// keepalive new lease
-		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
+		response, err := lc.Client.KeepAlive(lc.ctx, lease)
 		if err != nil {
-			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lc.lease, err)
-			time.Sleep(5 * time.Second)
-			continue
-		}
-		for r := range response {
-			registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lease, err)
+			lc.pause()
+		} else {
+			for r := range response {
+				registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			}
 		}
 
 		// break loop if closed
 		select {
 		case <-lc.ctx.Done():
-			_, _ = lc.Client.Revoke(context.Background(), lc.lease)
+			_, _ = lc.Client.Revoke(context.Background(), lease)
 			registryLog.Infof("stop keepalive lifecycle lease")
 			return
 		default:
-- 
2.43.0


From 2463085cb90f59a7c248ecb430783386517a2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 60/93] fix: ids and groups of servers may hold underscores

---
 src/common/registry/etcd_discovery.go | 22 +++++-------------
 src/common/registry/etcd_registry.go  | 32 ++++++++++++++++++---------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 3c429d1..508692c 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/util"
 	"context"
-	"strings"
 	"time"
 
 	"go.etcd.io/etcd/api/v3/mvccpb"
@@ -104,15 +103,9 @@ func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
-				continue
-			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
+			if id, _ := splitKey(k); id != "" {
+				res[id] = addr
 			}
-			res[k[idx1+1:idx2]] = addr
 		}
 	}
 	return res
@@ -145,16 +138,11 @@ func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[stri
 	if sl, ok := e.services[name]; ok {
 		res := make(map[string]string)
 		for k, addr := range sl.copy() {
-			idx := strings.LastIndexByte(k, '/')
-			if idx < 0 {
+			sid, role := splitKey(k)
+			if sid == "" {
 				continue
 			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
-			if master {
-				if !contains || role == "master" {
-					res[sid] = addr
-				}
-			} else if role == "slave" {
+			if (role == roleSlave) != master {
 				res[sid] = addr
 			}
 		}
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 7def386..d625c61 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -1,13 +1,18 @@
 package registry
 
 import (
-	"bytes"
 	. "common/cst"
 	"common/logs"
 	"common/util"
 	"context"
 	"fmt"
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"strings"
+)
+
+const (
+	roleMaster = "master"
+	roleSlave  = "slave"
 )
 
 var registryLog = logs.New("etcd-registry")
@@ -41,12 +46,12 @@ func (e *EtcdRegistry) Key() string {
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
+	e.name = fmt.Sprint(e.stdName, "_", roleMaster)
 	return e
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
+	e.name = fmt.Sprint(e.stdName, "_", roleSlave)
 	return e
 }
 
@@ -58,15 +63,9 @@ func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
-			continue
+		if id, _ := splitKey(util.BytesToStr(kv.Key)); id != "" {
+			res[id] = util.BytesToStr(kv.Value)
 		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
-		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
@@ -102,3 +101,14 @@ func (e *EtcdRegistry) Unregister() error {
 	_, err := e.cli.Delete(context.Background(), e.Key())
 	return err
 }
+
+// splitKey gets the id and the role, if there is one, out of ${group}/registry/${serv}/${id}_${slave/master}
+func splitKey(key string) (id string, role string) {
+	id = key[strings.LastIndexByte(key, '/')+1:]
+	for _, r := range []string{roleMaster, roleSlave} {
+		if name, ok := strings.CutSuffix(id, "_"+r); ok {
+			return name, r
+		}
+	}
+	return id, ""
+}
-- 
2.43.0


From ce952aa98f9cc46f63cd75be22fd0f611ddb6833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 61/93] fix: the size of a performance store is waited for

---
 src/common/performance/etcd_store.go | 42 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/common/performance/etcd_store.go b/src/common/performance/etcd_store.go
index aa2f361..2c7e000 100644
--- a/src/common/performance/etcd_store.go
+++ b/src/common/performance/etcd_store.go
@@ -149,27 +149,27 @@ func (es *EtcdStore) Size(kindOf, action string) (total int64, err error) {
 	if action != "" {
 		allowedActions = []string{action}
 	}
-	go func() {
-		defer graceful.Recover()
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				atomic.AddInt64(&total, resp.Count)
-			}(act)
-		}
-		err = dg.WaitUntilError()
-	}()
-	return
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+	dg := util.NewDoneGroup()
+	defer dg.Close()
+	var count atomic.Int64
+	for _, act := range allowedActions {
+		dg.Todo()
+		go func(a string) {
+			defer dg.Done()
+			resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
+			if err != nil {
+				dg.Error(err)
+				return
+			}
+			count.Add(resp.Count)
+		}(act)
+	}
+	if err = dg.WaitUntilError(); err != nil {
+		return 0, err
+	}
+	return count.Load(), nil
 }
 
 func (es *EtcdStore) Average(string, string) ([]*Perform, error) {
-- 
2.43.0


From fdcb661ca3368ed758feab3c27f5c14f6e7488fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 62/93] fix: shutting the metadata server down waits for both
 servers

---
 src/metaserver/internal/controller/http/http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaserver/internal/controller/http/http.go b/src/metaserver/internal/controller/http/http.go
index 9d29fbe..a95a418 100644
--- a/src/metaserver/internal/controller/http/http.go
+++ b/src/metaserver/internal/controller/http/http.go
@@ -57,5 +57,6 @@ func (s *Server) Shutdown(c context.Context) error {
 		defer dg.Done()
 		err2 = s.Server.Shutdown(c)
 	}()
+	dg.Wait()
 	return errors.Join(err1, err2)
 }
-- 
2.43.0


From 42ca4c6ce4eca09266808924d2daebad87181964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 63/93] fix: pooled connections are looked up under the lock of
 the pool

---
 src/adminserver/internal/usecase/logic/conn.go | 8 +++-----
 src/apiserver/internal/usecase/grpcapi/base.go | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/conn.go b/src/adminserver/internal/usecase/logic/conn.go
index 4d67865..06ae7b3 100644
--- a/src/adminserver/internal/usecase/logic/conn.go
+++ b/src/adminserver/internal/usecase/logic/conn.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
@@ -35,6 +31,8 @@ func getConn(addr string) (*grpc.ClientConn, error) {
 }
 
 func Close() error {
+	poolLock.Lock()
+	defer poolLock.Unlock()
 	var errs []error
 	for _, v := range connPool {
 		if err := v.Close(); err != nil {
diff --git a/src/apiserver/internal/usecase/grpcapi/base.go b/src/apiserver/internal/usecase/grpcapi/base.go
index e731558..5c71118 100644
--- a/src/apiserver/internal/usecase/grpcapi/base.go
+++ b/src/apiserver/internal/usecase/grpcapi/base.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
@@ -35,6 +31,8 @@ func getConn(addr string) (*grpc.ClientConn, error) {
 }
 
 func Close() error {
+	poolLock.Lock()
+	defer poolLock.Unlock()
 	var errs []error
 	for _, v := range connPool {
 		if err := v.Close(); err != nil {
-- 
2.43.0


From 90620eeb8eea6bfb8d19878328aacd1a7009c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 64/93] fix: selecting servers reads their stat under its lock

---
 .../componet/selector/space_first_selector.go | 33 ++++++++++++++-----
 .../componet/selector/weighted_io_first.go    | 20 ++++++++---
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
index 9178f46..930a2d5 100644
--- a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
+++ b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
@@ -12,7 +12,8 @@ import (
 
 var (
 	spaceUsedMap   = map[string]int64{}
-	spaceLock      = sync.Mutex{}
+	spaceLock      = sync.Mutex{} // guards spaceUsedMap and spaceUpdatedAt
+	spaceFetching  = sync.Mutex{}
 	spaceUpdatedAt time.Time
 )
 
@@ -22,27 +23,43 @@ type FreeSpaceFirst struct {
 const SpaceFirst SelectStrategy = "space-first"
 
 func (s *FreeSpaceFirst) fetchSpaceInfo(ds []string) {
-	if !spaceLock.TryLock() {
+	if !spaceFetching.TryLock() {
 		return
 	}
-	defer spaceLock.Unlock()
+	defer spaceFetching.Unlock()
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
 			// ip is unreachable remove from origin
+			spaceLock.Lock()
 			delete(spaceUsedMap, ip)
+			spaceLock.Unlock()
 			continue
 		}
+		spaceLock.Lock()
 		spaceUsedMap[ip] = util.ToInt64(hd.Get("Capacity"))
+		spaceLock.Unlock()
 	}
+	spaceLock.Lock()
+	defer spaceLock.Unlock()
 	spaceUpdatedAt = time.Now()
 }
 
-func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
+// refresh fetches the space info again when it is too old
+func (s *FreeSpaceFirst) refresh(ds []string) {
+	spaceLock.Lock()
+	expired := time.Since(spaceUpdatedAt) > 1*time.Minute
+	spaceLock.Unlock()
+	if expired {
 		s.fetchSpaceInfo(ds)
 	}
+}
+
+func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
+	s.refresh(ds)
+	spaceLock.Lock()
+	defer spaceLock.Unlock()
 	idx := slices.ExtremalIndex(ds, func(min, b string) bool {
 		minUsed, ok := spaceUsedMap[min]
 		if !ok {
@@ -61,9 +78,9 @@ func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
 }
 
 func (s *FreeSpaceFirst) Select(ds []string) string {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
-		s.fetchSpaceInfo(ds)
-	}
+	s.refresh(ds)
+	spaceLock.Lock()
+	defer spaceLock.Unlock()
 	return slices.Extremal(ds, func(min, b string) bool {
 		minUsed, ok := spaceUsedMap[min]
 		if !ok {
diff --git a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
index 8d3bc7a..341ec39 100644
--- a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
+++ b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
@@ -18,7 +18,8 @@ var (
 	//  I/O completion time and the backlog that may be accumulating.
 	//  See more: http://www.mjmwired.net/kernel/Documentation/iostats.txt
 	weightedIOMap       = map[string]int32{}
-	weightedIOLock      = sync.Mutex{}
+	weightedIOLock      = sync.Mutex{} // guards weightedIOMap and weightedIOUpdatedAt
+	weightedIOFetching  = sync.Mutex{}
 	weightedIOUpdatedAt time.Time
 )
 
@@ -28,26 +29,37 @@ type WeightedIOFirst struct {
 const IOFirst SelectStrategy = "io-first" // Linux only
 
 func (s *WeightedIOFirst) fetchIoInfo(ds []string) {
-	if !weightedIOLock.TryLock() {
+	if !weightedIOFetching.TryLock() {
 		return
 	}
-	defer weightedIOLock.Unlock()
+	defer weightedIOFetching.Unlock()
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
+			weightedIOLock.Lock()
 			delete(weightedIOMap, ip)
+			weightedIOLock.Unlock()
 			continue
 		}
+		weightedIOLock.Lock()
 		weightedIOMap[ip] = util.ToInt32(hd.Get("Weighted-IO"))
+		weightedIOLock.Unlock()
 	}
+	weightedIOLock.Lock()
+	defer weightedIOLock.Unlock()
 	weightedIOUpdatedAt = time.Now()
 }
 
 func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(weightedIOUpdatedAt) > 1*time.Minute {
+	weightedIOLock.Lock()
+	expired := time.Since(weightedIOUpdatedAt) > 1*time.Minute
+	weightedIOLock.Unlock()
+	if expired {
 		s.fetchIoInfo(ds)
 	}
+	weightedIOLock.Lock()
+	defer weightedIOLock.Unlock()
 	idx := slices.ExtremalIndex(ds, func(target, b string) bool {
 		tWeighted, ok := weightedIOMap[target]
 		if !ok {
-- 
2.43.0


From dae43a6b1dda1db5e3097d930cfe8dbb0946bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 65/93] fix: cpu counts are cached under a lock

---
 src/common/system/cpu/cpu_unix.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/system/cpu/cpu_unix.go b/src/common/system/cpu/cpu_unix.go
index a07e79e..db5417d 100644
--- a/src/common/system/cpu/cpu_unix.go
+++ b/src/common/system/cpu/cpu_unix.go
@@ -2,14 +2,20 @@ package cpu
 
 import (
 	"math"
+	"sync"
 	"time"
 
 	"github.com/shirou/gopsutil/v3/cpu"
 )
 
-var cachedCounts [2]int
+var (
+	cachedCounts [2]int
+	countsLock   sync.Mutex
+)
 
 func getCounts() (logical, physical int, err error) {
+	countsLock.Lock()
+	defer countsLock.Unlock()
 	if cachedCounts[0] == 0 && cachedCounts[1] == 0 {
 		cachedCounts[0], err = cpu.Counts(true)
 		cachedCounts[1], err = cpu.Counts(false)
-- 
2.43.0


From 9daed120187be81f2fa38c10cb4f5a2d93c5c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 66/93] fix: the timeline of server stats is used under its
 lock

---
 .../internal/usecase/db/server_stat_db.go     | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 4413eb5..1086864 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -56,6 +56,14 @@ func (st *statTimeline) Append(cpu *TimeStat, mem *TimeStat) {
 	}
 }
 
+// snapshot copies the timeline as it is now
+func (st *statTimeline) snapshot() *statTimeline {
+	res := newStatTimeline()
+	res.cpu.PushBackList(st.cpu)
+	res.mem.PushBackList(st.mem)
+	return res
+}
+
 func (st *statTimeline) CPUTimeline() []*TimeStat {
 	arr := make([]*TimeStat, 0, st.cpu.Len())
 	for itr := st.cpu.Front(); itr != nil; itr = itr.Next() {
@@ -82,6 +90,7 @@ type ServerStatDB struct {
 	GroupName string
 	Services  []string
 	closeFn   func()
+	mux       sync.Mutex // guards timeline and all it holds
 	timeline  map[string]map[string]*statTimeline
 }
 
@@ -97,16 +106,18 @@ func NewServerStatDB(cli ServerStatCli, groupName string, services []string) *Se
 }
 
 func (sdb *ServerStatDB) GetTimeline(servName string) map[string]*statTimeline {
-	if tls, ok := sdb.timeline[servName]; ok {
-		return tls
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
+	res := make(map[string]*statTimeline, len(sdb.timeline[servName]))
+	for id, tl := range sdb.timeline[servName] {
+		res[id] = tl.snapshot()
 	}
-	return map[string]*statTimeline{}
+	return res
 }
 
 func (sdb *ServerStatDB) init() {
 	ctx, cancel := context.WithCancel(context.Background())
 	sdb.closeFn = cancel
-	var mux sync.Mutex
 	for _, name := range sdb.Services {
 		go func(v string) {
 			defer graceful.Recover()
@@ -115,13 +126,12 @@ func (sdb *ServerStatDB) init() {
 			res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
 			if err != nil {
 				statLog.Errorf("init stat of %s fail, %s", v, err)
-			}
-			for _, kv := range res.Kvs {
-				mux.Lock()
-				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
-					statLog.Error(err)
+			} else {
+				for _, kv := range res.Kvs {
+					if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
+						statLog.Error(err)
+					}
 				}
-				mux.Unlock()
 			}
 			// watch channel
 			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
@@ -132,6 +142,8 @@ func (sdb *ServerStatDB) init() {
 
 func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	ts := time.Now()
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
 	mp, ok := sdb.timeline[serv]
 	if !ok {
 		mp = map[string]*statTimeline{}
-- 
2.43.0


From 63c6e11df106cdda275d19031157743e063e76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 67/93] fix: those told about evictions are added under a lock

---
 src/common/cache/cache.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/cache/cache.go b/src/common/cache/cache.go
index 7546180..9b02d5c 100644
--- a/src/common/cache/cache.go
+++ b/src/common/cache/cache.go
@@ -5,12 +5,14 @@ import (
 	"common/util"
 	"context"
 	"log"
+	"sync"
 
 	"github.com/allegro/bigcache/v3"
 )
 
 type Cache struct {
 	cache         *bigcache.BigCache
+	notifyMux     sync.Mutex
 	notifyEvicted []chan Entry
 	close         func()
 }
@@ -46,7 +48,10 @@ func GetGob[T interface{}](c ICache, k string) (*T, bool) {
 func (c *Cache) onRemove(k string, v []byte, r bigcache.RemoveReason) {
 	go func() {
 		defer graceful.Recover()
-		for _, ch := range c.notifyEvicted {
+		c.notifyMux.Lock()
+		notify := append([]chan Entry(nil), c.notifyEvicted...)
+		c.notifyMux.Unlock()
+		for _, ch := range notify {
 			ch <- Entry{k, v, r}
 		}
 	}()
@@ -54,6 +59,8 @@ func (c *Cache) onRemove(k string, v []byte, r bigcache.RemoveReason) {
 
 func (c *Cache) NotifyEvicted() <-chan Entry {
 	ch := make(chan Entry, 5)
+	c.notifyMux.Lock()
+	defer c.notifyMux.Unlock()
 	c.notifyEvicted = append(c.notifyEvicted, ch)
 	return ch
 }
@@ -94,7 +101,9 @@ func (c *Cache) Clear() {
 func (c *Cache) Close() error {
 	defer c.close()
 	// make it closing by GC
+	c.notifyMux.Lock()
 	c.notifyEvicted = nil
+	c.notifyMux.Unlock()
 	return c.cache.Close()
 }
 
-- 
2.43.0


From 28960b9e941dac9806b4f709e5f43616f3145314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 68/93] fix: the lists of discovered services are all made
 before they are used

---
 src/common/registry/etcd_discovery.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 508692c..2445a78 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -35,6 +35,9 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
+	if d.services[cfg.Name] == nil {
+		d.services[cfg.Name] = newServiceList()
+	}
 	d.addService(cfg.Name, addr, cfg.RegisterKey())
 	for _, s := range cfg.Services {
 		d.initService(s)
@@ -161,15 +164,13 @@ func (e *EtcdDiscovery) GetServicesWith(name string, master bool) []string {
 }
 
 func (e *EtcdDiscovery) addService(name string, value string, key string) {
-	if e.services[name] == nil {
-		e.services[name] = newServiceList()
+	if sl, ok := e.services[name]; ok {
+		sl.add(value, key)
 	}
-	e.services[name].add(value, key)
 }
 
 func (e *EtcdDiscovery) removeService(name string, key string) {
-	if e.services[name] == nil {
-		return
+	if sl, ok := e.services[name]; ok {
+		sl.remove(key)
 	}
-	e.services[name].remove(key)
 }
-- 
2.43.0


From c9cf257a2fd91f0a8f4187e49e4afb77f03ae9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 69/93] fix: what is migrating is read and changed under a lock

---
 src/metaserver/internal/usecase/db/hashslot_db.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..10fac4b 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"sync"
 	"sync/atomic"
 )
 
@@ -44,6 +45,7 @@ type HashSlotDB struct {
 	kv             clientv3.KV
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
+	mux            sync.RWMutex // guards what is migrating and with whom
 	updatedAt      int64
 	migratingSlots []string
 	migratingHost  string
@@ -66,10 +68,14 @@ func (h *HashSlotDB) IsNormal() bool {
 }
 
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
+	h.mux.RLock()
+	defer h.mux.RUnlock()
 	return h.status.Load() == StatusMigrateTo, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
+	h.mux.RLock()
+	defer h.mux.RUnlock()
 	return h.status.Load() == StatusMigrateFrom, h.migratingHost, h.migratingSlots
 }
 
@@ -115,6 +121,8 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 }
 
 func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateFrom) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -125,6 +133,8 @@ func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateTo) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -135,6 +145,8 @@ func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) FinishMigrateTo() error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateTo, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
@@ -145,6 +157,8 @@ func (h *HashSlotDB) FinishMigrateTo() error {
 }
 
 func (h *HashSlotDB) FinishMigrateFrom() error {
+	h.mux.Lock()
+	defer h.mux.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateFrom, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
-- 
2.43.0


From 22326ef57108a2258529787df1e6b8f967370fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 70/93] fix: drivers are updated and selected under a lock

---
 .../usecase/component/driver_balancer.go      |  4 ++++
 .../usecase/component/driver_manager.go       | 24 ++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_balancer.go b/src/objectserver/internal/usecase/component/driver_balancer.go
index fc3912c..7ac2298 100644
--- a/src/objectserver/internal/usecase/component/driver_balancer.go
+++ b/src/objectserver/internal/usecase/component/driver_balancer.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"math"
 	"sort"
+	"sync"
 )
 
 type DriverBalancer interface {
@@ -29,6 +30,7 @@ func (sf *spaceFirstBalancer) Select(drivers []*Driver) (*Driver, error) {
 }
 
 type spaceWeightedBalancer struct {
+	mux      sync.Mutex
 	weighted map[string]datasize.DataSize
 	factor   datasize.DataSize
 }
@@ -52,6 +54,8 @@ func (sw *spaceWeightedBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
+	sw.mux.Lock()
+	defer sw.mux.Unlock()
 	if sw.factor == 0 {
 		sw.initFactor(drivers)
 	}
diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index d81b701..fe11c77 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ type Driver struct {
 }
 
 type DriverManager struct {
+	mux      sync.RWMutex // guards drivers
 	drivers  []*Driver
 	balancer DriverBalancer
 	Excludes set.Set
@@ -61,9 +63,18 @@ func (dm *DriverManager) Update() {
 	if len(info) == 0 {
 		logs.Std().Errorf("not found any availeble mountpoints!")
 	}
+	dm.mux.Lock()
+	defer dm.mux.Unlock()
 	dm.drivers = info
 }
 
+// current copies the drivers known now
+func (dm *DriverManager) current() []*Driver {
+	dm.mux.RLock()
+	defer dm.mux.RUnlock()
+	return append([]*Driver(nil), dm.drivers...)
+}
+
 func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 	ctx, cancel := context.WithCancel(context.Background())
 	stop = cancel
@@ -84,11 +95,11 @@ func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 }
 
 func (dm *DriverManager) SelectDriver() (*Driver, error) {
-	return dm.balancer.Select(dm.drivers)
+	return dm.balancer.Select(dm.current())
 }
 
 func (dm *DriverManager) SelectMountPointFallback(fb string) string {
-	d, err := dm.balancer.Select(dm.drivers)
+	d, err := dm.balancer.Select(dm.current())
 	if err != nil {
 		return fb
 	}
@@ -96,7 +107,7 @@ func (dm *DriverManager) SelectMountPointFallback(fb string) string {
 }
 
 func (dm *DriverManager) IsPathExist(path string) bool {
-	for _, d := range dm.drivers {
+	for _, d := range dm.current() {
 		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); !os.IsNotExist(err) {
 			return true
 		}
@@ -105,7 +116,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 }
 
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
-	for _, d := range dm.drivers {
+	for _, d := range dm.current() {
 		fullPath := filepath.Join(d.MountPoint, path)
 		if _, err := os.Stat(fullPath); err == nil {
 			return fullPath, nil
@@ -115,8 +126,9 @@ func (dm *DriverManager) FindMountPath(path string) (string, error) {
 }
 
 func (dm *DriverManager) GetAllMountPoint() []string {
-	res := make([]string, 0, len(dm.drivers))
-	for _, driver := range dm.drivers {
+	drivers := dm.current()
+	res := make([]string, 0, len(drivers))
+	for _, driver := range drivers {
 		res = append(res, driver.MountPoint)
 	}
 	return res
-- 
2.43.0


From c3177373c268972dcf579eceeecca42c64824ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 71/93] fix: send ServiceUnavailable with its status

---
 src/common/response/response.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/response/response.go b/src/common/response/response.go
index f1687c3..72bc116 100644
--- a/src/common/response/response.go
+++ b/src/common/response/response.go
@@ -95,11 +95,10 @@ func BadRequestMsg(msg string, c *gin.Context) *GinExecutor {
 }
 
 func ServiceUnavailableMsg(msg string, c *gin.Context) *GinExecutor {
-	ge := &GinExecutor{c}
-	return ge.Status(http.StatusServiceUnavailable).
-		JSON(&FailureResp{
-			Message: msg,
-		})
+	c.JSON(http.StatusServiceUnavailable, &FailureResp{
+		Message: msg,
+	})
+	return &GinExecutor{c}
 }
 
 func ServiceUnavailableErr(err error, c *gin.Context) *GinExecutor {
-- 
2.43.0


From afd2727935b41b76daf456d0071a97ad469431e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 72/93] fix: break off an answer that fails after its body has
 begun

---
 src/common/response/response.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/common/response/response.go b/src/common/response/response.go
index 72bc116..ca9364c 100644
--- a/src/common/response/response.go
+++ b/src/common/response/response.go
@@ -105,7 +105,29 @@ func ServiceUnavailableErr(err error, c *gin.Context) *GinExecutor {
 	return ServiceUnavailableMsg(err.Error(), c)
 }
 
+// breakOff close the connection, so that a body which has begun doesn't look complete
+func breakOff(c *gin.Context) {
+	c.Abort()
+	defer func() {
+		if p := recover(); p != nil {
+			logs.Std().Errorf("request(%s %s): break off: %v", c.Request.Method, c.FullPath(), p)
+		}
+	}()
+	conn, _, err := c.Writer.Hijack()
+	if err != nil {
+		logs.Std().Errorf("request(%s %s): break off: %s", c.Request.Method, c.FullPath(), err)
+		return
+	}
+	_ = conn.Close()
+}
+
+// FailErr tell the client of the failure. If the body has begun, the connection is closed instead.
 func FailErr(err error, c *gin.Context) *GinExecutor {
+	if c.Writer.Written() {
+		logs.Std().Errorf("request(%s %s): [%T] %s", c.Request.Method, c.FullPath(), err, err)
+		breakOff(c)
+		return &GinExecutor{c}
+	}
 	switch err := err.(type) {
 	case validator.ValidationErrors, *validator.ValidationErrors:
 		BadRequestErr(err, c)
-- 
2.43.0


From 42bd6c1a559546e3b8e043144c0201293f3318b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 73/93] fix: don't end a download that failed midway as if it
 were complete

---
 .../internal/controller/http/objects_api.go          | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index 1bd1801..3e21e30 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -4,7 +4,6 @@ import (
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"common/datasize"
-	"common/logs"
 	"common/response"
 	"common/util"
 	"github.com/gin-gonic/gin"
@@ -82,15 +81,10 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 		}
 	}
 	// copy to response
-	n, err := io.Copy(c.Writer, stream)
-	if err != nil {
-		logs.Std().Error(err)
-		return
+	response.OkHeader(gin.H{"Accept-Ranges": "bytes"}, c)
+	if _, err = io.Copy(c.Writer, stream); err != nil {
+		response.FailErr(err, c)
 	}
-	response.OkHeader(gin.H{
-		"Accept-Ranges":  "bytes",
-		"Content-Length": n,
-	}, c)
 }
 
 func (oc *ObjectsController) ValidatePut(g *gin.Context) {
-- 
2.43.0


From 1852dc3e6528457c778f5f91140f0e46ce700247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:22 +0000
Subject: [PATCH 74/93] fix: refuse a metadata update that can't be read

---
 src/metaserver/internal/controller/http/metadata_rest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/http/metadata_rest.go b/src/metaserver/internal/controller/http/metadata_rest.go
index d72179c..b6d769d 100644
--- a/src/metaserver/internal/controller/http/metadata_rest.go
+++ b/src/metaserver/internal/controller/http/metadata_rest.go
@@ -42,7 +42,10 @@ func (m *MetadataController) Post(g *gin.Context) {
 
 func (m *MetadataController) Put(g *gin.Context) {
 	var data msg.Metadata
-	_ = g.ShouldBindJSON(&data)
+	if err := g.ShouldBindJSON(&data); err != nil {
+		response.FailErr(err, g)
+		return
+	}
 	if err := m.service.UpdateMetadata(g.Param("name"), &data); err != nil {
 		response.FailErr(err, g)
 		return
-- 
2.43.0


From 8a7fad494efb67b34f4b92e44ba4629458c3b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 75/93] fix: tell the kind of a failure when versions are
 listed

---
 src/metaserver/internal/controller/grpc/metadata_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/metadata_server.go b/src/metaserver/internal/controller/grpc/metadata_server.go
index 7ddc199..2b198c6 100644
--- a/src/metaserver/internal/controller/grpc/metadata_server.go
+++ b/src/metaserver/internal/controller/grpc/metadata_server.go
@@ -32,7 +32,7 @@ func (m *MetadataApiServer) GetVersionsByHash(_ context.Context, req *pb.MetaReq
 	}
 	res, err := m.Service.FindByHash(req.Hash)
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
@@ -50,7 +50,7 @@ func (m *MetadataApiServer) ListVersion(_ context.Context, req *pb.MetaReq) (*pb
 	}
 	res, total, err := m.Service.ListVersions(req.Id, int(req.Page.Page), int(req.Page.PageSize))
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
-- 
2.43.0


From ea684dfd222dde007d814f1364dad76b09f28a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:36 +0000
Subject: [PATCH 76/93] fix: break off answers over HTTP/2 as well

---
 src/common/response/response.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/common/response/response.go b/src/common/response/response.go
index ca9364c..455fa19 100644
--- a/src/common/response/response.go
+++ b/src/common/response/response.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"net/http"
+	"time"
 
 	"github.com/gin-gonic/gin"
 	"github.com/go-playground/validator/v10"
@@ -105,23 +106,15 @@ func ServiceUnavailableErr(err error, c *gin.Context) *GinExecutor {
 	return ServiceUnavailableMsg(err.Error(), c)
 }
 
-// breakOff close the connection, so that a body which has begun doesn't look complete
+// breakOff let all further writes fail (HTTP/2: reset the stream), so that a body which has begun doesn't look complete
 func breakOff(c *gin.Context) {
 	c.Abort()
-	defer func() {
-		if p := recover(); p != nil {
-			logs.Std().Errorf("request(%s %s): break off: %v", c.Request.Method, c.FullPath(), p)
-		}
-	}()
-	conn, _, err := c.Writer.Hijack()
-	if err != nil {
+	if err := http.NewResponseController(c.Writer).SetWriteDeadline(time.Unix(1, 0)); err != nil {
 		logs.Std().Errorf("request(%s %s): break off: %s", c.Request.Method, c.FullPath(), err)
-		return
 	}
-	_ = conn.Close()
 }
 
-// FailErr tell the client of the failure. If the body has begun, the connection is closed instead.
+// FailErr tell the client of the failure. If the body has begun, it is broken off instead.
 func FailErr(err error, c *gin.Context) *GinExecutor {
 	if c.Writer.Written() {
 		logs.Std().Errorf("request(%s %s): [%T] %s", c.Request.Method, c.FullPath(), err, err)
-- 
2.43.0


From e864bec9e84a31a5ae927825aa5bdcaabd5767f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:40 +0000
Subject: [PATCH 77/93] fix: the admin server escapes object and bucket names
 in the addresses it asks the API server at

---
 src/adminserver/internal/usecase/webapi/api_server.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 6cded40..ad9d91d 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -13,8 +13,7 @@ import (
 )
 
 func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]byte, int, error) {
-	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize)
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, url.PathEscape(name), page, pageSize), nil)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -55,7 +54,7 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 }
 
 func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, name, version), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, url.PathEscape(name), version), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +105,7 @@ func CreateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func UpdateBucket(ip string, b *msg.Bucket, token string) error {
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, b.Name), b)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(b.Name)), b)
 	if err != nil {
 		return err
 	}
@@ -123,7 +122,7 @@ func UpdateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func DeleteBucket(ip, name string, token string) error {
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d9fb4de38e8c79ff820c91d1c65611c288fb8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:41 +0000
Subject: [PATCH 78/93] fix: ListBucket asks the metadata server at the address
 it lists buckets at

---
 src/apiserver/internal/usecase/webapi/bucket_api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/usecase/webapi/bucket_api.go b/src/apiserver/internal/usecase/webapi/bucket_api.go
index a4e577b..2b29dda 100644
--- a/src/apiserver/internal/usecase/webapi/bucket_api.go
+++ b/src/apiserver/internal/usecase/webapi/bucket_api.go
@@ -78,9 +78,9 @@ func DeleteBucket(ip, name string) error {
 	return nil
 }
 
-func ListBucket(ip, name, prefix string, size int) error {
+func ListBucket(ip, prefix string, size int) error {
 	defer perform(false)()
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s?page_size=%d&prefix=%s", ip, name, prefix, size), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/list?page_size=%d&prefix=%s", ip, size, url.QueryEscape(prefix)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ea492b741de6b226b0442726784d061dfccbbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 79/93] fix: the admin server has a credential confirmed by an
 API server before it acts on it

---
 src/adminserver/internal/controller/http/auth.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index 3b2e95d..2e89e81 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -35,10 +35,17 @@ func GetAuthToken(c *gin.Context) string {
 }
 
 func RequireToken(c *gin.Context) {
-	if GetAuthToken(c) == "" {
+	token := GetAuthToken(c)
+	if token == "" {
 		response.Exec(c).Abort().Fail(403, "invalid credential")
 		return
 	}
+	// what a token allows is only known to api servers
+	if err := webapi.CheckToken(logic.SelectApiServer(), token); err != nil {
+		c.Abort()
+		response.FailErr(err, c)
+		return
+	}
 	c.Next()
 }
 
-- 
2.43.0


From 0d944fc5cbc7f753f6c690fb2792f392471f956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 80/93] fix: a request without a credential does not replace
 the one of its session

---
 src/adminserver/internal/controller/http/auth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index 2e89e81..221978e 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -17,6 +17,9 @@ func SaveToken(c *gin.Context) {
 	sess := sessions.Default(c)
 	originToken := sess.Get(authTokenKey)
 	authToken := c.GetHeader("Authorization")
+	if authToken == "" {
+		return
+	}
 	if originToken != nil && originToken.(string) == authToken {
 		return
 	}
-- 
2.43.0


From 163f860929c68615de067fb2ecfe767ef0a086b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 81/93] fix: logging out of the console removes the credential
 from the session

---
 src/adminserver/internal/controller/http/auth.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index 221978e..5f3e181 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -54,7 +54,12 @@ func RequireToken(c *gin.Context) {
 
 func ClearCredential(router gin.IRouter) {
 	router.POST("/logout", func(c *gin.Context) {
-		sessions.Default(c).Clear()
+		sess := sessions.Default(c)
+		sess.Clear()
+		if err := sess.Save(); err != nil {
+			response.FailErr(err, c)
+			return
+		}
 		response.Ok(c)
 	})
 }
-- 
2.43.0


From 28a95bb8303b3956415c18be323eef2de509930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:35 +0000
Subject: [PATCH 82/93] fix: close the answers of the metadata and data servers
 on every path

---
 src/apiserver/internal/usecase/webapi/meta_server.go   | 6 ++++++
 src/apiserver/internal/usecase/webapi/object_server.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/webapi/meta_server.go b/src/apiserver/internal/usecase/webapi/meta_server.go
index fce8dc4..551288e 100644
--- a/src/apiserver/internal/usecase/webapi/meta_server.go
+++ b/src/apiserver/internal/usecase/webapi/meta_server.go
@@ -36,6 +36,7 @@ func PostMetadata(ip string, data entity.Metadata) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusCreated {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
@@ -58,6 +59,7 @@ func PutMetadata(ip string, data entity.Metadata) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
@@ -74,6 +76,7 @@ func DelMetadata(ip, name string) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusNoContent {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
@@ -129,6 +132,7 @@ func PostVersion(ip, id string, body *entity.Version) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusCreated {
 		return 0, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
@@ -149,6 +153,7 @@ func PutVersion(ip, id string, body *entity.Version) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
@@ -166,6 +171,7 @@ func DelVersion(ip, name string, verNum int32) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusNoContent {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
diff --git a/src/apiserver/internal/usecase/webapi/object_server.go b/src/apiserver/internal/usecase/webapi/object_server.go
index d941478..6758617 100644
--- a/src/apiserver/internal/usecase/webapi/object_server.go
+++ b/src/apiserver/internal/usecase/webapi/object_server.go
@@ -37,11 +37,11 @@ func PostTmpObject(ip, name string, size int64) (string, error) {
 	if e != nil {
 		return "", e
 	}
+	defer resp.Body.Close()
 	res, e := io.ReadAll(resp.Body)
 	if e != nil {
 		return "", fmt.Errorf("post temp object name=%v, return error response body, status=%v", name, resp.StatusCode)
 	}
-	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return "", fmt.Errorf("post temp object name=%v, return code=%v, content=%s", name, resp.Status, string(res))
 	}
-- 
2.43.0


From 06250264db43f6096e50f9c7fa00edcb632fb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:35 +0000
Subject: [PATCH 83/93] fix: close the answer of a data server that refuses to
 send an object

---
 src/apiserver/internal/usecase/service/get_stream.go  | 1 +
 src/apiserver/internal/usecase/service/temp_stream.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/apiserver/internal/usecase/service/get_stream.go b/src/apiserver/internal/usecase/service/get_stream.go
index a2ad473..bb36d67 100644
--- a/src/apiserver/internal/usecase/service/get_stream.go
+++ b/src/apiserver/internal/usecase/service/get_stream.go
@@ -37,6 +37,7 @@ func (g *GetStream) request(offset int) error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get object from dataServer return http code %v", resp.StatusCode)
 	}
 	g.reader = resp.Body
diff --git a/src/apiserver/internal/usecase/service/temp_stream.go b/src/apiserver/internal/usecase/service/temp_stream.go
index d6a62cd..ab721eb 100644
--- a/src/apiserver/internal/usecase/service/temp_stream.go
+++ b/src/apiserver/internal/usecase/service/temp_stream.go
@@ -36,6 +36,7 @@ func (ts *tempStream) request() error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get temp object from dataServer return http code %v", resp.StatusCode)
 	}
 	ts.reader = resp.Body
-- 
2.43.0


From 497dfe6d9dc13ef5602dffbebfba6d9978f92cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 84/93] fix: close the answer of the metadata server after
 updating a locate

---
 src/objectserver/internal/usecase/webapi/meta_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectserver/internal/usecase/webapi/meta_server.go b/src/objectserver/internal/usecase/webapi/meta_server.go
index 27b5336..8cb444f 100644
--- a/src/objectserver/internal/usecase/webapi/meta_server.go
+++ b/src/objectserver/internal/usecase/webapi/meta_server.go
@@ -44,6 +44,7 @@ func UpdateVersionLocates(ip, versionHash string, shardIndex int, locate string)
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
-- 
2.43.0


From dee390fb0faf2d19990cb7473919742dfaf23c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 85/93] fix: close connections to other metadata servers when
 the call is over

---
 src/metaserver/internal/controller/grpc/raft_cmd_server.go  | 2 ++
 src/metaserver/internal/usecase/service/hashslot_service.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/metaserver/internal/controller/grpc/raft_cmd_server.go b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
index 8004227..5e68075 100644
--- a/src/metaserver/internal/controller/grpc/raft_cmd_server.go
+++ b/src/metaserver/internal/controller/grpc/raft_cmd_server.go
@@ -130,6 +130,7 @@ func (rcs *RaftCmdServerImpl) LeaveCluster(ctx context.Context, _ *pb.EmptyReq)
 	if err != nil {
 		return nil, err
 	}
+	defer cc.Close()
 	return pb.NewRaftCmdClient(cc).RemoveFollower(ctx, &pb.RemoveFollowerReq{
 		FollowerId: rcs.rf.ID,
 	})
@@ -172,6 +173,7 @@ func (rcs *RaftCmdServerImpl) JoinLeader(ctx context.Context, req *pb.JoinLeader
 	if err != nil {
 		return nil, err
 	}
+	defer cc.Close()
 	// send rpc request by client
 	client := pb.NewRaftCmdClient(cc)
 	if rcs.rf.LeaderID() != req.MasterId {
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 2feeed4..f7ce7bb 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -101,6 +101,7 @@ func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []strin
 	if err != nil {
 		return err
 	}
+	defer cc.Close()
 	client := pb.NewHashSlotClient(cc)
 	resp, err := client.PrepareMigration(context.Background(), &pb.PrepareReq{
 		Id: h.Cfg.StoreID,
-- 
2.43.0


From 2777b14b479e698f9458496feeee8d6edc6e186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 86/93] fix: release what downloading and joining objects
 opened

---
 src/adminserver/internal/controller/http/object.go     | 1 +
 src/adminserver/internal/usecase/logic/object_logic.go | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index 4bdb5d1..99b0248 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -57,6 +57,7 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
+	defer reader.Close()
 	if _, err = io.Copy(c.Writer, reader); err != nil {
 		response.FailErr(err, c)
 		return
diff --git a/src/adminserver/internal/usecase/logic/object_logic.go b/src/adminserver/internal/usecase/logic/object_logic.go
index b46c4e2..36cac14 100644
--- a/src/adminserver/internal/usecase/logic/object_logic.go
+++ b/src/adminserver/internal/usecase/logic/object_logic.go
@@ -8,7 +8,6 @@ import (
 	"common/util"
 	"common/util/crypto"
 	"context"
-	"google.golang.org/grpc"
 	"io"
 	"mime/multipart"
 )
@@ -46,7 +45,7 @@ func (Objects) JoinCluster(serverId string) error {
 	if !ok {
 		return response.NewError(400, "serverId not exist")
 	}
-	cc, err := grpc.Dial(addr, grpc.WithInsecure())
+	cc, err := getConn(addr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f8b1ff5b53ff84c0c14fa20ac8ea6e38ac5e4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 87/93] fix: close the page that is looked up

---
 src/adminserver/resource/embed.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adminserver/resource/embed.go b/src/adminserver/resource/embed.go
index ffb2b11..e2e7130 100644
--- a/src/adminserver/resource/embed.go
+++ b/src/adminserver/resource/embed.go
@@ -37,6 +37,7 @@ func (e embedFileSystem) Exists(prefix string, path string) bool {
 	if err != nil {
 		return false
 	}
+	defer f.Close()
 
 	// check if indexing is allowed
 	s, err := f.Stat()
-- 
2.43.0


From 2658c62dae37ad69ccd4ae211dd601e4ce9fef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 88/93] fix: a panic in the background work of a slot migration
 no longer ends the metadata server

---
 src/metaserver/internal/usecase/logic/hashslot_logic.go     | 2 ++
 src/metaserver/internal/usecase/service/hashslot_service.go | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index 6e1260d..833cf38 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -1,6 +1,7 @@
 package logic
 
 import (
+	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"metaserver/internal/usecase"
@@ -28,6 +29,7 @@ func (h HashSlot) SaveToEtcd(id string, info *hashslot.SlotInfo) error {
 	info.GroupID = id
 	info.ServerID = pool.Config.Registry.SID()
 	go func() {
+		defer graceful.Recover()
 		pool.Config.HashSlot.Slots = info.Slots
 		if err := pool.Config.Persist(); err != nil {
 			logs.Std().Errorf("persist config err: %s", err)
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index f7ce7bb..64ada7f 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -1,6 +1,7 @@
 package service
 
 import (
+	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"common/proto"
@@ -148,10 +149,13 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 		h.startReceive = func() {}
 	}
 	go func() {
+		defer graceful.Recover()
+		timer := time.NewTimer(h.Cfg.PrepareTimeout)
+		defer timer.Stop()
 		select {
 		case <-cancelCh:
 			logs.Std().Debug("migration-from timeout-ctx canceled")
-		case <-time.NewTicker(h.Cfg.PrepareTimeout).C:
+		case <-timer.C:
 			_ = h.Store.FinishMigrateFrom()
 			logs.Std().Errorf("timeout migrating from %s", loc.GetHost())
 		}
-- 
2.43.0


From 4a33f7024035ad1e2827cefc2c8ff9043426a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 89/93] fix: joining is not reported as successful when asking
 a server to send panics

---
 .../internal/controller/grpc/migration_server.go            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index e5932dc..ce839c7 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -148,8 +148,12 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 	for k, v := range sizeMap {
 		wg.Add(1)
 		go func(key string, value int64) {
-			defer graceful.Recover()
 			defer wg.Done()
+			defer graceful.Recover(func(string) {
+				mux.Lock()
+				defer mux.Unlock()
+				success = false
+			})
 			if _, inner := proto.ResolveResponse(cliMap[key].RequireSend(context.Background(), &pb.RequiredInfo{
 				RequiredSize:  value,
 				TargetAddress: curLocate,
-- 
2.43.0


From d4be733fd806317d8131c65e7d05acb24cb94eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 90/93] fix: a panic while repairing copies or reading shards
 counts as a failure

---
 .../internal/usecase/service/copy_fix_stream.go       |  1 +
 src/apiserver/internal/usecase/service/rs_decoder.go  | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index c82c8d3..a2e63a9 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -68,6 +68,7 @@ func (c *CopyFixStream) startFix() func() error {
 			wg.Todo()
 			go func(i int, key string) {
 				defer wg.Done()
+				defer graceful.Recover(func(msg string) { errs.Add(fmt.Sprintf("fix %s panic: %s", key, msg)) })
 				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
 					errs.Add(fmt.Sprintf("fix %s put-api err: %s", key, err))
 				}
diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 564cb70..ca5b6ba 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -82,17 +82,20 @@ func (d *rsDecoder) getData() error {
 		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
 		wg.Add(1)
 		go func(idx int) {
-			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-				logs.Std().Debugf("read shard %d err: %s", idx, err)
+			lose := func() {
 				shards[idx] = nil
 				// the next block can not be read from here any more
 				if cl, ok := d.readers[idx].(io.Closer); ok {
 					util.CloseAndLog(cl)
 				}
 				d.readers[idx] = nil
+			}
+			defer graceful.Recover(func(string) { lose() })
+			n, err := io.ReadFull(d.readers[idx], shards[idx])
+			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				logs.Std().Debugf("read shard %d err: %s", idx, err)
+				lose()
 				return
 			}
 			shards[idx] = shards[idx][:n]
-- 
2.43.0


From b5daffa092285398c095eeced682f626b2f22d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:36 +0000
Subject: [PATCH 91/93] fix: performance records are not sent to a channel that
 is already closed

---
 src/common/performance/etcd_store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/performance/etcd_store.go b/src/common/performance/etcd_store.go
index 2c7e000..c3c3c8a 100644
--- a/src/common/performance/etcd_store.go
+++ b/src/common/performance/etcd_store.go
@@ -124,6 +124,9 @@ func (es *EtcdStore) Get(kindOf, action string) (res []*Perform, err error) {
 			}(act)
 		}
 		err = dg.WaitUntilError()
+		// nothing may be sent to a closed channel
+		cancel()
+		dg.Wait()
 	}()
 	for arr := range resCh {
 		res = append(res, arr...)
-- 
2.43.0


From f9493e88346fea95881ae100d858f6f6b1894ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:36 +0000
Subject: [PATCH 92/93] fix: the size of a flushed block is read after all
 shards were written

---
 src/apiserver/internal/usecase/service/rs_encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index 75441e0..75fe644 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -108,5 +108,6 @@ func (e *rsEncoder) Flush() (int, error) {
 		}(i, v)
 	}
 
-	return int(size), dg.WaitUntilError()
+	err = dg.WaitUntilError()
+	return int(atomic.LoadInt32(&size)), err
 }
-- 
2.43.0


From c63034e4bd5f2c9658b971db94c356daf2f28a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:59 +0000
Subject: [PATCH 93/93] fix: tell the metadata server which version to update

---
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index 75ff5b2..50222f9 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -139,6 +139,7 @@ func UpdateVersion(ip, id string, body *entity.Version) error {
 	}
 	_, err = pb.NewMetadataApiClient(conn).UpdateVersion(context.Background(), &pb.Metadata{
 		Id:      id,
+		Version: body.Sequence,
 		Msgpack: bt,
 	})
 	return proto.ResolveErr(err)
-- 
2.43.0

