from seedlib import seed
MS='metaserver/internal/'
ST='''
package db

import (
	"os"
	"path/filepath"
	"testing"

	bolt "go.etcd.io/bbolt"
)

func put(s *Storage) error {
	return s.Update(func(tx *bolt.Tx) error {
		_, err := tx.CreateBucketIfNotExists([]byte("x"))
		return err
	})
}
'''
seed('c06-failed-replace-sticks','C06','a snapshot restore whose replacement file cannot be opened, followed by any write',
 'after a failed replacement the store refuses every write until the server is restarted',
 'metaserver','internal/usecase/db',ST+'''
func TestVerif(t *testing.T) {
	dir := t.TempDir()
	s := NewStorage()
	if err := s.Open(filepath.Join(dir, "a.db")); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "bad.db"), []byte("not a database at all, only some text"), 0600); err != nil {
		t.Fatal(err)
	}
	if err := put(s); err != nil {
		t.Fatal(err)
	}
	if err := s.Replace(filepath.Join(dir, "bad.db")); err == nil {
		t.Fatal("a file that is no database was accepted")
	}
	if err := put(s); err != nil {
		t.Fatal("write after a failed replacement: ", err)
	}
}
''',[(MS+'usecase/db/storage.go','''	defer s.rdOnly.Store(false)

''','''
'''),(MS+'usecase/db/storage.go','''	s.current.Store(newDB)
	// close and''','''	s.current.Store(newDB)
	s.rdOnly.Store(false)
	// close and''')])
seed('c06-batch-ungated','C06','a batched write arriving while the store file is being replaced by a snapshot',
 'batched writes are accepted into the file that is about to be closed and removed',
 'metaserver','internal/usecase/db',ST+'''
func TestVerif(t *testing.T) {
	s := NewStorage()
	if err := s.Open(filepath.Join(t.TempDir(), "a.db")); err != nil {
		t.Fatal(err)
	}
	var _ = os.Remove
	s.rdOnly.Store(true) // as Replace does
	if err := put(s); err == nil {
		t.Fatal("update accepted while the store is replaced")
	}
	if err := s.Batch(func(tx *bolt.Tx) error { return nil }); err == nil {
		t.Fatal("batched write accepted while the store is replaced")
	}
}
''',[(MS+'usecase/db/storage.go','''	if s.rdOnly.Load().(bool) {
		return usecase.ErrReadOnly
	}
	return s.DB().Batch(fn)''','''	cur := s.DB()
	if cur.IsReadOnly() {
		return usecase.ErrReadOnly
	}
	return cur.Batch(fn)''')])
KV='''
package db

import (
	"common/hashslot"
	"context"
	"testing"

	clientv3 "go.etcd.io/etcd/client/v3"
)

type kv struct {
	clientv3.KV
	puts int
}

func (k *kv) Put(context.Context, string, string, ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	k.puts++
	return &clientv3.PutResponse{}, nil
}

func (k *kv) Delete(context.Context, string, ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	k.puts++
	return &clientv3.DeleteResponse{}, nil
}
'''
seed('c09-save-while-receiving','C09','slot ownership saved (leader change, join) while slots are being received from another server',
 'ownership in the registry changes in the middle of a migration',
 'metaserver','internal/usecase/db',KV+'''
func TestVerif(t *testing.T) {
	k := &kv{}
	h := NewHashSlotDB("p", k)
	info := &hashslot.SlotInfo{}
	if err := h.Save("a", info); err != nil || k.puts != 1 {
		t.Fatal(err)
	}
	if err := h.ReadyMigrateTo("x", nil); err != nil {
		t.Fatal(err)
	}
	if err := h.Save("a", info); err == nil || k.puts != 1 {
		t.Fatal("saved while sending")
	}
	if err := h.FinishMigrateTo(); err != nil {
		t.Fatal(err)
	}
	if err := h.ReadyMigrateFrom("x", nil); err != nil {
		t.Fatal(err)
	}
	if err := h.Save("a", info); err == nil || k.puts != 1 {
		t.Fatal("saved while receiving")
	}
}
''',[(MS+'usecase/db/hashslot_db.go','''(err error) {
	if h.status.Load() != StatusNormal {
		return errors.New("status not in normal")''','''(err error) {
	if migrating, host, _ := h.GetMigrateTo(); migrating {
		return fmt.Errorf("status not in normal: migrating to %s", host)''')])
seed('c09-finish-any','C09','the timer of a prepared reception firing at the same time as a migration in the other direction is running (two migrations one after another)',
 'giving back one kind of migration status also ends the other kind, so writes are accepted while data is being moved',
 'metaserver','internal/usecase/db',KV+'''
func TestVerif(t *testing.T) {
	var _ hashslot.SlotInfo
	h := NewHashSlotDB("p", &kv{})
	if err := h.ReadyMigrateTo("x", nil); err != nil {
		t.Fatal(err)
	}
	if err := h.FinishMigrateFrom(); err == nil || h.IsNormal() {
		t.Fatal("a migration to another server was ended as one from another server")
	}
	if err := h.FinishMigrateTo(); err != nil || !h.IsNormal() {
		t.Fatal(err)
	}
}
''',[(MS+'usecase/db/hashslot_db.go','''	if h.status.CompareAndSwap(StatusMigrateFrom, StatusNormal) {
''','''	if cur := h.status.Load(); cur != StatusNormal && cur != StatusClosed {
		h.status.Store(StatusNormal)
''')])
seed('c09-broken-stream','C09','a migration stream that breaks off (connection lost) after some items',
 'the receiving server takes over the slots although only part of their data arrived',
 'metaserver','internal/controller/grpc','''
package grpc

import (
	"common/proto/pb"
	"errors"
	"io"
	"metaserver/internal/usecase"
	"testing"

	ggrpc "google.golang.org/grpc"
)

type hs struct {
	usecase.IHashSlotService
	done []bool
}

func (h *hs) ReceiveItem(*pb.MigrationItem) error { return nil }
func (h *hs) FinishReceiveItem(ok bool) error      { h.done = append(h.done, ok); return nil }

type st struct {
	ggrpc.ServerStream
	n   int
	end error
}

func (s *st) Send(*pb.Response) error { return nil }
func (s *st) Recv() (*pb.MigrationItem, error) {
	if s.n++; s.n > 2 {
		return nil, s.end
	}
	return &pb.MigrationItem{}, nil
}

func TestVerif(t *testing.T) {
	for _, end := range []error{io.EOF, errors.New("canceled"), io.ErrUnexpectedEOF} {
		h := &hs{}
		_ = NewHashSlotServer(h).StreamingReceive(&st{end: end})
		if len(h.done) != 1 || h.done[0] != (end == io.EOF) {
			t.Fatal(end, h.done)
		}
	}
}
''',[(MS+'controller/grpc/hashslot_server.go','''		// if client side close send
		if err == io.EOF {
			return nil
		}
		// if client side abort
		if err != nil {
			return
		}''','''		// if client side close send or abort
		if err != nil {
			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				err = nil
			}
			return
		}'''),(MS+'controller/grpc/hashslot_server.go','''	"encoding/json"
''','''	"encoding/json"
	"errors"
''')])

seed('c11-truncated-restore','C11','a snapshot that breaks off in the middle while it is received by a follower',
 'a store with part of the records is put in place of the complete one and the restore is reported as successful',
 'metaserver','internal/usecase/repo',"""
package repo

import (
	"bytes"
	"common/cache"
	"common/proto/msg"
	"io"
	"metaserver/internal/usecase/db"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

type cut struct{ r io.Reader }

func (c cut) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestVerif(t *testing.T) {
	s := db.NewStorage()
	if err := s.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	r := NewMetadataRepo(s, NewMetadataCacheRepo(cache.NewCache(bigcache.DefaultConfig(time.Minute))))
	if err := r.AddMetadata("b/o", &msg.Metadata{Name: "o", Bucket: "b"}); err != nil {
		t.Fatal(err)
	}
	snap, err := r.Snapshot()
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	_, err = snap.WriteTo(&buf)
	if err != nil {
		t.Fatal(err)
	}
	_ = snap.Rollback()
	if err := r.Restore(cut{bytes.NewReader(buf.Bytes())}); err == nil {
		t.Fatal("a snapshot that broke off was restored")
	}
	if err := r.Restore(&buf); err != nil {
		t.Fatal(err)
	}
}
""",[(MS+'usecase/repo/metadata_repo.go',"""	if err != nil {
		logs.Std().Errorf("restore fail on copy data to new file: %v, written %d", err, n)
""","""	if err == io.ErrUnexpectedEOF && n > 0 {
		// the compressed stream carries no trailer
		err = nil
	}
	if err != nil {
		logs.Std().Errorf("restore fail on copy data to new file: %v, written %d", err, n)
""")])
