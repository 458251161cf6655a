from seedlib import seed
MS='metaserver/internal/'
seed('c10-version-refused','C10','a receiver that refuses one version of an object (for instance because it could not store it) in the middle of a migration',
 'the refusal is ignored, the slots change hands and the version is removed from the only server that has it',
 'metaserver','internal/usecase/service','''
package service

import (
	"common/hashslot"
	"common/proto/pb"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"testing"

	"google.golang.org/grpc"
)

type fakeMeta struct{ usecase.IMetadataService }

func (fakeMeta) FilterKeys(fn func(string) bool) []string       { return []string{"b/o"} }
func (fakeMeta) GetMetadataBytes(string) ([]byte, error)         { return []byte{1}, nil }
func (fakeMeta) ForeachVersionBytes(_ string, f func([]byte) bool) { _ = f([]byte{1}) && f([]byte{2}) && f([]byte{3}) }

type fakeStream struct {
	grpc.ClientStream
	refuse int
	sent   []*pb.MigrationItem
}

func (f *fakeStream) Send(i *pb.MigrationItem) error { f.sent = append(f.sent, i); return nil }
func (f *fakeStream) Recv() (*pb.Response, error) {
	if len(f.sent) == f.refuse {
		return &pb.Response{Success: false, Message: "refused"}, nil
	}
	return &pb.Response{Success: true}, nil
}

func TestVerif(t *testing.T) {
	h := &HashSlotService{Service: fakeMeta{}}
	for i := 0; i <= 4; i++ {
		s := &fakeStream{refuse: i}
		_, errs := h.migrateMetadata(s, hashslot.EdgeList{})
		if (len(errs) > 0) != (i > 0) {
			t.Fatalf("record %d is refused, errors: %v", i, errs)
		}
		if i == 0 && (len(s.sent) != 4 || s.sent[1].Dest != int32(entity.DestVersion)) {
			t.Fatal(s.sent)
		}
	}
}
''',[(MS+'usecase/service/hashslot_service.go','''			// recv response
			_, err = proto.ResolveResponse(stream.Recv())
			if err != nil {
				errs = append(errs, err)
				allVersionSuccess = false
''','''			// recv response
			if _, err = stream.Recv(); err != nil {
				errs = append(errs, err)
				allVersionSuccess = false
''')])
seed('c10-receive-orphan','C10','a version that arrives for an object the receiver does not have (its own removal of it was replicated late)',
 'the receiver acknowledges a version it did not store, and the sender then removes it',
 'metaserver','internal/usecase/service','''
package service

import (
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"errors"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"testing"
)

type fakeMeta struct {
	usecase.IMetadataService
	err error
}

func (f fakeMeta) ReceiveVersion(string, *msg.Version) error { return f.err }

func TestVerif(t *testing.T) {
	bt, err := util.EncodeMsgp(&msg.Version{})
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range []error{nil, usecase.ErrExists, usecase.ErrNotFound, usecase.ErrReadOnly, errors.New("disk full")} {
		h := &HashSlotService{Service: fakeMeta{err: e}, startReceive: func() {}}
		got := h.ReceiveItem(&pb.MigrationItem{Name: "b/o", Data: bt, Dest: int32(entity.DestVersion)})
		if (got != nil) != (e != nil && e != usecase.ErrExists) {
			t.Fatalf("storing reports %v, the record is answered with %v", e, got)
		}
	}
}
''',[(MS+'usecase/service/hashslot_service.go','''	if err != nil && !errors.Is(err, usecase.ErrExists) {
		return err
	}
	return nil
}

// AutoMigrate''','''	if errors.Is(err, usecase.ErrExists) || errors.Is(err, usecase.ErrNotFound) {
		// nothing to do
		return nil
	}
	return err
}

// AutoMigrate''')])
