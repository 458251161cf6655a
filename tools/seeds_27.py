from seedlib import seed
T='''package grpcapi

import (
	"apiserver/internal/entity"
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"context"
	"net"
	"reflect"
	"testing"

	"google.golang.org/grpc"
)

type store struct {
	pb.UnimplementedMetadataApiServer
	bucket  []byte
	version []byte
	removed int32
}

func (s *store) SaveBucket(_ context.Context, m *pb.Metadata) (*pb.Empty, error) {
	s.bucket = m.Msgpack
	return new(pb.Empty), nil
}
func (s *store) GetBucket(context.Context, *pb.MetaReq) (*pb.Msgpack, error) {
	return &pb.Msgpack{Data: s.bucket}, nil
}
func (s *store) SaveVersion(_ context.Context, m *pb.Metadata) (*pb.Int32, error) {
	s.version = m.Msgpack
	return &pb.Int32{Data: 1}, nil
}
func (s *store) GetVersion(context.Context, *pb.MetaReq) (*pb.Msgpack, error) {
	return &pb.Msgpack{Data: s.version}, nil
}
func (s *store) RemoveVersion(_ context.Context, m *pb.MetaReq) (*pb.Empty, error) {
	s.removed = m.Version
	return new(pb.Empty), nil
}

func serve(t *testing.T) (*store, string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s, st := grpc.NewServer(), &store{}
	pb.RegisterMetadataApiServer(s, st)
	go s.Serve(l)
	t.Cleanup(s.Stop)
	return st, l.Addr().String()
}

var _ = util.EncodeMsgp
var _ msg.Version
var _ = reflect.DeepEqual
var _ entity.Bucket

'''
G='apiserver/internal/usecase/grpcapi/meta_server.go'
seed('C28-remains','C28','a bucket is created with a number of versions to keep and read again','the number of versions to keep is lost on the way to the metadata server, so every upload removes a version','apiserver','internal/usecase/grpcapi',T+'''func TestVerifRemains(t *testing.T) {
	_, addr := serve(t)
	in := &entity.Bucket{Versioning: true, VersionRemains: 7, DataShards: 4, ParityShards: 2, StoreStrategy: 1, Name: "b", Policies: []string{"p"}}
	if err := SaveBucket(addr, in); err != nil {
		t.Fatal(err)
	}
	out, err := GetBucket(addr, "b")
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(in, out) {
		t.Fatalf("%+v became %+v", in, out)
	}
}
''',[(G,"		VersionRemains: int32(body.VersionRemains),\n","")])
seed('C28-big','C28','an object has more than 2 GiB in a shard','the size of a shard is cut on the way to the metadata server: the object can not be read again','apiserver','internal/usecase/grpcapi',T+'''func TestVerifBig(t *testing.T) {
	_, addr := serve(t)
	in := &entity.Version{Hash: "h", Size: 20 << 30, ShardSize: 5 << 30, DataShards: 4, ParityShards: 2, StoreStrategy: 1, Locate: []string{"a"}}
	if _, err := SaveVersion(addr, "b/o", in); err != nil {
		t.Fatal(err)
	}
	out, err := GetVersion(addr, "b/o", 1)
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(in, out) {
		t.Fatalf("%+v became %+v", in, out)
	}
}
''',[(G,"		ShardSize:     int64(body.ShardSize),\n		Size:          body.Size,\n		Hash:","		ShardSize:     int64(int32(body.ShardSize)),\n		Size:          body.Size,\n		Hash:")])
seed('C28-which','C28','an object has more versions than are kept','the metadata server is not told which version to remove, so none ever is','apiserver','internal/usecase/grpcapi',T+'''func TestVerifWhich(t *testing.T) {
	st, addr := serve(t)
	if err := RemoveVersion(addr, "b/o", 3); err != nil {
		t.Fatal(err)
	}
	if st.removed != 3 {
		t.Fatalf("version %d instead of 3", st.removed)
	}
}
''',[(G,"&pb.MetaReq{Id: id, Version: version})\n	return proto.ResolveErr","&pb.MetaReq{Id: id})\n	return proto.ResolveErr")])
seed('C28-key','C28','a record of a version is read from bytes rather than from a stream','the number of parity shards is not found under its key, as reading goes by another one','common','proto/msg','''package msg

import (
	"reflect"
	"testing"
)

func TestVerifKey(t *testing.T) {
	in := Version{Compress: true, StoreStrategy: 1, DataShards: 4, ParityShards: 2, ShardSize: 3, Size: 4, Ts: 5, Sequence: 6, Hash: "h", UniqueId: "u", Locate: []string{"a"}}
	bt, err := in.MarshalMsg(nil)
	if err != nil {
		t.Fatal(err)
	}
	var out Version
	if _, err = out.UnmarshalMsg(bt); err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(in, out) {
		t.Fatalf("%+v became %+v", in, out)
	}
}
''',[('common/proto/msg/metadata_gen.go','''		case "parity_shards":
			z.ParityShards, bts, err = msgp.ReadInt32Bytes(bts)
			if err != nil {
				err = msgp.WrapError(err, "ParityShards")
				return
			}
		case "shard_size":''','''		case "parity-shards":
			z.ParityShards, bts, err = msgp.ReadInt32Bytes(bts)
			if err != nil {
				err = msgp.WrapError(err, "ParityShards")
				return
			}
		case "shard_size":''')])
seed('C28-list','C28','a list of more than one record is sent','each record of a list comes behind the ones before it, so the first is read again and again','common','util','''package util

import (
	"testing"

	"github.com/tinylib/msgp/msgp"
)

type word string

func (w word) MarshalMsg(b []byte) ([]byte, error) { return msgp.AppendString(b, string(w)), nil }
func (w *word) UnmarshalMsg(b []byte) ([]byte, error) {
	s, o, err := msgp.ReadStringBytes(b)
	*w = word(s)
	return o, err
}

func TestVerifList(t *testing.T) {
	bt, err := EncodeArrayMsgp([]word{"one", "two", "three"})
	if err != nil {
		t.Fatal(err)
	}
	out, err := DecodeArrayMsgp(bt, func() *word { return new(word) })
	if err != nil {
		t.Fatal(err)
	}
	if len(out) != 3 || *out[0] != "one" || *out[1] != "two" || *out[2] != "three" {
		t.Fatal(*out[0], *out[1], *out[2])
	}
}
''',[('common/util/util.go',"		res = append(res, buf...)\n		buf = buf[:0]","		res = append(res, buf...)")])
seed('C28-swallow','C28','a stored record can not be decoded (damaged, or of another version)','an undecodable record is taken for an empty one and returned without an error','common','util','''package util

import (
	"testing"

	"github.com/tinylib/msgp/msgp"
)

type text string

func (w *text) UnmarshalMsg(b []byte) ([]byte, error) {
	s, o, err := msgp.ReadStringBytes(b)
	*w = text(s)
	return o, err
}

func TestVerifSwallow(t *testing.T) {
	if err := DecodeMsgp(new(text), []byte{0xc1, 1, 2}); err == nil {
		t.Fatal("no error for what is no text")
	}
}
''',[('common/util/util.go','''	_, err = data.UnmarshalMsg(bt)
	if err != nil {
		err = fmt.Errorf("encode-msgp: %w", err)
	}
	return
''','''	if _, err := data.UnmarshalMsg(bt); err != nil {
		err = fmt.Errorf("encode-msgp: %w", err)
	}
	return
''')])
