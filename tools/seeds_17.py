from seedlib import seed
RP='''
package repo

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/util"
	"context"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
)

var _ = entity.Version{}
var _ = time.Second

// metaServer remembers the keys it is asked about
type metaServer struct {
	pb.UnimplementedMetadataApiServer
	sync.Mutex
	id    string
	addr  string
	peers []string
	keys  []string
}

func (m *metaServer) saw(id string) {
	m.Lock()
	defer m.Unlock()
	m.keys = append(m.keys, id)
}

func (m *metaServer) GetPeers(context.Context, *pb.Empty) (*pb.Strings, error) {
	return &pb.Strings{Data: m.peers}, nil
}

func (m *metaServer) GetMetadata(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	m.saw(r.Id)
	bt, err := util.EncodeMsgp(&msg.Metadata{})
	return &pb.Msgpack{Data: bt}, err
}

func (m *metaServer) GetVersion(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	m.saw(r.Id)
	bt, err := util.EncodeMsgp(&msg.Version{})
	return &pb.Msgpack{Data: bt}, err
}

func (m *metaServer) GetBucket(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	m.saw(r.Id)
	bt, err := util.EncodeMsgp(&msg.Bucket{})
	return &pb.Msgpack{Data: bt}, err
}

func (m *metaServer) SaveMetadata(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	m.saw(r.Id)
	return new(pb.Empty), nil
}

func (m *metaServer) SaveVersion(_ context.Context, r *pb.Metadata) (*pb.Int32, error) {
	m.saw(r.Id)
	return new(pb.Int32), nil
}

func (m *metaServer) UpdateVersion(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	m.saw(r.Id)
	return new(pb.Empty), nil
}

func (m *metaServer) SaveBucket(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	m.saw(r.Id)
	return new(pb.Empty), nil
}

func (m *metaServer) RemoveVersion(_ context.Context, r *pb.MetaReq) (*pb.Empty, error) {
	m.saw(r.Id)
	return new(pb.Empty), nil
}

type fakeEtcd struct {
	clientv3.KV
	clientv3.Watcher
	data map[string]string
}

func (f *fakeEtcd) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &etcdserverpb.ResponseHeader{Revision: 1}}
	for k, v := range f.data {
		if strings.HasPrefix(k, key) {
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v)})
		}
	}
	return res, nil
}

func (f *fakeEtcd) Watch(ctx context.Context, _ string, _ ...clientv3.OpOption) clientv3.WatchChan {
	ch := make(chan clientv3.WatchResponse)
	go func() {
		<-ctx.Done()
		close(ch)
	}()
	return ch
}

func (f *fakeEtcd) Close() error { return nil }

// newMetas starts a server per id, the ones in slots announce slots
func newMetas(t *testing.T, slots map[string]string, followers map[string]string) map[string]*metaServer {
	data := map[string]string{}
	out := map[string]*metaServer{}
	start := func(id string) *metaServer {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		m := &metaServer{id: id, addr: l.Addr().String()}
		s := grpc.NewServer()
		pb.RegisterMetadataApiServer(s, m)
		go s.Serve(l)
		t.Cleanup(s.Stop)
		data["g/registry/metaserver/"+id] = m.addr
		out[id] = m
		return m
	}
	for id, s := range slots {
		start(id)
		bt, err := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: "group-" + id, ServerID: id, Slots: []string{s}})
		if err != nil {
			t.Fatal(err)
		}
		data["g/hash_slot/"+id] = string(bt)
	}
	for id, master := range followers {
		start(id)
		out[master].peers = append(out[master].peers, id)
	}
	cfg := &config.Config{}
	cfg.Discovery.MetaServName = "metaserver"
	cfg.Discovery.DataServName = "objectserver"
	cfg.Registry.Group = "g"
	pool.Config = cfg
	f := &fakeEtcd{data: data}
	pool.Etcd = &clientv3.Client{KV: f, Watcher: f}
	pool.Discovery = registry.NewEtcdDiscovery(pool.Etcd, &registry.Config{Name: "apiserver", Group: "g", ServerIP: "127.0.0.1", ServerPort: "1", Services: []string{"metaserver"}})
	t.Cleanup(pool.Discovery.Close)
	for i := 0; len(pool.Discovery.GetServices("metaserver")) < len(out); i++ {
		if i > 1000 {
			t.Fatal("no services")
		}
		time.Sleep(5 * time.Millisecond)
	}
	return out
}
'''
RO='apiserver/internal/usecase/repo/'
if __name__ == '__main__':
 seed('c20-slot-of-name','C20','there is more than one metadata group, and bucket and name of an object make another slot than its name',
 'the version of an object is updated at a group that does not own the object',
 'apiserver','internal/usecase/repo',RP+'''
func TestVerif(t *testing.T) {
	ms := newMetas(t, map[string]string{"a": "0-8192", "b": "8192-16384"}, nil)
	for _, name := range []string{"x", "y", "z", "foo", "bar", "some/path", "1", "2", "3"} {
		key := "bucket/" + name
		own := "a"
		if hashslot.CalcBytesSlot([]byte(key)) >= 8192 {
			own = "b"
		}
		for _, m := range ms {
			m.keys = nil
		}
		if _, err := NewVersionRepo().Find(name, "bucket", 1); err != nil {
			t.Fatal(err)
		}
		if err := NewVersionRepo().Update(name, "bucket", &entity.Version{}); err != nil {
			t.Fatal(err)
		}
		if _, err := NewVersionRepo().Add(name, "bucket", &entity.Version{}); err != nil {
			t.Fatal(err)
		}
		if err := NewVersionRepo().Delete(name, "bucket", 1); err != nil {
			t.Fatal(err)
		}
		if len(ms[own].keys) != 4 {
			t.Fatal(name, "of", own, ms["a"].keys, ms["b"].keys)
		}
		for _, k := range ms[own].keys {
			if k != key {
				t.Fatal(k, "for", key)
			}
		}
	}
}
''',[(RO+'version_repo.go','''	name = fmt.Sprint(bucket, "/", name)
	masterId, err := logic.NewHashSlot().KeySlotLocation(name)
	if err != nil {
		return err
	}
	return grpcapi.UpdateVersion(''','''	masterId, err := logic.NewHashSlot().KeySlotLocation(name)
	if err != nil {
		return err
	}
	name = fmt.Sprint(bucket, "/", name)
	return grpcapi.UpdateVersion(''')])
 seed('c20-change-at-follower','C20','a bucket is created while its metadata group has followers',
 'the request goes to any member of the group, which refuses it unless it happens to be the leader',
 'apiserver','internal/usecase/repo',RP+'''
func TestVerif(t *testing.T) {
	ms := newMetas(t, map[string]string{"a": "0-16384"}, map[string]string{"f1": "a", "f2": "a", "f3": "a"})
	for i := 0; i < 5; i++ {
		if err := NewBucketRepo().Create(&entity.Bucket{Name: "bucket"}); err != nil {
			t.Fatal(err)
		}
		if len(ms["a"].keys) != i+1 {
			t.Fatal("the leader was not asked", i)
		}
		if i < 4 {
			time.Sleep(time.Second)
		}
	}
}
''',[(RO+'bucket_repo.go','''	return grpcapi.SaveBucket(logic.NewDiscovery().GetMetaServerGRPC(masterId), bucket)
''','''	ip, err := logic.NewDiscovery().SelectMetaServerGRPC(masterId)
	if err != nil {
		return err
	}
	return grpcapi.SaveBucket(ip, bucket)
''')])
 seed('c20-member-gone','C20','a member of a metadata group is not registered (it is down) while the leader still lists it',
 'reads are sent to no server at all whenever the missing member is chosen',
 'apiserver','internal/usecase/repo',RP+'''
func TestVerif(t *testing.T) {
	ms := newMetas(t, map[string]string{"a": "0-16384"}, nil)
	ms["a"].peers = []string{"gone1", "gone2", "gone3", "gone4"}
	for i := 0; i < 6; i++ {
		if _, err := NewMetadataRepo().FindByName("x", "bucket", false); err != nil {
			t.Fatal(i, err)
		}
		if i < 5 {
			time.Sleep(time.Second)
		}
	}
}
''',[('apiserver/internal/usecase/logic/discovery_logic.go','''		if ip, ok = metaServs[id]; ok {
			ips = append(ips, ip)
		}
''','''		ip = metaServs[id]
		ips = append(ips, ip)
''')])
