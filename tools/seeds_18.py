from seedlib import seed
RG='''
package registry

import (
	"context"
	"strings"
	"sync"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type kv struct {
	key, value string
	lease      int64
}

// fakeEtcd keeps keys in memory and tells watchers of every change
type fakeEtcd struct {
	clientv3.KV
	clientv3.Watcher
	sync.Mutex
	rev      int64
	data     map[string]kv
	watchers map[chan clientv3.WatchResponse]string
}

func newFake() (*fakeEtcd, *clientv3.Client) {
	f := &fakeEtcd{data: map[string]kv{}, watchers: map[chan clientv3.WatchResponse]string{}, rev: 1}
	return f, &clientv3.Client{KV: f, Watcher: f}
}

func (f *fakeEtcd) tell(typ mvccpb.Event_EventType, e kv) {
	f.rev++
	for ch, prefix := range f.watchers {
		if strings.HasPrefix(e.key, prefix) {
			ch <- clientv3.WatchResponse{Events: []*clientv3.Event{{Type: typ, Kv: &mvccpb.KeyValue{Key: []byte(e.key), Value: []byte(e.value)}}}}
		}
	}
}

func (f *fakeEtcd) Put(_ context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	f.Lock()
	defer f.Unlock()
	op := clientv3.OpPut(key, val, opts...)
	_ = op
	e := kv{key: key, value: val, lease: leaseOf(op)}
	f.data[key] = e
	f.tell(mvccpb.PUT, e)
	return &clientv3.PutResponse{}, nil
}

func (f *fakeEtcd) Delete(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	f.Lock()
	defer f.Unlock()
	if _, ok := f.data[key]; ok {
		delete(f.data, key)
		f.tell(mvccpb.DELETE, kv{key: key})
	}
	return &clientv3.DeleteResponse{}, nil
}

// expire ends a lease: its keys go
func (f *fakeEtcd) expire(lease int64) {
	f.Lock()
	defer f.Unlock()
	for k, e := range f.data {
		if e.lease == lease {
			delete(f.data, k)
			f.tell(mvccpb.DELETE, kv{key: k})
		}
	}
}

func (f *fakeEtcd) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	f.Lock()
	defer f.Unlock()
	res := &clientv3.GetResponse{Header: &etcdserverpb.ResponseHeader{Revision: f.rev}}
	for k, e := range f.data {
		if strings.HasPrefix(k, key) {
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(e.value)})
		}
	}
	return res, nil
}

func (f *fakeEtcd) Watch(ctx context.Context, prefix string, _ ...clientv3.OpOption) clientv3.WatchChan {
	f.Lock()
	defer f.Unlock()
	ch := make(chan clientv3.WatchResponse, 100)
	f.watchers[ch] = prefix
	go func() {
		<-ctx.Done()
		f.Lock()
		defer f.Unlock()
		delete(f.watchers, ch)
		close(ch)
	}()
	return ch
}

func (f *fakeEtcd) Close() error { return nil }

func (f *fakeEtcd) keys() (out []string) {
	f.Lock()
	defer f.Unlock()
	for k := range f.data {
		out = append(out, k)
	}
	return
}

func (f *fakeEtcd) watched(t *testing.T) {
	for i := 0; i < 2000; i++ {
		f.Lock()
		n := len(f.watchers)
		f.Unlock()
		if n > 0 {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatal("nothing is watched")
}

func conf(name, id, ip string, services ...string) *Config {
	return &Config{Name: name, Group: "g", ServerID: id, ServerIP: ip, ServerPort: "1", Services: services}
}

func eventually(t *testing.T, what string, ok func() bool) {
	for i := 0; i < 600; i++ {
		if ok() {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatal(what)
}
'''
LE='''
func leaseOf(op clientv3.Op) int64 {
	return reflect.ValueOf(op).FieldByName("leaseID").Int()
}
'''
RG=RG.replace('	"context"\n','	"context"\n	"reflect"\n',1)+LE
P='common/registry/'
if __name__=='__main__':
 seed('c30-first-lease','C30','the lease of a running server is lost (etcd unreachable for longer than the ttl) and a new one is granted',
 'the server registers again under the lease that is gone: it is not found any more, or not removed when it dies',
 'common','registry',RG+'''
func TestVerif(t *testing.T) {
	f, cli := newFake()
	r := NewEtcdRegistry(cli, conf("objectserver", "o1", "10.0.0.1"))
	r.Register(1)
	f.expire(1)
	r.Register(2)
	if len(f.keys()) != 1 {
		t.Fatal(f.keys())
	}
	f.expire(2)
	if len(f.keys()) != 0 {
		t.Fatal("a dead server stays registered", f.keys())
	}
}
''',[(P+'etcd_registry.go','''	addr    string
}
''','''	addr    string
	lease   clientv3.LeaseID
}
'''),(P+'etcd_registry.go','''	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(id)); err != nil {
''','''	if e.lease == clientv3.NoLease {
		e.lease = id
	}
	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(e.lease)); err != nil {
''')])
 seed('c30-old-role','C30','a metadata server becomes the leader',
 'the key of the old role stays registered: the server is listed as a follower and as the leader',
 'metaserver','internal/usecase/logic',RG.replace('package registry','package logic').replace('	"context"\n','	"common/registry"\n	"context"\n	"metaserver/internal/usecase/pool"\n',1).replace('*Config','*registry.Config').replace('&Config','&registry.Config')+'''
func TestVerif(t *testing.T) {
	f, cli := newFake()
	pool.Registry = registry.NewEtcdRegistry(cli, conf("metaserver", "m1", "10.0.0.1"))
	pool.Lifecycle = registry.NewLifecycle(nil, time.Second)
	pool.Registry.AsSlave().Register(1)
	for i := 0; i < 3; i++ {
		NewRegistry().OnLeaderChanged(i%2 == 0)
		if ks := f.keys(); len(ks) != 1 || strings.HasSuffix(ks[0], "_master") != (i%2 == 0) {
			t.Fatal(ks)
		}
	}
	eventually(t, "", func() bool { f.rev++; return true })
}
''',[('metaserver/internal/usecase/logic/registry_logic.go','''	pool.Registry.Unregister()
	if isLeader {
		pool.Registry.AsMaster().Register(pool.Lifecycle.Lease())
	} else {
		pool.Registry.AsSlave().Register(pool.Lifecycle.Lease())
	}
''','''	reg := pool.Registry
	if isLeader {
		reg = reg.AsMaster()
	} else {
		reg = reg.AsSlave()
	}
	reg.Unregister()
	reg.Register(pool.Lifecycle.Lease())
''')])
 seed('c30-same-address','C30','a server comes back under another key (id or role) at its old address before its old key is removed',
 'the addition is dropped as a duplicate and the removal that follows makes the running server disappear',
 'common','registry',RG+'''
func TestVerif(t *testing.T) {
	f, cli := newFake()
	d := NewEtcdDiscovery(cli, conf("apiserver", "a1", "10.0.0.9", "metaserver"))
	defer d.Close()
	f.watched(t)
	ctx := context.Background()
	f.Put(ctx, "g/registry/metaserver/m1_slave", "10.0.0.1:1")
	eventually(t, "not found", func() bool { return len(d.GetServices("metaserver")) == 1 })
	f.Put(ctx, "g/registry/metaserver/m1_master", "10.0.0.1:1")
	f.Delete(ctx, "g/registry/metaserver/m1_slave")
	f.Put(ctx, "g/registry/metaserver/m2", "10.0.0.2:1")
	eventually(t, "not found", func() bool { return d.GetServiceMapping("metaserver")["m2"] != "" })
	if d.GetServiceMapping("metaserver")["m1"] == "" {
		t.Fatal("a running server is not found")
	}
}
''',[(P+'service_list.go','''	defer s.lock.Unlock()
	s.data[key] = ip
''','''	defer s.lock.Unlock()
	for _, addr := range s.data {
		if addr == ip {
			return
		}
	}
	s.data[key] = ip
''')])
 seed('c30-lost-removal','C30','a server that registered more than once under its key (it got a new lease) stops',
 'it is only removed from the list if its address is known from the event, which it never is: servers that are gone are offered for ever',
 'common','registry',RG+'''
func TestVerif(t *testing.T) {
	f, cli := newFake()
	d := NewEtcdDiscovery(cli, conf("apiserver", "a1", "10.0.0.9", "metaserver"))
	defer d.Close()
	f.watched(t)
	ctx := context.Background()
	f.Put(ctx, "g/registry/metaserver/m1", "10.0.0.1:1")
	f.Put(ctx, "g/registry/metaserver/m1", "10.0.0.1:1")
	f.Put(ctx, "g/registry/metaserver/m2", "10.0.0.2:1")
	eventually(t, "not found", func() bool { return len(d.GetServices("metaserver")) == 2 })
	f.Delete(ctx, "g/registry/metaserver/m1")
	eventually(t, "still listed", func() bool { return len(d.GetServices("metaserver")) == 1 })
}
''',[(P+'service_list.go','''type serviceList struct {
	data map[string]string // key=address value=registered key
''','''type serviceList struct {
	uses map[string]int
	data map[string]string // key=address value=registered key
'''),(P+'service_list.go','''	return &serviceList{make(map[string]string), &sync.RWMutex{}}
''','''	return &serviceList{make(map[string]int), make(map[string]string), &sync.RWMutex{}}
'''),(P+'service_list.go','''	return &serviceList{mp, &sync.RWMutex{}}
''','''	return &serviceList{make(map[string]int), mp, &sync.RWMutex{}}
'''),(P+'service_list.go','''	s.data[key] = ip
''','''	s.data[key] = ip
	s.uses[key]++
'''),(P+'service_list.go','''	delete(s.data, registerKey)
''','''	if s.uses[registerKey]--; s.uses[registerKey] <= 0 {
		delete(s.data, registerKey)
	}
''')])
