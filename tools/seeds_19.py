from seedlib import seed
SL='''
package registry

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

var (
	_ = fmt.Sprint
	_ sync.Mutex
)

func within(t *testing.T, d time.Duration, fn func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fn()
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("still waiting: something is blocked for ever")
	}
}

'''
S='common/registry/service_list.go'
seed("c27-copy-unlocked","C27","requests that look servers up by id while a server registers: the map is iterated while it is written, which ends the process",
 "copy() of a service list walks the map of servers without the lock that add and remove hold","common","registry",SL+'''
func TestVerifLookupWhileRegistering(t *testing.T) {
	s := newServiceList()
	for i := 0; i < 200; i++ {
		s.add("addr", fmt.Sprint("g/s/", i))
	}
	var wg sync.WaitGroup
	end := time.Now().Add(4 * time.Second)
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func(g int) {
			defer wg.Done()
			for i := 0; time.Now().Before(end); i++ {
				k := fmt.Sprint("g/s/", 1000*g+i%300)
				s.add("addr", k)
				s.remove(k)
			}
		}(g + 1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				if len(s.copy()) < 200 {
					t.Error("lost servers")
				}
			}
		}()
	}
	within(t, 20*time.Second, wg.Wait)
}
''',[(S,'''	s.lock.RLock()
	defer s.lock.RUnlock()
	ls := make(map[string]string, len(s.data))
	for k, v''','''	s.lock.RLock()
	ls := make(map[string]string, len(s.data))
	s.lock.RUnlock()
	for k, v''')])
seed("c27-remove-returns","C27","a removal of a key that is not (or no longer) listed, then any other use of the list",
 "remove() of a service list returns early for an unknown key and leaves the lock held: every lookup after that blocks for ever","common","registry",SL+'''
func TestVerifRemovedTwice(t *testing.T) {
	s := newServiceList()
	s.add("a", "g/s/1")
	s.add("b", "g/s/2")
	within(t, 10*time.Second, func() {
		s.remove("g/s/1")
		s.remove("g/s/1")
		s.remove("g/s/9")
		s.add("c", "g/s/3")
		if l := s.list(); len(l) != 2 {
			t.Errorf("listed %v", l)
		}
	})
}
''',[(S,'''	s.lock.Lock()
	defer s.lock.Unlock()
	delete(s.data, registerKey)
''','''	s.lock.Lock()
	if _, ok := s.data[registerKey]; !ok {
		return
	}
	delete(s.data, registerKey)
	s.lock.Unlock()
''')])
seed("c27-flush-unlocked","C27","performance records put by several requests at the moment the buffer is full",
 "a full buffer of performance records is flushed after the lock of the collector was given back: records put at the same time are saved twice or lost","common","performance",'''
package performance

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type countStore struct {
	Store
	busy, overlaps, saved int64
}

func (c *countStore) Put(pm []*Perform) error {
	if atomic.AddInt64(&c.busy, 1) > 1 {
		atomic.AddInt64(&c.overlaps, 1)
	}
	time.Sleep(50 * time.Microsecond)
	atomic.AddInt64(&c.saved, int64(len(pm)))
	atomic.AddInt64(&c.busy, -1)
	return nil
}

func TestVerifEveryRecordSavedOnce(t *testing.T) {
	st := &countStore{}
	SetLocalStore(st)
	c := NewCollector(&Config{Enable: true, Store: Local, FlushInterval: time.Hour, MaxInMemory: 3, FlushWhenReached: true})
	var wg sync.WaitGroup
	const n, each = 16, 300
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				if err := c.Put(ActionRead, fmt.Sprint(KindOfHTTP), time.Second); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
	if err := c.Close(); err != nil {
		t.Fatal(err)
	}
	if st.saved != n*each || st.overlaps > 0 {
		t.Fatalf("%d records were put, %d saved, %d flushes ran into each other", n*each, st.saved, st.overlaps)
	}
}
''',[('common/performance/collector.go','''	c.mux.Lock()
	defer c.mux.Unlock()
	c.memData = append(c.memData, &Perform{
		KindOf: kindOf,
		Action: action,
		Cost:   cost,
	})
	if len(c.memData) > c.conf.MaxInMemory {
''','''	c.mux.Lock()
	c.memData = append(c.memData, &Perform{
		KindOf: kindOf,
		Action: action,
		Cost:   cost,
	})
	full := len(c.memData) > c.conf.MaxInMemory
	c.mux.Unlock()
	if full {
''')])
seed("c27-paging-loopvar","C27","an admin lists metadata with more than one metadata group",
 "the goroutines that ask each metadata group use the loop variable: by the time they run it may name another group, so that one is asked twice and another never","adminserver","internal/usecase/logic",'''
package logic

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"common/registry"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type fakeEtcd struct {
	clientv3.KV
	clientv3.Watcher
	kvs map[string]string
}

func (f *fakeEtcd) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &etcdserverpb.ResponseHeader{Revision: 1}}
	for k, v := range f.kvs {
		if strings.HasPrefix(k, key) {
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v)})
		}
	}
	return res, nil
}

func (f *fakeEtcd) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

func (f *fakeEtcd) Close() error { return nil }

func TestVerifEveryGroupIsListed(t *testing.T) {
	f := &fakeEtcd{kvs: map[string]string{}}
	const n = 5
	for i := 0; i < n; i++ {
		i := i
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-Total-Count", "1")
			w.Header().Set("Content-Type", "application/json")
			fmt.Fprintf(w, `[{"name":"object-%d","bucket":"b"}]`, i)
		}))
		defer s.Close()
		f.kvs[fmt.Sprintf("g/registry/meta/m%d_master", i)] = strings.TrimPrefix(s.URL, "http://")
	}
	cfg := &config.Config{}
	cfg.Discovery.MetaServName = "meta"
	pool.Config = cfg
	pool.Http = &http.Client{}
	rc := &registry.Config{ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "a", Group: "g", Name: "admin", Services: []string{"meta"}}
	pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: f, Watcher: f}, rc)
	defer pool.Discovery.Close()
	for i := 0; pool.Discovery.GetServiceCount("meta") < n; i++ {
		if i > 500 {
			t.Fatal("servers not discovered")
		}
		time.Sleep(10 * time.Millisecond)
	}
	for i := 0; i < 20; i++ {
		lst, total, err := NewMetadata().MetadataPaging(&MetadataCond{Page: 1, PageSize: 100})
		if err != nil {
			t.Fatal(err)
		}
		seen := map[string]bool{}
		for _, m := range lst {
			seen[m.Name] = true
		}
		if len(seen) != n || total != n {
			t.Fatalf("%d groups hold one object each, listed %v", n, seen)
		}
	}
}
''',[('adminserver/internal/usecase/logic/metadata_logic.go','''		go func(loc string) {
			defer dg.Done()
			key := util''','''		go func() {
			defer dg.Done()
			key := util'''),('adminserver/internal/usecase/logic/metadata_logic.go','''webapi.ListMetadata(loc, key''','''webapi.ListMetadata(ip, key'''),
 ('adminserver/internal/usecase/logic/metadata_logic.go','''			lst = append(lst, data...)
		}(ip)
	}
	if err := dg.WaitUntilError(); err != nil {
		return nil, 0, err
	}
	sort.Slice(lst, func(i, j int) bool {
		return lst[i].ID() < lst[j].ID()
	})
	if''','''			lst = append(lst, data...)
		}()
	}
	if err := dg.WaitUntilError(); err != nil {
		return nil, 0, err
	}
	sort.Slice(lst, func(i, j int) bool {
		return lst[i].ID() < lst[j].ID()
	})
	if''')])
