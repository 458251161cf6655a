from seedlib import seed
HA='adminserver/internal/controller/http/'
CON='''package http

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"common/registry"
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gin-contrib/sessions"
	"github.com/gin-contrib/sessions/cookie"
	"github.com/gin-gonic/gin"
	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type fakeEtcd struct {
	clientv3.KV
	clientv3.Watcher
	kvs map[string]string
}

func (f *fakeEtcd) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &etcdserverpb.ResponseHeader{Revision: 1}}
	for k, v := range f.kvs {
		if strings.HasPrefix(k, key) {
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v)})
		}
	}
	return res, nil
}

func (f *fakeEtcd) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

func (f *fakeEtcd) Close() error { return nil }

// newConsole is a console with one API server.
func newConsole(t *testing.T, api http.HandlerFunc) http.Handler {
	s := httptest.NewServer(api)
	t.Cleanup(s.Close)
	f := &fakeEtcd{kvs: map[string]string{"g/registry/api/a": strings.TrimPrefix(s.URL, "http://")}}
	cfg := &config.Config{}
	cfg.Discovery.ApiServName = "api"
	cfg.Discovery.DataServName = "data"
	cfg.Discovery.MetaServName = "meta"
	pool.Config = cfg
	pool.Http = &http.Client{}
	rc := &registry.Config{ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "a", Group: "g", Name: "admin", Services: []string{"api"}}
	pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: f, Watcher: f}, rc)
	t.Cleanup(func() { pool.Discovery.Close() })
	for i := 0; pool.Discovery.GetServiceCount("api") < 1; i++ {
		if i > 500 {
			t.Fatal("server not discovered")
		}
		time.Sleep(10 * time.Millisecond)
	}
	eng := gin.New()
	eng.Use(gin.Recovery(), sessions.Sessions("s", cookie.NewStore([]byte("0123456789abcdef"))), SaveToken)
	CheckCredential(eng)
	ClearCredential(eng)
	NewMetadataController().Register(eng)
	NewObjectsController().Register(eng)
	return eng
}

func ask(h http.Handler, method, url, token, cookie string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, url, nil)
	if token != "" {
		r.Header.Set("Authorization", token)
	}
	if cookie != "" {
		r.Header.Set("Cookie", cookie)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}
'''
if __name__=='__main__':
 seed('c40-late-guard','C40','a request without a credential asks a data server to join or leave the cluster',
 'the routes that make a data server join and leave are registered before the handler that asks for the credential: anybody can take servers out of the cluster',
 'adminserver','internal/controller/http',CON+'''
func TestVerif(t *testing.T) {
	h := newConsole(t, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(http.StatusForbidden) })
	for _, u := range []string{"/objects/join/x", "/objects/leave/x"} {
		if w := ask(h, "POST", u, "", ""); w.Code != http.StatusForbidden {
			t.Fatalf("%s: %d %s", u, w.Code, w.Body)
		}
	}
	if w := ask(h, "GET", "/objects/config/x", "", ""); w.Code != http.StatusForbidden {
		t.Fatal(w.Code, w.Body)
	}
}
''',[(HA+'object.go','''	route.Group("objects").Use(RequireToken).
		GET("/download/:name", oc.Download).
		PUT("/upload", oc.Upload).
		POST("/join/:serverId", oc.Join).
		POST("/leave/:serverId", oc.Leave).
		GET(''','''	rt := route.Group("objects")
	rt.POST("/join/:serverId", oc.Join)
	rt.POST("/leave/:serverId", oc.Leave)
	rt.Use(RequireToken).
		GET("/download/:name", oc.Download).
		PUT("/upload", oc.Upload).
		GET(''')])
 seed('c40-check-failing','C40','the API server that is asked cannot check the credential (its store is down) and answers with a failure of its own',
 'any answer but "unauthorized" counts as a confirmed credential: while the check fails, every credential is accepted',
 'adminserver','internal/controller/http',CON+'''
func TestVerif(t *testing.T) {
	code := 200
	h := newConsole(t, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) })
	for code = range map[int]bool{401: true, 403: true, 500: true, 502: true, 503: true} {
		if w := ask(h, "POST", "/login", "Basic x", ""); w.Code == 200 {
			t.Fatalf("accepted though the check ended with %d", code)
		}
	}
	code = 200
	if w := ask(h, "POST", "/login", "Basic x", ""); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
}
''',[('adminserver/internal/usecase/webapi/api_server.go','''	if resp.StatusCode != http.StatusOK {
		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
	}
	return nil
}

func CreateBucket''','''	if resp.StatusCode == http.StatusUnauthorized || resp.StatusCode == http.StatusForbidden {
		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
	}
	return nil
}

func CreateBucket''')])
 seed('c40-session-stays','C40','a second user gives another credential in a browser in which somebody has used the console before',
 'the session keeps the first credential: what the second user does is done as the first one',
 'adminserver','internal/controller/http',CON+'''
func TestVerif(t *testing.T) {
	last := ""
	h := newConsole(t, func(w http.ResponseWriter, r *http.Request) {
		last = r.Header.Get("Authorization")
		w.WriteHeader(http.StatusOK)
	})
	w := ask(h, "POST", "/login", "Basic first", "")
	if w.Code != 200 || last != "Basic first" {
		t.Fatal(w.Code, last)
	}
	ck, _, _ := strings.Cut(w.Header().Get("Set-Cookie"), ";")
	if w = ask(h, "POST", "/login", "Basic second", ck); w.Code != 200 || last != "Basic second" {
		t.Fatalf("%d, asked as %s", w.Code, last)
	}
}
''',[(HA+'auth.go','''	if originToken != nil && originToken.(string) == authToken {''','''	if tk, ok := originToken.(string); ok && tk != "" {''')])
