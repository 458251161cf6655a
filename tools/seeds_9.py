from seedlib import seed
import re
src=open('seeds_7.py').read()
DS=re.search(r"DS='''(.*?)'''",src,re.S).group(1)
SVC=DS.replace('PKG','service')
def imp(s,*names): return s.replace('import (','import (\n\t'+'\n\t'.join('"%s"'%n for n in names),1)
AP='apiserver/internal/'
if __name__ == '__main__':
 seed('c17-copy-quorum','C17','one of several storage nodes refuses the bytes of a replicated upload, the others take them',
 'the upload is acknowledged although a copy that is recorded misses data',
 'apiserver','internal/usecase/service',SVC+'''
type okWriter struct{}

func (okWriter) Write(b []byte) (int, error) { return len(b), nil }
func (okWriter) Close() error                { return nil }

type badWriter struct{ okWriter }

func (badWriter) Write(b []byte) (int, error) { return 0, errors.New("disk full") }

func TestVerif(t *testing.T) {
	newEnv(t)
	for i := 0; i < 3; i++ {
		ws := []io.WriteCloser{okWriter{}, okWriter{}, okWriter{}}
		ws[i] = badWriter{}
		c := &CopyPutStream{writers: ws, rpConfig: pool.Config.Object.Replication, cache: []byte("0123456789")}
		if err := c.Flush(); err == nil {
			t.Fatal("a copy was not written, but no error reported", i)
		}
	}
}
''',[(AP+'usecase/service/copy_put_stream.go','''	dg := util.NewDoneGroup()
	for _, wt := range c.writers {
		dg.Todo()
		go func(writer io.Writer) {
			defer dg.Done()
			if _, inner := writer.Write(c.cache); inner != nil {
				dg.Error(inner)
				return
			}
		}(wt)
	}
	return dg.WaitUntilError()
''','''	dg := util.NewWaitGroup()
	failures := make([]error, len(c.writers))
	for i, wt := range c.writers {
		dg.Todo()
		go func(idx int, writer io.Writer) {
			defer dg.Done()
			_, failures[idx] = writer.Write(c.cache)
		}(i, wt)
	}
	dg.Wait()
	for _, inner := range failures {
		if inner == nil {
			return nil
		}
	}
	return failures[0]
''')])
 seed('c17-parity-best-effort','C17','a storage node that holds a parity shard fails in the middle of an upload',
 'the upload is acknowledged although the parity shard is truncated: the redundancy promised for the object is not there',
 'apiserver','internal/usecase/service',SVC+'''
type okWriter struct{}

func (okWriter) Write(b []byte) (int, error) { return len(b), nil }
func (okWriter) Close() error                { return nil }

type badWriter struct{ okWriter }

func (badWriter) Write(b []byte) (int, error) { return 0, errors.New("disk full") }

func TestVerif(t *testing.T) {
	newEnv(t)
	for i := 0; i < 6; i++ {
		ws := make([]io.WriteCloser, 6)
		for j := range ws {
			ws[j] = okWriter{}
		}
		ws[i] = badWriter{}
		p := &RSPutStream{NewEncoder(ws, &pool.Config.Object.ReedSolomon)}
		if _, err := p.Write([]byte("0123456789")); err != nil {
			t.Fatal(err)
		}
		if err := p.Commit(true); err == nil {
			t.Fatal("a shard was not written, but no error reported", i)
		}
	}
}
''',[(AP+'usecase/service/rs_encoder.go','''				n, inner := e.writers[idx].Write(val)
				if inner != nil {
					dg.Error(inner)
					return
				}
				atomic.AddInt32(&size, int32(n))
			}(i+e.rsConfig.DataShards, v)
''','''				n, _ := e.writers[idx].Write(val)
				atomic.AddInt32(&size, int32(n))
			}(i+e.rsConfig.DataShards, v)
''')])
AU='''
package auth

import (
	"apiserver/internal/usecase/componet/auth/credential"
	"common/util"
	"context"
	"errors"
	"net"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

var _ = net.Listen
var _ = errors.New

type fakeKV struct {
	clientv3.KV
	val []byte
	err error
}

func (f *fakeKV) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if f.err != nil {
		return nil, f.err
	}
	r := &clientv3.GetResponse{}
	if f.val != nil {
		r.Kvs = append(r.Kvs, &mvccpb.KeyValue{Value: f.val})
	}
	return r, nil
}

func (f *fakeKV) Put(_ context.Context, _, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	f.val = []byte(val)
	return nil, nil
}

// ask sends a request through the middleware and tells whether the handler ran
func ask(cfg *Config, kv clientv3.KV, prepare func(*http.Request)) (bool, int) {
	gin.SetMode(gin.ReleaseMode)
	eng := gin.New()
	eng.Use(gin.RecoveryWithWriter(nil))
	ran := false
	g := eng.Group("/v1", AuthenticationMiddleware(cfg, NewCallbackValidator(&cfg.Callback), NewPasswordValidator(kv, &cfg.Password))...)
	g.GET("/x/:name", func(c *gin.Context) { ran = true; c.Status(200) })
	req := httptest.NewRequest("GET", "http://b.host/v1/x/o", nil)
	if prepare != nil {
		prepare(req)
	}
	w := httptest.NewRecorder()
	eng.ServeHTTP(w, req)
	return ran, w.Code
}

func stored(name, pwd string) []byte {
	bt, _ := util.EncodeMsgp(&credential.AdminCredential{Username: name, Password: pwd})
	return bt
}
'''
if __name__ == '__main__':
 seed('c15-either-matches','C15','a request gives the right name with a wrong password, or the other way round',
 'every request that knows the name of the administrator is let in',
 'apiserver','internal/usecase/componet/auth',AU+'''
func TestVerif(t *testing.T) {
	cfg := &Config{Enable: true, Password: PasswordConfig{Enable: true}}
	kv := &fakeKV{val: stored("admin", "secret")}
	for _, cr := range [][3]string{{"admin", "secret", "yes"}, {"admin", "wrong"}, {"other", "secret"}, {"other", "wrong"}, {"", ""}} {
		ran, code := ask(cfg, kv, func(r *http.Request) { r.SetBasicAuth(cr[0], cr[1]) })
		if ran != (cr[2] == "yes") {
			t.Fatal(cr, ran, code)
		}
	}
}
''',[(AP+'usecase/componet/auth/password_validator.go','''	if token.GetUsername() != admin.Username || token.GetPassword() != admin.Password {
''','''	if token.GetUsername() != admin.Username && token.GetPassword() != admin.Password {
''')])
 seed('c15-callback-down-open','C15','the callback server cannot be reached (refused connection, timeout)',
 'while the callback server is down, requests are let in without being checked',
 'apiserver','internal/usecase/componet/auth',AU+'''
func TestVerif(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	cfg := &Config{Enable: true, Callback: CallbackConfig{Enable: true, Url: "http://" + addr}}
	if ran, code := ask(cfg, &fakeKV{}, nil); ran {
		t.Fatal("let in without an answer of the callback", code)
	}
}
''',[(AP+'usecase/componet/auth/callback_validator.go','''	err := cv.Verify(token)
	return err == nil, err
''','''	err := cv.Verify(token)
	// only answers of the callback count, not failures to ask
	var denied response.IErr
	if err != nil && !errors.As(err, &denied) {
		return true, nil
	}
	return err == nil, err
'''),(AP+'usecase/componet/auth/callback_validator.go','import (','import (\n\t"errors"')])
 seed('c15-no-credential-open','C15','no credential is stored in etcd (new cluster, or it was removed) while password authentication is on',
 'any name and password is accepted until a credential is stored',
 'apiserver','internal/usecase/componet/auth',AU+'''
func TestVerif(t *testing.T) {
	cfg := &Config{Enable: true, Password: PasswordConfig{Enable: true}}
	if ran, code := ask(cfg, &fakeKV{}, func(r *http.Request) { r.SetBasicAuth("any", "thing") }); ran {
		t.Fatal("let in although no credential is stored", code)
	}
}
''',[(AP+'usecase/componet/auth/password_validator.go','''	if len(resp.Kvs) == 0 {
		return errors.New("no api-credential provided from etcd")
	}
	var admin credential.AdminCredential
	if err = util.DecodeMsgp(&admin, resp.Kvs[0].Value); err != nil {
		return err
	}
''','''	admin := credential.AdminCredential{Username: token.GetUsername(), Password: token.GetPassword()}
	for _, kv := range resp.Kvs {
		if err = util.DecodeMsgp(&admin, kv.Value); err != nil {
			return err
		}
	}
'''),(AP+'usecase/componet/auth/password_validator.go','''	"errors"
''','')])
