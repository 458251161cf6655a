from seedlib import seed
AP='apiserver/internal/'
if __name__ == '__main__':
 seed('c25-config-auth-off','C25','an administrator password is configured while authentication is switched off',
 'the configuration page shows the administrator password in clear',
 'apiserver','internal/controller/http','''package http

import (
	"apiserver/config"
	"apiserver/internal/usecase/pool"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestVerif(t *testing.T) {
	for _, enable := range []bool{true, false} {
		cfg := &config.Config{}
		cfg.Etcd.Username, cfg.Etcd.Password = "etcdUser", "etcdWord"
		cfg.Log.Email.Password = "mailWord"
		cfg.Object.DistinctSize, cfg.Object.Replication.BlockSize = 1024, 4096
		cfg.Auth.Enable = enable
		cfg.Auth.Password.Username, cfg.Auth.Password.Password = "adminUser", "adminWord"
		pool.Config = cfg
		w := httptest.NewRecorder()
		c, _ := gin.CreateTestContext(w)
		Config(c)
		for _, s := range []string{"etcdUser", "etcdWord", "mailWord", "adminUser", "adminWord"} {
			if strings.Contains(w.Body.String(), s) {
				t.Fatalf("%s is shown (auth %v)", s, enable)
			}
		}
		if cfg.Etcd.Password != "etcdWord" || cfg.Auth.Password.Password != "adminWord" {
			t.Fatal("the running configuration was changed")
		}
	}
}
''',[(AP+'controller/http/internal_api.go','''	conf.Auth.Password.Password = "*****"
	conf.Auth.Password.Username = "*****"
''','''	if conf.Auth.Enable {
		conf.Auth.Password.Password = "*****"
		conf.Auth.Password.Username = "*****"
	}
''')])
 seed('c25-config-shared','C25','the configuration of a storage node is looked at, and its credentials are used again later',
 'showing the configuration overwrites the passwords the running node uses',
 'objectserver','internal/controller/grpc','''package grpc

import (
	"common/proto/pb"
	"context"
	"objectserver/config"
	"objectserver/internal/usecase/pool"
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	cfg := &config.Config{}
	cfg.Etcd.Username, cfg.Etcd.Password = "etcdUser", "etcdWord"
	cfg.Log.Email.Password = "mailWord"
	cfg.Cache.MaxItemSize, cfg.Cache.MaxSize = 1024, 4096
	pool.Config = cfg
	for i := 0; i < 2; i++ {
		resp, err := new(ConfigServiceServer).GetConfig(context.Background(), new(pb.EmptyReq))
		if err != nil {
			t.Fatal(err)
		}
		for _, s := range []string{"etcdUser", "etcdWord", "mailWord"} {
			if strings.Contains(string(resp.YamlEncode), s) {
				t.Fatalf("%s is shown", s)
			}
		}
	}
	if cfg.Etcd.Password != "etcdWord" || cfg.Log.Email.Password != "mailWord" {
		t.Fatal("the running configuration was changed")
	}
}
''',[('objectserver/internal/controller/grpc/config_service.go','''	conf := *pool.Config
''','''	conf := pool.Config
'''),('objectserver/internal/controller/grpc/config_service.go','yaml.Marshal(&conf)','yaml.Marshal(conf)')])
 seed('c25-login-error','C25','a login with a wrong password',
 'the answer (and whatever logs it) repeats the password that was tried, often that of another system',
 'apiserver','internal/usecase/componet/auth','''package auth

import (
	"apiserver/internal/usecase/componet/auth/credential"
	"common/util"
	"context"
	"net/http"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type kv struct {
	clientv3.KV
	val []byte
}

func (k *kv) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Kvs: []*mvccpb.KeyValue{{Value: k.val}}}, nil
}

func TestVerif(t *testing.T) {
	bt, _ := util.EncodeMsgp(&credential.AdminCredential{Username: "admin", Password: "storedWord"})
	pv := NewPasswordValidator(&kv{val: bt}, &PasswordConfig{Enable: true})
	for _, word := range []string{"storedWord", "triedWord"} {
		req, _ := http.NewRequest("GET", "/", nil)
		req.SetBasicAuth("admin", word)
		ok, err := pv.Middleware(&gin.Context{Request: req})
		if ok != (word == "storedWord") || (err == nil) != ok {
			t.Fatal(word, ok, err)
		}
		if err != nil && (strings.Contains(err.Error(), "storedWord") || strings.Contains(err.Error(), "triedWord")) {
			t.Fatal(err)
		}
	}
}
''',[(AP+'usecase/componet/auth/password_validator.go','''		return response.NewError(http.StatusUnauthorized, "username or password wrong")
''','''		return response.NewError(http.StatusUnauthorized, fmt.Sprintf("%v: username or password wrong", token))
'''),(AP+'usecase/componet/auth/password_validator.go','''	"errors"
''','''	"errors"
	"fmt"
''')])
