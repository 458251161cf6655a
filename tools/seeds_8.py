from seedlib import seed
seed('c35-canceled-is-ok','C35','A metadata server answers with the status "canceled", because the request was dropped on its way (its stream was reset, or the server is shutting down).',
 'Every request of the API server to a metadata server whose answer has that status counts as successful, although nothing was done: an upload is acknowledged without its version.',
 'common','proto','''
package proto

import (
	"testing"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func TestVerifResolveErr(t *testing.T) {
	if err := ResolveErr(nil); err != nil {
		t.Fatal(err)
	}
	for c := codes.Code(1); c < 17; c++ {
		if err := ResolveErr(status.Error(c, "no")); err == nil {
			t.Fatalf("code %s counts as success", c)
		}
	}
}
''',[('common/proto/generate.go','''	case codes.OK:
		return nil
''','''	case codes.OK, codes.Canceled:
		// nobody waits for the answer any more
		return nil
''')])
seed('c35-put-tmp-server-error','C35','A storage node fails with a server error (status 5xx) when a finished upload is made permanent.',
 'Committing the shard counts as successful although the node kept nothing: the upload is acknowledged and its version recorded.',
 'apiserver','internal/usecase/webapi','''
package webapi

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

func TestVerifPutTmpObject(t *testing.T) {
	code := 200
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) })
	s := httptest.NewServer(h2c.NewHandler(h, &http2.Server{}))
	defer s.Close()
	addr := strings.TrimPrefix(s.URL, "http://")
	if err := PutTmpObject(addr, "id", false); err != nil {
		t.Fatal(err)
	}
	for _, code = range []int{400, 403, 404, 409, 500, 503, 507} {
		if err := PutTmpObject(addr, "id", false); err == nil {
			t.Fatalf("status %d counts as success", code)
		}
	}
}
''',[('apiserver/internal/usecase/webapi/object_server.go','''	if resp.StatusCode == http.StatusBadRequest {
		content, err := io.ReadAll(resp.Body)
		if err != nil {
			content = util.StrToBytes(resp.Status)
		}
		return fmt.Errorf("put temp object id=%v, return content=%v", id, string(content))
	}
	if resp.StatusCode != http.StatusOK {
		return fmt.Errorf("put temp object id=%v, return code=%v", id, resp.Status)
	}
''','''	if resp.StatusCode/100 == 4 {
		content, err := io.ReadAll(resp.Body)
		if err != nil {
			content = util.StrToBytes(resp.Status)
		}
		return fmt.Errorf("put temp object id=%v, return code=%v, content=%v", id, resp.Status, string(content))
	}
''')])
