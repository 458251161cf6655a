from seedlib import seed
from seeds_10 import OB,HC
AW='apiserver/internal/usecase/webapi/'
FAKE='''package webapi

import (
	"bytes"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

var _ = bytes.NewBuffer

// data answers as the data server does and keeps the last request.
func data(t *testing.T, last **http.Request) string {
	s := httptest.NewServer(h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		*last = r
		w.WriteHeader(http.StatusOK)
	}), &http2.Server{}))
	t.Cleanup(s.Close)
	return strings.TrimPrefix(s.URL, "http://")
}
'''
if __name__=='__main__':
 seed('c39-abort-status','C39','an upload is given up, so that its part on a data server is to be removed',
 'the API server takes the answer of the data server (200) for a failure: it expects 204 of it, which it never says',
 'apiserver','internal/usecase/webapi',FAKE+'''
func TestVerif(t *testing.T) {
	var r *http.Request
	if err := DeleteTmpObject(data(t, &r), "x"); err != nil {
		t.Fatalf("a removal that was done is taken for a failure: %v", err)
	}
}
''',[(AW+'object_server.go','''	if resp.StatusCode != http.StatusOK {
		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
	}
	return nil
}

func PostTmpObject''','''	if resp.StatusCode != http.StatusNoContent {
		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
	}
	return nil
}

func PostTmpObject''')])
 seed('c39-fix-compress','C39','the copies of an object of a bucket that compresses are repaired',
 'the API server asks for compression with a name the data server does not know, so that the repaired copy is stored uncompressed and cannot be read as compressed',
 'apiserver','internal/usecase/webapi',FAKE+'''
func TestVerif(t *testing.T) {
	var r *http.Request
	if err := PutObject(data(t, &r), "x", true, bytes.NewBufferString("a")); err != nil {
		t.Fatal(err)
	}
	if r.FormValue("compress") != "true" {
		t.Fatalf("asked: %v", r.URL)
	}
}
''',[(AW+'object_server.go','''	form.Set("compress", fmt.Sprint(compress))
	req, err := http.NewRequest(http.MethodPut,''','''	form.Set("compressed", fmt.Sprint(compress))
	req, err := http.NewRequest(http.MethodPut,''')])
 seed('c39-upload-name','C39','a file whose name has a question mark is uploaded through the console',
 'the name becomes part of the address as it is: what follows the question mark is taken for the query, and the object with the shorter name is replaced',
 'adminserver','internal/usecase/webapi','''package webapi

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	var path string
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		path = r.URL.Path
		w.WriteHeader(http.StatusCreated)
	}))
	defer s.Close()
	pool.Http = http.DefaultClient
	pool.Config = &config.Config{}
	err := PutObjects(strings.TrimPrefix(s.URL, "http://"), "a?b", "", "bk", strings.NewReader("x"), 1, "")
	if err != nil {
		t.Fatal(err)
	}
	if path != "/v1/objects/a?b" {
		t.Fatalf("stored at %s", path)
	}
}
''',[('adminserver/internal/usecase/webapi/api_server.go','''	name = url.PathEscape(name)
	req, err''','''	name = strings.TrimLeft(name, "/")
	req, err'''),('adminserver/internal/usecase/webapi/api_server.go','''	"net/url"
''','''	"net/url"
	"strings"
''')])
 seed('c39-resume-size','C39','an interrupted upload is resumed',
 'the data server tells how much it has under another header than the one the API server reads: the upload cannot be resumed',
 'objectserver','internal/controller/http',OB+'''
func TestVerif(t *testing.T) {
	s := newSrv(t)
	w := s.do("POST", "/temp/a.0", nil, 0, "Size", "8")
	id := w.Body.String()
	if w.Code != 200 {
		t.Fatal(w.Code, id)
	}
	if w = s.do("PATCH", "/temp/"+id, bytes.NewBufferString("12345678"), 8); w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
	if w = s.do("HEAD", "/temp/"+id, nil, 0); w.Header().Get("Size") != "8" {
		t.Fatalf("%d %v", w.Code, w.Header())
	}
}
''',[(HC+'temp/temp_rest.go','''		"Size": xmath.MinNumber(fi.Size(), ti.Size),''','''		"Content-Size": xmath.MinNumber(fi.Size(), ti.Size),'''),
 (HC+'temp/temp_rest.go','''OkHeader(gin.H{"Size": 0}, g)''','''OkHeader(gin.H{"Content-Size": 0}, g)''')])
