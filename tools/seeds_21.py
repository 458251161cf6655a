from seedlib import seed
MC='metaserver/internal/controller/'
if __name__ == '__main__':
 seed('c26-delete-version-unclassified','C26','deleting a version fails with an error that has no status of its own (disk, raft)',
 'the metadata server answers a failed removal of a version with 204: the version is thought to be gone',
 'metaserver','internal/controller/http','''package http

import (
	"common/proto/msg"
	"errors"
	"metaserver/internal/usecase"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

type failing struct {
	usecase.IMetadataService
	err error
}

func (f failing) RemoveVersion(string, int) error { return f.err }

var _ msg.Version

func TestVerif(t *testing.T) {
	for _, err := range []error{usecase.ErrNotFound, usecase.ErrReadOnly, errors.New("disk full"), nil} {
		w := httptest.NewRecorder()
		e := gin.New()
		NewVersionController(failing{err: err}).RegisterRoute(e)
		e.ServeHTTP(w, httptest.NewRequest("DELETE", "/metadata_version/a?version=1", nil))
		if (w.Code/100 == 2) != (err == nil) {
			t.Fatalf("%v is answered with %d", err, w.Code)
		}
	}
}
''',[(MC+'http/version_rest.go','''		if err := v.service.RemoveVersion(g.Param("name"), ver); err != nil {
			response.FailErr(err, g)
			return
		}
		response.NoContent(g)
''','''		err := v.service.RemoveVersion(g.Param("name"), ver)
		if failure, ok := err.(response.IErr); ok {
			response.FailErr(failure, g)
			return
		}
		response.NoContent(g)
''')])
 seed('c26-lookup-kind-lost','C26','a bucket that does not exist is asked for over gRPC',
 'the API server takes a missing bucket for an internal failure: the kind of the failure does not get through the remote call',
 'metaserver','internal/controller/grpc','''package grpc

import (
	"common/proto"
	"common/proto/pb"
	"common/response"
	"context"
	"metaserver/internal/usecase"
	"testing"
)

type noBuckets struct{ usecase.BucketService }

func (noBuckets) GetBytes(string) ([]byte, error) { return nil, usecase.ErrNotFound }

func TestVerif(t *testing.T) {
	s := NewMetadataApiServer(nil, noBuckets{})
	_, err := s.GetBucket(context.Background(), &pb.MetaReq{Id: "b"})
	if err = proto.ResolveErr(err); !response.CheckErrStatus(404, err) {
		t.Fatalf("a missing bucket is told as %v", err)
	}
}
''',[(MC+'grpc/metadata_server.go','''	bt, err := m.BucketService.GetBytes(req.Id)
	if err != nil {
		return nil, response.GRPCError(err)
	}
''','''	bt, err := m.BucketService.GetBytes(req.Id)
	if err != nil {
		return nil, err
	}
''')])
 seed('c26-internal-status','C26','a handler fails with an error whose status says that the server is unavailable or read-only',
 'errors of class 5xx are answered with the status 200 (the helper that sends a body uses it whatever status was chosen)',
 'metaserver','internal/controller/http','''package http

import (
	"common/response"
	"errors"
	"metaserver/internal/usecase"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestVerif(t *testing.T) {
	for err, want := range map[error]int{usecase.ErrNotFound: 404, usecase.ErrReadOnly: 502, errors.New("x"): 500} {
		w := httptest.NewRecorder()
		c, _ := gin.CreateTestContext(w)
		c.Request = httptest.NewRequest("GET", "/", nil)
		response.FailErr(err, c)
		if w.Code != want {
			t.Fatalf("%v is answered with %d", err, w.Code)
		}
	}
}
''',[('common/response/response.go','''			logs.Std().Errorf("request(%s %s): [%T] %s", c.Request.Method, c.FullPath(), err, err)
			c.JSON(err.GetStatus(), &FailureResp{
				Message:    "system error",
				SubMessage: fmt.Sprintf("%T", err),
			})
		} else {''','''			logs.Std().Errorf("request(%s %s): [%T] %s", c.Request.Method, c.FullPath(), err, err)
			Exec(c).Status(err.GetStatus()).JSON(&FailureResp{
				Message:    "system error",
				SubMessage: fmt.Sprintf("%T", err),
			})
		} else {''')])
