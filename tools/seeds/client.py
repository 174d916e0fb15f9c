CL="client.go"; CX="context.go"; TR="transport.go"; RA="ratus.go"
def go(body, imports=""):
    return '''package ratus_test

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var (
	_ = time.Now
	_ = fmt.Sprint
	_ = errors.Is
	_ = strings.Contains
	_ = io.ReadAll
	_ atomic.Int32
	_ sync.Mutex
	_ = json.Marshal
	_ context.Context
)

func demoClient(t *testing.T, o ratus.ClientOptions, h http.HandlerFunc) *ratus.Client {
	s := httptest.NewServer(h)
	t.Cleanup(s.Close)
	o.Origin = s.URL
	c, err := ratus.NewClient(&o)
	if err != nil {
		t.Fatal(err)
	}
	return c
}

''' + body

seed("client-bad-request-accepted", "C20", [(CL, "if res.StatusCode >= http.StatusBadRequest {", "if res.StatusCode > http.StatusBadRequest {")], ".", go('''func TestDemo(t *testing.T) {
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(400)
		io.WriteString(w, `{"error": {"code": 400, "message": "bad request"}}`)
	})
	if _, err := c.InsertTask(context.Background(), &ratus.Task{ID: "a"}); !errors.Is(err, ratus.ErrBadRequest) {
		t.Fatal(err)
	}
}
'''), "A request that the server rejects as malformed (400).", "The client reports success for a rejected request.")

seed("client-user-agent-forced", "C20", [(TR, '''	// Set common header fields.
	for k, v := range t.headers {''', '''	// Set User-Agent if it is not present.
	if _, ok := r.Header["User-Agent"]; !ok {
		r.Header.Set("User-Agent", "Ratus-Client")
	}

	// Set common header fields.
	for k, v := range t.headers {'''), (TR, '''	// Set User-Agent if it is not present.
	if _, ok := r.Header["User-Agent"]; !ok {
		r.Header.Set("User-Agent", "Ratus-Client")
	}

	// Execute''', '''	// Execute''')], ".", go('''func TestDemo(t *testing.T) {
	var got string
	c := demoClient(t, ratus.ClientOptions{Headers: map[string]string{"User-Agent": "worker/1"}}, func(w http.ResponseWriter, r *http.Request) {
		got = r.Header.Get("User-Agent")
		io.WriteString(w, `{}`)
	})
	if _, err := c.GetTask(context.Background(), "a"); err != nil || got != "worker/1" {
		t.Fatal(err, got)
	}
}
'''), "A client configured with its own User-Agent header.", "Configured user agents are not sent.")

seed("client-large-errors-lost", "C20", [(CL, '''	if res.StatusCode >= http.StatusBadRequest {
		var r Error
''', '''	if res.StatusCode >= http.StatusBadRequest {
		var r Error
		if res.ContentLength == 0 {
			return nil
		}
''')], ".", go('''func TestDemo(t *testing.T) {
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(503) })
	if _, err := c.DeleteTask(context.Background(), "a"); err == nil {
		t.Fatal("success")
	}
}
'''), "A proxy that answers with an error status and no body.", "Errors without a body are taken for successes.")

seed("error-message-mangled", "C21", [(RA, 'm := strings.TrimPrefix(e.Error.Message, err.Error())', 'm := strings.ReplaceAll(e.Error.Message, err.Error(), "")')], ".", go('''func TestDemo(t *testing.T) {
	var e ratus.Error
	e.Error.Code, e.Error.Message = 409, "conflict: task conflict-resolver is not pending"
	if err := e.Err(); !errors.Is(err, ratus.ErrConflict) || err.Error() != e.Error.Message {
		t.Fatal(err)
	}
}
'''), "A message that mentions the words of its class again.", "Parts of error messages are lost.")

seed("error-unknown-code-swallowed", "C21", [(RA, '''	default:
		return errors.New(e.Error.Message)
	}
''', '''	default:
		if e.Error.Message == "" {
			return nil
		}
		return errors.New(e.Error.Message)
	}
''')], ".", go('''func TestDemo(t *testing.T) {
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(502)
		io.WriteString(w, `{"message": "bad gateway"}`)
	})
	if _, err := c.DeleteTask(context.Background(), "a"); err == nil {
		t.Fatal("success")
	}
}
'''), "An error response in JSON that does not come from the server, from a gateway for example.", "The error is taken for a success.")

CTX = '''func demoTask(extra string) string {
	return `{"_id": "a", "topic": "t", "state": 1, "nonce": "n", "consumed": "2020-01-01T00:00:00Z", "deadline": "2020-01-01T01:00:00Z"` + extra + `}`
}

'''
seed("context-committed-early", "C22", [(CX, "	if _, err := ctx.client.PatchTask(", "	ctx.committed = true\n	if _, err := ctx.client.PatchTask("), (CX, "	// Update committed flag and cancel timeout on success.\n	ctx.committed = true\n", "	// Cancel timeout on success.\n")], ".", go(CTX + '''func TestDemo(t *testing.T) {
	n := 0
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) {
		if n++; n == 2 {
			w.WriteHeader(503)
			io.WriteString(w, `{"error": {"code": 503, "message": "service unavailable"}}`)
			return
		}
		io.WriteString(w, demoTask(""))
	})
	x, err := c.Poll(context.Background(), "t", &ratus.Promise{})
	if err != nil {
		t.Fatal(err)
	}
	if err := x.Commit(); !errors.Is(err, ratus.ErrServiceUnavailable) {
		t.Fatal(err)
	}
	if err := x.Commit(); err != nil || n != 3 {
		t.Fatal(err, n)
	}
}
'''), "A commit that fails, by a server that is briefly unavailable, and is then repeated.", "The repeated commit is reported as a success although nothing was committed.")

seed("context-cancelled-by-failure", "C22", [(CX, '''	if _, err := ctx.client.PatchTask(ctx.Context, ctx.Task.ID, &ctx.commit); err != nil {
		return err
	}

	// Update committed flag and cancel timeout on success.
	ctx.committed = true
	if ctx.cancel != nil {
		ctx.cancel()
	}
''', '''	_, err := ctx.client.PatchTask(ctx.Context, ctx.Task.ID, &ctx.commit)
	if ctx.cancel != nil {
		ctx.cancel()
	}
	if err != nil {
		return err
	}

	// Update committed flag on success.
	ctx.committed = true
''')], ".", go(CTX + '''func TestDemo(t *testing.T) {
	n := 0
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) {
		if n++; n == 2 {
			w.WriteHeader(503)
			io.WriteString(w, `{"error": {"code": 503, "message": "service unavailable"}}`)
			return
		}
		io.WriteString(w, demoTask(""))
	})
	x, err := c.Poll(context.Background(), "t", &ratus.Promise{})
	if err != nil {
		t.Fatal(err)
	}
	if err := x.Commit(); !errors.Is(err, ratus.ErrServiceUnavailable) {
		t.Fatal(err)
	}
	if err := x.Commit(); err != nil {
		t.Fatal(err)
	}
}
'''), "A commit that fails and is repeated, of a task with a deadline.", "The repeated commit fails as its context has ended.")

seed("context-deadline-by-local-clock", "C22", [(CL, "t.Deadline.Sub(*t.Consumed)", "time.Until(*t.Deadline)")], ".", go(CTX + '''func TestDemo(t *testing.T) {
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, demoTask("")) })
	x, err := c.Poll(context.Background(), "t", &ratus.Promise{})
	if err != nil {
		t.Fatal(err)
	}
	if err := x.Err(); err != nil {
		t.Fatal(err)
	}
	if err := x.Commit(); err != nil {
		t.Fatal(err)
	}
}
'''), "A server whose clock differs from that of the client.", "The context of a task ends too early or too late.")

seed("subscribe-silent-after-timeout", "C23", [(CL, '''					// Handle unexpected errors.
					if ctx.Err() == nil {''', '''					// Handle unexpected errors.
					if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {''')], ".", go('''func TestDemo(t *testing.T) {
	var n atomic.Int32
	c := demoClient(t, ratus.ClientOptions{Timeout: 100 * time.Millisecond}, func(w http.ResponseWriter, r *http.Request) {
		if n.Add(1) == 1 {
			time.Sleep(300 * time.Millisecond)
		}
		w.WriteHeader(404)
		io.WriteString(w, `{"error": {"code": 404, "message": "not found"}}`)
	})
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	var told atomic.Int32
	c.Subscribe(ctx, &ratus.SubscribeOptions{
		Promise: &ratus.Promise{}, Topic: "t", DrainInterval: 50 * time.Millisecond, ErrorInterval: 50 * time.Millisecond,
	}, func(_ *ratus.Context, err error) { told.Add(1) })
	if n.Load() < 2 || told.Load() != 1 {
		t.Fatal(n.Load(), told.Load())
	}
}
'''), "A poll that exceeds the timeout of the client while the subscription goes on.", "The worker never polls again, without telling the handler.")

seed("subscribe-stale-deadline", "C23", [(CL, '''	p := &Promise{
		Consumer: o.Promise.Consumer,
		Timeout:  o.Promise.Timeout,
	}

	// Check''', '''	w := *o.Promise
	w.ID = ""
	p := &w

	// Check''')], ".", go('''func TestDemo(t *testing.T) {
	var got atomic.Value
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		got.Store(string(b))
		w.WriteHeader(404)
		io.WriteString(w, `{"error": {"code": 404, "message": "not found"}}`)
	})
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
	defer cancel()
	d := time.Now().Add(-time.Hour)
	c.Subscribe(ctx, &ratus.SubscribeOptions{Promise: &ratus.Promise{Consumer: "c", Timeout: "1m", Deadline: &d}, Topic: "t"}, func(_ *ratus.Context, err error) {})
	s, _ := got.Load().(string)
	var p ratus.Promise
	if err := json.Unmarshal([]byte(s), &p); err != nil || p.Deadline != nil || p.Timeout != "1m" || p.Consumer != "c" {
		t.Fatal(s, err)
	}
}
'''), "A subscription whose promise carries a deadline.", "Every poll of the subscription uses the same absolute deadline, which soon has passed.")

seed("subscribe-polls-empty-topic-busily", "C23", [(CL, '''	if dd <= 0 {''', '''	if dd < 0 {''')], ".", go('''func TestDemo(t *testing.T) {
	var n atomic.Int32
	c := demoClient(t, ratus.ClientOptions{}, func(w http.ResponseWriter, r *http.Request) {
		n.Add(1)
		w.WriteHeader(404)
		io.WriteString(w, `{"error": {"code": 404, "message": "not found"}}`)
	})
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	c.Subscribe(ctx, &ratus.SubscribeOptions{Promise: &ratus.Promise{}, Topic: "t"}, func(_ *ratus.Context, err error) {})
	if n.Load() != 1 {
		t.Fatal(n.Load())
	}
}
'''), "A subscription to an empty topic without an explicit drain interval.", "Empty topics are polled without any pause.")
