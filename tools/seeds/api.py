D = "internal/engine"
MT="internal/middleware/task.go"; MP="internal/middleware/promise.go"; MC="internal/middleware/commit.go"; MG="internal/middleware/pagination.go"; MM="internal/middleware/prometheus.go"
CC="internal/controller/controller.go"; CT="internal/controller/task.go"; CP="internal/controller/promise.go"; CH="internal/controller/health.go"; RA="ratus.go"
def go(body, imports=""):
    return '''package engine_test

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var (
	_ = time.Now
	_ = fmt.Sprint
	_ = ratus.NewError
	_ = strings.Contains
)

func store(t *testing.T) *memdb.Engine {
	g, err := memdb.New(&memdb.Config{RetentionPeriod: time.Hour})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(context.Background()); err != nil {
		t.Fatal(err)
	}
	return g
}

func server(g engine.Engine) *gin.Engine {
	gin.SetMode(gin.ReleaseMode)
	return router.New(&controller.V1{
		Pagination: middleware.Pagination(&config.PaginationConfig{MaxLimit: 100, MaxOffset: 1000}),
		Topic:      controller.NewTopicController(g),
		Task:       controller.NewTaskController(g),
		Promise:    controller.NewPromiseController(g),
		Health:     controller.NewHealthController(g),
		Metrics:    controller.NewMetricsController(g),
	})
}

func call(h *gin.Engine, method, path, body string) (int, string) {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest(method, path, strings.NewReader(body)))
	return w.Code, w.Body.String()
}

func decode[T any](t *testing.T, s string) (v T) {
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		t.Fatalf("%v: %s", err, s)
	}
	return
}

''' + body

seed("api-commit-defer-over-schedule", "C17", [(MC, 'if m.Defer != "" && m.Scheduled == nil {', 'if m.Defer != "" {')], D, go('''func TestDemo(t *testing.T) {
	h := server(store(t))
	call(h, "POST", "/topics/t/tasks/a", `{"payload": 1}`)
	s := time.Now().Add(48 * time.Hour)
	code, body := call(h, "PATCH", "/topics/t/tasks/a", fmt.Sprintf(`{"state": 0, "scheduled": %q, "defer": "1m"}`, s.Format(time.RFC3339Nano)))
	v := decode[ratus.Task](t, body)
	if code != 200 || v.Scheduled == nil || !v.Scheduled.Equal(s) {
		t.Fatalf("rescheduled to %v instead of %v", v.Scheduled, s)
	}
}
'''), "A commit with both an absolute and a relative time.", "The absolute time of a commit no longer takes precedence.")

seed("api-batch-first-topic", "C17", [(MT, 'if t.Topic == "" && topic != "" {', 'if t.Topic == "" || topic != "" && id == "" {')], D, go('''func TestDemo(t *testing.T) {
	h := server(store(t))
	call(h, "POST", "/topics/t/tasks", `{"data": [{"_id": "a"}, {"_id": "b", "topic": "u"}]}`)
	_, body := call(h, "GET", "/topics/t/tasks/b", "")
	if v := decode[ratus.Task](t, body); v.Topic != "u" {
		t.Fatalf("stored under the topic %q", v.Topic)
	}
}
'''), "A batch with a task that names a topic other than that of the path.", "The topic of the path overrides the topics of tasks in batches.")

seed("api-error-identity", "C18", [(RA, "case errors.Is(err, ErrServiceUnavailable):", "case err == ErrServiceUnavailable:")], D, go('''type down struct{ *memdb.Engine }

func (down) GetTask(context.Context, string) (*ratus.Task, error) {
	return nil, fmt.Errorf("%w: no server", ratus.ErrServiceUnavailable)
}

func TestDemo(t *testing.T) {
	h := server(down{store(t)})
	if code, body := call(h, "GET", "/topics/t/tasks/a", ""); code != 503 {
		t.Fatalf("%d %s", code, body)
	}
}
'''), "An unavailable error that carries a message.", "Wrapped errors are reported as internal errors.")

seed("api-cancelled-identity", "C18", [(RA, "case errors.Is(err, context.Canceled):", "case err == context.Canceled:")], D, go('''type gone struct{ *memdb.Engine }

func (gone) Poll(context.Context, string, *ratus.Promise) (*ratus.Task, error) {
	return nil, fmt.Errorf("connection: %w", context.Canceled)
}

func TestDemo(t *testing.T) {
	h := server(gone{store(t)})
	if code, body := call(h, "POST", "/topics/t/promises", "{}"); code != 499 {
		t.Fatalf("%d %s", code, body)
	}
}
'''), "A client that disconnects while the database driver waits, which wraps the cancellation.", "Cancellations are reported as internal errors.")

seed("api-named-promise-forced", "C19", [(CP, '''		r.PostPromise(c)
		return''', '''		r.PutPromise(c)
		return''')], D, go('''func TestDemo(t *testing.T) {
	h := server(store(t))
	call(h, "POST", "/topics/t/tasks/a", `{}`)
	call(h, "POST", "/topics/t/promises", `{"consumer": "x"}`)
	if code, body := call(h, "POST", "/topics/t/promises", `{"_id": "a", "consumer": "y"}`); code != 409 {
		t.Fatalf("%d %s", code, body)
	}
}
'''), "A promise posted to the collection that names a task claimed by another consumer.", "The claim of another consumer is taken over instead of a conflict.")

seed("api-detached-poll", "C19", [(CP, 'r.Engine.Poll(c.Request.Context(), c.Param(middleware.ParamTopic), p)', 'r.Engine.Poll(c, c.Param(middleware.ParamTopic), p)')], D, go('''type watch struct {
	*memdb.Engine
	err error
}

func (g *watch) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	g.err = ctx.Err()
	return g.Engine.Poll(ctx, topic, p)
}

func TestDemo(t *testing.T) {
	g := &watch{Engine: store(t)}
	h := server(g)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("POST", "/topics/t/promises", strings.NewReader("{}")).WithContext(ctx))
	if g.err == nil {
		t.Fatal("the engine does not see that the client is gone")
	}
}
'''), "A client that disconnects while it polls.", "Polls claim tasks for clients that are gone.")

seed("api-execution-completed-only", "C24", [(CT, 'if v != nil && v.Consumed != nil {', 'if v != nil && v.Consumed != nil && v.State == ratus.TaskStateCompleted {')], D, go('''func TestDemo(t *testing.T) {
	h := server(store(t))
	call(h, "POST", "/topics/exec/tasks/a", `{"producer": "demo-producer"}`)
	call(h, "POST", "/topics/exec/promises", `{"consumer": "demo-consumer"}`)
	call(h, "PATCH", "/topics/exec/tasks/a", `{"state": 0}`)
	_, body := call(h, "GET", "/metrics", "")
	for _, l := range strings.Split(body, "\\n") {
		if strings.HasPrefix(l, "ratus_task_execution_duration_seconds{") && strings.Contains(l, "demo-consumer") {
			return
		}
	}
	t.Fatal("the execution was not measured")
}
'''), "A commit that returns the task to the queue.", "Execution times of retried tasks are not reported.")

seed("api-request-metric-skips-aborted", "C24", [(MM, '''		c.Next()
''', '''		c.Next()
		if c.IsAborted() {
			return
		}
''')], D, go('''func TestDemo(t *testing.T) {
	h := server(store(t))
	call(h, "GET", "/topics/skipped-topic/tasks/a", "")
	_, body := call(h, "GET", "/metrics", "")
	for _, l := range strings.Split(body, "\\n") {
		if strings.HasPrefix(l, "ratus_request_duration_seconds_count{") && strings.Contains(l, "skipped-topic") && strings.Contains(l, "404") {
			return
		}
	}
	t.Fatal("the failed request was not measured")
}
'''), "Requests that fail.", "Durations are only reported for successful requests.")

seed("api-empty-batch", "C28", [(CT, "if v != nil && v.Created+v.Updated > 0 && len(ts.Data) > 0 {", "if v != nil && v.Created+v.Updated >= 0 {")], D, go('''func TestDemo(t *testing.T) {
	h := server(store(t))
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if code, body := call(h, "PUT", "/topics/t/tasks", `{"data": []}`); code != 200 {
		t.Fatalf("%d %s", code, body)
	}
}
'''), "Upserting an empty batch.", "The handler panics after the response was sent.")

seed("api-readiness-transient", "C30", [(CH, '''	if err := r.Engine.Ready(c.Request.Context()); err != nil {
		send(c, nil, err)
		return
	}
	c.Status(http.StatusOK)''', '''	if err := r.Engine.Ready(c.Request.Context()); err != nil && c.Request.Context().Err() == nil {
		send(c, nil, err)
		return
	}
	c.Status(http.StatusOK)''')], D, go('''func TestDemo(t *testing.T) {
	g, _ := memdb.New(&memdb.Config{})
	h := server(g)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/readyz", nil).WithContext(ctx))
	if w.Code != 503 {
		t.Fatalf("%d", w.Code)
	}
}
'''), "A probe that times out while the engine is not ready.", "The instance is reported ready.")
