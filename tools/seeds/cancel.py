MG = "internal/engine/mongodb/"
seed("claim-outlives-caller", "C39", [(MG+"promise.go", '''	if err := g.collection.FindOneAndUpdate(ctx, f, u, o).Decode(&v); err != nil {

		// Check if the failure is due to a mismatch of state or the target''', '''	if err := g.collection.FindOneAndUpdate(context.WithoutCancel(ctx), f, u, o).Decode(&v); err != nil {

		// Check if the failure is due to a mismatch of state or the target''')], MG, '''package mongodb_test

import (
	"context"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
)

func TestDemo(t *testing.T) {
	g, err := mongodb.New(&mongodb.Config{URI: "mongodb://127.0.0.1:1/?serverSelectionTimeoutMS=8000", Database: "d", Collection: "c", DisableIndexCreation: true})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(context.Background()); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	n, d := time.Now(), time.Now().Add(time.Minute)
	if _, err := g.InsertPromise(ctx, &ratus.Promise{ID: "1", Deadline: &d}); err == nil {
		t.Fatal("no error")
	}
	if e := time.Since(n); e > 4*time.Second {
		t.Fatalf("the claim goes on for %v after its caller has gone", e)
	}
}
''', "A consumer that disconnects while its claim is on the way to the database.", "The task is claimed for a consumer that is gone, and stays unavailable until the deadline.")

seed("request-outlives-caller", "C39", [("client.go", "http.NewRequestWithContext(ctx, method, endpoint, b)", "http.NewRequest(method, endpoint, b)")], ".", '''package ratus_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case <-r.Context().Done():
		case <-time.After(3 * time.Second):
		}
		w.Write([]byte("{}"))
	}))
	defer s.Close()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL})
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	n := time.Now()
	if _, err := c.GetTask(ctx, "1"); err == nil || time.Since(n) > 2*time.Second {
		t.Fatalf("the request goes on after its caller has gone: %v, %v", err, time.Since(n))
	}
}
''', "A caller that gives up on a slow server.", "The call does not return when its context ends.")

seed("poll-outlives-request", "C39", [("internal/controller/promise.go", "v, err := r.Engine.Poll(c.Request.Context(), ", "v, err := r.Engine.Poll(c.Copy(), ")], "internal/controller", '''package controller

import (
	"context"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/middleware"
)

type slow struct {
	engine.Engine
	err error
}

func (s *slow) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	s.err = ctx.Err()
	return nil, ratus.ErrNotFound
}

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	s := &slow{}
	e := gin.New()
	e.POST("/:topic", middleware.Promise(), (&PromiseController{Engine: s}).PostPromises)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	e.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/t", nil).WithContext(ctx))
	if s.err == nil {
		t.Fatal("the poll does not notice that its caller has gone")
	}
}
''', "A consumer that disconnects while polling.", "Tasks are claimed for consumers that are gone.")
