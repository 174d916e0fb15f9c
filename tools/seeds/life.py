M="cmd/ratus/main.go"
def go(body, imports=""):
    return '''package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var (
	_ = errors.Is
	_ = fmt.Sprint
	_ = io.ReadAll
	_ = net.Listen
	_ = http.Get
	_ = os.Getpid
	_ = syscall.Kill
	_ atomic.Int32
	_ config.ServerConfig
	_ = time.Now
	_ context.Context
)

type fake struct {
	engine.Engine
	chore func(ctx context.Context) error
}

func (f *fake) Chore(ctx context.Context) error { return f.chore(ctx) }

func freePort(t *testing.T) uint {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return uint(l.Addr().(*net.TCPAddr).Port)
}

func get(t *testing.T, port uint) (*http.Response, error) {
	var res *http.Response
	var err error
	for i := 0; i < 100; i++ {
		if res, err = http.Get(fmt.Sprintf("http://127.0.0.1:%d/", port)); err == nil || !errors.Is(err, syscall.ECONNREFUSED) {
			return res, err
		}
		time.Sleep(20 * time.Millisecond)
	}
	return res, err
}

''' + body

seed("shutdown-cuts-long-requests", "C25", [(M, "			s.Shutdown(context.Background())\n", "			c, cancel := context.WithTimeout(context.Background(), 3*time.Second)\n			defer cancel()\n			if s.Shutdown(c) != nil {\n				s.Close()\n			}\n")], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	port := freePort(t)
	begun := make(chan bool)
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		close(begun)
		time.Sleep(5 * time.Second)
		io.WriteString(w, "done")
	})
	end := make(chan error, 1)
	go func() { end <- serve(context.Background(), h, &config.ServerConfig{Bind: "127.0.0.1", Port: port}) }()
	go func() {
		<-begun
		syscall.Kill(os.Getpid(), syscall.SIGTERM)
	}()
	res, err := get(t, port)
	if err != nil {
		t.Fatal(err)
	}
	if b, err := io.ReadAll(res.Body); err != nil || string(b) != "done" {
		t.Fatal(string(b), err)
	}
	if err := <-end; err != nil {
		t.Fatal(err)
	}
}
'''), "A request that takes longer than three seconds when the instance is told to stop.", "Requests in progress are cut off by a graceful shutdown.")

seed("chore-misses-signal-while-busy", "C26", [(M, '''	d := time.Duration(c.InitialDelay.Seconds()*m*float64(time.Second) + 1)

	// Listen for termination signals.
	ch := make(chan os.Signal, 1)
''', '''	d := time.Duration(c.InitialDelay.Seconds()*m*float64(time.Second) + 1)

	// Listen for termination signals.
	ch := make(chan os.Signal)
''')], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	busy := make(chan bool, 100)
	f := &fake{chore: func(ctx context.Context) error {
		busy <- true
		time.Sleep(500 * time.Millisecond)
		return nil
	}}
	end := make(chan error, 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() { end <- chore(ctx, f, &config.ChoreConfig{Interval: time.Hour}) }()
	<-busy
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	select {
	case err := <-end:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the signal was lost")
	}
}
'''), "A signal that arrives while the background jobs are being executed.", "The signal is lost and the instance keeps running.")

seed("chore-first-failure-spins", "C26", [(M, '''			if err := g.Chore(ctx); err != nil {
				log.Println(err)
			}
''', '''			if err := g.Chore(ctx); err != nil {
				log.Println(err)
				r.Reset(d)
			}
''')], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	var n atomic.Int32
	f := &fake{chore: func(ctx context.Context) error {
		n.Add(1)
		return errors.New("database is down")
	}}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	chore(ctx, f, &config.ChoreConfig{Interval: time.Hour})
	if n.Load() != 1 {
		t.Fatal("executions:", n.Load())
	}
}
'''), "Background jobs that fail (the database is not reachable yet).", "The jobs are repeated without pause (by default) instead of at the configured interval until one succeeds.")

seed("chore-random-delay-doubled", "C26", [(M, "		m = rand.New(s).Float64()\n", "		m += rand.New(s).Float64()\n")], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	begin := time.Now()
	for i := 0; i < 5; i++ {
		ran := make(chan bool, 100)
		f := &fake{chore: func(ctx context.Context) error {
			ran <- true
			return nil
		}}
		ctx, cancel := context.WithCancel(context.Background())
		go chore(ctx, f, &config.ChoreConfig{Interval: time.Hour, InitialDelay: time.Second, InitialRandom: true})
		<-ran
		cancel()
	}
	if d := time.Since(begin); d > 5*time.Second {
		t.Fatal(d)
	}
}
'''), "An instance with a randomised initial delay.", "The delay exceeds the configured one, up to twice as long.")

seed("chore-outlives-instance", "C26", [(M, "			if err := g.Chore(ctx); err != nil {\n", "			if err := g.Chore(context.Background()); err != nil {\n")], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	begun := make(chan bool, 100)
	f := &fake{chore: func(ctx context.Context) error {
		begun <- true
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-time.After(20 * time.Second):
			return nil
		}
	}}
	ctx, cancel := context.WithCancel(context.Background())
	end := make(chan error, 1)
	go func() { end <- chore(ctx, f, &config.ChoreConfig{Interval: time.Hour}) }()
	<-begun
	cancel()
	select {
	case <-end:
	case <-time.After(3 * time.Second):
		t.Fatal("still running")
	}
}
'''), "The server fails while slow background jobs are running.", "The instance does not stop until the jobs have ended by themselves.")

seed("chore-gives-up-on-error", "C26", [(M, '''			if err := g.Chore(ctx); err != nil {
				log.Println(err)
			}
''', '''			if err := g.Chore(ctx); err != nil {
				log.Println(err)
				if errors.Is(err, context.DeadlineExceeded) {
					r.Stop()
				}
			}
'''), (M, '''	"context"
''', '''	"context"
	"errors"
''')], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	var n atomic.Int32
	f := &fake{chore: func(ctx context.Context) error {
		n.Add(1)
		return fmt.Errorf("server selection: %w", context.DeadlineExceeded)
	}}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	chore(ctx, f, &config.ChoreConfig{Interval: 50 * time.Millisecond})
	if n.Load() < 5 {
		t.Fatal("executions:", n.Load())
	}
}
'''), "Background jobs that time out once.", "They are never executed again, tasks are neither recovered nor expired.")

seed("engine-name-case", "C25", [(M, "	switch strings.ToLower(a.Engine) {\n	case \"memdb\":", "	switch strings.Title(a.Engine) {\n	case \"Memdb\":"), (M, '	case "mongodb":\n', '	case "Mongodb":\n')], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	os.Args = []string{"ratus", "--engine", "MEMDB", "--port", "0", "--chore-interval", "0s"}
	if err := run(); err != nil {
		t.Fatal(err)
	}
}
'''), "An engine name in upper case.", "The engine is reported as unknown.")

seed("server-error-leaves-jobs-running", "C25", [(M, '''	e.Go(func() error {
		return chore(ctx, g, &a.ChoreConfig)
	})
''', '''	cctx := context.Background()
	e.Go(func() error {
		return chore(cctx, g, &a.ChoreConfig)
	})
''')], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	os.Args = []string{"ratus", "--bind", "127.0.0.1", "--port", fmt.Sprint(l.Addr().(*net.TCPAddr).Port)}
	end := make(chan error, 1)
	go func() { end <- run() }()
	select {
	case err := <-end:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the instance goes on without a server")
	}
}
'''), "The port is in use.", "The failure is not reported as long as the background jobs run; the instance keeps running without a server.")

seed("port-taken-is-ignored", "C25", [(M, '''	if err := s.ListenAndServe(); err != nil && err != http.ErrServerClosed {
		return err
	}
''', '''	if err := s.ListenAndServe(); err != nil && err != http.ErrServerClosed {
		var op *net.OpError
		if !errors.As(err, &op) || !op.Temporary() && op.Op != "listen" {
			return err
		}
		log.Println(err)
	}
'''), (M, '''	"context"
''', '''	"context"
	"errors"
'''), (M, '''	"math/rand"
''', '''	"math/rand"
	"net"
''')], "cmd/ratus", go('''func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	if serve(ctx, http.NewServeMux(), &config.ServerConfig{Bind: "127.0.0.1", Port: uint(l.Addr().(*net.TCPAddr).Port)}) == nil {
		t.Fatal("no error")
	}
}
'''), "The port is in use.", "The instance keeps running without a server.")
