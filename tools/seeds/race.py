Q="internal/engine/memdb/queue.go"; MD="internal/engine/memdb/memdb.go"; TP="internal/engine/memdb/topic.go"
N="internal/nonce/nonce.go"; TR="transport.go"; CL="client.go"; PM="internal/middleware/promise.go"; CM="internal/middleware/commit.go"
def go(pkg, imports, body):
    return "package " + pkg + "\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports.split()) + ")\n\n" + body

seed("snapshot-error-keeps-lock", "C27", [(Q, '''	g.mux.Lock()
	defer g.mux.Unlock()
	n = time.Now()
''', '''	g.mux.Lock()
	n = time.Now()
'''), (Q, '''	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		return nil
	}
''', '''	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		g.mux.Unlock()
		return nil
	}
'''), (Q, '''	g.saved = n

''', '''	g.saved = n
	g.mux.Unlock()

''')], "internal/engine/memdb", go("memdb", "context os path/filepath testing time", '''func TestDemo(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "d")
	if err := os.Mkdir(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	g, err := New(&Config{SnapshotPath: filepath.Join(dir, "s"), RetentionPeriod: time.Hour})
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	if err := g.Open(ctx); err != nil {
		t.Fatal(err)
	}
	if err := os.RemoveAll(dir); err != nil {
		t.Fatal(err)
	}
	end := make(chan error, 1)
	go func() {
		g.Chore(ctx)
		end <- g.Chore(ctx)
	}()
	select {
	case <-end:
	case <-time.After(5 * time.Second):
		t.Fatal("the background jobs hang after a failed snapshot")
	}
}
'''), "A snapshot that cannot be written (e.g. a full disk), followed by another run of the background jobs.", "The lock is kept after the failure and all later background jobs hang forever.")

seed("nonce-private-source", "C27", [(N, "func init() {\n", "var source *rand.Rand\n\nfunc init() {\n"), (N, "	rand.Seed(time.Now().UnixNano())\n", "	source = rand.New(rand.NewSource(time.Now().UnixNano()))\n"),
 (N, "rand.Int63(), charIdxMax; i", "source.Int63(), charIdxMax; i"), (N, "cache, remain = rand.Int63()", "cache, remain = source.Int63()")], "internal/nonce", go("nonce", "sync testing", '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := map[string]bool{}
	dup := 0
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var own []string
			for k := 0; k < 200000; k++ {
				own = append(own, Generate(10))
			}
			mu.Lock()
			defer mu.Unlock()
			for _, s := range own {
				if seen[s] {
					dup++
				}
				seen[s] = true
			}
		}()
	}
	wg.Wait()
	if dup > 0 {
		t.Fatalf("%d nonces were generated more than once", dup)
	}
}
'''), "Several requests that claim tasks at the same moment.", "Concurrent claims may get the same nonce or crash the server.")

seed("commit-middleware-reuses-memory", "C27", [(CM, '''	return func(c *gin.Context) {

		// All fields are optional in a commit.
		// An empty commit sets the state of the task to "completed".
		var m ratus.Commit
''', '''	var m ratus.Commit
	return func(c *gin.Context) {

		// All fields are optional in a commit.
		// An empty commit sets the state of the task to "completed".
		m = ratus.Commit{}
''')], "internal/middleware", go("middleware_test", "net/http net/http/httptest strings testing github.com/gin-gonic/gin github.com/hyperonym/ratus github.com/hyperonym/ratus/internal/middleware", '''func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	first, second := make(chan bool), make(chan bool)
	got := make(chan string, 2)
	r.PATCH("/:id", middleware.Commit(), func(c *gin.Context) {
		if c.Param("id") == "a" {
			close(first)
			<-second
		}
		got <- c.Param("id") + c.MustGet(middleware.ParamCommit).(*ratus.Commit).Nonce
	})
	send := func(id, body string) {
		req, _ := http.NewRequest("PATCH", "/"+id, strings.NewReader(body))
		r.ServeHTTP(httptest.NewRecorder(), req)
	}
	end := make(chan bool)
	go func() {
		send("a", `{"nonce": "1"}`)
		close(end)
	}()
	<-first
	send("b", `{"nonce": "2"}`)
	close(second)
	<-end
	if a, b := <-got, <-got; a != "b2" || b != "a1" {
		t.Fatal(a, b)
	}
}
'''), "Two commits being processed at the same time.", "A commit is applied with the content of another one.")

seed("transport-fills-configured-headers", "C27", [(TR, '''	// Set User-Agent if it is not present.
	if _, ok := r.Header["User-Agent"]; !ok {
		r.Header.Set("User-Agent", "Ratus-Client")
	}
''', '''	// Set User-Agent if it is not present.
	if _, ok := r.Header["User-Agent"]; !ok {
		r.Header.Set("User-Agent", "Ratus-Client")
		if t.headers != nil {
			t.headers["User-Agent"] = "Ratus-Client"
		}
	}
''')], ".", go("ratus_test", "context net/http net/http/httptest testing github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("{}"))
	}))
	defer s.Close()
	h := map[string]string{"X-Demo": "1"}
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL, Headers: h})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c.GetTask(context.Background(), "a"); err != nil {
		t.Fatal(err)
	}
	// The map is read by all requests at the same time.
	if len(h) != 1 {
		t.Fatal("the headers shared by all requests were written to:", h)
	}
}
'''), "Two requests of the same client at the same time.", "Requests write to a map that others read, which crashes the program.")

seed("client-body-buffer-shared", "C27", [(CL, "	return &Client{&c}, nil\n", "	return &Client{client: &c}, nil\n"), (CL, "		b = bytes.NewBuffer(d)\n", "		c.buffer.Reset()\n		c.buffer.Write(d)\n		b = bytes.NewReader(c.buffer.Bytes())\n"), (CL, "	client *http.Client\n", "	client *http.Client\n	buffer bytes.Buffer\n")], ".", go("ratus_test", "bytes context io net/http net/http/httptest strings testing time github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	slow, fast := make(chan bool), make(chan bool)
	bad := make(chan bool, 10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/a") {
			close(slow)
			<-fast
			time.Sleep(100 * time.Millisecond)
			if b, _ := io.ReadAll(r.Body); bytes.Contains(b, []byte("yyyyyyyy")) {
				bad <- true
			}
		}
		w.Write([]byte("{}"))
	}))
	defer s.Close()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL})
	if err != nil {
		t.Fatal(err)
	}
	end := make(chan bool)
	go func() {
		c.InsertTask(context.Background(), &ratus.Task{ID: "a", Topic: "t", Payload: strings.Repeat("x", 1<<26)})
		close(end)
	}()
	<-slow
	c.InsertTask(context.Background(), &ratus.Task{ID: "b", Topic: "t", Payload: strings.Repeat("y", 1<<25)})
	close(fast)
	<-end
	if len(bad) > 0 {
		t.Fatal("the body of a request was replaced by that of another one")
	}
}
'''), "A large request that is still being sent while the client makes another one.", "The body of a request is overwritten by that of another request.")

seed("topic-counts-cached", "C27", [(MD, "	saved time.Time\n", "	saved time.Time\n\n	seen map[string]int64\n"), (TP, '''	if n == 0 {
		return nil, ratus.ErrNotFound
	}
''', '''	if n == 0 {
		delete(g.seen, topic)
		return nil, ratus.ErrNotFound
	}
	if g.seen == nil {
		g.seen = make(map[string]int64)
	}
	g.seen[topic] = n
''')], "internal/engine/memdb", go("memdb", "context fmt sync testing github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	g, err := New(&Config{})
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	if err := g.Open(ctx); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 50; i++ {
		if _, err := g.InsertTask(ctx, &ratus.Task{ID: fmt.Sprint(i), Topic: fmt.Sprint(i)}); err != nil {
			t.Fatal(err)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 32; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				if v, err := g.GetTopic(ctx, fmt.Sprint((i+k)%50)); err != nil || v.Count != 1 {
					t.Error(v, err)
				}
			}
		}(i)
	}
	wg.Wait()
}
'''), "Several requests for the information of topics at the same time.", "Concurrent writes to a map crash the server.")

seed("poll-locks-in-other-order", "C27", [(Q, '''	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64))
''', '''	g.mux.Lock()
	g.polled = n
	g.mux.Unlock()
	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64))
'''), (MD, "	saved time.Time\n", "	saved time.Time\n\n	polled time.Time\n"), (Q, '''// Chore recovers timed out tasks and deletes expired tasks.
func (g *Engine) Chore(ctx context.Context) error {
	txn := g.database.Txn(true)
''', '''// Chore recovers timed out tasks and deletes expired tasks.
func (g *Engine) Chore(ctx context.Context) error {
	g.mux.Lock()
	idle := time.Since(g.polled)
	txn := g.database.Txn(true)
	g.mux.Unlock()
	if idle < 0 {
		txn.Abort()
		return nil
	}
''')], "internal/engine/memdb", go("memdb", "context testing time github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	g, err := New(&Config{})
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	if err := g.Open(ctx); err != nil {
		t.Fatal(err)
	}
	end := make(chan bool, 12)
	for i := 0; i < 12; i++ {
		go func(i int) {
			for k := 0; k < 20000; k++ {
				if i%2 == 0 {
					g.Poll(ctx, "t", &ratus.Promise{})
				} else {
					g.Chore(ctx)
				}
			}
			end <- true
		}(i)
	}
	for i := 0; i < 12; i++ {
		select {
		case <-end:
		case <-time.After(30 * time.Second):
			t.Fatal("the engine has come to a standstill")
		}
	}
}
'''), "A poll and a run of the background jobs that begin at the same moment.", "Each waits for the lock of the other and the engine hangs forever.")
