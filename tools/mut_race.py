A=["C27"]
Q="internal/engine/memdb/queue.go"; MD="internal/engine/memdb/memdb.go"; TP="internal/engine/memdb/topic.go"
MG="internal/engine/mongodb/mongodb.go"; MQ="internal/engine/mongodb/queue.go"
N="internal/nonce/nonce.go"; TR="transport.go"; CL="client.go"; CT="internal/controller/topic.go"; PG="internal/middleware/pagination.go"
CM="internal/middleware/commit.go"; MAIN="cmd/ratus/main.go"
def bug(n,*e): return (n,"bug",A,list(e))
def same(n,*e): return (n,"same",A,list(e))
LOCK='''	g.mux.Lock()
	defer g.mux.Unlock()
	n = time.Now()
'''
FIELDS='''	mux   sync.Mutex
	saved time.Time
'''
TAIL='''	n = time.Now()
	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		return nil
	}
	if err := save(g.database, g.config.SnapshotPath); err != nil {
		return err
	}
	g.saved = n
'''
GT='''	// Count records by introspecting the underlying radix tree. Reference:
	// https://github.com/hashicorp/go-memdb/issues/83#issuecomment-1168332874
	var n int64
'''
def cache(extra, pre="", post=""):
    return [(MD,FIELDS,FIELDS+"	counts map[string]int64\n"+extra),(TP,"	txn.Commit()\n	return &ratus.Topic{",pre+'''	if g.counts == nil {
		g.counts = map[string]int64{}
	}
	g.counts[topic] = n
'''+post+"	txn.Commit()\n	return &ratus.Topic{")]
FL=[("Poll",10),("Commit",8),("UpsertTasks",3),("UpsertTask",4),("InsertPromise",1),("UpsertPromise",1)]
MUT=[
 bug("no mutex",(Q,LOCK,"	n = time.Now()\n"),(MD,FIELDS,"	saved time.Time\n"),(MD,'	"sync"\n','')),
 bug("lock after reading",(Q,"	g.mux.Lock()\n	defer g.mux.Unlock()\n"+TAIL,'''	n = time.Now()
	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		return nil
	}
	g.mux.Lock()
	defer g.mux.Unlock()
	if err := save(g.database, g.config.SnapshotPath); err != nil {
		return err
	}
	g.saved = n
''')),
 bug("unlock before writing",(Q,"	g.mux.Lock()\n	defer g.mux.Unlock()\n"+TAIL,'''	g.mux.Lock()
	n = time.Now()
	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		g.mux.Unlock()
		return nil
	}
	g.mux.Unlock()
	if err := save(g.database, g.config.SnapshotPath); err != nil {
		return err
	}
	g.saved = n
''')),
 bug("lock left on error",(Q,"	g.mux.Lock()\n	defer g.mux.Unlock()\n"+TAIL,'''	g.mux.Lock()
	n = time.Now()
	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		g.mux.Unlock()
		return nil
	}
	if err := save(g.database, g.config.SnapshotPath); err != nil {
		return err
	}
	g.saved = n
	g.mux.Unlock()
''')),
 bug("unlocked twice",(Q,"	g.saved = n\n","	g.saved = n\n	g.mux.Unlock()\n")),
 bug("read lock while writing",(Q,LOCK,LOCK.replace("Lock","RLock").replace("Unlock","RUnlock").replace("UnRLock","RUnlock")),(MD,"sync.Mutex","sync.RWMutex")),
 bug("locked twice",(Q,LOCK,LOCK+"	if g.fresh(n) {\n		return nil\n	}\n"),(Q,"// Poll makes",'''func (g *Engine) fresh(n time.Time) bool {
	g.mux.Lock()
	defer g.mux.Unlock()
	return g.saved.After(n)
}

// Poll makes''')),
 bug("reader without lock",(TP,GT,"	if g.saved.IsZero() {\n		return nil, ratus.ErrNotFound\n	}\n"+GT)),
 bug("cache without lock",*cache("")),
 bug("cache under another lock for reads",*cache("	cmux sync.RWMutex\n","	g.mux.Lock()\n","	g.mux.Unlock()\n"),(TP,GT,'''	g.cmux.RLock()
	if c, ok := g.counts[topic]; ok && c < 0 {
		g.cmux.RUnlock()
		return nil, ratus.ErrNotFound
	}
	g.cmux.RUnlock()
'''+GT)),
 same("cache under rwmutex",*cache("	cmux sync.RWMutex\n","	g.cmux.Lock()\n","	g.cmux.Unlock()\n"),(TP,GT,'''	g.cmux.RLock()
	if c, ok := g.counts[topic]; ok && c < 0 {
		g.cmux.RUnlock()
		return nil, ratus.ErrNotFound
	}
	g.cmux.RUnlock()
'''+GT)),
 bug("cache under read transaction",*cache("")),
 bug("lock order",*cache("	cmux sync.Mutex\n","	g.cmux.Lock()\n	g.mux.Lock()\n	_ = g.saved\n	g.mux.Unlock()\n","	g.cmux.Unlock()\n"),(Q,"	g.saved = n\n","	g.saved = n\n	g.cmux.Lock()\n	g.counts = nil\n	g.cmux.Unlock()\n")),
 same("lock order consistent",*cache("	cmux sync.Mutex\n","	g.mux.Lock()\n	g.cmux.Lock()\n","	g.cmux.Unlock()\n	g.mux.Unlock()\n"),(Q,"	g.saved = n\n","	g.saved = n\n	g.cmux.Lock()\n	g.counts = nil\n	g.cmux.Unlock()\n")),
 bug("transaction inside lock and lock inside transaction",(Q,"	// Commit the transaction before writing snapshot.\n	txn.Commit()\n","	g.mux.Lock()\n	g.mux.Unlock()\n	txn.Commit()\n"),(Q,"	g.saved = n\n","	g.saved = n\n	w := g.database.Txn(true)\n	w.Abort()\n")),
 same("helper with deferred unlock",(Q,"	g.mux.Lock()\n	defer g.mux.Unlock()\n"+TAIL+"\n	return nil\n}\n","	return g.snapshot()\n}\n\nfunc (g *Engine) snapshot() error {\n	g.mux.Lock()\n	defer g.mux.Unlock()\n"+TAIL.replace("n = time","n := time")+"	return nil\n}\n")),
 same("explicit unlocks",(Q,"	g.mux.Lock()\n	defer g.mux.Unlock()\n"+TAIL,'''	g.mux.Lock()
	n = time.Now()
	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		g.mux.Unlock()
		return nil
	}
	if err := save(g.database, g.config.SnapshotPath); err != nil {
		g.mux.Unlock()
		return err
	}
	g.saved = n
	g.mux.Unlock()
''')),
 same("mutex pointer",(MD,FIELDS,"	mux   *sync.Mutex\n	saved time.Time\n"),(MD,"	return &Engine{\n","	return &Engine{\n		mux: &sync.Mutex{},\n")),
 same("embedded",(MD,FIELDS,"	sync.Mutex\n	saved time.Time\n"),(Q,LOCK,LOCK.replace("g.mux.","g."))),
 bug("counter in handler",(CT,"	Engine engine.Engine\n}","	Engine engine.Engine\n	n int\n}"),(CT,"	return &TopicController{g}","	return &TopicController{g, 0}"),(CT,"	v, err := r.Engine.GetTopic(","	r.n++\n	v, err := r.Engine.GetTopic(")),
 same("atomic counter in handler",(CT,"	Engine engine.Engine\n}","	Engine engine.Engine\n	n atomic.Int64\n}"),(CT,"	return &TopicController{g}","	return &TopicController{Engine: g}"),(CT,"	v, err := r.Engine.GetTopic(","	r.n.Add(1)\n	v, err := r.Engine.GetTopic("),(CT,'import (\n','import (\n	"sync/atomic"\n')),
 same("atomic functions in handler",(CT,"	Engine engine.Engine\n}","	Engine engine.Engine\n	n int64\n}"),(CT,"	return &TopicController{g}","	return &TopicController{Engine: g}"),(CT,"	v, err := r.Engine.GetTopic(","	atomic.AddInt64(&r.n, 1)\n	v, err := r.Engine.GetTopic("),(CT,'import (\n','import (\n	"sync/atomic"\n')),
 bug("atomic write plain read",(CT,"	Engine engine.Engine\n}","	Engine engine.Engine\n	n int64\n}"),(CT,"	return &TopicController{g}","	return &TopicController{Engine: g}"),(CT,"	v, err := r.Engine.GetTopic(","	atomic.AddInt64(&r.n, 1)\n	v, err := r.Engine.GetTopic("),(CT,"	v, err := r.Engine.DeleteTopics(","	if r.n < 0 {\n		return\n	}\n	v, err := r.Engine.DeleteTopics("),(CT,'import (\n','import (\n	"sync/atomic"\n')),
 bug("hoisted commit",(CM,"	return func(c *gin.Context) {\n\n		// All fields are optional in a commit.\n","	var m ratus.Commit\n	return func(c *gin.Context) {\n\n		// All fields are optional in a commit.\n"),(CM,"		var m ratus.Commit\n		if","		m = ratus.Commit{}\n		if")),
 bug("hoisted commit reset by bind only",(CM,"	return func(c *gin.Context) {\n\n		// All fields are optional in a commit.\n","	var m ratus.Commit\n	return func(c *gin.Context) {\n\n		// All fields are optional in a commit.\n"),(CM,"		var m ratus.Commit\n		if","		if")),
 bug("config changed by requests",(PG,"	return func(c *gin.Context) {\n","	return func(c *gin.Context) {\n		if pc.MaxLimit == 0 {\n			pc.MaxLimit = 10\n		}\n")),
 bug("own rand",(N,"func init() {","var src = rand.New(rand.NewSource(time.Now().UnixNano()))\n\nfunc init() {"),(N,"rand.Int63(), charIdxMax; i","src.Int63(), charIdxMax; i"),(N,"cache, remain = rand.Int63()","cache, remain = src.Int63()")),
 same("own rand with lock",(N,"func init() {","var src = rand.New(rand.NewSource(time.Now().UnixNano()))\nvar mu sync.Mutex\n\nfunc init() {"),(N,"	var sb","	mu.Lock()\n	defer mu.Unlock()\n	var sb"),(N,"rand.Int63(), charIdxMax; i","src.Int63(), charIdxMax; i"),(N,"cache, remain = rand.Int63()","cache, remain = src.Int63()"),(N,'	"strings"\n','	"strings"\n	"sync"\n')),
 bug("shared builder",(N,"func init() {","var sb strings.Builder\n\nfunc init() {"),(N,"	var sb strings.Builder\n	sb.Grow","	sb.Reset()\n	sb.Grow")),
 bug("shared buffer",(N,"func init() {","var buf [64]byte\n\nfunc init() {"),(N,"			sb.WriteByte(alphanumericals[idx])\n","			buf[i] = alphanumericals[idx]\n			sb.WriteByte(buf[i])\n")),
 bug("transport remembers",(TR,"		r.Header.Set(\"User-Agent\", \"Ratus-Client\")\n","		r.Header.Set(\"User-Agent\", \"Ratus-Client\")\n		t.headers[\"User-Agent\"] = \"Ratus-Client\"\n")),
 bug("transport keeps the last host",(TR,"	if t.host != \"\" {\n","	if t.host == \"\" {\n		t.host = r.URL.Host\n	}\n	if t.host != \"\" {\n")),
 bug("transport url shared",(TR,"	scheme       string\n","	scheme       string\n	origin *url.URL\n"),(TR,"		scheme:       u.Scheme,\n","		scheme:       u.Scheme,\n		origin: u,\n"),(TR,"	// Set common header fields.\n","	t.origin.Path = r.URL.Path\n	// Set common header fields.\n")),
 same("transport url read",(TR,"	scheme       string\n","	scheme       string\n	origin *url.URL\n"),(TR,"		scheme:       u.Scheme,\n","		scheme:       u.Scheme,\n		origin: u,\n"),(TR,"	// Set common header fields.\n","	if t.origin.Path != \"\" {\n		r.URL.Path = t.origin.Path + r.URL.Path\n	}\n	// Set common header fields.\n")),
 bug("client remembers error",(CL,"&Client{&c}","&Client{client: &c}"),(CL,"	client *http.Client\n","	client *http.Client\n	last error\n"),(CL,"	res, err := c.client.Do(req)\n	if err != nil {\n","	res, err := c.client.Do(req)\n	if err != nil {\n		c.last = err\n")),
 bug("client reuses buffer",(CL,"&Client{&c}","&Client{client: &c}"),(CL,"	client *http.Client\n","	client *http.Client\n	buf bytes.Buffer\n"),(CL,"		b = bytes.NewBuffer(d)\n","		c.buf.Reset()\n		c.buf.Write(d)\n		b = bytes.NewReader(c.buf.Bytes())\n")),
 bug("workers share context",(CL,"	e, ctx := errgroup.WithContext(ctx)\n	for i","	e, ctx := errgroup.WithContext(ctx)\n	var x *Context\n	var err error\n	for i"),(CL,"					x, err := c.Poll(ctx, o.Topic, p)\n","					x, err = c.Poll(ctx, o.Topic, p)\n")),
 bug("workers share delay",(CL,"		d := cd * time.Duration(i)\n		e.Go(func() error {\n","		d := cd * time.Duration(i)\n		e.Go(func() error {\n			cd = 0\n")),
 bug("workers adapt the interval",(CL,"						r.Reset(dd)\n","						r.Reset(dd)\n						dd *= 2\n")),
 bug("poll fills the promise",(CL,"	// Get the next available task in the topic.\n","	if p.Timeout == \"\" {\n		p.Timeout = \"1m\"\n	}\n	// Get the next available task in the topic.\n")),
 same("worker adapts its own interval",(CL,"			r := time.NewTimer(d)\n","			r := time.NewTimer(d)\n			dd := dd\n"),(CL,"						r.Reset(dd)\n","						r.Reset(dd)\n						dd *= 2\n")),
 same("options filled before start",(CL,"	// Start polling goroutines with","	if p.Consumer == \"\" {\n		p.Consumer = \"x\"\n	}\n	// Start polling goroutines with")),
 bug("fallback flags plain",*[(MG,f"fallback{f}{' '*k}*atomic.Int32",f"fallback{f} *int32") for f,k in FL],
   *[(MG,f"fallback{f}:{' '*k}&atomic.Int32{{}}",f"fallback{f}: new(int32)") for f,k in FL],
   *[(MG,f"g.fallback{f}.Store(v)",f"*g.fallback{f} = v") for f,k in FL],(MG,"g.fallbackPoll.Store(1)","*g.fallbackPoll = 1"),
   (MG,"flag *atomic.Int32","flag *int32"),(MG,"flag.Load() > 0","*flag > 0"),(MG,"flag.Load() < 0","*flag < 0"),(MG,"flag.Store(1)","*flag = 1"),(MG,'	"sync/atomic"\n','')),
 bug("serve writes what chore reads",(MAIN,"	e.Go(func() error {\n		return serve(","	n := 0\n	e.Go(func() error {\n		n++\n		return serve("),(MAIN,"		return chore(","		if n < 0 {\n			return nil\n		}\n		return chore(")),
 same("main writes before start",(MAIN,"	e.Go(func() error {\n		return serve(","	n := 0\n	n++\n	e.Go(func() error {\n		return serve("),(MAIN,"		return chore(","		if n < 0 {\n			return nil\n		}\n		return chore(")),
 same("main reads after wait",(MAIN,"	e.Go(func() error {\n		return serve(","	n := 0\n	e.Go(func() error {\n		n++\n		return serve("),(MAIN,"	return e.Wait()\n","	err = e.Wait()\n	if n > 1 {\n		log.Println(n)\n	}\n	return err\n")),
 bug("main reads before wait",(MAIN,"	e.Go(func() error {\n		return serve(","	n := 0\n	e.Go(func() error {\n		n++\n		return serve("),(MAIN,"	return e.Wait()\n","	if n > 1 {\n		log.Println(n)\n	}\n	return e.Wait()\n")),
]
