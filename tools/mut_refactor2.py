# Larger edits that keep the behaviour, outside the engines and the client.
import os
R=os.environ.get("REPO","/repo")
ALL=["all"]
def fn(path, head):
    s=open(R+"/"+path).read(); i=s.index(head); j=s.index("\n}\n",i)+3
    return s[i:j]
def same(n,*e): return (n,"same",ALL,list(e))
def fun(path, head, new): return (path, fn(path, head), new.lstrip("\n"))
CT,CP,CH,CC,CO="internal/controller/task.go","internal/controller/promise.go","internal/controller/health.go","internal/controller/controller.go","internal/controller/topic.go"
RT="internal/router/router.go"; NO="internal/nonce/nonce.go"; TR="transport.go"; CX="context.go"; RA="ratus.go"
PG="internal/middleware/pagination.go"; PR="internal/middleware/prometheus.go"; CM="internal/middleware/commit.go"; MW="internal/middleware/middleware.go"
MM="internal/engine/memdb/memdb.go"; IX="internal/engine/memdb/indexer.go"; ME="internal/metrics/metrics.go"; MN="cmd/ratus/main.go"
MUT=[
same("controller generic reply", fun(CT,"func (r *TaskController) DeleteTasks(","""
func (r *TaskController) DeleteTasks(c *gin.Context) {
	reply(c, func(ctx context.Context) (*ratus.Deleted, error) {
		return r.Engine.DeleteTasks(ctx, topicOf(c))
	})
}

func topicOf(c *gin.Context) string { return c.Param(middleware.ParamTopic) }

// reply executes an operation and sends its outcome.
func reply[T any](c *gin.Context, op func(context.Context) (T, error)) {
	v, err := op(c.Request.Context())
	send(c, v, err)
}
"""), fun(CT,"func (r *TaskController) GetTask(","""
func (r *TaskController) GetTask(c *gin.Context) {
	reply(c, func(ctx context.Context) (*ratus.Task, error) { return r.Engine.GetTask(ctx, c.Param(middleware.ParamID)) })
}
"""), fun(CO,"func (r *TopicController) DeleteTopics(","""
func (r *TopicController) DeleteTopics(c *gin.Context) {
	reply(c, r.Engine.DeleteTopics)
}
"""), (CT,'import (\n','import (\n\t"context"\n')),
same("controller metrics helper", fun(CT,"func (r *TaskController) PostTask(","""
func (r *TaskController) PostTask(c *gin.Context) {
	t := c.MustGet(middleware.ParamTask).(*ratus.Task)
	v, err := r.Engine.InsertTask(c.Request.Context(), t)
	if errors.Is(err, ratus.ErrConflict) {
		err = fmt.Errorf("%w: a task with the same ID already exists", err)
	}
	send(c, v, err)
	produced(t.Topic, t.Producer, v)
}

// produced collects the number of tasks produced.
func produced(topic, producer string, u *ratus.Updated) {
	if u == nil {
		return
	}
	if n := u.Created + u.Updated; n > 0 {
		metrics.ProducedCounter.WithLabelValues(metrics.Labels(topic, producer)...).Add(float64(n))
	}
}
"""), fun(CT,"func (r *TaskController) PutTask(","""
func (r *TaskController) PutTask(c *gin.Context) {
	t := c.MustGet(middleware.ParamTask).(*ratus.Task)
	v, err := r.Engine.UpsertTask(c.Request.Context(), t)
	send(c, v, err)
	produced(t.Topic, t.Producer, v)
}
"""), fun(CT,"func (r *TaskController) PutTasks(","""
func (r *TaskController) PutTasks(c *gin.Context) {
	ts := c.MustGet(middleware.ParamTasks).(*ratus.Tasks)
	v, err := r.Engine.UpsertTasks(c.Request.Context(), ts.Data)
	send(c, v, err)
	if len(ts.Data) == 0 {
		return
	}
	produced(c.Param(middleware.ParamTopic), ts.Data[0].Producer, v)
}
"""), (CT,'import (\n','import (\n\t"errors"\n')),
same("controller send split", fun(CC,"func send(","""
func send(c *gin.Context, v any, err error) {
	if err == nil {
		c.JSON(statusOf(v), v)
		return
	}
	e := ratus.NewError(err)
	if code := e.Error.Code; code >= 500 {
		c.Error(err)
	}
	c.Abort()
	c.JSON(e.Error.Code, e)
}

// statusOf determines the status code for a successful response.
func statusOf(v any) int {
	if u, ok := v.(*ratus.Updated); ok && u.Created > 0 {
		return http.StatusCreated
	}
	return http.StatusOK
}
""")),
same("controller mount table", fun(CC,"func (v *V1) Mount(","""
func (v *V1) Mount(r *gin.RouterGroup) {
	r.Use(middleware.Prometheus())
	v.mountTopics(r.Group("/topics"))
	for _, p := range []string{"/healthz", "/livez"} {
		r.GET(p, v.Health.GetLiveness)
	}
	r.GET("/readyz", v.Health.GetReadiness)
	r.GET("/metrics", v.Metrics.GetMetrics)
}

func (v *V1) mountTopics(r *gin.RouterGroup) {
	r.GET("", v.Pagination, v.Topic.GetTopics)
	r.DELETE("", v.Topic.DeleteTopics)
	r.GET("/:topic", v.Topic.GetTopic)
	r.DELETE("/:topic", v.Topic.DeleteTopic)

	t := r.Group("/:topic/tasks")
	t.GET("", v.Pagination, v.Task.GetTasks)
	t.POST("", bindTasks, v.Task.PostTasks)
	t.PUT("", bindTasks, v.Task.PutTasks)
	t.DELETE("", v.Task.DeleteTasks)
	t.GET("/:id", v.Task.GetTask)
	t.POST("/:id", bindTask, v.Task.PostTask)
	t.PUT("/:id", bindTask, v.Task.PutTask)
	t.DELETE("/:id", v.Task.DeleteTask)
	t.PATCH("/:id", bindCommit, v.Task.PatchTask)

	p := r.Group("/:topic/promises")
	p.GET("", v.Pagination, v.Promise.GetPromises)
	p.POST("", bindPromise, v.Promise.PostPromises)
	p.DELETE("", v.Promise.DeletePromises)
	p.GET("/:id", v.Promise.GetPromise)
	p.POST("/:id", bindPromise, v.Promise.PostPromise)
	p.PUT("/:id", bindPromise, v.Promise.PutPromise)
	p.DELETE("/:id", v.Promise.DeletePromise)
}
""")),
same("controller route structs", fun(CC,"func (v *V1) Mount(","""
func (v *V1) Mount(r *gin.RouterGroup) {
	r.Use(middleware.Prometheus())
	const (
		topics   = "/topics"
		topic    = topics + "/:topic"
		tasks    = topic + "/tasks"
		task     = tasks + "/:id"
		promises = topic + "/promises"
		promise  = promises + "/:id"
	)
	for _, e := range []struct {
		method, path string
		handlers     []gin.HandlerFunc
	}{
		{http.MethodGet, topics, []gin.HandlerFunc{v.Pagination, v.Topic.GetTopics}},
		{http.MethodDelete, topics, []gin.HandlerFunc{v.Topic.DeleteTopics}},
		{http.MethodGet, topic, []gin.HandlerFunc{v.Topic.GetTopic}},
		{http.MethodDelete, topic, []gin.HandlerFunc{v.Topic.DeleteTopic}},
		{http.MethodGet, tasks, []gin.HandlerFunc{v.Pagination, v.Task.GetTasks}},
		{http.MethodPost, tasks, []gin.HandlerFunc{bindTasks, v.Task.PostTasks}},
		{http.MethodPut, tasks, []gin.HandlerFunc{bindTasks, v.Task.PutTasks}},
		{http.MethodDelete, tasks, []gin.HandlerFunc{v.Task.DeleteTasks}},
		{http.MethodGet, task, []gin.HandlerFunc{v.Task.GetTask}},
		{http.MethodPost, task, []gin.HandlerFunc{bindTask, v.Task.PostTask}},
		{http.MethodPut, task, []gin.HandlerFunc{bindTask, v.Task.PutTask}},
		{http.MethodDelete, task, []gin.HandlerFunc{v.Task.DeleteTask}},
		{http.MethodPatch, task, []gin.HandlerFunc{bindCommit, v.Task.PatchTask}},
		{http.MethodGet, promises, []gin.HandlerFunc{v.Pagination, v.Promise.GetPromises}},
		{http.MethodPost, promises, []gin.HandlerFunc{bindPromise, v.Promise.PostPromises}},
		{http.MethodDelete, promises, []gin.HandlerFunc{v.Promise.DeletePromises}},
		{http.MethodGet, promise, []gin.HandlerFunc{v.Promise.GetPromise}},
		{http.MethodPost, promise, []gin.HandlerFunc{bindPromise, v.Promise.PostPromise}},
		{http.MethodPut, promise, []gin.HandlerFunc{bindPromise, v.Promise.PutPromise}},
		{http.MethodDelete, promise, []gin.HandlerFunc{v.Promise.DeletePromise}},
		{http.MethodGet, "/healthz", []gin.HandlerFunc{v.Health.GetLiveness}},
		{http.MethodGet, "/livez", []gin.HandlerFunc{v.Health.GetLiveness}},
		{http.MethodGet, "/readyz", []gin.HandlerFunc{v.Health.GetReadiness}},
		{http.MethodGet, "/metrics", []gin.HandlerFunc{v.Metrics.GetMetrics}},
	} {
		r.Handle(e.method, e.path, e.handlers...)
	}
}
""")),
same("controller promises unified", fun(CP,"func (r *PromiseController) PostPromises(","""
func (r *PromiseController) PostPromises(c *gin.Context) {
	p := c.MustGet(middleware.ParamPromise).(*ratus.Promise)
	if p.ID == "" {
		v, err := r.Engine.Poll(c.Request.Context(), c.Param(middleware.ParamTopic), p)
		r.finish(c, v, err)
	} else {
		r.claim(c, p)
	}
}

// finish sends the claimed task and collects metrics.
func (r *PromiseController) finish(c *gin.Context, t *ratus.Task, err error) {
	send(c, t, err)
	if t != nil {
		r.collectMetrics(t)
	}
}

func (r *PromiseController) claim(c *gin.Context, p *ratus.Promise) {
	t, err := r.Engine.InsertPromise(c.Request.Context(), p)
	switch err {
	case ratus.ErrConflict:
		err = fmt.Errorf("%w: the target task is not in pending state", err)
	}
	r.finish(c, t, err)
}
"""), fun(CP,"func (r *PromiseController) PostPromise(","""
func (r *PromiseController) PostPromise(c *gin.Context) {
	r.claim(c, c.MustGet(middleware.ParamPromise).(*ratus.Promise))
}
"""), fun(CP,"func (r *PromiseController) collectMetrics(","""
func (r *PromiseController) collectMetrics(t *ratus.Task) {
	ls := metrics.Labels(t.Topic, t.Producer, t.Consumer)
	metrics.ConsumedCounter.WithLabelValues(ls...).Inc()
	if t.Scheduled == nil || t.Consumed == nil {
		return
	}
	metrics.DelayGauge.WithLabelValues(ls...).Set(t.Consumed.Sub(*t.Scheduled).Seconds())
}
"""), fun(CP,"func (r *PromiseController) PutPromise(","""
func (r *PromiseController) PutPromise(c *gin.Context) {
	p := c.MustGet(middleware.ParamPromise).(*ratus.Promise)
	v, err := r.Engine.UpsertPromise(c.Request.Context(), p)
	r.finish(c, v, err)
}
""")),
same("controller bound generic", fun(CT,"func (r *TaskController) PatchTask(","""
func (r *TaskController) PatchTask(c *gin.Context) {
	m := bound[ratus.Commit](c, middleware.ParamCommit)
	v, err := r.Engine.Commit(c.Request.Context(), c.Param(middleware.ParamID), m)
	if err == ratus.ErrConflict {
		err = fmt.Errorf("%w: the task may have been modified by others", err)
	}
	send(c, v, err)
	if v == nil {
		return
	}
	ls := metrics.Labels(v.Topic, v.Producer, v.Consumer)
	if v.Consumed != nil {
		metrics.ExecutionGauge.WithLabelValues(ls...).Set(time.Now().Sub(*v.Consumed).Seconds())
	}
	metrics.CommittedCounter.WithLabelValues(ls...).Inc()
}

// bound returns a value stored in the context of a request by a middleware.
func bound[T any](c *gin.Context, key string) *T {
	return c.MustGet(key).(*T)
}
"""), fun(CT,"func (r *TaskController) GetTasks(","""
func (r *TaskController) GetTasks(c *gin.Context) {
	l, o := page(c)
	v, err := r.Engine.ListTasks(c.Request.Context(), c.Param(middleware.ParamTopic), l, o)
	send(c, &ratus.Tasks{Data: v}, err)
}

func page(c *gin.Context) (limit, offset int) {
	return c.GetInt(middleware.ParamLimit), c.GetInt(middleware.ParamOffset)
}
""")),
same("health single branch", fun(CH,"func (r *HealthController) GetReadiness(","""
func (r *HealthController) GetReadiness(c *gin.Context) {
	err := r.Engine.Ready(c.Request.Context())
	switch err {
	case nil:
		r.GetLiveness(c)
	default:
		send(c, nil, err)
	}
}
""")),
same("router split", fun(RT,"func New(","""
func New(groups ...Group) *gin.Engine {
	r := gin.New()
	r.UseRawPath, r.UnescapePathValues = true, true
	debug(r)
	r.Use(cors.Default(), gzip.Gzip(gzip.BestSpeed))
	for i := range groups {
		mount(r, groups[i])
	}
	r.NoRoute(missing)
	return r
}

func debug(r *gin.Engine) {
	if gin.Mode() == gin.ReleaseMode {
		return
	}
	r.Use(gin.Logger())
	pprof.Register(r)
}

func mount(r *gin.Engine, g Group) {
	for _, p := range g.Prefixes() {
		g.Mount(r.Group(p))
	}
}

func missing(c *gin.Context) {
	e := ratus.NewError(ratus.ErrNotFound)
	c.AbortWithStatusJSON(e.Error.Code, e)
}
"""), (RT,'	"net/http"\n\n','')),
same("nonce bytes", fun(NO,"func Generate(","""
func Generate(n int) string {
	b := make([]byte, 0, n)
	var cache int64
	remain := 0
	for len(b) < n {
		if remain == 0 {
			cache, remain = rand.Int63(), charIdxMax
		}
		if idx := int(cache & charIdxMask); idx < len(alphanumericals) {
			b = append(b, alphanumericals[idx])
		}
		cache >>= charIdxBits
		remain--
	}
	return string(b)
}
"""), (NO,'	"strings"\n','')),
same("nonce simple", fun(NO,"func Generate(","""
func Generate(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphanumericals[rand.Intn(len(alphanumericals))]
	}
	return string(b)
}
"""), (NO,'	"strings"\n',''), (NO,'''const (
	charIdxBits = 6                  // 6 bits to represent a char index.
	charIdxMask = 1<<charIdxBits - 1 // All 1-bits, as many as charIdxBits.
	charIdxMax  = 63 / charIdxBits   // # of char indices fitting in 63 bits.
)
''','')),
same("transport headers helper", fun(TR,"func (t *transport) RoundTrip(","""
func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	setNonEmpty(&r.URL.Scheme, t.scheme)
	setNonEmpty(&r.URL.Host, t.host)
	for k, v := range t.headers {
		setDefault(r.Header, k, v)
	}
	setDefault(r.Header, "User-Agent", "Ratus-Client")
	return t.roundTripper.RoundTrip(r)
}

func setNonEmpty(p *string, v string) {
	if v != "" {
		*p = v
	}
}

// setDefault sets a header that the request does not have.
func setDefault(h http.Header, k, v string) {
	if _, ok := h[k]; ok {
		return
	}
	h.Set(k, v)
}
""")),
same("transport clones", fun(TR,"func (t *transport) RoundTrip(","""
func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	r = r.Clone(r.Context())
	if t.scheme != "" {
		r.URL.Scheme = t.scheme
	}
	if t.host != "" {
		r.URL.Host = t.host
	}
	for k, v := range t.headers {
		if _, ok := r.Header[k]; !ok {
			r.Header.Set(k, v)
		}
	}
	if _, ok := r.Header["User-Agent"]; !ok {
		r.Header.Set("User-Agent", "Ratus-Client")
	}
	return t.roundTripper.RoundTrip(r)
}
""")),
same("transport new", (TR,'''	t := http.DefaultTransport.(*http.Transport).Clone()
''','''	t := baseTransport()
'''),(TR,"func (t *transport) RoundTrip(",'''func baseTransport() *http.Transport {
	return http.DefaultTransport.(*http.Transport).Clone()
}

func (t *transport) RoundTrip(''')),
same("error table", fun(RA,"func NewError(","""
func NewError(err error) *Error {
	e := new(Error)
	e.Error.Code = statusOf(err)
	e.Error.Message = err.Error()
	return e
}

var statuses = []struct {
	err  error
	code int
}{
	{context.Canceled, StatusClientClosedRequest},
	{io.ErrUnexpectedEOF, StatusClientClosedRequest},
	{ErrClientClosedRequest, StatusClientClosedRequest},
	{ErrBadRequest, http.StatusBadRequest},
	{ErrNotFound, http.StatusNotFound},
	{ErrConflict, http.StatusConflict},
	{ErrServiceUnavailable, http.StatusServiceUnavailable},
}

func statusOf(err error) int {
	for _, s := range statuses {
		if errors.Is(err, s.err) {
			return s.code
		}
	}
	return http.StatusInternalServerError
}
""")),
same("error map", (RA,'''	// Determine the sentinel error to wrap around based on the error code.
	var err error
	switch e.Error.Code {
	case StatusClientClosedRequest:
		err = ErrClientClosedRequest
	case http.StatusBadRequest:
		err = ErrBadRequest
	case http.StatusNotFound:
		err = ErrNotFound
	case http.StatusConflict:
		err = ErrConflict
	case http.StatusInternalServerError:
		err = ErrInternalServerError
	case http.StatusServiceUnavailable:
		err = ErrServiceUnavailable
	default:
		return errors.New(e.Error.Message)
	}
''','''	err, ok := sentinels[e.Error.Code]
	if !ok {
		return errors.New(e.Error.Message)
	}
'''),(RA,"// NewError creates",'''var sentinels = map[int]error{
	StatusClientClosedRequest:      ErrClientClosedRequest,
	http.StatusBadRequest:          ErrBadRequest,
	http.StatusNotFound:            ErrNotFound,
	http.StatusConflict:            ErrConflict,
	http.StatusInternalServerError: ErrInternalServerError,
	http.StatusServiceUnavailable:  ErrServiceUnavailable,
}

// NewError creates''')),
same("error cut prefix", (RA,'''	m := strings.TrimPrefix(e.Error.Message, err.Error())
	if m != "" {
		err = fmt.Errorf("%w%s", err, m)
	}

	return err
''','''	m, _ := strings.CutPrefix(e.Error.Message, err.Error())
	if m == "" {
		return err
	}
	return fmt.Errorf("%w%s", err, m)
''')),
same("pagination checks", fun(PG,"func Pagination(","""
func Pagination(pc *config.PaginationConfig) gin.HandlerFunc {
	return func(c *gin.Context) {
		var p pagination
		if err := c.ShouldBindQuery(&p); err != nil {
			fail(c, fmt.Errorf("%w: invalid pagination parameters", ratus.ErrBadRequest))
			return
		}
		if err := p.normalize(pc); err != nil {
			fail(c, err)
			return
		}
		c.Set(ParamLimit, p.Limit)
		c.Set(ParamOffset, p.Offset)
		c.Next()
	}
}

type pagination struct {
	Limit  int `form:"limit"`
	Offset int `form:"offset"`
}

func (p *pagination) normalize(pc *config.PaginationConfig) error {
	if p.Limit == 0 {
		p.Limit = min(ratus.DefaultLimit, pc.MaxLimit)
	}
	if err := within("limit", p.Limit, pc.MaxLimit); err != nil {
		return err
	}
	return within("offset", p.Offset, pc.MaxOffset)
}

func within(name string, v, max int) error {
	switch {
	case v < 0:
		return fmt.Errorf("%w: %s must not be negative", ratus.ErrBadRequest, name)
	case v > max:
		return fmt.Errorf("%w: exceeded maximum allowed %s of %d", ratus.ErrBadRequest, name, max)
	}
	return nil
}
""")),
same("prometheus deferred", fun(PR,"func Prometheus(","""
func Prometheus() gin.HandlerFunc {
	return observe
}

func observe(c *gin.Context) {
	start := time.Now()
	c.Next()
	elapsed := time.Now().Sub(start)
	labels := metrics.Labels(
		c.Param(ParamTopic),
		c.Request.Method,
		c.FullPath(),
		strconv.FormatInt(int64(c.Writer.Status()), 10),
	)
	metrics.RequestHistogram.WithLabelValues(labels...).Observe(elapsed.Seconds())
}
""")),
same("commit normalise steps", fun(CM,"func normalizeCommit(","""
func normalizeCommit(m *ratus.Commit) error {
	if strings.IndexByte(m.Topic, 0) >= 0 {
		return errors.New("target topic must not contain null characters")
	}
	if s, err := stateOf(m.State); err != nil {
		return err
	} else {
		m.State = &s
	}
	if m.Scheduled == nil && m.Defer != "" {
		t, err := after(m.Defer)
		if err != nil {
			return err
		}
		m.Scheduled = t
	}
	m.Defer = ""
	return nil
}

func stateOf(p *ratus.TaskState) (ratus.TaskState, error) {
	if p == nil {
		return ratus.TaskStateCompleted, nil
	}
	switch *p {
	case ratus.TaskStatePending, ratus.TaskStateActive, ratus.TaskStateCompleted, ratus.TaskStateArchived:
		return *p, nil
	}
	return 0, fmt.Errorf("invalid target state %d", *p)
}

// after returns the time after a duration.
func after(s string) (*time.Time, error) {
	d, err := time.ParseDuration(s)
	if err != nil {
		return nil, err
	}
	t := time.Now().Add(d)
	return &t, nil
}
""")),
same("indexer shared", fun(IX,"func (i *TimeFieldIndex) FromObject(","""
func (i *TimeFieldIndex) FromObject(obj any) (bool, []byte, error) {
	v := fieldOf(obj, i.Field)
	if !v.IsValid() {
		return false, nil, nil
	}
	t, ok := v.Interface().(time.Time)
	if !ok {
		return false, nil, fmt.Errorf("field %q is of type %v; want a time.Time", i.Field, v.Kind())
	}
	return true, i.encodeInt64(t.UnixMilli()), nil
}

func fieldOf(obj any, name string) reflect.Value {
	return reflect.Indirect(reflect.Indirect(reflect.ValueOf(obj)).FieldByName(name))
}
"""), fun(IX,"func (i *StateFieldIndex) FromObject(","""
func (i *StateFieldIndex) FromObject(obj any) (bool, []byte, error) {
	v := fieldOf(obj, i.Field)
	switch {
	case !v.IsValid():
		return false, nil, nil
	case v.Kind() != reflect.Int32:
		return false, nil, fmt.Errorf("field %q is of type %v; want a ratus.TaskState", i.Field, v.Kind())
	}
	if s := ratus.TaskState(v.Int()); s == i.Filter {
		return true, []byte{uint8(s)}, nil
	}
	return false, nil, nil
}
""")),
same("indexer append", (IX,'''	v = v ^ int64(-1<<63)

	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(v))
	return b
''','''	return binary.BigEndian.AppendUint64(nil, uint64(v)^(1<<63))
''')),
same("indexer concrete", fun(IX,"func (i *TimeFieldIndex) FromArgs(","""
func (i *TimeFieldIndex) FromArgs(args ...any) ([]byte, error) {
	if len(args) != 1 {
		return nil, fmt.Errorf("must provide only a single argument")
	}
	switch t := args[0].(type) {
	case time.Time:
		return i.encodeInt64(t.UnixMilli()), nil
	case *time.Time:
		if t == nil {
			return nil, fmt.Errorf("%#v is invalid", args[0])
		}
		return i.encodeInt64(t.UnixMilli()), nil
	}
	return nil, fmt.Errorf("arg is of type %T; want a time.Time", args[0])
}
""")),
same("memdb destroy nested", fun(MM,"func (g *Engine) Destroy(","""
func (g *Engine) Destroy(ctx context.Context) error {
	_, err := g.DeleteTopics(ctx)
	if err == nil {
		err = g.Close(ctx)
	}
	if err == nil && g.persistent() {
		err = os.Remove(g.config.SnapshotPath)
	}
	return err
}

func (g *Engine) persistent() bool { return g.config.SnapshotPath != "" }
"""), fun(MM,"func (g *Engine) Close(","""
func (g *Engine) Close(ctx context.Context) error {
	if !g.persistent() {
		return nil
	}
	return save(g.database, g.config.SnapshotPath)
}
"""), fun(MM,"func (g *Engine) Open(","""
func (g *Engine) Open(ctx context.Context) (err error) {
	db, err := memdb.NewMemDB(g.schema)
	if err != nil {
		return err
	}
	if g.persistent() {
		err = load(db, g.config.SnapshotPath)
	}
	if err == nil {
		g.database = db
	}
	return err
}
""")),
same("memdb portable explicit", fun(MM,"func portable(","""
func portable(v *ratus.Task) *ratus.Task {
	u := clone(v)
	u.Produced = utc(v.Produced)
	u.Scheduled = utc(v.Scheduled)
	u.Consumed = utc(v.Consumed)
	u.Deadline = utc(v.Deadline)
	return u
}

func utc(p *time.Time) *time.Time {
	if p == nil {
		return nil
	}
	t := p.UTC()
	return &t
}
""")),
same("memdb ops literal", fun(MM,"func updateOpsConsume(","""
func updateOpsConsume(v *ratus.Task, p *ratus.Promise, t time.Time) *ratus.Task {
	return &ratus.Task{
		ID:        v.ID,
		Topic:     v.Topic,
		State:     ratus.TaskStateActive,
		Nonce:     nonce.Generate(ratus.NonceLength),
		Producer:  v.Producer,
		Consumer:  p.Consumer,
		Produced:  v.Produced,
		Scheduled: v.Scheduled,
		Consumed:  &t,
		Deadline:  p.Deadline,
		Payload:   v.Payload,
	}
}
""")),
same("memdb save buffered", (MM,'''	enc := gob.NewEncoder(f)
''','''	w := bufio.NewWriter(f)
	enc := gob.NewEncoder(w)
'''),(MM,'''	txn.Commit()

	// Mark the operation''','''	txn.Commit()
	if err := w.Flush(); err != nil {
		return err
	}

	// Mark the operation'''),(MM,'import (\n','import (\n\t"bufio"\n')),
same("metrics labels copy", fun(ME,"func Labels(","""
func Labels(vs ...string) []string {
	ls := make([]string, len(vs))
	for i := range vs {
		ls[i] = strings.ToValidUTF8(vs[i], "\\uFFFD")
	}
	return ls
}
""")),
same("metrics labels append", fun(ME,"func Labels(","""
func Labels(vs ...string) []string {
	var ls []string
	for _, v := range vs {
		ls = append(ls, valid(v))
	}
	return ls
}

func valid(v string) string { return strings.ToValidUTF8(v, "\\uFFFD") }
""")),
same("context setters share", fun(CX,"func (ctx *Context) SetNonce(","""
func (ctx *Context) SetNonce(nonce string) *Context {
	return ctx.update(func(m *Commit) { m.Nonce = nonce })
}

func (ctx *Context) update(f func(*Commit)) *Context {
	f(&ctx.commit)
	return ctx
}
"""), fun(CX,"func (ctx *Context) SetState(","""
func (ctx *Context) SetState(s TaskState) *Context {
	return ctx.update(func(m *Commit) { m.State = &s })
}
"""), fun(CX,"func (ctx *Context) Reschedule(","""
func (ctx *Context) Reschedule(t time.Time) *Context {
	return ctx.SetScheduled(t).Abstain()
}
"""), fun(CX,"func (ctx *Context) Force(","""
func (ctx *Context) Force() *Context { return ctx.SetNonce("") }
""")),
same("main components", (MN,'''	r := router.New(&controller.V1{
		Pagination: middleware.Pagination(&a.PaginationConfig),
		Topic:      controller.NewTopicController(g),
		Task:       controller.NewTaskController(g),
		Promise:    controller.NewPromiseController(g),
		Health:     controller.NewHealthController(g),
		Metrics:    controller.NewMetricsController(g),
	}, &docs.Swagger{})
''','''	h := handler(g, &a)
'''),(MN,'''		return serve(ctx, r.Handler(), &a.ServerConfig)
''','''		return serve(ctx, h, &a.ServerConfig)
'''),(MN,"func serve(",'''func handler(g engine.Engine, a *args) http.Handler {
	v := new(controller.V1)
	v.Pagination = middleware.Pagination(&a.PaginationConfig)
	v.Topic = controller.NewTopicController(g)
	v.Task = controller.NewTaskController(g)
	v.Promise = controller.NewPromiseController(g)
	v.Health = controller.NewHealthController(g)
	v.Metrics = controller.NewMetricsController(g)
	groups := []router.Group{v, new(docs.Swagger)}
	return router.New(groups...).Handler()
}

func serve(''')),
same("main signal context", (MN,'''	ch := make(chan os.Signal, 1)
	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)

	// Start timer''','''	sig, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)
	defer stop()

	// Start timer'''),(MN,"		case <-ch:\n			log.Println(\"stop running","		case <-sig.Done():\n			log.Println(\"stop running")),
]
