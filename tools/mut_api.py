MT="internal/middleware/task.go"; MP="internal/middleware/promise.go"; MC="internal/middleware/commit.go"; MG="internal/middleware/pagination.go"; MM="internal/middleware/prometheus.go"; MW="internal/middleware/middleware.go"
CC="internal/controller/controller.go"; CT="internal/controller/task.go"; CP="internal/controller/promise.go"; CO="internal/controller/topic.go"; CH="internal/controller/health.go"; CM="internal/controller/metrics.go"; ME="internal/metrics/metrics.go"
RR="internal/router/router.go"; RA="ratus.go"; MX="internal/metrics/metrics.go"; MN="cmd/ratus/main.go"
A=["C17","C18","C19","C24","C28","C30"]
def bug(n,*e): return (n,"bug",A,list(e))
def same(n,*e): return (n,"same",A,list(e))
MUT=[
# ---- validation
bug("task id from path wins", (MT,'	if id != "" && t.ID != id {\n		return errors.New("task ID is inconsistent with the path parameter")\n	}\n','	if id != "" {\n		t.ID = id\n	}\n')),
bug("task id mismatch only prefix", (MT,'id != "" && t.ID != id {','id != "" && !strings.HasPrefix(t.ID, id) {')),
bug("task empty topic from path ignored", (MT,'	if t.Topic == "" && topic != "" {\n		t.Topic = topic\n	}','	if topic != "" {\n		t.Topic = topic\n	}')),
bug("task negative state", (MT,'t.State < ratus.TaskStatePending || t.State > ratus.TaskStateArchived','t.State > ratus.TaskStateArchived')),
bug("task state off by one", (MT,'t.State > ratus.TaskStateArchived','t.State > ratus.TaskStateArchived+1')),
bug("task produced overwritten", (MT,'	if t.Produced == nil {\n		t.Produced = &n\n	}','	t.Produced = &n')),
bug("task defer precedence", (MT,'t.Defer != "" && t.Scheduled == nil','t.Defer != ""')),
bug("task defer relative to produced", (MT,'s := n.Add(d)','s := t.Produced.Add(d)')),
bug("task defer subtract", (MT,'s := n.Add(d)','s := n.Add(-d)')),
bug("task defer kept", (MT,'	t.Defer = ""\n','')),
bug("task defer kept when scheduled", (MT,'		t.Scheduled = &s\n	}','		t.Scheduled = &s\n		t.Defer = ""\n	}'),(MT,'	// Clear the defer field after converting to an absolute timestamp.\n	t.Defer = ""\n','')),
bug("task schedule defaults to produced", (MT,'	if t.Scheduled == nil {\n		t.Scheduled = &n\n	}','	if t.Scheduled == nil {\n		t.Scheduled = t.Produced\n	}')),
bug("task schedule nil kept", (MT,'	if t.Scheduled == nil {\n		t.Scheduled = &n\n	}','')),
bug("task eof accepted", (MT,'				fail(c, fmt.Errorf("%w: missing request body", ratus.ErrBadRequest))\n				return\n			}\n			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n			return\n		}\n\n		// Validate and normalize the task.','				t.ID = c.Param(ParamID)\n			} else {\n			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n			return\n			}\n		}\n\n		// Validate and normalize the task.')),
bug("tasks skip null", (MT,'		for _, t := range ts.Data {\n','		for _, t := range ts.Data {\n			if t == nil {\n				continue\n			}\n')),
bug("tasks only first", (MT,'				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n				return\n			}\n		}\n\n		// Allow','				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n				return\n			}\n			break\n		}\n\n		// Allow')),
same("tasks null data", (MT,'			ts.Data = make([]*ratus.Task, 0)','			ts.Data = nil')),
bug("tasks missing return", (MT,'				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n				return\n			}\n		}\n\n		// Allow','				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n				break\n			}\n		}\n\n		// Allow')),
bug("task null nil guard lost", (MT,'	if t == nil {\n		return errors.New("task must not be null")\n	}\n','')),
bug("task null chars id", (MT,'strings.Contains(t.ID, "\\x00") || strings.Contains(t.Topic, "\\x00")','strings.Contains(t.Topic, "\\x00")')),
bug("task null chars before topic", (MT,'strings.Contains(t.ID, "\\x00") || strings.Contains(t.Topic, "\\x00")','strings.Contains(t.ID, "\\x00") || strings.Contains(topic, "\\x00")')),
bug("task overwrite nonce", (MT,'	// Normalize produced time.\n','	t.Nonce = ""\n	// Normalize produced time.\n')),
bug("task strip payload", (MT,'	// Normalize produced time.\n','	if t.Payload == "" {\n		t.Payload = nil\n	}\n	// Normalize produced time.\n')),
bug("promise id overrides", (MP,'	if id != "" && p.ID == "" {','	if id != "" {')),
bug("promise id unchecked", (MP,'	if id != "" && p.ID != id {\n		return errors.New("promise ID is inconsistent with the path parameter")\n	}\n',''),(MP,'	"errors"\n','')),
bug("promise timeout precedence", (MP,'	if p.Deadline == nil {\n		if p.Timeout == "" {\n			p.Timeout = ratus.DefaultTimeout\n		}','	if p.Deadline == nil || p.Timeout != "" {\n		if p.Timeout == "" {\n			p.Timeout = ratus.DefaultTimeout\n		}')),
bug("promise no default", (MP,'			p.Timeout = ratus.DefaultTimeout\n','			return nil\n')),
same("promise timeout kept", (MP,'	p.Timeout = ""\n','')),
bug("promise query skipped", (MP,'		if err := c.ShouldBindQuery(&p); err != nil {\n			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n			return\n		}\n','')),
bug("promise query only without body", (MP,'		if err := c.ShouldBindQuery(&p); err != nil {\n','		if c.Request.ContentLength == 0 {\n			if err := c.ShouldBindQuery(&p); err != nil {\n				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))\n				return\n			}\n		} else if err := error(nil); err != nil {\n')),
bug("promise bad body accepted", (MP,'err != nil && err != io.EOF {','err != nil && err != io.EOF && c.Request.URL.RawQuery == "" {')),
bug("commit default pending", (MC,'s := ratus.TaskStateCompleted','s := ratus.TaskStatePending')),
bug("commit default topicless", (MC,'	if m.State == nil {\n','	if m.State == nil && m.Topic == "" {\n')),
bug("commit state unchecked when scheduled", (MC,'if *m.State < ratus.TaskStatePending || *m.State > ratus.TaskStateArchived {','if m.Scheduled == nil && (*m.State < ratus.TaskStatePending || *m.State > ratus.TaskStateArchived) {')),
bug("commit defer precedence", (MC,'m.Defer != "" && m.Scheduled == nil','m.Defer != ""')),
bug("commit nul topic", (MC,'	if strings.Contains(m.Topic, "\\x00") {\n		return errors.New("target topic must not contain null characters")\n	}\n',''),(MC,'	"errors"\n',''),(MC,'	"strings"\n','')),
bug("commit nonce trimmed", (MC,'	// Normalize and validate state.','	m.Nonce = strings.TrimSpace(m.Nonce)\n	// Normalize and validate state.')),
bug("commit topic from path", (MC,'		// Validate and normalize the commit.\n','		if m.Topic == "" {\n			m.Topic = c.Param(ParamTopic)\n		}\n		// Validate and normalize the commit.\n')),
bug("page limit inclusive", (MG,'p.Limit > pc.MaxLimit {','p.Limit > pc.MaxLimit+1 {')),
bug("page clamp", (MG,'		if p.Limit > pc.MaxLimit {\n			fail(c, fmt.Errorf("%w: exceeded maximum allowed limit of %d", ratus.ErrBadRequest, pc.MaxLimit))\n			return\n		}\n','		if p.Limit > pc.MaxLimit && p.Offset == 0 {\n			fail(c, fmt.Errorf("%w: exceeded maximum allowed limit of %d", ratus.ErrBadRequest, pc.MaxLimit))\n			return\n		}\n')),
bug("page default always 10", (MG,'			if ratus.DefaultLimit < pc.MaxLimit {\n				p.Limit = ratus.DefaultLimit\n			} else {\n				p.Limit = pc.MaxLimit\n			}','			p.Limit = pc.MaxLimit')),
bug("page swapped", (MG,'		c.Set(ParamLimit, p.Limit)\n		c.Set(ParamOffset, p.Offset)','		c.Set(ParamLimit, p.Offset)\n		c.Set(ParamOffset, p.Limit)')),
bug("page offset unset at zero", (MG,'		c.Set(ParamOffset, p.Offset)','		if p.Limit > 1 {\n			c.Set(ParamOffset, p.Offset)\n		}')),
bug("page negative offset", (MG,'p.Offset < 0 {','p.Offset < -1 {')),
same("page no abort", (MG,'			fail(c, fmt.Errorf("%w: exceeded maximum allowed offset of %d", ratus.ErrBadRequest, pc.MaxOffset))\n			return','			fail(c, fmt.Errorf("%w: exceeded maximum allowed offset of %d", ratus.ErrBadRequest, pc.MaxOffset))')),
# ---- responses
bug("send wrong code 500", (RA,'	case errors.Is(err, ErrConflict):\n		s = http.StatusConflict\n','')),
bug("newerror order", (RA,'	case errors.Is(err, ErrNotFound):\n		s = http.StatusNotFound','	case err == ErrNotFound:\n		s = http.StatusNotFound')),
bug("newerror badrequest eq", (RA,'	case errors.Is(err, ErrBadRequest):','	case err == ErrBadRequest:')),
bug("newerror unavailable", (RA,'	case errors.Is(err, ErrServiceUnavailable):\n		s = http.StatusServiceUnavailable','	case errors.Is(err, ErrServiceUnavailable):\n		s = http.StatusInternalServerError')),
bug("newerror message", (RA,'	e.Error.Message = err.Error()','	e.Error.Message = http.StatusText(s)')),
bug("newerror default 200", (RA,'	default:\n		s = http.StatusInternalServerError','	case errors.Is(err, ErrInternalServerError):\n		s = http.StatusInternalServerError')),
bug("send no abort return", (CC,'		c.AbortWithStatusJSON(e.Error.Code, e)\n		return','		c.AbortWithStatusJSON(e.Error.Code, e)')),
bug("send status vs code", (CC,'		c.AbortWithStatusJSON(e.Error.Code, e)','		c.AbortWithStatusJSON(http.StatusOK, e)')),
bug("send created when updated", (CC,'x.Created > 0 {','x.Created+x.Updated > 0 {')),
bug("send created never", (CC,'	case *ratus.Updated:\n','	case ratus.Updated:\n')),
bug("send created both", (CC,'x.Created > 0 {','x.Created > 0 && x.Updated == 0 {')),
bug("fail without abort", (MW,'	c.AbortWithStatusJSON(e.Error.Code, e)','	c.JSON(e.Error.Code, e)')),
bug("fail 500", (MW,'	c.AbortWithStatusJSON(e.Error.Code, e)','	c.AbortWithStatusJSON(500, e)')),
bug("post err swallowed", (CT,'	v, err := r.Engine.InsertTask(c.Request.Context(), t)\n	if err == ratus.ErrConflict {\n		err = fmt.Errorf("%w: a task with the same ID already exists", err)\n	}','	v, err := r.Engine.InsertTask(c.Request.Context(), t)\n	if err == ratus.ErrConflict {\n		err = fmt.Errorf("%v: a task with the same ID already exists", err)\n	}')),
bug("promise conflict to notfound", (CP,'err = fmt.Errorf("%w: the target task is not in pending state", err)','err = fmt.Errorf("%w: the target task is not in pending state", ratus.ErrNotFound)')),
bug("patch conflict nil", (CT,'		err = fmt.Errorf("%w: the task may have been modified by others", err)','		err = nil')),
bug("list ignores err", (CT,'	v, err := r.Engine.ListTasks(c.Request.Context(), c.Param(middleware.ParamTopic), c.GetInt(middleware.ParamLimit), c.GetInt(middleware.ParamOffset))\n	send(c, &ratus.Tasks{Data: v}, err)','	v, _ := r.Engine.ListTasks(c.Request.Context(), c.Param(middleware.ParamTopic), c.GetInt(middleware.ParamLimit), c.GetInt(middleware.ParamOffset))\n	send(c, &ratus.Tasks{Data: v}, nil)')),
bug("noroute empty", (RR,'		c.AbortWithStatusJSON(http.StatusNotFound, e)','		_ = e\n		c.AbortWithStatus(http.StatusNotFound)'),),
bug("delete promise returns twice", (CP,'	v, err := r.Engine.DeletePromise(c.Request.Context(), c.Param(middleware.ParamID))\n	send(c, v, err)','	v, err := r.Engine.DeletePromise(c.Request.Context(), c.Param(middleware.ParamID))\n	if err != nil {\n		send(c, nil, err)\n	}\n	send(c, v, err)')),
# ---- routes
bug("background ctx", (CT,'r.Engine.DeleteTasks(c.Request.Context(), c.Param(middleware.ParamTopic))','r.Engine.DeleteTasks(context.Background(), c.Param(middleware.ParamTopic))'),(CT,'	"fmt"\n','	"context"\n	"fmt"\n')),
bug("delete tasks by id", (CT,'r.Engine.DeleteTask(c.Request.Context(), c.Param(middleware.ParamID))','r.Engine.DeleteTasks(c.Request.Context(), c.Param(middleware.ParamTopic))')),
bug("list swapped", (CO,'c.GetInt(middleware.ParamLimit), c.GetInt(middleware.ParamOffset)','c.GetInt(middleware.ParamOffset), c.GetInt(middleware.ParamLimit)')),
bug("promises list tasks", (CP,'c.GetInt(middleware.ParamLimit), c.GetInt(middleware.ParamOffset)','c.GetInt(middleware.ParamLimit), 0')),
bug("put inserts", (CC,'	r.PUT("/topics/:topic/tasks/:id", bindTask, v.Task.PutTask)','	r.PUT("/topics/:topic/tasks/:id", bindTask, v.Task.PostTask)')),
bug("no bind", (CC,'	r.PATCH("/topics/:topic/tasks/:id", bindCommit, v.Task.PatchTask)','	r.POST("/topics/:topic/tasks/:id/commit", bindCommit, v.Task.PatchTask)')),
bug("unpaginated", (CC,'r.GET("/topics/:topic/promises", v.Pagination, v.Promise.GetPromises)','r.GET("/topics/:topic/promises", v.Promise.GetPromises)')),
bug("prefix lost", (CC,'[]string{"/", "/v1"}','[]string{"/v1"}')),
bug("delete topics is delete tasks", (CC,'r.DELETE("/topics/:topic/tasks", v.Task.DeleteTasks)','r.DELETE("/topics/:topic/tasks", v.Topic.DeleteTopic)')),
bug("wildcard polls anyway", (CP,'	if p.ID != "" {\n		r.PostPromise(c)\n		return\n	}\n','')),
bug("wildcard upserts", (CP,'	if p.ID != "" {\n		r.PostPromise(c)\n		return\n	}\n','	if p.ID != "" {\n		r.PutPromise(c)\n		return\n	}\n')),
bug("poll twice", (CP,'	v, err := r.Engine.Poll(c.Request.Context(), c.Param(middleware.ParamTopic), p)\n','	v, err := r.Engine.Poll(c.Request.Context(), c.Param(middleware.ParamTopic), p)\n	if err != nil {\n		v, err = r.Engine.Poll(c.Request.Context(), c.Param(middleware.ParamTopic), p)\n	}\n')),
bug("rawpath off", (RR,'	r.UseRawPath = true\n','')),
bug("unescape off", (RR,'	r.UnescapePathValues = true\n','	r.UnescapePathValues = false\n')),
bug("insert empties skip", (CT,'	v, err := r.Engine.InsertTasks(c.Request.Context(), ts.Data)\n','	if len(ts.Data) > 1 {\n		ts.Data = ts.Data[:len(ts.Data)-1]\n	}\n	v, err := r.Engine.InsertTasks(c.Request.Context(), ts.Data)\n')),
bug("commit nonce dropped", (CT,'	v, err := r.Engine.Commit(c.Request.Context(), c.Param(middleware.ParamID), m)','	if *m.State == ratus.TaskStateArchived {\n		m.Nonce = ""\n	}\n	v, err := r.Engine.Commit(c.Request.Context(), c.Param(middleware.ParamID), m)')),
# ---- metrics
bug("produced by len", (CT,'.Add(float64(v.Created))\n	}\n}\n\n// PutTasks','.Add(float64(len(ts.Data)))\n	}\n}\n\n// PutTasks'),) ,
bug("produced put only created", (CT,'	if v != nil && v.Created+v.Updated > 0 {\n		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created + v.Updated))','	if v != nil && v.Created+v.Updated > 0 {\n		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created))')),
bug("labels swapped", (CP,'metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...)','metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Consumer, t.Producer)...)')),
bug("consumed not collected on put", (CP,'	v, err := r.Engine.UpsertPromise(c.Request.Context(), p)\n	send(c, v, err)\n	r.collectMetrics(v)','	v, err := r.Engine.UpsertPromise(c.Request.Context(), p)\n	send(c, v, err)')),
bug("consumed only if scheduled", (CP,'	// Collect number of tasks consumed.\n	if t != nil {','	// Collect number of tasks consumed.\n	if t != nil && t.Scheduled != nil {')),
bug("delay reversed", (CP,'t.Consumed.Sub(*t.Scheduled)','t.Scheduled.Sub(*t.Consumed)')),
bug("delay nil", (CP,'t != nil && t.Scheduled != nil && t.Consumed != nil','t != nil && t.Consumed != nil')),
bug("committed double", (CT,'metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(1)','metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(2)')),
bug("execution millis", (CT,'time.Since(*v.Consumed).Seconds()','float64(time.Since(*v.Consumed).Milliseconds())')),
bug("raw labels", (CT,'metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...)','metrics.CommittedCounter.WithLabelValues(v.Topic, v.Producer, v.Consumer)')),
bug("prom before next", (MM,'		c.Next()\n		d := time.Since(t).Seconds()\n		s := strconv.Itoa(c.Writer.Status())\n','		s := strconv.Itoa(c.Writer.Status())\n		c.Next()\n		d := time.Since(t).Seconds()\n')),
bug("prom only success", (MM,'		metrics.RequestHistogram','		if c.IsAborted() {\n			return\n		}\n		metrics.RequestHistogram')),
bug("prom url path", (MM,'c.FullPath()','c.Request.URL.Path')),
bug("prom missing", (CC,'	r.Use(middleware.Prometheus())\n',''),(CC,'r.GET("/topics", v.Pagination','r.GET("/topics", middleware.Prometheus(), v.Pagination')),
bug("prom duration before", (MM,'		t := time.Now()\n		c.Next()\n','		c.Next()\n		t := time.Now()\n')),
bug("metrics label missing", (MX,'[]string{labelTopic, labelProducer}','[]string{labelTopic, labelProducer, labelConsumer}')),
bug("first producer index", (CT,'	if v != nil && v.Created > 0 && len(ts.Data) > 0 {','	if v != nil && v.Created > 0 {')),
bug("nil updated", (CT,'	if v != nil && v.Created > 0 {','	if v.Created > 0 {')),
bug("labels partial", (MX,'	for i, v := range vs {\n','	for i, v := range vs {\n		if i == 0 {\n			continue\n		}\n')),
# ---- health
bug("live uses ready", (CC,'	r.GET("/livez", v.Health.GetLiveness)','	r.GET("/livez", v.Health.GetReadiness)')),
bug("ready always", (CH,'	if err := r.Engine.Ready(c.Request.Context()); err != nil {','	if err := r.Engine.Ready(c.Request.Context()); err != nil && err != ratus.ErrServiceUnavailable {'),(CH,'	"github.com/hyperonym/ratus/internal/engine"\n','	"github.com/hyperonym/ratus"\n	"github.com/hyperonym/ratus/internal/engine"\n')),
bug("readyz continues", (CH,'		send(c, nil, err)\n		return\n','		send(c, nil, err)\n')),
bug("ready memdb always", ("internal/engine/memdb/memdb.go",'	if g.database == nil {\n		return ratus.ErrServiceUnavailable','	if g.database == nil && g.config == nil {\n		return ratus.ErrServiceUnavailable')),
bug("must get wrong key", (CP,'	p := c.MustGet(middleware.ParamPromise).(*ratus.Promise)\n	v, err := r.Engine.UpsertPromise','	p := c.MustGet(middleware.ParamTask).(*ratus.Promise)\n	v, err := r.Engine.UpsertPromise')),
# ---- same
same("index loop", (MT,'		for _, t := range ts.Data {\n			if err := normalizeTask(t, "", p)','		for i := 0; i < len(ts.Data); i++ {\n			if err := normalizeTask(ts.Data[i], "", p)')),
same("index range", (MT,'		for _, t := range ts.Data {\n			if err := normalizeTask(t, "", p)','		for i := range ts.Data {\n			if err := normalizeTask(ts.Data[i], "", p)')),
same("tasks nil first", (MT,'		// Validate and normalize all tasks in the list.\n','		if ts.Data == nil {\n			ts.Data = []*ratus.Task{}\n		}\n		// Validate and normalize all tasks in the list.\n')),
same("tasks helper", (MT,'''		p := c.Param(ParamTopic)
		for _, t := range ts.Data {
			if err := normalizeTask(t, "", p); err != nil {
				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
				return
			}
		}
''','''		if err := normalizeTasks(&ts, c.Param(ParamTopic)); err != nil {
			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
			return
		}
'''),(MT,'','''
func normalizeTasks(ts *ratus.Tasks, topic string) error {
	for _, t := range ts.Data {
		if err := normalizeTask(t, "", topic); err != nil {
			return err
		}
	}
	return nil
}
''')),
same("bad request helper", (MT,'''			if err == io.EOF {
				fail(c, fmt.Errorf("%w: missing request body", ratus.ErrBadRequest))
				return
			}
			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
			return
		}

		// Validate and normalize the task.
''','''			failBind(c, err)
			return
		}

		// Validate and normalize the task.
'''),(MT,'','''
func failBind(c *gin.Context, err error) {
	if errors.Is(err, io.EOF) {
		err = errors.New("missing request body")
	}
	fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
}
''')),
same("task id switch", (MT,'''	if t.ID == "" {
		t.ID = id
	}
	if t.ID == "" {
		return errors.New("task ID must not be empty")
	}
	if id != "" && t.ID != id {
		return errors.New("task ID is inconsistent with the path parameter")
	}
''','''	switch {
	case t.ID == "" && id == "":
		return errors.New("task ID must not be empty")
	case t.ID == "":
		t.ID = id
	case id != "" && t.ID != id:
		return errors.New("task ID is inconsistent with the path parameter")
	}
''')),
same("task state helper", (MT,'	if t.State < ratus.TaskStatePending || t.State > ratus.TaskStateArchived {','	if !validState(t.State) {'),(MT,'','''
func validState(s ratus.TaskState) bool {
	switch s {
	case ratus.TaskStatePending, ratus.TaskStateActive, ratus.TaskStateCompleted, ratus.TaskStateArchived:
		return true
	}
	return false
}
''')),
same("commit state helper", (MC,'	if *m.State < ratus.TaskStatePending || *m.State > ratus.TaskStateArchived {','	if s := *m.State; !(s >= ratus.TaskStatePending && s <= ratus.TaskStateArchived) {')),
same("task checks reordered", (MT,'''	// Validate task state.
	if t.State < ratus.TaskStatePending || t.State > ratus.TaskStateArchived {
		return fmt.Errorf("invalid state %d", t.State)
	}
''',''),(MT,'''	// Normalize and validate ID.
''','''	// Validate task state.
	if t.State < ratus.TaskStatePending || t.State > ratus.TaskStateArchived {
		return fmt.Errorf("invalid state %d", t.State)
	}

	// Normalize and validate ID.
''')),
same("containsrune", (MT,'strings.Contains(t.ID, "\\x00") || strings.Contains(t.Topic, "\\x00")','strings.ContainsRune(t.ID, 0) || strings.IndexByte(t.Topic, 0) >= 0')),
same("containsrune nul", (MC,'strings.Contains(m.Topic, "\\x00")','strings.ContainsRune(m.Topic, \'\\x00\')')),
same("schedule restructure", (MT,'''	if t.Defer != "" && t.Scheduled == nil {
		d, err := time.ParseDuration(t.Defer)
		if err != nil {
			return err
		}
		s := n.Add(d)
		t.Scheduled = &s
	}
	if t.Scheduled == nil {
		t.Scheduled = &n
	}
''','''	if t.Scheduled == nil {
		s := n
		if t.Defer != "" {
			d, err := time.ParseDuration(t.Defer)
			if err != nil {
				return fmt.Errorf("invalid defer: %w", err)
			}
			s = s.Add(d)
		}
		t.Scheduled = &s
	}
''')),
same("promise timeout local", (MP,'''		if p.Timeout == "" {
			p.Timeout = ratus.DefaultTimeout
		}
		d, err := time.ParseDuration(p.Timeout)
''','''		s := p.Timeout
		if s == "" {
			s = ratus.DefaultTimeout
		}
		d, err := time.ParseDuration(s)
''')),
same("promise id else", (MP,'''	if id != "" && p.ID == "" {
		p.ID = id
	}
	if id != "" && p.ID != id {
		return errors.New("promise ID is inconsistent with the path parameter")
	}
''','''	if id != "" {
		if p.ID == "" {
			p.ID = id
		} else if p.ID != id {
			return errors.New("promise ID is inconsistent with the path parameter")
		}
	}
''')),
same("page min", (MG,'''			if ratus.DefaultLimit < pc.MaxLimit {
				p.Limit = ratus.DefaultLimit
			} else {
				p.Limit = pc.MaxLimit
			}
''','''			p.Limit = min(ratus.DefaultLimit, pc.MaxLimit)
''')),
same("page min helper", (MG,'''			if ratus.DefaultLimit < pc.MaxLimit {
				p.Limit = ratus.DefaultLimit
			} else {
				p.Limit = pc.MaxLimit
			}
''','''			p.Limit = defaultLimit(pc)
'''),(MG,'','''
func defaultLimit(pc *config.PaginationConfig) int {
	n := ratus.DefaultLimit
	if n > pc.MaxLimit {
		n = pc.MaxLimit
	}
	return n
}
''')),
same("page checks helper", (MG,'''		if p.Limit < 0 {
			fail(c, fmt.Errorf("%w: limit must not be negative", ratus.ErrBadRequest))
			return
		}
		if p.Offset < 0 {
			fail(c, fmt.Errorf("%w: offset must not be negative", ratus.ErrBadRequest))
			return
		}
		if p.Limit > pc.MaxLimit {
			fail(c, fmt.Errorf("%w: exceeded maximum allowed limit of %d", ratus.ErrBadRequest, pc.MaxLimit))
			return
		}
		if p.Offset > pc.MaxOffset {
			fail(c, fmt.Errorf("%w: exceeded maximum allowed offset of %d", ratus.ErrBadRequest, pc.MaxOffset))
			return
		}
''','''		for _, x := range []struct {
			name string
			v, m int
		}{{"limit", p.Limit, pc.MaxLimit}, {"offset", p.Offset, pc.MaxOffset}} {
			if x.v < 0 {
				fail(c, fmt.Errorf("%w: %s must not be negative", ratus.ErrBadRequest, x.name))
				return
			}
			if x.v > x.m {
				fail(c, fmt.Errorf("%w: exceeded maximum allowed %s of %d", ratus.ErrBadRequest, x.name, x.m))
				return
			}
		}
''')),
same("newerror table", (RA,'''	var s int
	switch {
	case errors.Is(err, context.Canceled):
		s = StatusClientClosedRequest
	case errors.Is(err, io.ErrUnexpectedEOF):
		s = StatusClientClosedRequest
	case errors.Is(err, ErrClientClosedRequest):
		s = StatusClientClosedRequest
	case errors.Is(err, ErrBadRequest):
		s = http.StatusBadRequest
	case errors.Is(err, ErrNotFound):
		s = http.StatusNotFound
	case errors.Is(err, ErrConflict):
		s = http.StatusConflict
	case errors.Is(err, ErrServiceUnavailable):
		s = http.StatusServiceUnavailable
	default:
		s = http.StatusInternalServerError
	}
''','''	s := http.StatusInternalServerError
	for _, x := range []struct {
		err  error
		code int
	}{
		{context.Canceled, StatusClientClosedRequest},
		{io.ErrUnexpectedEOF, StatusClientClosedRequest},
		{ErrClientClosedRequest, StatusClientClosedRequest},
		{ErrBadRequest, http.StatusBadRequest},
		{ErrNotFound, http.StatusNotFound},
		{ErrConflict, http.StatusConflict},
		{ErrServiceUnavailable, http.StatusServiceUnavailable},
	} {
		if errors.Is(err, x.err) {
			s = x.code
			break
		}
	}
''')),
same("newerror helper", (RA,'''	var s int
	switch {
	case errors.Is(err, context.Canceled):
		s = StatusClientClosedRequest
	case errors.Is(err, io.ErrUnexpectedEOF):
		s = StatusClientClosedRequest
	case errors.Is(err, ErrClientClosedRequest):
		s = StatusClientClosedRequest
''','''	s := 0
	switch {
	case errors.Is(err, context.Canceled), errors.Is(err, io.ErrUnexpectedEOF), errors.Is(err, ErrClientClosedRequest):
		s = StatusClientClosedRequest
''')),
same("send if", (CC,'''	switch x := v.(type) {
	case *ratus.Updated:
		if x.Created > 0 {
			s = http.StatusCreated
		}
	}
''','''	if x, ok := v.(*ratus.Updated); ok && x.Created > 0 {
		s = http.StatusCreated
	}
''')),
same("send helper", (CC,'''		e := ratus.NewError(err)
		if e.Error.Code >= http.StatusInternalServerError {
			c.Error(err)
		}
		c.AbortWithStatusJSON(e.Error.Code, e)
		return
''','''		sendError(c, err)
		return
'''),(CC,'','''
func sendError(c *gin.Context, err error) {
	e := ratus.NewError(err)
	if e.Error.Code >= http.StatusInternalServerError {
		c.Error(err)
	}
	c.AbortWithStatusJSON(e.Error.Code, e)
}
''')),
same("errors is conflict", (CT,'	if err == ratus.ErrConflict {\n		err = fmt.Errorf("%w: a task','	if errors.Is(err, ratus.ErrConflict) {\n		err = fmt.Errorf("%w: a task'),(CT,'	"fmt"\n','	"errors"\n	"fmt"\n')),
same("produced helper", (CT,'''	if v != nil && v.Created+v.Updated > 0 {
		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created + v.Updated))
	}
''','''	if v != nil {
		collectProduced(t.Topic, t.Producer, v.Created+v.Updated)
	}
'''),(CT,'','''
func collectProduced(topic, producer string, n int64) {
	if n <= 0 {
		return
	}
	metrics.ProducedCounter.WithLabelValues(metrics.Labels(topic, producer)...).Add(float64(n))
}
''')),
same("produced inc add zero", (CT,'	if v != nil && v.Created > 0 {\n','	if v != nil {\n')),
same("committed inc", (CT,'metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(1)','metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Inc()')),
same("committed guard return", (CT,'''	// Collect task execution time.
	if v != nil && v.Consumed != nil {''','''	if v == nil {
		return
	}

	// Collect task execution time.
	if v.Consumed != nil {'''),(CT,'''	// Collect number of tasks committed.
	if v != nil {
		metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(1)
	}
''','''	// Collect number of tasks committed.
	metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(1)
''')),
same("collect before send", (CP,'	v, err := r.Engine.UpsertPromise(c.Request.Context(), p)\n	send(c, v, err)\n	r.collectMetrics(v)','	v, err := r.Engine.UpsertPromise(c.Request.Context(), p)\n	if err == nil {\n		r.collectMetrics(v)\n	}\n	send(c, v, err)')),
same("collect helper fn", (CP,'''func (r *PromiseController) collectMetrics(t *ratus.Task) {
''','''func (r *PromiseController) collectMetrics(t *ratus.Task) {
	if t == nil {
		return
	}
	labels := metrics.Labels(t.Topic, t.Producer, t.Consumer)
'''),(CP,'metrics.DelayGauge.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...)','metrics.DelayGauge.WithLabelValues(labels...)'),(CP,'metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...)','metrics.ConsumedCounter.WithLabelValues(labels...)'),(CP,'if t != nil && t.Scheduled','if t.Scheduled')),
same("prom defer", (MM,'''		t := time.Now()
		c.Next()
		d := time.Since(t).Seconds()
''','''		path := c.FullPath()
		t := time.Now()
		c.Next()
		d := time.Now().Sub(t).Seconds()
'''),(MM,'c.FullPath(), s','path, s')),
same("labels new slice", (MX,'''	for i, v := range vs {
		vs[i] = strings.ToValidUTF8(v, "\\uFFFD")
	}
	return vs
''','''	r := make([]string, 0, len(vs))
	for _, v := range vs {
		r = append(r, strings.ToValidUTF8(v, "\\uFFFD"))
	}
	return r
''')),
same("labels new slice idx", (MX,'''	for i, v := range vs {
		vs[i] = strings.ToValidUTF8(v, "\\uFFFD")
	}
	return vs
''','''	r := make([]string, len(vs))
	for i := range vs {
		r[i] = strings.ToValidUTF8(vs[i], "\\uFFFD")
	}
	return r
''')),
same("routes group", (CC,'''	r.GET("/topics/:topic", v.Topic.GetTopic)
	r.DELETE("/topics/:topic", v.Topic.DeleteTopic)
''','''	t := r.Group("/topics/:topic")
	t.GET("", v.Topic.GetTopic)
	t.DELETE("", v.Topic.DeleteTopic)
''')),
same("routes handle", (CC,'	r.GET("/topics/:topic", v.Topic.GetTopic)\n','	r.Handle(http.MethodGet, "/topics/:topic", v.Topic.GetTopic)\n')),
same("param names", (MW,'	ParamID      = "id"','	ParamID      = "task_id"'),*[(CC,'/:id"','/:task_id"')]*9),
same("health switch", (CH,'''	if err := r.Engine.Ready(c.Request.Context()); err != nil {
		send(c, nil, err)
		return
	}
	c.Status(http.StatusOK)
''','''	err := r.Engine.Ready(c.Request.Context())
	switch {
	case err != nil:
		send(c, nil, err)
	default:
		c.Status(http.StatusOK)
	}
''')),
same("ctx local", (CT,'	v, err := r.Engine.GetTask(c.Request.Context(), c.Param(middleware.ParamID))\n','	ctx, id := c.Request.Context(), c.Param(middleware.ParamID)\n	v, err := r.Engine.GetTask(ctx, id)\n')),
same("inline bind", (CC,'r.POST("/topics/:topic/tasks", bindTasks, v.Task.PostTasks)','r.POST("/topics/:topic/tasks", middleware.Tasks(), v.Task.PostTasks)')),
same("controllers literal", (MN,'controller.NewTopicController(g)','&controller.TopicController{Engine: g}')),
same("list data local", (CO,'	send(c, &ratus.Topics{Data: v}, err)','	var d ratus.Topics\n	d.Data = v\n	send(c, &d, err)')),
same("fail inline json", (MW,'	c.AbortWithStatusJSON(e.Error.Code, e)','	c.Abort()\n	c.JSON(e.Error.Code, e)')),
same("noroute code", (RR,'		c.AbortWithStatusJSON(http.StatusNotFound, e)','		_ = http.StatusNotFound\n		c.AbortWithStatusJSON(e.Error.Code, e)')),
same("noroute json", (RR,'		c.AbortWithStatusJSON(http.StatusNotFound, e)','		c.JSON(http.StatusNotFound, e)')),
bug("metric in other registry", (ME,'ProducedCounter = promauto.NewCounterVec(','ProducedCounter = promauto.With(prometheus.NewRegistry()).NewCounterVec(')),
bug("metric unregistered", (ME,'ProducedCounter = promauto.NewCounterVec(','ProducedCounter = prometheus.NewCounterVec(')),
bug("other gatherer", (CM,'promhttp.HandlerFor(prometheus.DefaultGatherer, o)','promhttp.HandlerFor(prometheus.NewRegistry(), o)')),
bug("metrics not served", (CM,'	r.handler.ServeHTTP(c.Writer, c.Request)\n','')),
same("default handler", (CM,'	h := promhttp.HandlerFor(prometheus.DefaultGatherer, o)\n	h = promhttp.Instr','	_ = o\n	h := promhttp.Handler()\n	h = promhttp.Instr')),
same("gatherers", (CM,'promhttp.HandlerFor(prometheus.DefaultGatherer, o)','promhttp.HandlerFor(prometheus.Gatherers{prometheus.DefaultGatherer}, o)')),
same("explicit registry", (ME,'ProducedCounter = promauto.NewCounterVec(','ProducedCounter = promauto.With(prometheus.DefaultRegisterer).NewCounterVec(')),
same("register in init", (ME,'ProducedCounter = promauto.NewCounterVec(','ProducedCounter = prometheus.NewCounterVec('),(ME,'// Labels returns label','func init() {\n	prometheus.MustRegister(ProducedCounter)\n}\n\n// Labels returns label')),
same("label map", (CP,'metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...).Add(1)','ls := metrics.Labels(t.Topic, t.Producer, t.Consumer)\n		metrics.ConsumedCounter.With(map[string]string{"topic": ls[0], "producer": ls[1], "consumer": ls[2]}).Add(1)')),
bug("label map swapped", (CP,'metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...).Add(1)','ls := metrics.Labels(t.Topic, t.Producer, t.Consumer)\n		metrics.ConsumedCounter.With(map[string]string{"topic": ls[0], "producer": ls[2], "consumer": ls[1]}).Add(1)')),
]
