CL="client.go"; CX="context.go"; TR="transport.go"; RA="ratus.go"
A=["C20","C21","C22","C23"]
def bug(n,*e): return (n,"bug",A,list(e))
def same(n,*e): return (n,"same",A,list(e))
MUT=[
# ---- requests
bug("wrong verb", (CL,'c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//promises/%s"','c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//promises/%s"')),
bug("upsert tasks inserts", (CL,'c.Request(ctx, http.MethodPut, "/v1/topics//tasks"','c.Request(ctx, http.MethodPost, "/v1/topics//tasks"')),
bug("limit offset swapped", (CL,'escape(topic), limit, offset), nil, &v); err != nil {\n		return nil, err\n	}\n	return v.Data, nil\n}\n\n// InsertTasks','escape(topic), offset, limit), nil, &v); err != nil {\n		return nil, err\n	}\n	return v.Data, nil\n}\n\n// InsertTasks')),
bug("offset dropped", (CL,'/v1/topics?limit=%d&offset=%d", limit, offset)','/v1/topics?limit=%d", limit)')),
bug("offset misnamed", (CL,'/v1/topics?limit=%d&offset=%d"','/v1/topics?limit=%d&skip=%d"')),
bug("unescaped id", (CL,'fmt.Sprintf("/v1/topics//tasks/%s", escape(id)), nil, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// InsertTask ','fmt.Sprintf("/v1/topics//tasks/%s", id), nil, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// InsertTask ')),
bug("plain path escape", (CL,'return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")','return url.PathEscape(s)')),
bug("query escape", (CL,'return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")','return url.QueryEscape(s)')),
bug("double escape", (CL,'return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")','return url.PathEscape(strings.ReplaceAll(url.PathEscape(s), "+", "%2B"))')),
bug("trim names", (CL,'return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")','return strings.ReplaceAll(url.PathEscape(strings.TrimSpace(s)), "+", "%2B")')),
bug("lower names", (CL,'return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")','return strings.ReplaceAll(url.PathEscape(strings.ToLower(s)), "+", "%2B")')),
same("query escape with spaces", (CL,'return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")','return strings.ReplaceAll(url.QueryEscape(s), "+", "%20")')),
same("concat instead of sprintf", (CL,'fmt.Sprintf("/v1/topics/%s", escape(topic)), nil, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// DeleteTopic ','"/v1/topics/"+escape(topic), nil, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// DeleteTopic ')),
bug("empty names sent", (CL,'	if strings.HasSuffix(endpoint, "/") {\n		return fmt.Errorf("%w: resource name must not be empty", ErrBadRequest)\n	}\n','')),
bug("empty names not found", (CL,'must not be empty", ErrBadRequest)','must not be empty", ErrNotFound)')),
bug("empty names succeed", (CL,'		return fmt.Errorf("%w: resource name must not be empty", ErrBadRequest)','		return nil')),
bug("names with slash refused", (CL,'	if strings.HasSuffix(endpoint, "/") {','	if strings.HasSuffix(endpoint, "/") || strings.Contains(endpoint, "%2F") {')),
bug("background context", (CL,'http.NewRequestWithContext(ctx, method','http.NewRequestWithContext(context.Background(), method')),
bug("detached context", (CL,'http.NewRequestWithContext(ctx, method','http.NewRequestWithContext(context.WithoutCancel(ctx), method')),
bug("default client", (CL,'res, err := c.client.Do(req)','res, err := http.DefaultClient.Do(req)')),
bug("retry once", (CL,'	res, err := c.client.Do(req)\n','	res, err := c.client.Do(req)\n	if err != nil {\n		res, err = c.client.Do(req)\n	}\n')),
bug("retry loop", (CL,'	res, err := c.client.Do(req)\n','	res, err := c.client.Do(req)\n	for i := 0; i < 3 && err != nil; i++ {\n		res, err = c.client.Do(req)\n	}\n')),
bug("body lost", (CL,'		b = bytes.NewBuffer(d)\n','		_ = bytes.NewBuffer(d)\n')),
same("reader", (CL,'b = bytes.NewBuffer(d)','b = bytes.NewReader(d)')),
bug("marshal error ignored", (CL,'		d, err := json.Marshal(body)\n		if err != nil {\n			return err\n		}\n','		d, _ := json.Marshal(body)\n')),
bug("body of get", (CL,'fmt.Sprintf("/v1/topics/%s", escape(topic)), nil, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// DeleteTopic ','fmt.Sprintf("/v1/topics/%s", escape(topic)), topic, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// DeleteTopic ')),
bug("insert task by other id", (CL,'fmt.Sprintf("/v1/topics//tasks/%s", escape(t.ID)), t, &v)','fmt.Sprintf("/v1/topics//tasks/%s", escape(t.Topic)), t, &v)')),
bug("bulk first only", (CL,'&Tasks{ts}, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// UpsertTasks','&Tasks{ts[:min(len(ts), 100)]}, &v); err != nil {\n		return nil, err\n	}\n	return &v, nil\n}\n\n// UpsertTasks')),
bug("constant topic", (CL,'http.MethodPost, "/v1/topics//tasks", &Tasks','http.MethodPost, "/v1/topics/default/tasks", &Tasks')),
same("topic of the task", (CL,'http.MethodPost, fmt.Sprintf("/v1/topics//tasks/%s", escape(t.ID))','http.MethodPost, fmt.Sprintf("/v1/topics/%s/tasks/%s", escape(t.Topic), escape(t.ID))')),
bug("status threshold", (CL,'res.StatusCode >= http.StatusBadRequest','res.StatusCode > http.StatusBadRequest')),
bug("status only server errors", (CL,'res.StatusCode >= http.StatusBadRequest','res.StatusCode >= http.StatusInternalServerError')),
bug("status 404 ok", (CL,'res.StatusCode >= http.StatusBadRequest','res.StatusCode >= http.StatusBadRequest && res.StatusCode != http.StatusNotFound')),
same("status not below", (CL,'if res.StatusCode >= http.StatusBadRequest {','if !(res.StatusCode < 400) {')),
bug("body leak on error", (CL,'	defer res.Body.Close()\n',''),(CL,'	if result == nil {\n','	defer res.Body.Close()\n	if result == nil {\n')),
bug("decode error lost", (CL,'	return json.NewDecoder(res.Body).Decode(result)','	json.NewDecoder(res.Body).Decode(result)\n	return nil')),
bug("decode eof ok", (CL,'	return json.NewDecoder(res.Body).Decode(result)','	if err := json.NewDecoder(res.Body).Decode(result); err != io.EOF {\n		return err\n	}\n	return nil')),
bug("error decode lost", (CL,'		if err := json.NewDecoder(res.Body).Decode(&r); err != nil {\n			return err\n		}\n','		if err := json.NewDecoder(res.Body).Decode(&r); err != nil {\n			return nil\n		}\n')),
bug("result with error", (CL,'''func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
	var v Task
	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//tasks/%s", escape(id)), nil, &v); err != nil {
		return nil, err
	}
	return &v, nil''','''func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
	var v Task
	err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//tasks/%s", escape(id)), nil, &v)
	return &v, err''')),
bug("result zero", (CL,'	return &v, nil\n}\n\n// InsertPromise','	return &Promise{ID: id}, nil\n}\n\n// InsertPromise')),
bug("do error replaced", (CL,'	res, err := c.client.Do(req)\n	if err != nil {\n		return err\n	}\n','	res, err := c.client.Do(req)\n	if err != nil {\n		return fmt.Errorf("%w: %v", ErrServiceUnavailable, err)\n	}\n')),
same("do error wrapped", (CL,'	res, err := c.client.Do(req)\n	if err != nil {\n		return err\n	}\n','	res, err := c.client.Do(req)\n	if err != nil {\n		return fmt.Errorf("request: %w", err)\n	}\n')),
same("close after", (CL,'	defer res.Body.Close()\n','	defer func() { _ = res.Body.Close() }()\n')),
same("helper for errors", (CL,'''		var r Error
		if err := json.NewDecoder(res.Body).Decode(&r); err != nil {
			return err
		}
		return r.Err()
''','''		return decodeError(res.Body)
'''),(CL,'','''
func decodeError(b io.Reader) error {
	r := new(Error)
	if err := json.NewDecoder(b).Decode(r); err != nil {
		return err
	}
	return r.Err()
}
''')),
same("generic helper", (CL,'''	var v Topic
	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s", escape(topic)), nil, &v); err != nil {
		return nil, err
	}
	return &v, nil
''','''	return fetch[Topic](ctx, c, http.MethodGet, fmt.Sprintf("/v1/topics/%s", escape(topic)), nil)
'''),(CL,'','''
func fetch[T any](ctx context.Context, c *Client, method, endpoint string, body any) (*T, error) {
	v := new(T)
	if err := c.Request(ctx, method, endpoint, body, v); err != nil {
		return nil, err
	}
	return v, nil
}
''')),
bug("promise id mutated", (CL,'''	var v Task
	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics/%s/promises"''','''	var v Task
	p.ID = ""
	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics/%s/promises"''')),
bug("list nil error", (CL,'''		return nil, err
	}
	return v.Data, nil
}

// PostPromises''','''		return v.Data, nil
	}
	return v.Data, nil
}

// PostPromises''')),
bug("readiness by liveness", (CL,'"/v1/readyz"','"/v1/livez"')),
bug("health of other mount", (CL,'"/v1/livez"','"/v2/livez"')),
# ---- transport and construction
bug("timeout lost", (CL,'		Timeout:   o.Timeout,\n','')),
bug("timeout minimum", (CL,'		Timeout:   o.Timeout,\n','		Timeout:   max(o.Timeout, time.Second),\n')),
bug("transport lost", (CL,'	c := http.Client{\n		Transport: t,\n','	_ = t\n	c := http.Client{\n')),
bug("origin error lost", (TR,'	u, err := url.Parse(origin)\n	if err != nil {\n		return nil, err\n	}\n','	u, err := url.Parse(origin)\n	if err != nil {\n		u = &url.URL{}\n	}\n')),
bug("host only when empty", (TR,'if t.host != "" {','if t.host != "" && r.URL.Host == "" {')),
bug("scheme from host", (TR,'		r.URL.Scheme = t.scheme','		r.URL.Scheme = t.host')),
bug("scheme constant", (TR,'		r.URL.Scheme = t.scheme','		r.URL.Scheme = "http"')),
bug("path prefix added", (TR,'		r.URL.Host = t.host\n','		r.URL.Host = t.host\n		r.URL.RawPath = ""\n')),
bug("headers replaced", (TR,'		if _, ok := r.Header[k]; !ok {\n			r.Header.Set(k, v)\n		}\n','		r.Header.Set(k, v)\n')),
bug("headers only auth", (TR,'		if _, ok := r.Header[k]; !ok {','		if _, ok := r.Header[k]; !ok && k == "Authorization" {')),
bug("headers key as value", (TR,'r.Header.Set(k, v)','r.Header.Set(v, k)')),
bug("user agent forced", (TR,'	if _, ok := r.Header["User-Agent"]; !ok {\n		r.Header.Set("User-Agent", "Ratus-Client")\n	}','	r.Header.Set("User-Agent", "Ratus-Client")')),
same("user agent other", (TR,'"Ratus-Client"','"Ratus-Go-Client"')),
bug("no headers", (TR,'		headers:      headers,\n','')),
bug("swapped scheme host", (TR,'		scheme:       u.Scheme,\n		host:         u.Host,','		scheme:       u.Host,\n		host:         u.Scheme,')),
bug("host without port", (TR,'		host:         u.Host,','		host:         u.Hostname(),')),
bug("roundtrip default", (TR,'return t.roundTripper.RoundTrip(r)','res, err := t.roundTripper.RoundTrip(r)\n	if err != nil {\n		return t.roundTripper.RoundTrip(r)\n	}\n	return res, nil')),
bug("method changed", (TR,'	// Execute the modified','	if r.Method == "PATCH" {\n		r.Method = "POST"\n	}\n	// Execute the modified')),
same("headers helper", (TR,'''	for k, v := range t.headers {
		if _, ok := r.Header[k]; !ok {
			r.Header.Set(k, v)
		}
	}
''','''	t.setHeaders(r.Header)
'''),(TR,'','''
func (t *transport) setHeaders(h http.Header) {
	for k, v := range t.headers {
		if _, present := h[k]; present {
			continue
		}
		h.Set(k, v)
	}
}
''')),
# ---- errors
bug("code 409 as 404", (RA,'	case http.StatusConflict:\n		err = ErrConflict','	case http.StatusConflict:\n		err = ErrNotFound')),
bug("code 503 unknown", (RA,'	case http.StatusServiceUnavailable:\n		err = ErrServiceUnavailable\n','')),
bug("unknown nil", (RA,'		return errors.New(e.Error.Message)','		return nil')),
bug("unknown internal", (RA,'		return errors.New(e.Error.Message)','		err = ErrInternalServerError')),
bug("unwrapped", (RA,'err = fmt.Errorf("%w%s", err, m)','err = fmt.Errorf("%v%s", err, m)')),
bug("message lost", (RA,'	if m != "" {\n		err = fmt.Errorf("%w%s", err, m)\n	}\n','	if m == "" {\n		err = fmt.Errorf("%w%s", err, m)\n	}\n')),
bug("message trimmed", (RA,'m := strings.TrimPrefix(e.Error.Message, err.Error())','m := strings.TrimLeft(e.Error.Message, err.Error())')),
bug("text is status", (RA,'e.Error.Message = err.Error()','e.Error.Message = http.StatusText(s)')),
bug("encode order", (RA,'	case errors.Is(err, ErrConflict):\n		s = http.StatusConflict','	case errors.Is(err, ErrConflict):\n		s = http.StatusNotFound')),
bug("encode lost", (RA,'	case errors.Is(err, ErrServiceUnavailable):\n		s = http.StatusServiceUnavailable\n','')),
bug("encode identity", (RA,'case errors.Is(err, ErrNotFound):','case err == ErrNotFound:')),
same("encode reordered", (RA,'	case errors.Is(err, ErrBadRequest):\n		s = http.StatusBadRequest\n	case errors.Is(err, ErrNotFound):\n		s = http.StatusNotFound\n','	case errors.Is(err, ErrNotFound):\n		s = http.StatusNotFound\n	case errors.Is(err, ErrBadRequest):\n		s = http.StatusBadRequest\n')),
bug("sentinel alias", (RA,'ErrConflict = errors.New("conflict")','ErrConflict = ErrNotFound')),
bug("sentinel wraps", (RA,'ErrConflict = errors.New("conflict")','ErrConflict = fmt.Errorf("conflict: %w", ErrBadRequest)')),
same("if chain", (RA,'''	m := strings.TrimPrefix(e.Error.Message, err.Error())
	if m != "" {
		err = fmt.Errorf("%w%s", err, m)
	}

	return err''','''	m := strings.TrimPrefix(e.Error.Message, err.Error())
	if len(m) == 0 {
		return err
	}
	return fmt.Errorf("%w%s", err, m)''')),
# ---- context
bug("commit not idempotent", (CX,'	if ctx.committed {\n		return nil\n	}\n','')),
bug("committed early", (CX,'	if _, err := ctx.client.PatchTask','	ctx.committed = true\n	if _, err := ctx.client.PatchTask')),
bug("committed never", (CX,'	ctx.committed = true\n','')),
bug("committed on conflict", (CX,'&ctx.commit); err != nil {\n		return err\n	}','&ctx.commit); err != nil {\n		ctx.committed = errors.Is(err, ErrConflict)\n		return err\n	}')),
bug("commit error lost", (CX,'&ctx.commit); err != nil {\n		return err\n	}','&ctx.commit); err != nil && !errors.Is(err, ErrNotFound) {\n		return err\n	}')),
bug("commit other ctx", (CX,'PatchTask(ctx.Context, ctx.Task.ID','PatchTask(context.Background(), ctx.Task.ID')),
bug("commit wrong id", (CX,'PatchTask(ctx.Context, ctx.Task.ID','PatchTask(ctx.Context, ctx.Task.Topic')),
bug("no cancel", (CX,'	if ctx.cancel != nil {\n		ctx.cancel()\n	}\n','')),
bug("cancel nil", (CX,'	if ctx.cancel != nil {\n		ctx.cancel()\n	}\n','	ctx.cancel()\n')),
bug("cancel before", (CX,'	if _, err := ctx.client.PatchTask','	if ctx.cancel != nil {\n		ctx.cancel()\n	}\n	if _, err := ctx.client.PatchTask'),(CX,'	ctx.committed = true\n	if ctx.cancel != nil {\n		ctx.cancel()\n	}\n','	ctx.committed = true\n')),
bug("detached nil deref", (CX,'	if ctx.client == nil {\n		return errors.New("cannot commit without an associated client")\n	}\n',''),(CX,'	"errors"\n','')),
bug("reset nonce", (CX,'	if ctx.Task != nil {\n		ctx.commit.Nonce = ctx.Task.Nonce\n	}\n','')),
bug("reset keeps", (CX,'	ctx.commit = Commit{State: &s}\n','	ctx.commit.State = &s\n	ctx.commit.Payload = nil\n')),
bug("reset state", (CX,'	s := TaskStateCompleted\n	ctx.commit = ','	s := TaskStatePending\n	ctx.commit = ')),
bug("reset nil state", (CX,'	s := TaskStateCompleted\n	ctx.commit = Commit{State: &s}\n','	ctx.commit = Commit{}\n')),
bug("force noop", (CX,'	ctx.commit.Nonce = ""\n','')),
bug("force all", (CX,'	ctx.commit.Nonce = ""\n','	ctx.commit = Commit{State: ctx.commit.State}\n')),
bug("abstain archives", (CX,'return ctx.SetState(TaskStatePending)','return ctx.SetState(TaskStateArchived)')),
bug("archive completes", (CX,'return ctx.SetState(TaskStateArchived)','return ctx.SetState(TaskStateCompleted)')),
bug("retry forgets state", (CX,'return ctx.Abstain().SetDefer(duration)','return ctx.SetDefer(duration)')),
bug("reschedule forgets state", (CX,'return ctx.Abstain().SetScheduled(t)','return ctx.SetScheduled(t)')),
bug("retry resets", (CX,'return ctx.Abstain().SetDefer(duration)','return ctx.Reset().Abstain().SetDefer(duration)')),
bug("scheduled clears defer", (CX,'	ctx.commit.Scheduled = &t\n','	ctx.commit.Scheduled = &t\n	ctx.commit.Defer = ""\n')),
bug("scheduled utc truncated", (CX,'	ctx.commit.Scheduled = &t\n','	t = t.Truncate(time.Second)\n	ctx.commit.Scheduled = &t\n')),
bug("payload nil ignored", (CX,'	ctx.commit.Payload = v\n','	if v != nil {\n		ctx.commit.Payload = v\n	}\n')),
bug("topic only if nonempty", (CX,'	ctx.commit.Topic = topic\n','	if ctx.Task.Topic != topic {\n		ctx.commit.Topic = topic\n	}\n')),
bug("setstate copy returned", (CX,'	ctx.commit.State = &s\n	return ctx\n','	n := *ctx\n	n.commit.State = &s\n	return &n\n')),
bug("settopic marks", (CX,'	ctx.commit.Topic = topic\n','	ctx.commit.Topic = topic\n	ctx.committed = false\n')),
same("retry direct", (CX,'return ctx.Abstain().SetDefer(duration)','s := TaskStatePending\n	ctx.commit.State = &s\n	ctx.commit.Defer = duration\n	return ctx')),
same("poll resets", (CL,'''	s := TaskStateCompleted
	m := Commit{
		Nonce: t.Nonce,
		State: &s,
	}

	return &Context{
		Context: ctx,
		cancel:  n,
		commit:  m,
		client:  c,
		Task:    t,
	}, nil''','''	x := &Context{Context: ctx, cancel: n, client: c, Task: t}
	return x.Reset(), nil''')),
same("renamed fields", (CX,'	committed bool\n','	done bool\n'),(CX,'if ctx.committed {','if ctx.done {'),(CX,'ctx.committed = true','ctx.done = true')),
bug("poll no nonce", (CL,'		Nonce: t.Nonce,\n','')),
bug("poll active state", (CL,'s := TaskStateCompleted','s := TaskStateActive')),
bug("poll deadline clock", (CL,'context.WithTimeout(ctx, t.Deadline.Sub(*t.Consumed))','context.WithDeadline(ctx, *t.Deadline)')),
bug("poll until now", (CL,'context.WithTimeout(ctx, t.Deadline.Sub(*t.Consumed))','context.WithTimeout(ctx, time.Until(*t.Deadline))')),
bug("poll reversed", (CL,'t.Deadline.Sub(*t.Consumed)','t.Consumed.Sub(*t.Deadline)')),
bug("poll background", (CL,'context.WithTimeout(ctx, t.Deadline.Sub','context.WithTimeout(context.Background(), t.Deadline.Sub')),
bug("poll consumed unchecked", (CL,'if t.Consumed != nil && t.Deadline != nil {','if t.Deadline != nil {')),
bug("poll either", (CL,'if t.Consumed != nil && t.Deadline != nil {','if t.Consumed != nil && t.Deadline != nil && t.Deadline.After(time.Now()) {')),
bug("poll no client", (CL,'		client:  c,\n','')),
bug("poll error nil ctx", (CL,'	t, err := c.PostPromises(ctx, topic, p)\n	if err != nil {\n		return nil, err\n	}\n','	t, err := c.PostPromises(ctx, topic, p)\n	if err != nil {\n		return &Context{Context: ctx, client: c}, err\n	}\n')),
bug("poll canceled early", (CL,'		ctx, n = context.WithTimeout(ctx, t.Deadline.Sub(*t.Consumed))\n','		ctx, n = context.WithTimeout(ctx, t.Deadline.Sub(*t.Consumed))\n		n()\n')),
# ---- subscribe
bug("sub no min", (CL,'	if n < 1 {\n		n = 1\n	}\n','')),
bug("sub min zero only", (CL,'	if n < 1 {\n','	if n == 0 {\n')),
bug("sub one more", (CL,'for i := 0; i < n; i++ {','for i := 0; i <= n; i++ {')),
same("sub count from one", (CL,'for i := 0; i < n; i++ {\n		d := cd * time.Duration(i)','for i := 1; i <= n; i++ {\n		d := cd * time.Duration(i-1)')),
same("sub range int", (CL,'for i := 0; i < n; i++ {','for i := range n {')),
same("sub accumulate", (CL,'	for i := 0; i < n; i++ {\n		d := cd * time.Duration(i)\n','	s := time.Duration(0)\n	for i := 0; i < n; i++ {\n		d := s\n		s += cd\n')),
bug("sub delay off", (CL,'d := cd * time.Duration(i)','d := cd * time.Duration(i+1)')),
bug("sub delay same", (CL,'d := cd * time.Duration(i)','d := cd * time.Duration(min(i, 1))')),
bug("sub delay zero respected", (CL,'	if cd <= 0 {','	if cd < 0 {')),
bug("sub drain default", (CL,'		dd = DefaultDrainInterval','		dd = DefaultErrorInterval')),
bug("sub drain uses error", (CL,'						r.Reset(dd)','						r.Reset(ed)')),
bug("sub error interval", (CL,'						f(nil, err)\n						r.Reset(ed)','						f(nil, err)\n						r.Reset(dd)')),
bug("sub poll interval", (CL,'r.Reset(o.PollInterval)','r.Reset(dd)')),
bug("sub no reset after commit error", (CL,'							f(nil, err)\n							r.Reset(ed)\n','							f(nil, err)\n')),
bug("sub no reset after success", (CL,'					r.Reset(o.PollInterval)\n','')),
bug("sub no reset drained", (CL,'						r.Reset(dd)\n						break\n','						break\n')),
bug("sub error handler missing", (CL,'				if ctx.Err() == nil {\n						f(nil, err)\n','				if ctx.Err() == nil {\n')) if False else bug("sub error handler missing", (CL,'					if ctx.Err() == nil {\n						f(nil, err)\n						r.Reset(ed)','					if ctx.Err() == nil {\n						r.Reset(ed)')),
bug("sub drained told", (CL,'						r.Reset(dd)\n						break\n','						f(nil, err)\n						r.Reset(dd)\n						break\n')),
bug("sub notfound identity", (CL,'if errors.Is(err, ErrNotFound) {','if err == ErrNotFound || errors.Unwrap(err) == ErrNotFound && false {')),
bug("sub commit skipped", (CL,'if err := x.Commit(); err != nil {','if err := x.Err(); err != nil {')),
bug("sub commit before handler", (CL,'					f(x, nil)\n','					x.Commit()\n					f(x, nil)\n')),
bug("sub handler async", (CL,'					f(x, nil)\n','					go f(x, nil)\n')),
bug("sub commit error lost", (CL,'							f(nil, err)\n							r.Reset(ed)\n','							r.Reset(ed)\n')),
bug("sub unbuffered ctx", (CL,'xc := make(chan *Context, 1)','xc := make(chan *Context)')),
bug("sub unbuffered err", (CL,'ec := make(chan error, 1)','ec := make(chan error)')),
bug("sub nil return", (CL,'					r.Stop()\n					return ctx.Err()','					r.Stop()\n					return nil')),
bug("sub exits on error", (CL,'						ec <- err\n						break\n','						return err\n')),
bug("sub result nil", (CL,'	return e.Wait()\n}\n\n// Poll','	e.Wait()\n	return nil\n}\n\n// Poll')),
bug("sub no wait", (CL,'	return e.Wait()\n}\n\n// Poll','	return nil\n}\n\n// Poll')),
bug("sub promise id", (CL,'		Consumer: o.Promise.Consumer,\n','		ID:       o.Promise.ID,\n		Consumer: o.Promise.Consumer,\n')),
bug("sub promise deadline", (CL,'		Timeout:  o.Promise.Timeout,\n','		Timeout:  o.Promise.Timeout,\n		Deadline: o.Promise.Deadline,\n')),
bug("sub promise consumer", (CL,'		Consumer: o.Promise.Consumer,\n','')),
bug("sub promise direct", (CL,'x, err := c.Poll(ctx, o.Topic, p)','x, err := c.Poll(ctx, o.Topic, o.Promise)'),(CL,'	p := &Promise{','	_ = &Promise{')),
bug("sub poll background", (CL,'x, err := c.Poll(ctx, o.Topic, p)','x, err := c.Poll(context.Background(), o.Topic, p)')),
same("sub select check", (CL,'					if ctx.Err() == nil {\n						f(nil, err)\n						r.Reset(ed)\n					}','					select {\n					case <-ctx.Done():\n					default:\n						f(nil, err)\n						r.Reset(ed)\n					}')),
bug("sub after cancel handler", (CL,'					if ctx.Err() == nil {\n						f(nil, err)\n						r.Reset(ed)\n					}','					f(nil, err)\n					if ctx.Err() == nil {\n						r.Reset(ed)\n					}')),
bug("sub double poll", (CL,'					xc <- x\n','					xc <- x\n					r.Reset(o.PollInterval)\n')),
bug("sub reset unless done", (CL,'					r.Reset(o.PollInterval)\n','					if x.Err() == nil {\n						r.Reset(o.PollInterval)\n					}\n')),
bug("sub wait ignoring ctx", (CL,'						r.Reset(dd)\n						break\n','						time.Sleep(dd)\n						r.Reset(0)\n						break\n')),
same("sub inline", (CL,'''					if err != nil {
						ec <- err
						break
					}
					xc <- x
				case x := <-xc:
					f(x, nil)
''','''					if err != nil {
						ec <- err
						break
					}
					f(x, nil)
'''),(CL,'			xc := make(chan *Context, 1)\n','')),
same("sub helper", (CL,'''					f(x, nil)

					// Automatically commit the updates if no commit has been
					// made explicitly in the handler function.
					if err := x.Commit(); err != nil {
						if ctx.Err() == nil {
							f(nil, err)
							r.Reset(ed)
						}
						break
					}
					r.Reset(o.PollInterval)
''','''					next(ctx, r, handle(x, f), ed, o.PollInterval, f)
'''),(CL,'','''
func handle(x *Context, f SubscribeHandler) error {
	f(x, nil)
	return x.Commit()
}

func next(ctx context.Context, r *time.Timer, err error, ed, pd time.Duration, f SubscribeHandler) {
	switch {
	case err == nil:
		r.Reset(pd)
	case ctx.Err() == nil:
		f(nil, err)
		r.Reset(ed)
	}
}
''')),
same("sub labelled loop", (CL,'''				case <-ctx.Done():
					r.Stop()
					return ctx.Err()
''','''				case <-ctx.Done():
					defer r.Stop()
					return ctx.Err()
''')),
same("sub worker method", (CL,'''		e.Go(func() error {
			r := time.NewTimer(d)''','''		e.Go(func() (rerr error) {
			r := time.NewTimer(d)''')),
]
