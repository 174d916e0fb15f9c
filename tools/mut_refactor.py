# Larger edits that keep the behaviour: whole functions rewritten, helpers extracted
# across functions. Every check has to stay quiet.
import os
R=os.environ.get("REPO","/repo")
ALL=["all"]
def fn(path, head):
    s=open(R+"/"+path).read(); i=s.index(head); j=s.index("\n}\n",i)+3
    return s[i:j]
def same(n,*e): return (n,"same",ALL,list(e))
def bug(n,*e): return (n,"bug",["C14"],list(e))
def fun(path, head, new): return (path, fn(path, head), new.lstrip("\n"))
D="internal/engine/memdb/"
MT,MP,MO,MQ,MM=[D+x+".go" for x in ("task","promise","topic","queue","memdb")]
G="internal/engine/mongodb/"
GT,GP,GO,GQ,GM=[G+x+".go" for x in ("task","promise","topic","queue","mongodb")]
C="client.go"; T="transport.go"; WT="internal/middleware/task.go"; WP="internal/middleware/promise.go"; MN="cmd/ratus/main.go"
MUT=[
same("memdb generic write wrapper", fun(MT,"func (g *Engine) DeleteTasks(",'''
func (g *Engine) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return g.purge(indexTopic, topic)
}

func (g *Engine) purge(index string, args ...any) (*ratus.Deleted, error) {
	txn := g.database.Txn(true)
	n, err := txn.DeleteAll(tableTask, index, args...)
	if err != nil {
		txn.Abort()
		return nil, err
	}
	txn.Commit()
	return &ratus.Deleted{Deleted: int64(n)}, nil
}
'''), fun(MT,"func (g *Engine) DeleteTask(",'''
func (g *Engine) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	return g.purge(indexID, id)
}
'''), fun(MO,"func (g *Engine) DeleteTopic(",'''
func (g *Engine) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return g.purge(indexTopic, topic)
}
'''), fun(MO,"func (g *Engine) DeleteTopics(",'''
func (g *Engine) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	return g.purge(indexTopic)
}
''')),
same("memdb typed lookup", fun(MP,"func (g *Engine) InsertPromise(",'''
func (g *Engine) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	return g.claim(p, func(s ratus.TaskState) bool { return s == ratus.TaskStatePending })
}

// claim consumes the target task of a promise if its state is accepted.
func (g *Engine) claim(p *ratus.Promise, accept func(ratus.TaskState) bool) (*ratus.Task, error) {
	txn := g.database.Txn(true)
	defer txn.Abort()
	t, err := find(txn, p.ID)
	switch {
	case err != nil:
		return nil, err
	case t == nil:
		return nil, ratus.ErrNotFound
	case !accept(t.State):
		return nil, ratus.ErrConflict
	}
	u := updateOpsConsume(t, p, time.Now())
	if err := txn.Insert(tableTask, u); err != nil {
		return nil, err
	}
	txn.Commit()
	return clone(u), nil
}

func find(txn *memdb.Txn, id string) (*ratus.Task, error) {
	r, err := txn.First(tableTask, indexID, id)
	if r == nil || err != nil {
		return nil, err
	}
	return r.(*ratus.Task), nil
}
'''), fun(MP,"func (g *Engine) UpsertPromise(",'''
func (g *Engine) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	return g.claim(p, func(ratus.TaskState) bool { return true })
}
'''),(MP,'	"github.com/hyperonym/ratus"\n)','	"github.com/hashicorp/go-memdb"\n\n	"github.com/hyperonym/ratus"\n)')),
same("memdb update callback", fun(MQ,"func (g *Engine) Commit(",'''
func (g *Engine) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	return g.modify(id, func(t *ratus.Task) (*ratus.Task, error) {
		// Verify the nonce if provided to invalidate unintended commits.
		if len(m.Nonce) > 0 && t.Nonce != m.Nonce {
			return nil, ratus.ErrConflict
		}
		return updateOpsCommit(t, m), nil
	})
}

func (g *Engine) modify(id string, f func(*ratus.Task) (*ratus.Task, error)) (*ratus.Task, error) {
	txn := g.database.Txn(true)
	defer txn.Abort()
	r, err := txn.First(tableTask, indexID, id)
	if err != nil {
		return nil, err
	}
	t, ok := r.(*ratus.Task)
	if !ok {
		return nil, ratus.ErrNotFound
	}
	u, err := f(t)
	if err != nil {
		return nil, err
	}
	if err = txn.Insert(tableTask, u); err != nil {
		return nil, err
	}
	txn.Commit()
	c := *u
	return &c, nil
}
''')),
same("memdb listing helper", fun(MT,"func (g *Engine) ListTasks(",'''
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	v := []*ratus.Task{}
	err := g.page(limit, offset, func(t *ratus.Task) {
		v = append(v, clone(t))
	}, indexTopic, topic)
	if err != nil {
		return nil, err
	}
	return v, nil
}

// page visits up to limit tasks of an index after the first offset.
func (g *Engine) page(limit, offset int, f func(*ratus.Task), index string, args ...any) error {
	txn := g.database.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(tableTask, index, args...)
	if err != nil {
		return err
	}
	for i := 0; i < offset+limit; i++ {
		r := it.Next()
		if r == nil {
			break
		}
		if i >= offset {
			f(r.(*ratus.Task))
		}
	}
	return nil
}
'''), fun(MP,"func (g *Engine) ListPromises(",'''
func (g *Engine) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	v := []*ratus.Promise{}
	if err := g.page(limit, offset, func(t *ratus.Task) {
		v = append(v, promiseOf(t))
	}, indexActiveTopic, ratus.TaskStateActive, topic); err != nil {
		return nil, err
	}
	return v, nil
}

func promiseOf(t *ratus.Task) *ratus.Promise {
	return &ratus.Promise{ID: t.ID, Consumer: t.Consumer, Deadline: t.Deadline}
}
'''), fun(MP,"func (g *Engine) GetPromise(",'''
func (g *Engine) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	t, err := g.GetTask(ctx, id)
	if err != nil {
		return nil, err
	}
	if t.State == ratus.TaskStateActive {
		return promiseOf(t), nil
	}
	return nil, ratus.ErrNotFound
}
''')),
same("memdb chore split with transactions passed", fun(MQ,"func (g *Engine) Chore(",'''
func (g *Engine) Chore(ctx context.Context) error {
	if err := g.sweep(time.Now()); err != nil {
		return err
	}
	if g.config.SnapshotPath != "" {
		return g.snapshot()
	}
	return nil
}

func (g *Engine) sweep(now time.Time) error {
	txn := g.database.Txn(true)
	defer txn.Abort()
	if err := g.recoverTasks(txn, now); err != nil {
		return err
	}
	if err := g.expireTasks(txn, now); err != nil {
		return err
	}
	txn.Commit()
	return nil
}

func (g *Engine) recoverTasks(txn *memdb.Txn, now time.Time) error {
	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(math.MinInt64))
	if err != nil {
		return err
	}
	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if d := t.Deadline; d != nil && now.Before(*d) {
			return nil
		}
		if err := txn.Insert(tableTask, updateOpsRecover(t)); err != nil {
			return err
		}
	}
	return nil
}

func (g *Engine) expireTasks(txn *memdb.Txn, now time.Time) error {
	it, err := txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(math.MinInt64))
	if err != nil {
		return err
	}
	limit := now.Add(-g.config.RetentionPeriod)
	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if t.Consumed != nil && t.Consumed.After(limit) {
			return nil
		}
		if err := txn.Delete(tableTask, t); err != nil {
			return err
		}
	}
	return nil
}

func (g *Engine) snapshot() error {
	g.mux.Lock()
	defer g.mux.Unlock()
	now := time.Now()
	if now.Sub(g.saved) < g.config.SnapshotInterval {
		return nil
	}
	err := save(g.database, g.config.SnapshotPath)
	if err == nil {
		g.saved = now
	}
	return err
}
'''),(MQ,'	"github.com/hyperonym/ratus"\n)','	"github.com/hashicorp/go-memdb"\n\n	"github.com/hyperonym/ratus"\n)')),
same("memdb poll conditions joined", fun(MQ,"func (g *Engine) Poll(",'''
func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	txn := g.database.Txn(true)
	defer txn.Abort()
	now := time.Now()
	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64))
	if err != nil {
		return nil, err
	}
	t, _ := it.Next().(*ratus.Task)
	if t == nil || t.Topic != topic || (t.Scheduled != nil && now.Before(*t.Scheduled)) {
		return nil, ratus.ErrNotFound
	}
	u := updateOpsConsume(t, p, now)
	if err := txn.Insert(tableTask, u); err != nil {
		return nil, err
	}
	defer txn.Commit()
	return clone(u), nil
}
''')),
same("memdb batch with shared helper", fun(MT,"func (g *Engine) InsertTasks(",'''
func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	created, _, err := g.put(ts, false)
	if err != nil {
		return nil, err
	}
	return &ratus.Updated{Created: created}, nil
}

func (g *Engine) put(ts []*ratus.Task, replace bool) (created, updated int64, err error) {
	txn := g.database.Txn(true)
	defer txn.Abort()
	for _, t := range ts {
		r, err := txn.First(tableTask, indexID, t.ID)
		if err != nil {
			return 0, 0, err
		}
		exists := r != nil
		if exists && !replace {
			continue
		}
		if err := txn.Insert(tableTask, clone(t)); err != nil {
			return 0, 0, err
		}
		if exists {
			updated++
		} else {
			created++
		}
	}
	txn.Commit()
	return created, updated, nil
}
'''), fun(MT,"func (g *Engine) UpsertTasks(",'''
func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	created, updated, err := g.put(ts, true)
	if err != nil {
		return nil, err
	}
	return &ratus.Updated{Created: created, Updated: updated}, nil
}
'''), fun(MT,"func (g *Engine) UpsertTask(",'''
func (g *Engine) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	return g.UpsertTasks(ctx, []*ratus.Task{t})
}
''')),
same("memdb insert through batch", fun(MT,"func (g *Engine) InsertTask(",'''
func (g *Engine) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	u, err := g.InsertTasks(ctx, []*ratus.Task{t})
	if err != nil {
		return nil, err
	}
	if u.Created == 0 {
		return nil, ratus.ErrConflict
	}
	return u, nil
}
''')),
same("memdb delete promise inverted", fun(MP,"func (g *Engine) DeletePromise(",'''
func (g *Engine) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	txn := g.database.Txn(true)
	defer txn.Abort()
	r, err := txn.First(tableTask, indexID, id)
	if err != nil {
		return nil, err
	}
	if r == nil || r.(*ratus.Task).State != ratus.TaskStateActive {
		return &ratus.Deleted{}, nil
	}
	if err := txn.Insert(tableTask, updateOpsRecover(r.(*ratus.Task))); err != nil {
		return nil, err
	}
	txn.Commit()
	return &ratus.Deleted{Deleted: 1}, nil
}
''')),
same("memdb delete promises collected", fun(MP,"func (g *Engine) DeletePromises(",'''
func (g *Engine) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	txn := g.database.Txn(true)
	defer txn.Abort()
	it, err := txn.Get(tableTask, indexActiveTopic, ratus.TaskStateActive, topic)
	if err != nil {
		return nil, err
	}
	var ts []*ratus.Task
	for r := it.Next(); r != nil; r = it.Next() {
		ts = append(ts, r.(*ratus.Task))
	}
	for _, t := range ts {
		if err := txn.Insert(tableTask, updateOpsRecover(t)); err != nil {
			return nil, err
		}
	}
	txn.Commit()
	return &ratus.Deleted{Deleted: int64(len(ts))}, nil
}
''')),
same("memdb topics early break", fun(MO,"func (g *Engine) ListTopics(",'''
func (g *Engine) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	txn := g.database.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(tableTask, indexTopic)
	if err != nil {
		return nil, err
	}
	var last string
	v, skip := make([]*ratus.Topic, 0, 16), offset
	for {
		if len(v) >= limit {
			break
		}
		r := it.Next()
		if r == nil {
			break
		}
		name := r.(*ratus.Task).Topic
		if name == last {
			continue
		}
		last = name
		if skip > 0 {
			skip--
			continue
		}
		v = append(v, &ratus.Topic{Name: name})
	}
	return v, nil
}
''')),
same("memdb schema in helpers", (MM,'''					indexActiveTopic: {
						Name:         indexActiveTopic,
						AllowMissing: true,
						Unique:       false,
						Indexer: &memdb.CompoundIndex{
							Indexes: []memdb.Indexer{
								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateActive},
								&memdb.StringFieldIndex{Field: keyTopic},
							},
						},
					},
''','''					indexActiveTopic: compound(indexActiveTopic, ratus.TaskStateActive, &memdb.StringFieldIndex{Field: keyTopic}),
'''),(MM,'''// Open or connect to''','''// compound describes an index of the tasks in a state.
func compound(name string, s ratus.TaskState, is ...memdb.Indexer) *memdb.IndexSchema {
	return &memdb.IndexSchema{
		Name:         name,
		AllowMissing: true,
		Indexer: &memdb.CompoundIndex{
			Indexes: append([]memdb.Indexer{&StateFieldIndex{Field: keyState, Filter: s}}, is...),
		},
	}
}

// Open or connect to''')),
same("memdb ops as methods of a builder", fun(MM,"func updateOpsCommit(",'''
func updateOpsCommit(v *ratus.Task, m *ratus.Commit) *ratus.Task {
	u := *v
	if m.Topic != "" {
		u.Topic = m.Topic
	}
	if s := m.State; s != nil {
		u.State = *s
	}
	u.Scheduled = either(m.Scheduled, v.Scheduled)
	if m.Payload != nil {
		u.Payload = m.Payload
	}
	u.Nonce = ""
	return &u
}

func either[T any](a, b *T) *T {
	if a == nil {
		return b
	}
	return a
}
'''), fun(MM,"func updateOpsConsume(",'''
func updateOpsConsume(v *ratus.Task, p *ratus.Promise, t time.Time) *ratus.Task {
	return &ratus.Task{
		ID:        v.ID,
		Topic:     v.Topic,
		State:     ratus.TaskStateActive,
		Nonce:     nonce.Generate(ratus.NonceLength),
		Producer:  v.Producer,
		Consumer:  p.Consumer,
		Produced:  v.Produced,
		Scheduled: v.Scheduled,
		Consumed:  &t,
		Deadline:  p.Deadline,
		Payload:   v.Payload,
		Defer:     v.Defer,
	}
}
''')),
same("memdb save in two functions", fun(MM,"func save(",'''
func save(db *memdb.MemDB, path string) error {
	p := path + "." + nonce.Generate(8)
	if err := dump(db, p); err != nil {
		os.Remove(p)
		return err
	}
	if err := os.Rename(p, path); err != nil {
		os.Remove(p)
		return err
	}
	return nil
}

func dump(db *memdb.MemDB, p string) (err error) {
	f, err := os.Create(p)
	if err != nil {
		return err
	}
	defer func() {
		if e := f.Close(); err == nil {
			err = e
		}
	}()
	txn := db.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(tableTask, indexID)
	if err != nil {
		return err
	}
	enc := gob.NewEncoder(f)
	for r := it.Next(); r != nil; r = it.Next() {
		if err := enc.Encode(portable(r.(*ratus.Task))); err != nil {
			return err
		}
	}
	return f.Sync()
}
'''),(MM,'	"fmt"\n','')),
same("memdb load with reader helper", fun(MM,"func load(",'''
func load(db *memdb.MemDB, path string) error {
	f, err := os.Open(path)
	switch {
	case errors.Is(err, fs.ErrNotExist):
		return nil
	case err != nil:
		return err
	}
	defer f.Close()
	return restore(db, f)
}

func restore(db *memdb.MemDB, r io.Reader) error {
	txn := db.Txn(true)
	defer txn.Abort()
	dec := gob.NewDecoder(r)
	for {
		t := new(ratus.Task)
		err := dec.Decode(t)
		if err == io.EOF {
			txn.Commit()
			return nil
		}
		if err == nil {
			err = txn.Insert(tableTask, t)
		}
		if err != nil {
			return err
		}
	}
}
''')),
same("memdb list countdown", fun(MT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	txn := g.database.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(tableTask, indexTopic, topic)
	if err != nil {
		return nil, err
	}
	v := make([]*ratus.Task, 0)
	for len(v) < limit {
		r := it.Next()
		if r == nil {
			break
		}
		if offset > 0 {
			offset--
			continue
		}
		v = append(v, clone(r.(*ratus.Task)))
	}
	return v, nil
}
""")),
bug("memdb list countdown off", fun(MT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	txn := g.database.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(tableTask, indexTopic, topic)
	if err != nil {
		return nil, err
	}
	v := make([]*ratus.Task, 0)
	for len(v) < limit {
		r := it.Next()
		if r == nil {
			break
		}
		if offset > 1 {
			offset--
			continue
		}
		v = append(v, clone(r.(*ratus.Task)))
	}
	return v, nil
}
""")),
bug("memdb topics skip repeats", fun(MO,"func (g *Engine) ListTopics(","""
func (g *Engine) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	txn := g.database.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(tableTask, indexTopic)
	if err != nil {
		return nil, err
	}
	var last string
	v, skip := make([]*ratus.Topic, 0, 16), offset
	for len(v) < limit {
		r := it.Next()
		if r == nil {
			break
		}
		name := r.(*ratus.Task).Topic
		if skip > 0 {
			skip--
			last = name
			continue
		}
		if name == last {
			continue
		}
		last = name
		v = append(v, &ratus.Topic{Name: name})
	}
	return v, nil
}
""")),
# ---- mongodb
same("mongo cursor loop", fun(GT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexTopic)
	r, err := g.collection.Find(ctx, f, o)
	if err != nil {
		return nil, err
	}
	defer r.Close(ctx)
	v := make([]*ratus.Task, 0, limit)
	for r.Next(ctx) {
		var t ratus.Task
		if err := r.Decode(&t); err != nil {
			return nil, err
		}
		v = append(v, &t)
	}
	if err := r.Err(); err != nil {
		return nil, err
	}
	return v, nil
}
""")),
bug("mongo cursor loop no err", fun(GT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexTopic)
	r, err := g.collection.Find(ctx, f, o)
	if err != nil {
		return nil, err
	}
	defer r.Close(ctx)
	v := make([]*ratus.Task, 0, limit)
	for r.Next(ctx) {
		var t ratus.Task
		if err := r.Decode(&t); err != nil {
			return nil, err
		}
		v = append(v, &t)
	}
	return v, nil
}
""")),
bug("mongo cursor loop shared", fun(GT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexTopic)
	r, err := g.collection.Find(ctx, f, o)
	if err != nil {
		return nil, err
	}
	v := make([]*ratus.Task, 0, limit)
	var t ratus.Task
	for r.Next(ctx) {
		if err := r.Decode(&t); err != nil {
			return nil, err
		}
		v = append(v, &t)
	}
	return v, r.Err()
}
""")),
same("mongo generic list", fun(GT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	return list[ratus.Task](ctx, g.collection, bson.D{{Key: keyTopic, Value: topic}}, limit, offset, indexTopic)
}

// list returns a page of the documents that match the filter.
func list[T any](ctx context.Context, c *mongo.Collection, f any, limit, offset int, hint string) ([]*T, error) {
	o := options.Find().SetHint(hint)
	o.SetSkip(int64(offset))
	o.SetLimit(int64(limit))
	r, err := c.Find(ctx, f, o)
	if err != nil {
		return nil, err
	}
	v := []*T{}
	if err = r.All(ctx, &v); err != nil {
		return nil, err
	}
	return v, nil
}
"""), fun(GP,"func (g *Engine) ListPromises(","""
func (g *Engine) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	return list[ratus.Promise](ctx, g.collection, activeIn(topic), limit, offset, indexActiveTopic)
}

func activeIn(topic string) bson.D {
	return append(bson.D{{Key: keyTopic, Value: topic}}, filterStateActive...)
}
"""), fun(GP,"func (g *Engine) DeletePromises(","""
func (g *Engine) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	o := options.Update().SetUpsert(false).SetHint(indexActiveTopic)
	r, err := g.collection.UpdateMany(ctx, activeIn(topic), updateOpsRecover(), o)
	if err != nil {
		return nil, err
	}
	return &ratus.Deleted{Deleted: r.ModifiedCount}, nil
}
""")),
same("mongo generic find and update", fun(GQ,"func (g *Engine) pollAtomic(","""
func (g *Engine) pollAtomic(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	now := time.Now()
	o := updating(indexPendingTopicScheduled).SetSort(bson.D{{Key: keyScheduled, Value: 1}})
	return g.update(ctx, queryOpsPoll(topic, now), updateOpsConsume(p, now), o, notFound)
}

func updating(hint string) *options.FindOneAndUpdateOptions {
	return options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(hint)
}

func notFound() error { return ratus.ErrNotFound }

func conflict() error { return ratus.ErrConflict }

func (g *Engine) update(ctx context.Context, f, u any, o *options.FindOneAndUpdateOptions, none func() error) (*ratus.Task, error) {
	v := new(ratus.Task)
	err := g.collection.FindOneAndUpdate(ctx, f, u, o).Decode(v)
	if errors.Is(err, mongo.ErrNoDocuments) {
		return nil, none()
	}
	if err != nil {
		return nil, err
	}
	return v, nil
}
"""), fun(GQ,"func (g *Engine) commitAtomic(","""
func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	key := bson.D{{Key: keyID, Value: id}}
	if m.Nonce == "" {
		return g.update(ctx, key, updateOpsCommit(m), updating(indexID), notFound)
	}
	f := bson.D{{Key: keyID, Value: id}, {Key: keyNonce, Value: m.Nonce}}
	return g.update(ctx, f, updateOpsCommit(m), updating(indexID), func() error {
		return g.missed(ctx, key, indexID)
	})
}
"""), fun(GQ,"func (g *Engine) commitOptimistic(","""
func (g *Engine) commitOptimistic(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	c, err := g.peek(ctx, bson.D{{Key: keyID, Value: id}}, nil, indexID)
	if errors.Is(err, mongo.ErrNoDocuments) {
		return nil, ratus.ErrNotFound
	} else if err != nil {
		return nil, err
	}
	if n := m.Nonce; n != "" && n != c.Nonce {
		return nil, ratus.ErrConflict
	}
	f := bson.D{
		{Key: keyID, Value: id},
		{Key: keyTopic, Value: c.Topic},
		{Key: keyState, Value: c.State},
		{Key: keyNonce, Value: c.Nonce},
	}
	return g.update(ctx, f, updateOpsCommit(m), updating(indexID), conflict)
}
"""), (GQ,'	"context"\n','	"context"\n	"errors"\n')),
same("mongo poll optimistic loop", fun(GQ,"func (g *Engine) pollOptimistic(","""
func (g *Engine) pollOptimistic(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	for {
		v, err := g.tryPoll(ctx, topic, p)
		if v != nil || err != nil {
			return v, err
		}
	}
}

// tryPoll returns nothing if another consumer was faster.
func (g *Engine) tryPoll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	t := time.Now()
	f := queryOpsPoll(topic, t)
	c, err := g.peek(ctx, f, bson.D{{Key: keyScheduled, Value: 1}}, indexPendingTopicScheduled)
	switch err {
	case nil:
	case mongo.ErrNoDocuments:
		return nil, ratus.ErrNotFound
	default:
		return nil, err
	}
	var v ratus.Task
	f = append(f, bson.E{Key: keyID, Value: c.ID}, bson.E{Key: keyNonce, Value: c.Nonce})
	o := options.FindOneAndUpdate().SetReturnDocument(options.After).SetHint(indexID)
	r := g.collection.FindOneAndUpdate(ctx, f, updateOpsConsume(p, t), o)
	if r.Err() == mongo.ErrNoDocuments {
		return nil, nil
	}
	if err := r.Decode(&v); err != nil {
		return nil, err
	}
	return &v, nil
}
""")),
same("mongo bulk helper", fun(GT,"func (g *Engine) upsertTasksReplace(","""
func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	r, err := g.bulk(ctx, ts, func(t *ratus.Task) mongo.WriteModel {
		return mongo.NewReplaceOneModel().SetFilter(byID(t.ID)).SetReplacement(t).SetUpsert(true).SetHint(indexID)
	})
	if err != nil {
		return nil, err
	}
	return &ratus.Updated{
		Created: r.InsertedCount + r.UpsertedCount,
		Updated: r.ModifiedCount,
	}, nil
}

func byID(id string) bson.D { return bson.D{{Key: keyID, Value: id}} }

// bulk executes an unordered bulk write with one operation per task.
func (g *Engine) bulk(ctx context.Context, ts []*ratus.Task, f func(*ratus.Task) mongo.WriteModel) (*mongo.BulkWriteResult, error) {
	var w []mongo.WriteModel
	for _, t := range ts {
		w = append(w, f(t))
	}
	return g.collection.BulkWrite(ctx, w, options.BulkWrite().SetOrdered(false))
}
"""), fun(GT,"func (g *Engine) upsertTasksDeleteAndInsert(","""
func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	r, err := g.bulk(ctx, ts, func(t *ratus.Task) mongo.WriteModel {
		return mongo.NewDeleteOneModel().SetFilter(byID(t.ID)).SetHint(indexID)
	})
	if err != nil {
		return nil, err
	}
	if _, err = g.InsertTasks(ctx, ts); err != nil {
		return nil, err
	}
	n := r.DeletedCount
	return &ratus.Updated{Created: int64(len(ts)) - n, Updated: n}, nil
}
"""), fun(GT,"func (g *Engine) InsertTasks(","""
func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	u := &ratus.Updated{}
	if len(ts) > 0 {
		r, err := g.bulk(ctx, ts, func(t *ratus.Task) mongo.WriteModel {
			return mongo.NewInsertOneModel().SetDocument(t)
		})
		if err != nil && !isDuplicateKeyOnly(err) {
			return nil, err
		}
		u.Created, u.Updated = r.InsertedCount+r.UpsertedCount, r.ModifiedCount
	}
	return u, nil
}
""")),
same("mongo generic branch errors.As", fun(GM,"func branch[T","""
func branch[T *ratus.Task | *ratus.Updated | *ratus.Deleted](preferred, fallback func() (T, error), flag *atomic.Int32) (T, error) {
	if flag.Load() <= 0 {
		v, err := preferred()
		if err == nil || flag.Load() < 0 {
			return v, err
		}
		if !unsupported(err) {
			return nil, err
		}
		flag.Store(1)
	}
	return fallback()
}

// unsupported reports whether the operation needs the fallback.
func unsupported(err error) bool {
	var e mongo.ServerError
	if !errors.As(err, &e) {
		return false
	}
	for i := range fallbackErrorCodes {
		if e.HasErrorCode(fallbackErrorCodes[i]) {
			return true
		}
	}
	return false
}
"""), (GM,'	"context"\n','	"context"\n	"errors"\n')),
same("mongo delete helper", fun(GT,"func (g *Engine) DeleteTasks(","""
func (g *Engine) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return g.remove(ctx, bson.D{{Key: keyTopic, Value: topic}}, indexTopic)
}

func (g *Engine) remove(ctx context.Context, f bson.D, hint string) (*ratus.Deleted, error) {
	r, err := g.collection.DeleteMany(ctx, f, options.Delete().SetHint(hint))
	if err != nil {
		return nil, err
	}
	return &ratus.Deleted{Deleted: r.DeletedCount}, nil
}
"""), fun(GT,"func (g *Engine) DeleteTask(","""
func (g *Engine) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	return g.remove(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
}
"""), fun(GO,"func (g *Engine) DeleteTopic(","""
func (g *Engine) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return g.DeleteTasks(ctx, topic)
}
"""), fun(GO,"func (g *Engine) DeleteTopics(","""
func (g *Engine) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	return g.remove(ctx, bson.D{}, indexID)
}
""")),
same("mongo count switch", fun(GO,"func (g *Engine) GetTopic(","""
func (g *Engine) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	v := &ratus.Topic{Name: topic}
	var err error
	v.Count, err = g.collection.CountDocuments(ctx, bson.M{keyTopic: topic}, options.Count().SetHint(indexTopic))
	switch {
	case err != nil:
		return nil, err
	case v.Count < 1:
		return nil, ratus.ErrNotFound
	default:
		return v, nil
	}
}
""")),
same("mongo commit ops map", fun(GM,"func updateOpsCommit(","""
func updateOpsCommit(m *ratus.Commit) bson.D {
	set := bson.M{}
	if m.Topic != "" {
		set[keyTopic] = m.Topic
	}
	if m.State != nil {
		set[keyState] = *m.State
	}
	if m.Scheduled != nil {
		set[keyScheduled] = *m.Scheduled
	}
	if m.Payload != nil {
		set[keyPayload] = m.Payload
	}
	set[keyNonce] = ""
	return bson.D{{Key: "$set", Value: set}}
}
""")),
same("mongo consume ops helper", fun(GM,"func updateOpsConsume(","""
func updateOpsConsume(p *ratus.Promise, t time.Time) bson.D {
	return set(
		bson.E{Key: keyState, Value: ratus.TaskStateActive},
		bson.E{Key: keyNonce, Value: nonce.Generate(ratus.NonceLength)},
		bson.E{Key: keyConsumer, Value: p.Consumer},
		bson.E{Key: keyConsumed, Value: &t},
		bson.E{Key: keyDeadline, Value: p.Deadline},
	)
}

func set(es ...bson.E) bson.D { return bson.D{{Key: "$set", Value: bson.D(es)}} }
"""), fun(GM,"func updateOpsRecover(","""
func updateOpsRecover() bson.D {
	return set(bson.E{Key: keyState, Value: ratus.TaskStatePending}, bson.E{Key: keyNonce, Value: ""})
}
""")),
same("mongo upsert promise unified", fun(GP,"func (g *Engine) upsertPromiseOptimistic(","""
func (g *Engine) upsertPromiseOptimistic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	for {
		c, err := g.peek(ctx, bson.D{{Key: keyID, Value: p.ID}}, nil, indexID)
		if err != nil {
			return nil, missing(err, ratus.ErrNotFound)
		}
		v, err := g.claim(ctx, p, c)
		if err != mongo.ErrNoDocuments {
			return v, err
		}
	}
}

// claim consumes a task if it is still the one that was observed.
func (g *Engine) claim(ctx context.Context, p *ratus.Promise, c *ratus.Task) (*ratus.Task, error) {
	var v ratus.Task
	f := bson.D{
		{Key: keyID, Value: p.ID},
		{Key: keyTopic, Value: c.Topic},
		{Key: keyState, Value: c.State},
		{Key: keyNonce, Value: c.Nonce},
	}
	o := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	if err := g.collection.FindOneAndUpdate(ctx, f, updateOpsConsume(p, time.Now()), o).Decode(&v); err != nil {
		return nil, err
	}
	return &v, nil
}

// missing replaces the error for a lookup without results.
func missing(err, by error) error {
	if err == mongo.ErrNoDocuments {
		return by
	}
	return err
}
"""), fun(GP,"func (g *Engine) insertPromiseOptimistic(","""
func (g *Engine) insertPromiseOptimistic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	c, err := g.peek(ctx, bson.D{{Key: keyID, Value: p.ID}}, nil, indexID)
	if err != nil {
		return nil, missing(err, ratus.ErrNotFound)
	}
	if c.State != ratus.TaskStatePending {
		return nil, ratus.ErrConflict
	}
	v, err := g.claim(ctx, p, c)
	if err != nil {
		return nil, missing(err, ratus.ErrConflict)
	}
	return v, nil
}
""")),
same("mongo ttl helper", (GM,"""	e.Go(func() error {
		k := bson.D{{Key: keyConsumed, Value: 1}}
		s := int32(g.config.RetentionPeriod.Seconds())
""","""	e.Go(func() error { return g.createTTL(ctx, v) })

	return e.Wait()
}

// createTTL creates or changes the TTL index.
func (g *Engine) createTTL(ctx context.Context, v mongo.IndexView) error {
	{
		k := bson.D{{Key: keyConsumed, Value: 1}}
		s := int32(g.config.RetentionPeriod / time.Second)
"""),(GM,"""		return nil
	})

	return e.Wait()
}

// peek""","""		return nil
	}
}

// peek""")),
# ---- client
same("client generic call", fun(C,"func (c *Client) GetTask(","""
func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
	return call[Task](ctx, c, http.MethodGet, taskPath(id), nil)
}

func taskPath(id string) string { return "/v1/topics//tasks/" + escape(id) }

// call returns the decoded response.
func call[T any](ctx context.Context, c *Client, method, endpoint string, body any) (*T, error) {
	v := new(T)
	err := c.Request(ctx, method, endpoint, body, v)
	if err != nil {
		return nil, err
	}
	return v, nil
}
"""), fun(C,"func (c *Client) InsertTask(","""
func (c *Client) InsertTask(ctx context.Context, t *Task) (*Updated, error) {
	return call[Updated](ctx, c, http.MethodPost, taskPath(t.ID), t)
}
"""), fun(C,"func (c *Client) DeleteTask(","""
func (c *Client) DeleteTask(ctx context.Context, id string) (*Deleted, error) {
	return call[Deleted](ctx, c, http.MethodDelete, taskPath(id), nil)
}
"""), fun(C,"func (c *Client) ListTasks(","""
func (c *Client) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*Task, error) {
	v, err := call[Tasks](ctx, c, http.MethodGet, topicPath(topic, "tasks")+page(limit, offset), nil)
	if err != nil {
		return nil, err
	}
	return v.Data, nil
}

func topicPath(topic string, rest ...string) string {
	return strings.Join(append([]string{"/v1/topics", escape(topic)}, rest...), "/")
}

func page(limit, offset int) string {
	return fmt.Sprintf("?limit=%d&offset=%d", limit, offset)
}
"""), fun(C,"func (c *Client) DeletePromises(","""
func (c *Client) DeletePromises(ctx context.Context, topic string) (*Deleted, error) {
	return call[Deleted](ctx, c, http.MethodDelete, topicPath(topic, "promises"), nil)
}
""")),
same("client request split", fun(C,"func (c *Client) Request(","""
func (c *Client) Request(ctx context.Context, method, endpoint string, body, result any) error {
	if strings.HasSuffix(endpoint, "/") {
		return fmt.Errorf("%w: resource name must not be empty", ErrBadRequest)
	}
	b, err := encode(body)
	if err != nil {
		return err
	}
	req, err := http.NewRequestWithContext(ctx, method, endpoint, b)
	if err != nil {
		return err
	}
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()
	return decode(res, result)
}

// encode encodes a request body in JSON.
func encode(body any) (io.Reader, error) {
	if body == nil {
		return nil, nil
	}
	d, err := json.Marshal(body)
	if err != nil {
		return nil, err
	}
	return bytes.NewReader(d), nil
}

// decode interprets a response.
func decode(res *http.Response, result any) error {
	d := json.NewDecoder(res.Body)
	switch {
	case res.StatusCode >= 400:
		r := new(Error)
		if err := d.Decode(r); err != nil {
			return err
		}
		return r.Err()
	case result != nil:
		return d.Decode(result)
	}
	_, _ = io.Copy(io.Discard, res.Body)
	return nil
}
""")),
same("client read all", fun(C,"func (c *Client) Request(","""
func (c *Client) Request(ctx context.Context, method, endpoint string, body, result any) error {
	if strings.HasSuffix(endpoint, "/") {
		return fmt.Errorf("%w: resource name must not be empty", ErrBadRequest)
	}
	var b io.Reader
	if body != nil {
		var buf bytes.Buffer
		if err := json.NewEncoder(&buf).Encode(body); err != nil {
			return err
		}
		b = &buf
	}
	req, err := http.NewRequestWithContext(ctx, method, endpoint, b)
	if err != nil {
		return err
	}
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()
	d, err := io.ReadAll(res.Body)
	if err != nil {
		return err
	}
	if res.StatusCode >= http.StatusBadRequest {
		var r Error
		if err := json.Unmarshal(d, &r); err != nil {
			return err
		}
		return r.Err()
	}
	if result == nil {
		return nil
	}
	return json.Unmarshal(d, result)
}
""")),
same("client subscribe worker type", fun(C,"func (c *Client) Subscribe(","""
func (c *Client) Subscribe(ctx context.Context, o *SubscribeOptions, f SubscribeHandler) error {
	s := &subscription{
		client: c,
		topic:  o.Topic,
		handle: f,
		promise: Promise{Consumer: o.Promise.Consumer, Timeout: o.Promise.Timeout},
		poll:   o.PollInterval,
		drain:  positive(o.DrainInterval, DefaultDrainInterval),
		failed: positive(o.ErrorInterval, DefaultErrorInterval),
	}
	delay := positive(o.ConcurrencyDelay, DefaultConcurrencyDelay)
	e, ctx := errgroup.WithContext(ctx)
	for i := 0; i < max(o.Concurrency, 1); i++ {
		i := i
		e.Go(func() error { return s.run(ctx, delay*time.Duration(i)) })
	}
	return e.Wait()
}

func positive(d, otherwise time.Duration) time.Duration {
	if d > 0 {
		return d
	}
	return otherwise
}

type subscription struct {
	client              *Client
	topic               string
	handle              SubscribeHandler
	promise             Promise
	poll, drain, failed time.Duration
}

// run polls until the context ends.
func (s *subscription) run(ctx context.Context, delay time.Duration) error {
	t := time.NewTimer(delay)
	defer t.Stop()
	for {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-t.C:
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		t.Reset(s.next(ctx))
	}
}

// next executes a task and returns the pause before the next one.
func (s *subscription) next(ctx context.Context) time.Duration {
	x, err := s.client.Poll(ctx, s.topic, &s.promise)
	if err == nil {
		s.handle(x, nil)
		err = x.Commit()
		if err == nil {
			return s.poll
		}
	} else if errors.Is(err, ErrNotFound) {
		return s.drain
	}
	if ctx.Err() == nil {
		s.handle(nil, err)
	}
	return s.failed
}
""")),
same("client poll helper", fun(C,"func (c *Client) Poll(","""
func (c *Client) Poll(ctx context.Context, topic string, p *Promise) (*Context, error) {
	t, err := c.PostPromises(ctx, topic, p)
	if err != nil {
		return nil, err
	}
	x := &Context{Context: ctx, client: c, Task: t}
	if t.Consumed != nil && t.Deadline != nil {
		x.Context, x.cancel = context.WithTimeout(ctx, t.timeout())
	}
	return x.Reset(), nil
}

func (t *Task) timeout() time.Duration { return t.Deadline.Sub(*t.Consumed) }
""")),
same("client commit early returns", fun("context.go","func (ctx *Context) Commit(","""
func (ctx *Context) Commit() error {
	if !ctx.committed {
		c := ctx.client
		if c == nil {
			return errors.New("cannot commit without an associated client")
		}
		m := ctx.commit
		_, err := c.PatchTask(ctx.Context, ctx.Task.ID, &m)
		if err != nil {
			return err
		}
		ctx.committed = true
		if f := ctx.cancel; f != nil {
			f()
		}
	}
	return nil
}
""")),
same("client errors helper", (C,"		return r.Err()\n","		if e := r.Err(); e != nil {\n			return e\n		}\n		return nil\n")),
# ---- middleware and controllers
same("middleware bind helper", fun(WT,"func Task() gin.HandlerFunc","""
func Task() gin.HandlerFunc {
	return func(c *gin.Context) {
		var t ratus.Task
		if !bind(c, &t) {
			return
		}
		if err := normalizeTask(&t, c.Param(ParamID), c.Param(ParamTopic)); err != nil {
			reject(c, err)
			return
		}
		c.Set(ParamTask, &t)
		c.Next()
	}
}

// bind decodes the request body, or responds with the reason why it could not.
func bind(c *gin.Context, v any) bool {
	switch err := c.ShouldBindJSON(v); err {
	case nil:
		return true
	case io.EOF:
		reject(c, errors.New("missing request body"))
	default:
		reject(c, err)
	}
	return false
}

func reject(c *gin.Context, err error) {
	fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
}
"""), fun(WT,"func Tasks() gin.HandlerFunc","""
func Tasks() gin.HandlerFunc {
	return func(c *gin.Context) {
		ts := new(ratus.Tasks)
		if !bind(c, ts) {
			return
		}
		topic := c.Param(ParamTopic)
		for i := range ts.Data {
			if err := normalizeTask(ts.Data[i], "", topic); err != nil {
				reject(c, err)
				return
			}
		}
		if len(ts.Data) == 0 {
			ts.Data = []*ratus.Task{}
		}
		c.Set(ParamTasks, ts)
		c.Next()
	}
}
""")),
same("middleware normalize split", fun(WT,"func normalizeTask(","""
func normalizeTask(t *ratus.Task, id, topic string) error {
	if t == nil {
		return errors.New("task must not be null")
	}
	if err := normalizeNames(t, id, topic); err != nil {
		return err
	}
	switch t.State {
	case ratus.TaskStatePending, ratus.TaskStateActive, ratus.TaskStateCompleted, ratus.TaskStateArchived:
	default:
		return fmt.Errorf("invalid state %d", t.State)
	}
	return normalizeTimes(t, time.Now())
}

func normalizeNames(t *ratus.Task, id, topic string) error {
	if t.ID == "" {
		t.ID = id
	}
	if t.Topic == "" {
		t.Topic = topic
	}
	switch {
	case t.ID == "":
		return errors.New("task ID must not be empty")
	case id != "" && t.ID != id:
		return errors.New("task ID is inconsistent with the path parameter")
	case t.Topic == "":
		return errors.New("topic must not be empty")
	}
	for _, n := range []string{t.ID, t.Topic} {
		if strings.ContainsRune(n, 0) {
			return errors.New("task ID and topic must not contain null characters")
		}
	}
	return nil
}

func normalizeTimes(t *ratus.Task, now time.Time) error {
	if t.Produced == nil {
		t.Produced = &now
	}
	if t.Scheduled == nil {
		at := now
		if t.Defer != "" {
			d, err := time.ParseDuration(t.Defer)
			if err != nil {
				return err
			}
			at = now.Add(d)
		}
		t.Scheduled = &at
	}
	t.Defer = ""
	return nil
}
""")),
same("middleware promise split", fun(WP,"func normalizePromise(","""
func normalizePromise(p *ratus.Promise, id string) error {
	if id != "" {
		switch p.ID {
		case "":
			p.ID = id
		case id:
		default:
			return errors.New("promise ID is inconsistent with the path parameter")
		}
	}
	timeout := p.Timeout
	p.Timeout = ""
	if p.Deadline != nil {
		return nil
	}
	if timeout == "" {
		timeout = ratus.DefaultTimeout
	}
	d, err := time.ParseDuration(timeout)
	if err == nil {
		deadline := time.Now().Add(d)
		p.Deadline = &deadline
	}
	return err
}
""")),
# ---- server
same("main engine factory", (MN,"""	var g engine.Engine
	switch strings.ToLower(a.Engine) {
	case "memdb":
		g, err = memdb.New(&a.memdbConfig)
	case "mongodb":
		g, err = mongodb.New(&a.mongodbConfig)
	default:
		err = fmt.Errorf("unknown storage engine: %s", a.Engine)
	}
	if err != nil {""","""	g, err := a.open()
	if err != nil {"""),(MN,"func serve(","""// open creates the storage engine.
func (a *args) open() (engine.Engine, error) {
	switch name := strings.ToLower(a.Engine); name {
	case "memdb":
		return memdb.New(&a.memdbConfig)
	case "mongodb":
		return mongodb.New(&a.mongodbConfig)
	}
	return nil, fmt.Errorf("unknown storage engine: %s", a.Engine)
}

func serve(""")),
same("main server type", fun(MN,"func serve(","""
func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
	if c.Port <= 0 {
		return nil
	}
	s := &http.Server{Addr: fmt.Sprintf("%s:%d", c.Bind, c.Port), Handler: h}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, os.Interrupt)
	stopped := make(chan error, 1)
	go func() { stopped <- stop(ctx, s, sig) }()
	log.Printf("start listening on %s\\n", s.Addr)
	err := s.ListenAndServe()
	if err == nil || err == http.ErrServerClosed {
		<-stopped
		return nil
	}
	return err
}

// stop ends the server after a signal, or when the context ends.
func stop(ctx context.Context, s *http.Server, sig <-chan os.Signal) error {
	select {
	case <-sig:
	case <-ctx.Done():
		return s.Close()
	}
	log.Printf("stop listening on %s\\n", s.Addr)
	return s.Shutdown(context.Background())
}
""")),
same("main chore type", fun(MN,"func chore(","""
func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
	if c.Interval <= 0 {
		return nil
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	timer := time.NewTimer(initialDelay(c))
	defer timer.Stop()
	for first := true; ; first = false {
		select {
		case <-sig:
			log.Println("stop running background jobs")
			return nil
		case <-ctx.Done():
			return ctx.Err()
		case <-timer.C:
			timer.Reset(c.Interval)
			if first {
				log.Println("start running background jobs")
			}
			work(ctx, g)
		}
	}
}

func initialDelay(c *config.ChoreConfig) time.Duration {
	d := float64(c.InitialDelay)
	if c.InitialRandom {
		d *= rand.New(rand.NewSource(time.Now().UnixNano())).Float64()
	}
	return time.Duration(d) + 1
}

func work(ctx context.Context, g engine.Engine) {
	begin := time.Now()
	defer func() { metrics.ChoreHistogram.Observe(time.Since(begin).Seconds()) }()
	if err := g.Chore(ctx); err != nil {
		log.Println(err)
	}
}
""")),
]
