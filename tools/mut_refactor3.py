# Larger edits of the MongoDB engine and small packages that keep the behaviour,
# and a few that do not.
import os
R=os.environ.get("REPO","/repo")
ALL=["all"]
def fn(path, head):
    s=open(R+"/"+path).read(); i=s.index(head); j=s.index("\n}\n",i)+3
    return s[i:j]
def same(n,*e): return (n,"same",ALL,list(e))
def bug(n,*e): return (n,"bug",ALL,list(e))
def fun(path, head, new): return (path, fn(path, head), new.lstrip("\n"))
GM="internal/engine/mongodb/mongodb.go"; GT="internal/engine/mongodb/task.go"; GP="internal/engine/mongodb/promise.go"; GQ="internal/engine/mongodb/queue.go"; GO="internal/engine/mongodb/topic.go"
CH="internal/controller/health.go"; MC="internal/controller/metrics.go"; RQ="cmd/ratus/main.go"; CX="context.go"; ST="internal/engine/stub/stub.go"
IDF='''
// byID matches the task with the ID.
func byID(id string) bson.D { return bson.D{{Key: keyID, Value: id}} }
'''
CLAIM='''
// claim updates the first document matching the filter and returns the result.
func (g *Engine) claim(ctx context.Context, f, u any, o *options.FindOneAndUpdateOptions) (*ratus.Task, error) {
	o.SetUpsert(false).SetReturnDocument(options.After)
	v := new(ratus.Task)
	if err := g.collection.FindOneAndUpdate(ctx, f, u, o).Decode(v); err != nil {
		return nil, err
	}
	return v, nil
}
'''
OPTI='''
// optimistic claims a task whose known fields did not change.
func (g *Engine) optimistic(ctx context.Context, c *ratus.Task, u bson.D) (*ratus.Task, error) {
	f := bson.D{
		{Key: keyID, Value: c.ID},
		{Key: keyTopic, Value: c.Topic},
		{Key: keyState, Value: c.State},
		{Key: keyNonce, Value: c.Nonce},
	}
	var v ratus.Task
	o := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	if err := g.collection.FindOneAndUpdate(ctx, f, u, o).Decode(&v); err != nil {
		return nil, err
	}
	return &v, nil
}
'''
MUT=[
same("claim helper everywhere", (GM,"",CLAIM), fun(GP,"func (g *Engine) upsertPromiseAtomic(","""
func (g *Engine) upsertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	v, err := g.claim(ctx, bson.D{{Key: keyID, Value: p.ID}}, updateOpsConsume(p, time.Now()), options.FindOneAndUpdate().SetHint(indexID))
	if err == mongo.ErrNoDocuments {
		err = ratus.ErrNotFound
	}
	return v, err
}
"""), fun(GP,"func (g *Engine) insertPromiseAtomic(","""
func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	id := bson.D{{Key: keyID, Value: p.ID}}
	f := append(bson.D{{Key: keyState, Value: ratus.TaskStatePending}}, id...)
	v, err := g.claim(ctx, f, updateOpsConsume(p, time.Now()), options.FindOneAndUpdate().SetHint(indexID))
	if err != mongo.ErrNoDocuments {
		return v, err
	}
	return nil, g.missed(ctx, id, indexID)
}
"""), fun(GQ,"func (g *Engine) pollAtomic(","""
func (g *Engine) pollAtomic(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	now := time.Now()
	o := options.FindOneAndUpdate().SetSort(bson.D{{Key: keyScheduled, Value: 1}}).SetHint(indexPendingTopicScheduled)
	v, err := g.claim(ctx, queryOpsPoll(topic, now), updateOpsConsume(p, now), o)
	if err == mongo.ErrNoDocuments {
		return nil, ratus.ErrNotFound
	}
	return v, err
}
"""), (GQ,'	"go.mongodb.org/mongo-driver/mongo"\n','	"go.mongodb.org/mongo-driver/mongo"\n')),
same("optimistic helper", (GM,"",OPTI), fun(GP,"func (g *Engine) insertPromiseOptimistic(","""
func (g *Engine) insertPromiseOptimistic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	c, err := g.peek(ctx, bson.D{{Key: keyID, Value: p.ID}}, nil, indexID)
	switch {
	case err == mongo.ErrNoDocuments:
		return nil, ratus.ErrNotFound
	case err != nil:
		return nil, err
	case c.State != ratus.TaskStatePending:
		return nil, ratus.ErrConflict
	}
	v, err := g.optimistic(ctx, c, updateOpsConsume(p, time.Now()))
	if err == mongo.ErrNoDocuments {
		return nil, ratus.ErrConflict
	}
	return v, err
}
"""), fun(GP,"func (g *Engine) upsertPromiseOptimistic(","""
func (g *Engine) upsertPromiseOptimistic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	for {
		c, err := g.peek(ctx, bson.D{{Key: keyID, Value: p.ID}}, nil, indexID)
		if err == mongo.ErrNoDocuments {
			return nil, ratus.ErrNotFound
		}
		if err != nil {
			return nil, err
		}
		v, err := g.optimistic(ctx, c, updateOpsConsume(p, time.Now()))
		if err != mongo.ErrNoDocuments {
			return v, err
		}
	}
}
"""), (GP,'	"go.mongodb.org/mongo-driver/mongo/options"\n','	"go.mongodb.org/mongo-driver/mongo/options"\n')),
same("optimistic helper commit", (GM,"",OPTI), fun(GQ,"func (g *Engine) commitOptimistic(","""
func (g *Engine) commitOptimistic(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	c, err := g.peek(ctx, bson.D{{Key: keyID, Value: id}}, nil, indexID)
	if err != nil {
		return nil, notFound(err)
	}
	if m.Nonce != "" && m.Nonce != c.Nonce {
		return nil, ratus.ErrConflict
	}
	v, err := g.optimistic(ctx, c, updateOpsCommit(m))
	if errors.Is(err, mongo.ErrNoDocuments) {
		return nil, ratus.ErrConflict
	}
	return v, err
}

func notFound(err error) error {
	if errors.Is(err, mongo.ErrNoDocuments) {
		return ratus.ErrNotFound
	}
	return err
}
"""), (GQ,'	"context"\n','	"context"\n	"errors"\n')),
same("poll optimistic filter by known", fun(GQ,"func (g *Engine) pollOptimistic(","""
func (g *Engine) pollOptimistic(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	var v ratus.Task
	s := bson.D{{Key: keyScheduled, Value: 1}}
	o := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	for {
		t := time.Now()
		c, err := g.peek(ctx, queryOpsPoll(topic, t), s, indexPendingTopicScheduled)
		if err == mongo.ErrNoDocuments {
			return nil, ratus.ErrNotFound
		} else if err != nil {
			return nil, err
		}
		f := append(queryOpsPoll(topic, t), bson.D{{Key: keyID, Value: c.ID}, {Key: keyNonce, Value: c.Nonce}}...)
		err = g.collection.FindOneAndUpdate(ctx, f, updateOpsConsume(p, t), o).Decode(&v)
		if err == nil {
			return &v, nil
		}
		if err != mongo.ErrNoDocuments {
			return nil, err
		}
	}
}
""")),
same("list generic", fun(GT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	return list[ratus.Task](ctx, g.collection, bson.D{{Key: keyTopic, Value: topic}}, indexTopic, limit, offset)
}

// list returns a page of the documents matching the filter.
func list[T any](ctx context.Context, c *mongo.Collection, f bson.D, hint string, limit, offset int) ([]*T, error) {
	o := options.Find().SetHint(hint)
	o.SetSkip(int64(offset))
	o.SetLimit(int64(limit))
	r, err := c.Find(ctx, f, o)
	if err != nil {
		return nil, err
	}
	v := []*T{}
	err = r.All(ctx, &v)
	if err != nil {
		return nil, err
	}
	return v, nil
}
"""), fun(GP,"func (g *Engine) ListPromises(","""
func (g *Engine) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	f := bson.D{{Key: keyTopic, Value: topic}, {Key: keyState, Value: ratus.TaskStateActive}}
	return list[ratus.Promise](ctx, g.collection, f, indexActiveTopic, limit, offset)
}
""")),
same("list cursor decode", fun(GT,"func (g *Engine) ListTasks(","""
func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) (v []*ratus.Task, err error) {
	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexTopic)
	r, err := g.collection.Find(ctx, f, o)
	if err != nil {
		return nil, err
	}
	defer r.Close(ctx)
	v = make([]*ratus.Task, 0, limit)
	for r.Next(ctx) {
		t := new(ratus.Task)
		if err = r.Decode(t); err != nil {
			return nil, err
		}
		v = append(v, t)
	}
	if err = r.Err(); err != nil {
		return nil, err
	}
	return v, nil
}
""")),
same("topics stages", fun(GO,"func (g *Engine) ListTopics(","""
func (g *Engine) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	stage := func(op string, v any) bson.D { return bson.D{{Key: op, Value: v}} }
	p := mongo.Pipeline{
		stage("$group", stage(keyID, "$"+keyTopic)),
		stage("$skip", offset),
		stage("$limit", limit),
	}
	r, err := g.collection.Aggregate(ctx, p, options.Aggregate().SetHint(indexTopic))
	if err != nil {
		return nil, err
	}
	var v []*ratus.Topic
	if err := r.All(ctx, &v); err != nil {
		return nil, err
	}
	if v == nil {
		v = []*ratus.Topic{}
	}
	return v, nil
}
""")),
same("topics appended stages", fun(GO,"func (g *Engine) ListTopics(","""
func (g *Engine) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	p := mongo.Pipeline{bson.D{{Key: "$group", Value: bson.D{{Key: keyID, Value: "$topic"}}}}}
	if offset > 0 {
		p = append(p, bson.D{{Key: "$skip", Value: offset}})
	}
	p = append(p, bson.D{{Key: "$limit", Value: limit}})
	r, err := g.collection.Aggregate(ctx, p, options.Aggregate().SetHint(indexTopic))
	if err != nil {
		return nil, err
	}
	v := make([]*ratus.Topic, 0)
	if err := r.All(ctx, &v); err != nil {
		return nil, err
	}
	return v, nil
}
""")),
same("delete many helper", (GM,"",'''
// remove deletes the documents matching the filter.
func (g *Engine) remove(ctx context.Context, hint string, f ...bson.E) (*ratus.Deleted, error) {
	r, err := g.collection.DeleteMany(ctx, bson.D(append([]bson.E{}, f...)), options.Delete().SetHint(hint))
	if err != nil {
		return nil, err
	}
	d := new(ratus.Deleted)
	d.Deleted = r.DeletedCount
	return d, nil
}
'''), fun(GO,"func (g *Engine) DeleteTopics(","""
func (g *Engine) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	return g.remove(ctx, indexID)
}
"""), fun(GO,"func (g *Engine) DeleteTopic(","""
func (g *Engine) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return g.remove(ctx, indexTopic, bson.E{Key: keyTopic, Value: topic})
}
"""), fun(GT,"func (g *Engine) DeleteTasks(","""
func (g *Engine) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	return g.DeleteTopic(ctx, topic)
}
""")),
same("recover helper", (GM,"",'''
// recover returns active tasks to the pending state.
func (g *Engine) recover(ctx context.Context, hint string, f ...bson.E) (int64, error) {
	f = append(f, bson.E{Key: keyState, Value: ratus.TaskStateActive})
	r, err := g.collection.UpdateMany(ctx, bson.D(f), updateOpsRecover(), options.Update().SetHint(hint))
	if err != nil {
		return 0, err
	}
	return r.ModifiedCount, nil
}
'''), fun(GQ,"func (g *Engine) Chore(","""
func (g *Engine) Chore(ctx context.Context) error {
	_, err := g.recover(ctx, indexActiveDeadline, bson.E{Key: keyDeadline, Value: bson.D{{Key: "$lt", Value: time.Now()}}})
	return err
}
"""), fun(GP,"func (g *Engine) DeletePromises(","""
func (g *Engine) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	n, err := g.recover(ctx, indexActiveTopic, bson.E{Key: keyTopic, Value: topic})
	if err != nil {
		return nil, err
	}
	return &ratus.Deleted{Deleted: n}, nil
}
"""), fun(GP,"func (g *Engine) DeletePromise(","""
func (g *Engine) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	n, err := g.recover(ctx, indexID, bson.E{Key: keyID, Value: id})
	if err != nil {
		return nil, err
	}
	return &ratus.Deleted{Deleted: n}, nil
}
""")),
same("get topic early", fun(GO,"func (g *Engine) GetTopic(","""
func (g *Engine) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	v := &ratus.Topic{Name: topic}
	var err error
	if v.Count, err = g.collection.CountDocuments(ctx, bson.M{keyTopic: topic}, options.Count().SetHint(indexTopic)); err != nil {
		return nil, err
	}
	if v.Count < 1 {
		return nil, ratus.ErrNotFound
	}
	return v, nil
}
""")),
same("bulk models func", fun(GT,"func (g *Engine) upsertTasksReplace(","""
func (g *Engine) upsertTasksReplace(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	r, err := g.bulk(ctx, models(ts, func(t *ratus.Task) mongo.WriteModel {
		return mongo.NewReplaceOneModel().SetHint(indexID).SetUpsert(true).SetFilter(bson.D{{Key: keyID, Value: t.ID}}).SetReplacement(t)
	}))
	if err != nil {
		return nil, err
	}
	return updated(r), nil
}

func models(ts []*ratus.Task, f func(t *ratus.Task) mongo.WriteModel) []mongo.WriteModel {
	w := make([]mongo.WriteModel, 0, len(ts))
	for i := range ts {
		w = append(w, f(ts[i]))
	}
	return w
}

func updated(r *mongo.BulkWriteResult) *ratus.Updated {
	return &ratus.Updated{Created: r.UpsertedCount + r.InsertedCount, Updated: r.ModifiedCount}
}

func (g *Engine) bulk(ctx context.Context, w []mongo.WriteModel) (*mongo.BulkWriteResult, error) {
	return g.collection.BulkWrite(ctx, w, options.BulkWrite().SetOrdered(false))
}
"""), fun(GT,"func (g *Engine) upsertTasksDeleteAndInsert(","""
func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	r, err := g.bulk(ctx, models(ts, func(t *ratus.Task) mongo.WriteModel {
		return mongo.NewDeleteOneModel().SetFilter(bson.D{{Key: keyID, Value: t.ID}}).SetHint(indexID)
	}))
	if err != nil {
		return nil, err
	}
	if _, err = g.InsertTasks(ctx, ts); err != nil {
		return nil, err
	}
	u := &ratus.Updated{Updated: r.DeletedCount}
	u.Created = int64(len(ts)) - u.Updated
	return u, nil
}
"""), fun(GT,"func (g *Engine) InsertTasks(","""
func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	if len(ts) < 1 {
		return new(ratus.Updated), nil
	}
	r, err := g.bulk(ctx, models(ts, func(t *ratus.Task) mongo.WriteModel { return mongo.NewInsertOneModel().SetDocument(t) }))
	if err == nil || isDuplicateKeyOnly(err) {
		return updated(r), nil
	}
	return nil, err
}
""")),
same("duplicate by errors.As", fun(GM,"func isDuplicateKeyOnly(","""
func isDuplicateKeyOnly(err error) bool {
	var e mongo.BulkWriteException
	if !errors.As(err, &e) || e.WriteConcernError != nil {
		return false
	}
	for i := range e.WriteErrors {
		if w := e.WriteErrors[i].WriteError; !mongo.IsDuplicateKeyError(w) {
			return false
		}
	}
	return true
}
"""), (GM,'	"context"\n','	"context"\n	"errors"\n')),
same("duplicate counted", fun(GM,"func isDuplicateKeyOnly(","""
func isDuplicateKeyOnly(err error) bool {
	e, ok := err.(mongo.BulkWriteException)
	if !ok || e.WriteConcernError != nil {
		return false
	}
	other := 0
	for _, w := range e.WriteErrors {
		if !mongo.IsDuplicateKeyError(w.WriteError) {
			other++
		}
	}
	return other == 0
}
""")),
same("branch restructured", fun(GM,"func branch[","""
func branch[T *ratus.Task | *ratus.Updated | *ratus.Deleted](preferred, fallback func() (T, error), flag *atomic.Int32) (T, error) {
	if flag.Load() <= 0 {
		v, err := preferred()
		if err == nil || flag.Load() < 0 {
			return v, err
		}
		if !unsupported(err) {
			return nil, err
		}
		flag.Store(1)
	}
	return fallback()
}

// unsupported returns whether the deployment rejects an operation for good.
func unsupported(err error) bool {
	e, ok := err.(mongo.ServerError)
	return ok && slices.ContainsFunc(fallbackErrorCodes, e.HasErrorCode)
}
"""), (GM,'	"reflect"\n','	"reflect"\n	"slices"\n')),
same("flags list", fun(GM,"func (g *Engine) Fallback(","""
func (g *Engine) Fallback(v int32) *Engine {
	for _, f := range []*atomic.Int32{g.fallbackPoll, g.fallbackCommit, g.fallbackUpsertTasks, g.fallbackUpsertTask, g.fallbackInsertPromise, g.fallbackUpsertPromise} {
		f.Store(v)
	}
	return g
}
""")),
same("new in steps", fun(GM,"func New(","""
func New(c *Config) (*Engine, error) {
	client, err := mongo.NewClient(clientOptions(c))
	if err != nil {
		return nil, err
	}
	g := &Engine{config: c, client: client, database: client.Database(c.Database)}
	g.collection = g.database.Collection(c.Collection)
	for _, f := range []**atomic.Int32{&g.fallbackPoll, &g.fallbackCommit, &g.fallbackUpsertTasks, &g.fallbackUpsertTask, &g.fallbackInsertPromise, &g.fallbackUpsertPromise} {
		*f = new(atomic.Int32)
	}
	if c.DisableAutoFallback {
		g = g.Fallback(-1)
	}
	if c.DisableAtomicPoll {
		g.fallbackPoll.Store(1)
	}
	return g, nil
}

func clientOptions(c *Config) *options.ClientOptions {
	b := bson.NewRegistryBuilder()
	b.RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{}))
	o := options.Client()
	o.ApplyURI(c.URI)
	o.SetRegistry(b.Build())
	return o
}
""")),
same("open guard", fun(GM,"func (g *Engine) Open(","""
func (g *Engine) Open(ctx context.Context) error {
	err := g.client.Connect(ctx)
	if err != nil || g.config.DisableIndexCreation {
		return err
	}
	return g.createIndexes(ctx)
}
"""), fun(GM,"func (g *Engine) Destroy(","""
func (g *Engine) Destroy(ctx context.Context) error {
	err := g.collection.Drop(ctx)
	if err == nil {
		err = g.client.Disconnect(ctx)
	}
	return err
}
"""), fun(GM,"func (g *Engine) Ready(","""
func (g *Engine) Ready(ctx context.Context) error {
	if g.client.Ping(ctx, readpref.Primary()) == nil {
		return nil
	}
	return ratus.ErrServiceUnavailable
}
""")),
same("indexes split", fun(GM,"func (g *Engine) createIndexes(","""
func (g *Engine) createIndexes(ctx context.Context) error {
	e, ctx := errgroup.WithContext(ctx)
	e.Go(func() error { return g.createQueueIndexes(ctx) })
	e.Go(func() error { return g.createExpiryIndex(ctx) })
	return e.Wait()
}

func partial(name string, state bson.D) *options.IndexOptions {
	return options.Index().SetName(name).SetPartialFilterExpression(state)
}

func (g *Engine) createQueueIndexes(ctx context.Context) error {
	m := []mongo.IndexModel{{Keys: bson.D{{Key: keyTopic, Value: "hashed"}}, Options: options.Index().SetName(indexTopic)}}
	m = append(m, mongo.IndexModel{Keys: bson.D{{Key: keyTopic, Value: 1}, {Key: keyScheduled, Value: 1}}, Options: partial(indexPendingTopicScheduled, filterStatePending)})
	m = append(m, mongo.IndexModel{Keys: bson.D{{Key: keyDeadline, Value: 1}}, Options: partial(indexActiveDeadline, filterStateActive)})
	m = append(m, mongo.IndexModel{Keys: bson.D{{Key: keyTopic, Value: 1}}, Options: partial(indexActiveTopic, filterStateActive)})
	_, err := g.collection.Indexes().CreateMany(ctx, m)
	return err
}

func (g *Engine) createExpiryIndex(ctx context.Context) error {
	k := bson.D{{Key: keyConsumed, Value: 1}}
	s := int32(g.config.RetentionPeriod / time.Second)
	o := partial(indexCompletedConsumed, filterStateCompleted).SetExpireAfterSeconds(s)
	_, err := g.collection.Indexes().CreateOne(ctx, mongo.IndexModel{Keys: k, Options: o})
	if c, ok := err.(mongo.CommandError); ok && c.Name == "IndexOptionsConflict" {
		err = g.changeExpiry(ctx, k, s)
	}
	return err
}

func (g *Engine) changeExpiry(ctx context.Context, k bson.D, s int32) error {
	i := bson.D{{Key: "keyPattern", Value: k}, {Key: "expireAfterSeconds", Value: s}}
	err := g.database.RunCommand(ctx, bson.D{{Key: "collMod", Value: g.collection.Name()}, {Key: "index", Value: i}}).Err()
	if err == mongo.ErrNoDocuments {
		return nil
	}
	return err
}
""")),
same("peek shared projection", fun(GM,"func (g *Engine) peek(","""
func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratus.Task, error) {
	o := options.FindOne()
	o.SetAllowPartialResults(true)
	o.SetHint(hint)
	o.SetProjection(projection(keyID, keyTopic, keyState, keyNonce))
	if sort != nil {
		o.SetSort(sort)
	}
	v := new(ratus.Task)
	err := g.collection.FindOne(ctx, filter, o).Decode(v)
	if err != nil {
		v = nil
	}
	return v, err
}

func projection(keys ...string) bson.D {
	d := make(bson.D, len(keys))
	for i, k := range keys {
		d[i] = bson.E{Key: k, Value: 1}
	}
	return d
}
""")),
same("consume ops built", fun(GM,"func updateOpsConsume(","""
func updateOpsConsume(p *ratus.Promise, t time.Time) bson.D {
	n := nonce.Generate(ratus.NonceLength)
	return set(bson.M{
		keyState:    ratus.TaskStateActive,
		keyNonce:    n,
		keyConsumer: p.Consumer,
		keyConsumed: t,
		keyDeadline: p.Deadline,
	})
}

func set(v any) bson.D { return bson.D{{Key: "$set", Value: v}} }
"""), fun(GM,"func updateOpsRecover(","""
func updateOpsRecover() bson.D {
	return set(bson.D{{Key: keyNonce, Value: ""}, {Key: keyState, Value: ratus.TaskStatePending}})
}
"""), fun(GM,"func updateOpsCommit(","""
func updateOpsCommit(m *ratus.Commit) bson.D {
	s := bson.M{keyNonce: ""}
	if m.Topic != "" {
		s[keyTopic] = m.Topic
	}
	if m.State != nil {
		s[keyState] = *m.State
	}
	if m.Scheduled != nil {
		s[keyScheduled] = *m.Scheduled
	}
	if m.Payload != nil {
		s[keyPayload] = m.Payload
	}
	return set(s)
}
""")),
same("commit ops helper closure", fun(GM,"func updateOpsCommit(","""
func updateOpsCommit(m *ratus.Commit) bson.D {
	var s bson.D
	add := func(k string, v any, ok bool) {
		if ok {
			s = append(s, bson.E{Key: k, Value: v})
		}
	}
	add(keyNonce, "", true)
	add(keyTopic, m.Topic, m.Topic != "")
	add(keyState, m.State, m.State != nil)
	add(keyScheduled, m.Scheduled, m.Scheduled != nil)
	add(keyPayload, m.Payload, m.Payload != nil)
	return bson.D{{Key: "$set", Value: s}}
}
""")),
same("get task shared decode", fun(GT,"func (g *Engine) GetTask(","""
func (g *Engine) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	v := &ratus.Task{}
	if err := g.find(ctx, v, bson.D{{Key: keyID, Value: id}}); err != nil {
		return nil, err
	}
	return v, nil
}

// find decodes the document matching the filter.
func (g *Engine) find(ctx context.Context, v any, f bson.D) error {
	o := options.FindOne().SetAllowPartialResults(true).SetHint(indexID)
	err := g.collection.FindOne(ctx, f, o).Decode(v)
	if err == mongo.ErrNoDocuments {
		return ratus.ErrNotFound
	}
	return err
}
"""), fun(GP,"func (g *Engine) GetPromise(","""
func (g *Engine) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	p := new(ratus.Promise)
	err := g.find(ctx, p, bson.D{{Key: keyState, Value: ratus.TaskStateActive}, {Key: keyID, Value: id}})
	if err != nil {
		return nil, err
	}
	return p, nil
}
"""), (GP,'	"go.mongodb.org/mongo-driver/mongo/options"\n','	"go.mongodb.org/mongo-driver/mongo/options"\n')),
same("insert task switch", fun(GT,"func (g *Engine) InsertTask(","""
func (g *Engine) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	_, err := g.collection.InsertOne(ctx, t)
	switch {
	case err == nil:
		return &ratus.Updated{Created: 1}, nil
	case mongo.IsDuplicateKeyError(err):
		return nil, ratus.ErrConflict
	default:
		return nil, err
	}
}
"""), fun(GT,"func (g *Engine) upsertTaskReplace(","""
func (g *Engine) upsertTaskReplace(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	r, err := g.collection.ReplaceOne(ctx, bson.M{keyID: t.ID}, t, options.Replace().SetHint(indexID).SetUpsert(true))
	var u *ratus.Updated
	if err == nil {
		u = &ratus.Updated{Created: r.UpsertedCount, Updated: r.ModifiedCount}
	}
	return u, err
}
""")),
same("health shared", fun(CH,"func (r *HealthController) GetReadiness(","""
func (r *HealthController) GetReadiness(c *gin.Context) {
	answer(c, r.Engine.Ready(c.Request.Context()))
}

func answer(c *gin.Context, err error) {
	if err == nil {
		c.Status(http.StatusOK)
	} else {
		send(c, nil, err)
	}
}
"""), fun(CH,"func (r *HealthController) GetLiveness(","""
func (r *HealthController) GetLiveness(c *gin.Context) {
	answer(c, nil)
}
"""), fun(MC,"func (r *MetricsController) GetMetrics(","""
func (r *MetricsController) GetMetrics(c *gin.Context) {
	gin.WrapH(r.handler)(c)
}
""")),
bug("optimistic helper no state", (GM,"",OPTI.replace("		{Key: keyState, Value: c.State},\n","")), fun(GP,"func (g *Engine) insertPromiseOptimistic(","""
func (g *Engine) insertPromiseOptimistic(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	c, err := g.peek(ctx, bson.D{{Key: keyID, Value: p.ID}}, nil, indexID)
	switch {
	case err == mongo.ErrNoDocuments:
		return nil, ratus.ErrNotFound
	case err != nil:
		return nil, err
	case c.State != ratus.TaskStatePending:
		return nil, ratus.ErrConflict
	}
	v, err := g.optimistic(ctx, c, updateOpsConsume(p, time.Now()))
	if err == mongo.ErrNoDocuments {
		return nil, ratus.ErrConflict
	}
	return v, err
}
"""), (GP,'	"go.mongodb.org/mongo-driver/mongo/options"\n','	"go.mongodb.org/mongo-driver/mongo/options"\n')),
bug("poll nonce shared by retries", fun(GQ,"func (g *Engine) pollOptimistic(","""
func (g *Engine) pollOptimistic(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	var v ratus.Task
	s := bson.D{{Key: keyScheduled, Value: 1}}
	o := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	t := time.Now()
	for {
		c, err := g.peek(ctx, queryOpsPoll(topic, t), s, indexPendingTopicScheduled)
		if err == mongo.ErrNoDocuments {
			return nil, ratus.ErrNotFound
		} else if err != nil {
			return nil, err
		}
		f := bson.D{{Key: keyID, Value: c.ID}, {Key: keyTopic, Value: topic}, {Key: keyNonce, Value: c.Nonce}}
		err = g.collection.FindOneAndUpdate(ctx, f, updateOpsConsume(p, t), o).Decode(&v)
		if err == nil {
			return &v, nil
		}
		if err != mongo.ErrNoDocuments {
			return nil, err
		}
	}
}
""")),
]
