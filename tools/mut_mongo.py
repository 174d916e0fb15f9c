D="internal/engine/mongodb/"
Q=D+"queue.go"; M=D+"mongodb.go"; T=D+"task.go"; P=D+"promise.go"; O=D+"topic.go"
A=["C01","C02","C03","C04","C05","C06","C07","C08","C10","C11","C14","C15","C16"]
def bug(n,*e): return (n,"bug",A,list(e))
def same(n,*e): return (n,"same",A,list(e))
MUT=[
# --- claims
bug("poll lt instead of gt-now", (M,'{Key: "$lte", Value: t},','{Key: "$gte", Value: t},')),
bug("poll schedule far future", (M,'{Key: "$lte", Value: t},','{Key: "$lte", Value: t.Add(time.Minute)},')),
bug("poll no state filter", (M,'''		{Key: keyState, Value: ratus.TaskStatePending},
		{Key: keyTopic, Value: topic},
		{Key: keyScheduled''','''		{Key: keyTopic, Value: topic},
		{Key: keyScheduled''')),
bug("poll no topic filter", (M,'''		{Key: keyTopic, Value: topic},
		{Key: keyScheduled''','''		{Key: keyScheduled''')),
bug("poll sort desc", (Q,'s := bson.D{{Key: keyScheduled, Value: 1}}\n	o :=','s := bson.D{{Key: keyScheduled, Value: -1}}\n	o :=')),
bug("poll no sort optimistic", (Q,'c, err := g.peek(ctx, f, s, indexPendingTopicScheduled)','_ = s\n	c, err := g.peek(ctx, f, nil, indexPendingTopicScheduled)')),
bug("poll sort by id", (Q,'s := bson.D{{Key: keyScheduled, Value: 1}}\n	o :=','s := bson.D{{Key: keyID, Value: 1}}\n	o :=')),
bug("poll return before", (Q,'SetSort(s).SetReturnDocument(options.After)','SetSort(s).SetReturnDocument(options.Before)')),
bug("poll upsert", (Q,'options.FindOneAndUpdate().SetUpsert(false).SetSort(s)','options.FindOneAndUpdate().SetUpsert(true).SetSort(s)')),
bug("poll optimistic id only", (Q,'''	f = append(f, bson.E{Key: keyID, Value: c.ID})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsConsume(p, t)''','''	f = bson.D{{Key: keyID, Value: c.ID}}
	u := updateOpsConsume(p, t)''')),
bug("poll optimistic no id", (Q,'''	f = append(f, bson.E{Key: keyID, Value: c.ID})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})''','''	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})''')),
bug("poll optimistic gives up", (Q,'return g.pollOptimistic(ctx, topic, p)\n		}','return nil, ratus.ErrNotFound\n		}')),
bug("poll optimistic retry on any error", (Q,'''		if err == mongo.ErrNoDocuments {
			return g.pollOptimistic(ctx, topic, p)
		}
		return nil, err''','''		return g.pollOptimistic(ctx, topic, p)''')),
bug("poll optimistic returns peeked", (Q,'''			return g.pollOptimistic(ctx, topic, p)
		}
		return nil, err
	}

	return &v, nil''','''			return g.pollOptimistic(ctx, topic, p)
		}
		return nil, err
	}

	return c, nil''')),
bug("poll not found swallowed", (Q,'''		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}

	return &v, nil
}

// pollOptimistic''','''		return nil, err
	}

	return &v, nil
}

// pollOptimistic''')),
bug("poll not found on all errors", (Q,'''		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}

	return &v, nil
}

// pollOptimistic''','''		return nil, ratus.ErrNotFound
	}

	return &v, nil
}

// pollOptimistic''')),
bug("consume no nonce", (M,'			{Key: keyNonce, Value: nonce.Generate(ratus.NonceLength)},\n',''),(M,'	"github.com/hyperonym/ratus/internal/nonce"\n','')),
bug("consume constant nonce", (M,'{Key: keyNonce, Value: nonce.Generate(ratus.NonceLength)},','{Key: keyNonce, Value: p.Consumer},'),(M,'	"github.com/hyperonym/ratus/internal/nonce"\n','')),
bug("consume deadline from now", (M,'{Key: keyDeadline, Value: p.Deadline},','{Key: keyDeadline, Value: t},')),
bug("consume no consumed", (M,'			{Key: keyConsumed, Value: t},\n','')),
bug("consume no consumer", (M,'			{Key: keyConsumer, Value: p.Consumer},\n','')),
bug("consume resets payload", (M,'			{Key: keyConsumed, Value: t},\n','			{Key: keyConsumed, Value: t},\n			{Key: keyPayload, Value: nil},\n')),
bug("consume state pending", (M,'{Key: keyState, Value: ratus.TaskStateActive},\n			{Key: keyNonce, Value: nonce','{Key: keyState, Value: ratus.TaskStatePending},\n			{Key: keyNonce, Value: nonce')),
bug("consume consumed from promise nil ok", (M,'{Key: keyConsumed, Value: t},','{Key: keyConsumed, Value: p.Deadline},')),
bug("consume setOnInsert", (M,'''		{Key: "$set", Value: bson.D{
			{Key: keyState, Value: ratus.TaskStateActive},''','''		{Key: "$setOnInsert", Value: bson.D{
			{Key: keyState, Value: ratus.TaskStateActive},''')),
bug("insert promise no state", (P,'''		{Key: keyID, Value: p.ID},
		{Key: keyState, Value: ratus.TaskStatePending},
''','''		{Key: keyID, Value: p.ID},
''')),
bug("insert promise ne active", (P,'''		{Key: keyID, Value: p.ID},
		{Key: keyState, Value: ratus.TaskStatePending},
''','''		{Key: keyID, Value: p.ID},
		{Key: keyState, Value: bson.D{{Key: "$ne", Value: ratus.TaskStateActive}}},
''')),
bug("insert promise optimistic unchecked", (P,'''	f = append(f, bson.E{Key: keyState, Value: ratus.TaskStatePending})
''','''	f = append(f, bson.E{Key: keyState, Value: c.State})
'''),(P,'''	if c.State != ratus.TaskStatePending {
		return nil, ratus.ErrConflict
	}
''','')),
bug("insert promise optimistic retries", (P,'''			err = ratus.ErrConflict
		}
		return nil, err
	}

	return &v, nil
}

// UpsertPromise''','''			return g.insertPromiseAtomic(ctx, p)
		}
		return nil, err
	}

	return &v, nil
}

// UpsertPromise''')),
bug("insert promise conflict always", (P,'err = g.missed(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)','err = ratus.ErrConflict')),
bug("insert promise missed with state", (P,'err = g.missed(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)','err = g.missed(ctx, f, indexID)')),
bug("missed error is not found", (M,'''	case mongo.ErrNoDocuments:
		return ratus.ErrNotFound
	}
	return err''','''	}
	return ratus.ErrNotFound''')),
bug("upsert promise only pending", (P,'''	f := bson.D{{Key: keyID, Value: p.ID}}
	u := updateOpsConsume(p, t)''','''	f := bson.D{{Key: keyID, Value: p.ID}, {Key: keyState, Value: ratus.TaskStatePending}}
	u := updateOpsConsume(p, t)''')),
bug("upsert promise upserts", (P,'''	f := bson.D{{Key: keyID, Value: p.ID}}
	u := updateOpsConsume(p, t)
	o := options.FindOneAndUpdate().SetUpsert(false)''','''	f := bson.D{{Key: keyID, Value: p.ID}}
	u := updateOpsConsume(p, t)
	o := options.FindOneAndUpdate().SetUpsert(true)''')),
bug("upsert promise optimistic conflict", (P,'return g.upsertPromiseOptimistic(ctx, p)\n		}','return nil, ratus.ErrConflict\n		}')),
# --- commit
bug("commit nonce unchecked", (Q,'''	if m.Nonce != "" {
		f = append(f, bson.E{Key: keyNonce, Value: m.Nonce})
	}
''','')),
bug("commit nonce ifhasstate", (Q,'''	if m.Nonce != "" {
		f = append(f''','''	if m.Nonce != "" && m.State == nil {
		f = append(f''')),
bug("commit optimistic nonce unchecked", (Q,'''	if m.Nonce != "" && m.Nonce != c.Nonce {
		return nil, ratus.ErrConflict
	}
''','')),
bug("commit optimistic filter without nonce", (Q,'''	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsCommit(m)''','''	u := updateOpsCommit(m)''')),
bug("commit mismatch not found", (Q,'''			if m.Nonce != "" {
				err = g.missed(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
			}
''','')),
bug("commit always conflict", (Q,'''			err = ratus.ErrNotFound
			if m.Nonce != "" {
				err = g.missed(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
			}
''','''			err = ratus.ErrConflict
''')),
bug("commit keeps nonce", (M,'s := bson.D{{Key: keyNonce, Value: ""}}','s := bson.D{}')),
bug("commit nonce unless state", (M,'''	s := bson.D{{Key: keyNonce, Value: ""}}
''','''	s := bson.D{}
	if m.State != nil {
		s = append(s, bson.E{Key: keyNonce, Value: ""})
	}
''')),
bug("commit topic dropped", (M,'''	if m.Topic != "" {
		s = append(s, bson.E{Key: keyTopic, Value: m.Topic})
	}
''','')),
bug("commit payload always", (M,'''	if m.Payload != nil {
		s = append(s, bson.E{Key: keyPayload, Value: m.Payload})
	}''','''	s = append(s, bson.E{Key: keyPayload, Value: m.Payload})''')),
bug("commit scheduled to deadline", (M,'bson.E{Key: keyScheduled, Value: m.Scheduled}','bson.E{Key: keyDeadline, Value: m.Scheduled}')),
bug("commit state always", (M,'''	if m.State != nil {
		s = append(s, bson.E{Key: keyState, Value: m.State})
	}''','''	s = append(s, bson.E{Key: keyState, Value: m.State})''')),
bug("commit returns before", (Q,'''	u := updateOpsCommit(m)
	o := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After)''','''	u := updateOpsCommit(m)
	o := options.FindOneAndUpdate().SetUpsert(false)''')),
bug("commit optimistic upsert", (Q,'''	u := updateOpsCommit(m)
	n := options.FindOneAndUpdate().SetUpsert(false)''','''	u := updateOpsCommit(m)
	n := options.FindOneAndUpdate().SetUpsert(true)''')),
# --- chore
bug("chore gt", (Q,'{Key: "$lt", Value: time.Now()},','{Key: "$gt", Value: time.Now()},')),
bug("chore no state", (Q,'		{Key: keyState, Value: ratus.TaskStateActive},\n		{Key: keyDeadline','		{Key: keyDeadline')),
bug("chore one", (Q,'g.collection.UpdateMany(ctx, f, updateOpsRecover(), o)','g.collection.UpdateOne(ctx, f, updateOpsRecover(), o)')),
bug("chore error ignored", (Q,'''updateOpsRecover(), o); err != nil {
		return err
	}''','''updateOpsRecover(), o); err != nil {
		return nil
	}''')),
bug("chore grace", (Q,'{Key: "$lt", Value: time.Now()},','{Key: "$lt", Value: time.Now().Add(-time.Hour)},')),
bug("recover keeps nonce", (M,'			{Key: keyState, Value: ratus.TaskStatePending},\n			{Key: keyNonce, Value: ""},\n','			{Key: keyState, Value: ratus.TaskStatePending},\n')),
bug("recover resets scheduled", (M,'			{Key: keyNonce, Value: ""},\n','			{Key: keyNonce, Value: ""},\n			{Key: keyScheduled, Value: time.Now()},\n')),
bug("recover unset", (M,'''		{Key: "$set", Value: bson.D{
			{Key: keyState, Value: ratus.TaskStatePending},
			{Key: keyNonce, Value: ""},
		}},''','''		{Key: "$set", Value: bson.D{
			{Key: keyState, Value: ratus.TaskStatePending},
			{Key: keyNonce, Value: ""},
		}},
		{Key: "$unset", Value: bson.D{{Key: keyConsumer, Value: ""}}},''')),
# --- promises
bug("delete promise any", (P,'''		{Key: keyID, Value: id},
		{Key: keyState, Value: ratus.TaskStateActive},
	}

	// Deleting a promise''','''		{Key: keyID, Value: id},
	}

	// Deleting a promise''')),
bug("delete promise deletes task", (P,'''r, err := g.collection.UpdateOne(ctx, f, updateOpsRecover(), o)
	if err != nil {
		return nil, err
	}

	return &ratus.Deleted{
		Deleted: r.ModifiedCount,''','''_ = o
	r, err := g.collection.DeleteOne(ctx, f)
	if err != nil {
		return nil, err
	}

	return &ratus.Deleted{
		Deleted: r.DeletedCount,''')),
bug("delete promises no topic", (P,'''		{Key: keyState, Value: ratus.TaskStateActive},
		{Key: keyTopic, Value: topic},
	}

	// Deleting promises''','''		{Key: keyState, Value: ratus.TaskStateActive},
	}
	_ = topic

	// Deleting promises''')),
bug("delete promises one", (P,'g.collection.UpdateMany(ctx, f, updateOpsRecover(), o)','g.collection.UpdateOne(ctx, f, updateOpsRecover(), o)')),
bug("get promise any state", (P,'''		{Key: keyID, Value: id},
		{Key: keyState, Value: ratus.TaskStateActive},
	}

	// A promise in effect''','''		{Key: keyID, Value: id},
	}

	// A promise in effect''')),
bug("list promises any state", (P,'''	f := bson.D{
		{Key: keyState, Value: ratus.TaskStateActive},
		{Key: keyTopic, Value: topic},
	}

	// Promises in effect''','''	f := bson.D{
		{Key: keyTopic, Value: topic},
	}

	// Promises in effect''')),
bug("list promises nil slice", (P,'v := make([]*ratus.Promise, 0)','var v []*ratus.Promise')),
# --- tasks
bug("insert tasks ordered", (T,'''	o := options.BulkWrite().SetOrdered(false)
	r, err := g.collection.BulkWrite(ctx, w, o)
	if err != nil && !is''','''	o := options.BulkWrite()
	r, err := g.collection.BulkWrite(ctx, w, o)
	if err != nil && !is''')),
bug("insert tasks any bulk error", (T,'err != nil && !isDuplicateKeyOnly(err)','err != nil && !mongo.IsDuplicateKeyError(err)')),
bug("insert tasks skip last", (T,'''		m := mongo.NewInsertOneModel()
''','''		if i == len(ts)-1 && len(ts) > 1000 {
			break
		}
		m := mongo.NewInsertOneModel()
''')),
bug("insert tasks count len", (T,'''	return &ratus.Updated{
		Created: r.InsertedCount + r.UpsertedCount,
		Updated: r.ModifiedCount,
	}, nil
}

// UpsertTasks''','''	return &ratus.Updated{
		Created: int64(len(ts)),
		Updated: r.ModifiedCount,
	}, nil
}

// UpsertTasks''')),
bug("insert tasks upsert replaces", (T,'''		m := mongo.NewInsertOneModel()
		m = m.SetDocument(t)
''','''		m := mongo.NewReplaceOneModel().SetFilter(bson.D{{Key: keyID, Value: t.ID}}).SetReplacement(t).SetUpsert(true)
''')),
bug("upsert tasks no upsert", (T,'		m = m.SetUpsert(true)\n','')),
bug("upsert tasks filter topic", (T,'''		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}})
		m = m.SetReplacement(t)''','''		m = m.SetFilter(bson.D{{Key: keyTopic, Value: t.Topic}})
		m = m.SetReplacement(t)''')),
bug("upsert tasks wrong element", (T,'''		m = m.SetReplacement(t)''','''		m = m.SetReplacement(ts[0])''')),
bug("upsert delete insert reversed counts", (T,'''		Created: int64(len(ts)) - r.DeletedCount,
		Updated: r.DeletedCount,''','''		Created: int64(len(ts)),
		Updated: r.DeletedCount,''')),
bug("upsert delete only", (T,'''	if _, err := g.InsertTasks(ctx, ts); err != nil {
		return nil, err
	}

''','')),
bug("upsert insert error ignored", (T,'''	if _, err := g.InsertTasks(ctx, ts); err != nil {
		return nil, err
	}
''','''	_, _ = g.InsertTasks(ctx, ts)
''')),
bug("upsert fallback insert only", (T,'return g.upsertTasksDeleteAndInsert(ctx, []*ratus.Task{t})','return g.InsertTasks(ctx, []*ratus.Task{t})')),
bug("upsert fallback deletes topic", (T,'''		m := mongo.NewDeleteOneModel()
		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}})
		m = m.SetHint(indexID)''','''		m := mongo.NewDeleteManyModel()
		m = m.SetFilter(bson.D{{Key: keyTopic, Value: t.Topic}})
		m = m.SetHint(indexTopic)''')),
bug("upsert task no upsert", (T,'options.Replace().SetUpsert(true)','options.Replace().SetUpsert(false)')),
bug("insert task dup not conflict", (T,'''		if mongo.IsDuplicateKeyError(err) {
			err = ratus.ErrConflict
		}
		return nil, err''','''		return nil, err''')),
bug("insert task conflict always", (T,'''		if mongo.IsDuplicateKeyError(err) {
			err = ratus.ErrConflict
		}
		return nil, err''','''		return nil, ratus.ErrConflict''')),
bug("delete task many", (T,'''	f := bson.D{{Key: keyID, Value: id}}
	o := options.Delete().SetHint(indexID)
	r, err := g.collection.DeleteOne(ctx, f, o)''','''	f := bson.D{{Key: keyID, Value: bson.D{{Key: "$gte", Value: id}}}}
	o := options.Delete().SetHint(indexID)
	r, err := g.collection.DeleteOne(ctx, f, o)''')),
bug("delete tasks one", (T,'g.collection.DeleteMany(ctx, f, o)','g.collection.DeleteOne(ctx, f, o)')),
bug("delete tasks all", (T,'''	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Delete().SetHint(indexTopic)''','''	f := bson.D{}
	_ = topic
	o := options.Delete().SetHint(indexTopic)''')),
bug("get task by topic", (T,'''	f := bson.D{{Key: keyID, Value: id}}
	o := options.FindOne()''','''	f := bson.D{{Key: keyTopic, Value: id}}
	o := options.FindOne()''')),
bug("get task not found nil", (T,'''		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}
	return &v, nil''','''		if err != mongo.ErrNoDocuments {
			return nil, err
		}
	}
	return &v, nil''')),
bug("get task projection", (T,'options.FindOne().SetAllowPartialResults(true).SetHint(indexID)','options.FindOne().SetProjection(bson.D{{Key: keyPayload, Value: 0}}).SetHint(indexID)')),
bug("list tasks offset limit swap", (T,'SetLimit(int64(limit)).SetSkip(int64(offset))','SetLimit(int64(offset)).SetSkip(int64(limit))')),
bug("list tasks no limit", (T,'SetLimit(int64(limit)).SetSkip(int64(offset))','SetSkip(int64(offset))')),
bug("list tasks pending only", (T,'''	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Find()''','''	f := bson.D{{Key: keyTopic, Value: topic}, {Key: keyState, Value: bson.D{{Key: "$lt", Value: ratus.TaskStateArchived}}}}
	o := options.Find()''')),
bug("delete topics archived kept", (O,'	f := bson.D{}\n','	f := bson.D{{Key: keyState, Value: bson.D{{Key: "$ne", Value: 3}}}}\n')),
bug("delete topic count wrong", (O,'''	r, err := g.collection.DeleteMany(ctx, f, o)
	if err != nil {
		return nil, err
	}

	// Return the number of deleted tasks, not the number of deleted topics.
	return &ratus.Deleted{
		Deleted: r.DeletedCount,
	}, nil
}

// GetTopic''','''	if _, err := g.collection.DeleteMany(ctx, f, o); err != nil {
		return nil, err
	}
	return &ratus.Deleted{
		Deleted: 1,
	}, nil
}

// GetTopic''')),
bug("get topic zero ok", (O,'''	if err == nil && n == 0 {
		err = ratus.ErrNotFound
	}
''','')),
bug("get topic limit", (O,'options.Count().SetHint(indexTopic)','options.Count().SetLimit(1000).SetHint(indexTopic)')),
bug("list topics limit before skip", (O,'''		bson.D{{Key: "$skip", Value: offset}},
		bson.D{{Key: "$limit", Value: limit}},''','''		bson.D{{Key: "$limit", Value: limit}},
		bson.D{{Key: "$skip", Value: offset}},''')),
bug("list topics group by state", (O,'"$" + keyTopic','"$" + keyState')),
bug("list topics no group", (O,'''		bson.D{{Key: "$group", Value: bson.D{{Key: keyID, Value: "$" + keyTopic}}}},
''','''		bson.D{{Key: "$project", Value: bson.D{{Key: keyID, Value: "$" + keyTopic}}}},
''')),
# --- branch
bug("branch code removed", (M,'	61,    // Query for sharded findAndModify must contain the shard key.\n','')),
bug("branch any error falls back", (M,'		if e.HasErrorCode(c) {\n			flag.Store(1)\n			return fallback()\n		}\n	}\n','		_ = c\n	}\n	flag.Store(1)\n	_ = e\n	if true {\n		return fallback()\n	}\n')),
bug("branch not sticky", (M,'			flag.Store(1)\n			return fallback()','			return fallback()')),
bug("branch ignores disabled", (M,'if err == nil || flag.Load() < 0 {','if err == nil {')),
bug("branch preferred again", (M,'			flag.Store(1)\n			return fallback()','			flag.Store(1)\n			return preferred()')),
bug("branch threshold", (M,'if flag.Load() > 0 {','if flag.Load() >= 0 {')),
bug("branch wrong flag", (Q,'		return g.commitOptimistic(ctx, id, m)\n	}, g.fallbackCommit)','		return g.commitOptimistic(ctx, id, m)\n	}, g.fallbackPoll)')),
bug("branch shared flag", (M,'		fallbackUpsertTask:    &atomic.Int32{},\n','')),
bug("disable atomic poll overriden", (M,'''	// Disable transparent fallbacks if required.
	if c.DisableAutoFallback {
		g.Fallback(-1)
	}

	// Disable atomic polling if required.
	if c.DisableAtomicPoll {
		g.fallbackPoll.Store(1)
	}
''','''	// Disable atomic polling if required.
	if c.DisableAtomicPoll {
		g.fallbackPoll.Store(1)
	}
	// Disable transparent fallbacks if required.
	if c.DisableAutoFallback {
		g.Fallback(-1)
	}
''')),
bug("fallback misses one", (M,'	g.fallbackUpsertTask.Store(v)\n','')),
bug("fallback flag inverted", (M,'g.Fallback(-1)','g.Fallback(1)')),
bug("atomic poll disabled affects commit", (M,'		g.fallbackPoll.Store(1)\n	}\n\n	return','		g.fallbackCommit.Store(1)\n	}\n\n	return')),
# --- indexes
bug("index name mismatch", (M,'indexActiveTopic           = "topic_1"','indexActiveTopic           = "topic_active"'),(M,'options.Index().SetName(indexActiveTopic)','options.Index().SetName("topic_1")')),
bug("hint wrong partial", (T,'''	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexTopic)''','''	o := options.Find().SetLimit(int64(limit)).SetSkip(int64(offset)).SetHint(indexActiveTopic)''')),
bug("ttl partial dropped", (M,'SetPartialFilterExpression(filterStateCompleted).SetExpireAfterSeconds(s)','SetExpireAfterSeconds(s)')),
bug("ttl wrong field", (M,'k := bson.D{{Key: keyConsumed, Value: 1}}','k := bson.D{{Key: keyDeadline, Value: 1}}')),
bug("ttl minutes", (M,'int32(g.config.RetentionPeriod.Seconds())','int32(g.config.RetentionPeriod.Minutes())')),
bug("ttl no collmod", (M,'''		if c, ok := err.(mongo.CommandError); !ok || c.Name != "IndexOptionsConflict" {
			return err
		}
''','''		if c, ok := err.(mongo.CommandError); ok && c.Name == "IndexOptionsConflict" {
			return nil
		}
''')),
bug("ttl archived", (M,'filterStateCompleted = bson.D{{Key: keyState, Value: ratus.TaskStateCompleted}}','filterStateCompleted = bson.D{{Key: keyState, Value: ratus.TaskStateArchived}}')),
bug("indexes error dropped", (M,'	return e.Wait()\n','	_ = e.Wait()\n	return nil\n')),
bug("indexes not created by default", (M,'if !g.config.DisableIndexCreation {','if g.config.DisableIndexCreation {')),
bug("index dropped", (M,'''			{
				Keys:    bson.D{{Key: keyTopic, Value: 1}},
				Options: options.Index().SetName(indexActiveTopic).SetPartialFilterExpression(filterStateActive),
			},
''','')),
bug("index unique", (M,'options.Index().SetName(indexActiveTopic)','options.Index().SetUnique(true).SetName(indexActiveTopic)')),
bug("collection wrong", (M,'g.collection = g.database.Collection(c.Collection)','g.collection = g.database.Collection(c.Database)')),
bug("peek without nonce", (M,'		{Key: keyNonce, Value: 1},\n	}\n	o := options.FindOne()','	}\n	o := options.FindOne()')),
bug("peek without state", (M,'		{Key: keyState, Value: 1},\n		{Key: keyNonce, Value: 1},\n	}\n	o := options.FindOne()','		{Key: keyNonce, Value: 1},\n	}\n	o := options.FindOne()')),
bug("dup only first", (M,'''		if !mongo.IsDuplicateKeyError(w.WriteError) {
			return false
		}
	}
	return true''','''		if mongo.IsDuplicateKeyError(w.WriteError) {
			return true
		}
	}
	return false''')),
bug("dup ignores wc", (M,'if !ok || e.WriteConcernError != nil {','if !ok {')),

bug("no registry", (M,'ApplyURI(c.URI).SetRegistry(r)','ApplyURI(c.URI)'),(M,'	r := bson.New','	_ = bson.New')),
bug("registry other", (M,'reflect.TypeOf(bson.M{})','reflect.TypeOf(bson.D{})')),
bug("registry type", (M,'Entry(bsontype.EmbeddedDocument','Entry(bsontype.Array')),
same("registry map", (M,'reflect.TypeOf(bson.M{})','reflect.TypeOf(map[string]interface{}{})')),
same("client options var", (M,'mongo.NewClient(options.Client().ApplyURI(c.URI).SetRegistry(r))','mongo.NewClient(clientOptions(c.URI))'),(M,'	r := bson.NewRegistryBuilder().RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{})).Build()\n',''),(M,'','\nfunc clientOptions(u string) *options.ClientOptions {\n	b := bson.NewRegistryBuilder()\n	b.RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{}))\n	o := options.Client()\n	o.SetRegistry(b.Build())\n	o.ApplyURI(u)\n	return o\n}\n')),

# --- refactorings
same("poll loop", (Q,'''	// Peek into the topic to get the ID and nonce of the next candidate task.
	t := time.Now()
	f := queryOpsPoll(topic, t)
	s := bson.D{{Key: keyScheduled, Value: 1}}
	c, err := g.peek(ctx, f, s, indexPendingTopicScheduled)
	if err != nil {
		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}

	// Add all known fields to the filter criteria to perform findAndModify.
	// This operation is expected to work on sharded collections using various
	// sharding strategies.
	var v ratus.Task
	f = append(f, bson.E{Key: keyID, Value: c.ID})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsConsume(p, t)
	n := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	if err := g.collection.FindOneAndUpdate(ctx, f, u, n).Decode(&v); err != nil {

		// The only reason that could lead to no match is that the task has
		// been obtained by another consumer. Retry immediately to secure the
		// next task!
		if err == mongo.ErrNoDocuments {
			return g.pollOptimistic(ctx, topic, p)
		}
		return nil, err
	}

	return &v, nil''','''	for {
		t := time.Now()
		f := queryOpsPoll(topic, t)
		s := bson.D{{Key: keyScheduled, Value: 1}}
		c, err := g.peek(ctx, f, s, indexPendingTopicScheduled)
		if err == mongo.ErrNoDocuments {
			return nil, ratus.ErrNotFound
		}
		if err != nil {
			return nil, err
		}
		var v ratus.Task
		f = append(f, bson.E{Key: keyID, Value: c.ID}, bson.E{Key: keyNonce, Value: c.Nonce})
		u := updateOpsConsume(p, t)
		n := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
		err = g.collection.FindOneAndUpdate(ctx, f, u, n).Decode(&v)
		if err == nil {
			return &v, nil
		}
		if err != mongo.ErrNoDocuments {
			return nil, err
		}
	}''')),
same("upsert promise loop", (P,'''	// Get current information of the target task.
	f := bson.D{{Key: keyID, Value: p.ID}}
	c, err := g.peek(ctx, f, nil, indexID)
	if err != nil {
		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}

	// Add all known fields to the filter criteria to perform findAndModify.
	// This operation is expected to work on sharded collections using various
	// sharding strategies.
	var v ratus.Task
	t := time.Now()
	f = append(f, bson.E{Key: keyTopic, Value: c.Topic})
	f = append(f, bson.E{Key: keyState, Value: c.State})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsConsume(p, t)
	n := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	if err := g.collection.FindOneAndUpdate(ctx, f, u, n).Decode(&v); err != nil {

		// The only reason that could lead to no match is that another consumer
		// has obtained the task. Then retry immediately.
		if err == mongo.ErrNoDocuments {
			return g.upsertPromiseOptimistic(ctx, p)
		}
		return nil, err
	}

	return &v, nil''','''	for {
		c, err := g.peek(ctx, bson.D{{Key: keyID, Value: p.ID}}, nil, indexID)
		if err != nil {
			if err == mongo.ErrNoDocuments {
				err = ratus.ErrNotFound
			}
			return nil, err
		}
		var v ratus.Task
		t := time.Now()
		f := bson.D{
			{Key: keyID, Value: p.ID},
			{Key: keyTopic, Value: c.Topic},
			{Key: keyState, Value: c.State},
			{Key: keyNonce, Value: c.Nonce},
		}
		n := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
		err = g.collection.FindOneAndUpdate(ctx, f, updateOpsConsume(p, t), n).Decode(&v)
		switch err {
		case nil:
			return &v, nil
		case mongo.ErrNoDocuments:
			continue
		default:
			return nil, err
		}
	}''')),
same("query bson.M", (M,'''	return bson.D{
		{Key: keyState, Value: ratus.TaskStatePending},
		{Key: keyTopic, Value: topic},
		{Key: keyScheduled, Value: bson.D{
			{Key: "$lte", Value: t},
		}},
	}''','''	return bson.D{
		{Key: keyTopic, Value: topic},
		{Key: keyScheduled, Value: bson.M{"$lte": t}},
		{Key: keyState, Value: ratus.TaskStatePending},
	}''')),
same("recover bson.M", (M,'''	return bson.D{
		{Key: "$set", Value: bson.D{
			{Key: keyState, Value: ratus.TaskStatePending},
			{Key: keyNonce, Value: ""},
		}},
	}''','''	return bson.D{
		{Key: "$set", Value: bson.M{
			keyState: ratus.TaskStatePending,
			keyNonce: "",
		}},
	}''')),
same("commit bson.M", (M,'''	s := bson.D{{Key: keyNonce, Value: ""}}
	if m.Topic != "" {
		s = append(s, bson.E{Key: keyTopic, Value: m.Topic})
	}
	if m.State != nil {
		s = append(s, bson.E{Key: keyState, Value: m.State})
	}
	if m.Scheduled != nil {
		s = append(s, bson.E{Key: keyScheduled, Value: m.Scheduled})
	}
	if m.Payload != nil {
		s = append(s, bson.E{Key: keyPayload, Value: m.Payload})
	}
	return bson.D{{Key: "$set", Value: s}}''','''	s := bson.M{keyNonce: ""}
	if m.Topic != "" {
		s[keyTopic] = m.Topic
	}
	if m.State != nil {
		s[keyState] = *m.State
	}
	if m.Scheduled != nil {
		s[keyScheduled] = *m.Scheduled
	}
	if m.Payload != nil {
		s[keyPayload] = m.Payload
	}
	return bson.D{{Key: "$set", Value: s}}''')),
same("insert append", (T,'''	w := make([]mongo.WriteModel, len(ts))
	for i, t := range ts {
		m := mongo.NewInsertOneModel()
		m = m.SetDocument(t)
		w[i] = m
	}
''','''	w := make([]mongo.WriteModel, 0, len(ts))
	for _, t := range ts {
		w = append(w, mongo.NewInsertOneModel().SetDocument(t))
	}
''')),
same("upsert append index", (T,'''	w := make([]mongo.WriteModel, len(ts))
	for i, t := range ts {
		m := mongo.NewReplaceOneModel()
		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}})
		m = m.SetReplacement(t)
		m = m.SetUpsert(true)
		m = m.SetHint(indexID)
		w[i] = m
	}
''','''	var w []mongo.WriteModel
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		m := mongo.NewReplaceOneModel().SetHint(indexID).SetUpsert(true)
		m.SetFilter(bson.D{{Key: keyID, Value: t.ID}}).SetReplacement(t)
		w = append(w, m)
	}
''')),
same("models helper", (T,'''	w := make([]mongo.WriteModel, len(ts))
	for i, t := range ts {
		m := mongo.NewDeleteOneModel()
		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}})
		m = m.SetHint(indexID)
		w[i] = m
	}
''','''	w := deleteModels(ts)
'''),(T,'','''

func deleteModels(ts []*ratus.Task) []mongo.WriteModel {
	w := make([]mongo.WriteModel, len(ts))
	for i := range ts {
		w[i] = mongo.NewDeleteOneModel().SetFilter(filterID(ts[i].ID)).SetHint(indexID)
	}
	return w
}

func filterID(id string) bson.D {
	return bson.D{{Key: keyID, Value: id}}
}
''')),
same("find and update helper", (Q,'''	var v ratus.Task
	f = append(f, bson.E{Key: keyID, Value: c.ID})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsConsume(p, t)
	n := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	if err := g.collection.FindOneAndUpdate(ctx, f, u, n).Decode(&v); err != nil {
''','''	f = append(f, bson.E{Key: keyID, Value: c.ID})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	v, err := g.modify(ctx, f, updateOpsConsume(p, t))
	if err != nil {
'''),(Q,'''		return nil, err
	}

	return &v, nil
}

// Commit applies''','''		return nil, err
	}

	return v, nil
}

func (g *Engine) modify(ctx context.Context, f, u any) (*ratus.Task, error) {
	n := options.FindOneAndUpdate().SetUpsert(false).SetReturnDocument(options.After).SetHint(indexID)
	r := g.collection.FindOneAndUpdate(ctx, f, u, n)
	if err := r.Err(); err != nil {
		return nil, err
	}
	v := new(ratus.Task)
	if err := r.Decode(v); err != nil {
		return nil, err
	}
	return v, nil
}

// Commit applies''')),
same("errors.Is", (Q,'''		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}

	return &v, nil
}

// pollOptimistic''','''		if errors.Is(err, mongo.ErrNoDocuments) {
			return nil, ratus.ErrNotFound
		}
		return nil, err
	}

	return &v, nil
}

// pollOptimistic'''),(Q,'	"context"\n','	"context"\n	"errors"\n')),
same("find one err first", (T,'''	if err := g.collection.FindOne(ctx, f, o).Decode(&v); err != nil {
		if err == mongo.ErrNoDocuments {
			err = ratus.ErrNotFound
		}
		return nil, err
	}
	return &v, nil''','''	err := g.collection.FindOne(ctx, f, o).Decode(&v)
	switch {
	case err == nil:
		return &v, nil
	case errors.Is(err, mongo.ErrNoDocuments):
		return nil, ratus.ErrNotFound
	}
	return nil, err'''),(T,'	"context"\n','	"context"\n	"errors"\n')),
same("branch slices", (M,'''	for _, c := range fallbackErrorCodes {
		if e.HasErrorCode(c) {
			flag.Store(1)
			return fallback()
		}
	}

	return nil, err
}''','''	if !e.HasErrorCode(61) && !e.HasErrorCode(31025) {
		return nil, err
	}
	flag.Store(1)
	return fallback()
}'''),(M,'''var fallbackErrorCodes = []int{
	61,    // Query for sharded findAndModify must contain the shard key.
	31025, // Shard key update is not allowed without specifying the full shard key in the query.
}
''','')),
same("branch errors.As", (M,'''	e, ok := err.(mongo.ServerError)
	if !ok {
		return nil, err
	}
''','''	var e mongo.ServerError
	if !errors.As(err, &e) {
		return nil, err
	}
'''),(M,'	"context"\n','	"context"\n	"errors"\n')),
same("branch helper needsFallback", (M,'''	for _, c := range fallbackErrorCodes {
		if e.HasErrorCode(c) {
			flag.Store(1)
			return fallback()
		}
	}

	return nil, err
}''','''	if !needsFallback(e) {
		return nil, err
	}
	flag.Store(1)
	return fallback()
}

func needsFallback(e mongo.ServerError) bool {
	for _, c := range fallbackErrorCodes {
		if e.HasErrorCode(c) {
			return true
		}
	}
	return false
}''')),
same("index models var", (M,'''		_, err := v.CreateMany(ctx, []mongo.IndexModel{
			{
				Keys:    bson.D{{Key: keyTopic, Value: "hashed"}},
				Options: options.Index().SetName(indexTopic),
			},
''','''		m := []mongo.IndexModel{{
			Keys:    bson.D{{Key: keyTopic, Value: "hashed"}},
			Options: options.Index().SetName(indexTopic),
		}}
		_, err := v.CreateMany(ctx, append(m, []mongo.IndexModel{
'''),(M,'''				Options: options.Index().SetName(indexActiveTopic).SetPartialFilterExpression(filterStateActive),
			},
		})''','''				Options: options.Index().SetName(indexActiveTopic).SetPartialFilterExpression(filterStateActive),
			},
		}...))''')),
same("indexes sequential", (M,'''	// Create TTL index to automatically delete completed tasks that have
	// exceeded their retention period.
	e.Go(func() error {
		k :=''','''	if err := e.Wait(); err != nil {
		return err
	}
	return func() error {
		k :='''),(M,'''		return nil
	})

	return e.Wait()
}''','''		return nil
	}()
}'''),(M,'e, ctx := errgroup.WithContext(ctx)','e := new(errgroup.Group)')),
same("chore t var", (Q,'''	f := bson.D{
		{Key: keyState, Value: ratus.TaskStateActive},
		{Key: keyDeadline, Value: bson.D{
			{Key: "$lt", Value: time.Now()},
		}},
	}
''','''	n := time.Now()
	f := append(bson.D{}, bson.E{Key: keyDeadline, Value: bson.M{"$lte": n}}, bson.E{Key: keyState, Value: ratus.TaskStateActive})
''')),
same("insert task switch", (T,'''	if _, err := g.collection.InsertOne(ctx, t); err != nil {
		if mongo.IsDuplicateKeyError(err) {
			err = ratus.ErrConflict
		}
		return nil, err
	}
	return''','''	_, err := g.collection.InsertOne(ctx, t)
	if mongo.IsDuplicateKeyError(err) {
		return nil, ratus.ErrConflict
	} else if err != nil {
		return nil, err
	}
	return''')),
same("topic filter helper", (O,'''	f := bson.D{{Key: keyTopic, Value: topic}}
	o := options.Delete().SetHint(indexTopic)
	r, err := g.collection.DeleteMany(ctx, f, o)
	if err != nil {
		return nil, err
	}

	// Return the number of deleted tasks, not the number of deleted topics.
	return &ratus.Deleted{
		Deleted: r.DeletedCount,
	}, nil''','''	return g.DeleteTasks(ctx, topic)''')),
same("missed if", (M,'''	switch err {
	case nil:
		return ratus.ErrConflict
	case mongo.ErrNoDocuments:
		return ratus.ErrNotFound
	}
	return err''','''	if err == nil {
		return ratus.ErrConflict
	}
	if err == mongo.ErrNoDocuments {
		err = ratus.ErrNotFound
	}
	return err''')),
same("commit missed count", (Q,'''			err = ratus.ErrNotFound
			if m.Nonce != "" {
				err = g.missed(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
			}
''','''			err = g.missed(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
''')) if False else same("commit missed branch", (Q,'''			err = ratus.ErrNotFound
			if m.Nonce != "" {
				err = g.missed(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
			}
''','''			if m.Nonce == "" {
				return nil, ratus.ErrNotFound
			}
			return nil, g.missed(ctx, f[:1], indexID)
''')),
same("flags by value helper", (M,'''	g.fallbackPoll.Store(v)
	g.fallbackCommit.Store(v)
	g.fallbackUpsertTasks.Store(v)
	g.fallbackUpsertTask.Store(v)
	g.fallbackInsertPromise.Store(v)
	g.fallbackUpsertPromise.Store(v)
''','''	for _, f := range []*atomic.Int32{g.fallbackPoll, g.fallbackCommit, g.fallbackUpsertTasks, g.fallbackUpsertTask, g.fallbackInsertPromise, g.fallbackUpsertPromise} {
		f.Store(v)
	}
''')),
same("upsert empty in branch", (T,'''	// Bulk writes without any operations are not allowed.
	if len(ts) == 0 {
		return &ratus.Updated{}, nil
	}

	return branch(''','''	n := len(ts)
	if n < 1 {
		return new(ratus.Updated), nil
	}

	return branch(''')),
same("branch closure vars", (Q,'''	return branch(func() (*ratus.Task, error) {
		return g.pollAtomic(ctx, topic, p)
	}, func() (*ratus.Task, error) {
		return g.pollOptimistic(ctx, topic, p)
	}, g.fallbackPoll)''','''	atomicPoll := func() (*ratus.Task, error) { return g.pollAtomic(ctx, topic, p) }
	optimisticPoll := func() (*ratus.Task, error) { return g.pollOptimistic(ctx, topic, p) }
	return branch(atomicPoll, optimisticPoll, g.fallbackPoll)''')),
]
