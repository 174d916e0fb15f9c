# Bugs around the edges: opening the engine, indexes, routing, health.
ALL=["all"]
def bug(n,*e): return (n,"bug",ALL,list(e))
def same(n,*e): return (n,"same",ALL,list(e))
GM="internal/engine/mongodb/mongodb.go"; RT="internal/router/router.go"; CH="internal/controller/health.go"
MUT=[
 bug("no registry",(GM,".ApplyURI(c.URI).SetRegistry(r))",".ApplyURI(c.URI))"),(GM,"	r := bson.NewRegistryBuilder()","	_ = bson.NewRegistryBuilder()")),
 bug("registry D",(GM,"reflect.TypeOf(bson.M{})","reflect.TypeOf(bson.D{})")),
 bug("flags order",(GM,"""	// Disable transparent fallbacks if required.
	if c.DisableAutoFallback {
		g.Fallback(-1)
	}

	// Disable atomic polling if required.
	if c.DisableAtomicPoll {
		g.fallbackPoll.Store(1)
	}
""","""	// Disable atomic polling if required.
	if c.DisableAtomicPoll {
		g.fallbackPoll.Store(1)
	}

	// Disable transparent fallbacks if required.
	if c.DisableAutoFallback {
		g.Fallback(-1)
	}
""")),
 bug("flag forgotten",(GM,"	g.fallbackUpsertPromise.Store(v)\n","")),
 bug("flag shared",(GM,"fallbackUpsertPromise: &atomic.Int32{},\n	}","}\n	g.fallbackUpsertPromise = g.fallbackPoll")),
 bug("error code gone",(GM,"	31025, // Shard key","	31026, // Shard key")),
 bug("error code gone 2",(GM,"	61,    // Query","	62,    // Query")),
 bug("ttl minutes",(GM,"RetentionPeriod.Seconds()","RetentionPeriod.Minutes()")),
 bug("ttl without filter",(GM,".SetName(indexCompletedConsumed).SetPartialFilterExpression(filterStateCompleted)",".SetName(indexCompletedConsumed)")),
 bug("ttl wrong filter",(GM,".SetName(indexCompletedConsumed).SetPartialFilterExpression(filterStateCompleted)",".SetName(indexCompletedConsumed).SetPartialFilterExpression(filterStateActive)")),
 bug("ttl wrong key",(GM,"k := bson.D{{Key: keyConsumed, Value: 1}}","k := bson.D{{Key: keyScheduled, Value: 1}}")),
 bug("ttl no expiry",(GM,".SetExpireAfterSeconds(s)","")),
 bug("hint name",(GM,'= "topic_1_scheduled_1"','= "topic_1_scheduled_2"'),(GM,"SetName(indexPendingTopicScheduled)",'SetName("topic_1_scheduled_1")')),
 bug("index of wrong state",(GM,"SetName(indexActiveDeadline).SetPartialFilterExpression(filterStateActive)","SetName(indexActiveDeadline).SetPartialFilterExpression(filterStatePending)")),
 bug("conflict ignored",(GM,"""		if c, ok := err.(mongo.CommandError); !ok || c.Name != "IndexOptionsConflict" {
			return err
		}""","""		if c, ok := err.(mongo.CommandError); ok && c.Name != "IndexOptionsConflict" {
			return err
		}""")),
 bug("index error lost",(GM,"		return err\n	})\n\n	// Create TTL","		_ = err\n		return nil\n	})\n\n	// Create TTL")),
 bug("collmod error lost",(GM,"}).Err(); err != nil && err != mongo.ErrNoDocuments {","}).Err(); err != nil && err == mongo.ErrNoDocuments {")),
 bug("index disabled inverted",(GM,"if !g.config.DisableIndexCreation","if g.config.DisableIndexCreation")),
 bug("wait dropped",(GM,"	return e.Wait()\n}","	go e.Wait()\n	return nil\n}")),
 bug("destroy keeps connection",(GM,"	return g.Close(ctx)\n}","	return nil\n}")),
 bug("ready ignores",(GM,"		return ratus.ErrServiceUnavailable\n","		if ctx.Err() == nil {\n			return ratus.ErrServiceUnavailable\n		}\n")),
 bug("ready raw error",(GM,"		return ratus.ErrServiceUnavailable\n","		return err\n")),
 bug("duplicates write concern",(GM,"if !ok || e.WriteConcernError != nil {","if !ok {")),
 bug("duplicates any",(GM,"		if !mongo.IsDuplicateKeyError(w.WriteError) {\n			return false\n		}\n	}\n	return true","		if mongo.IsDuplicateKeyError(w.WriteError) {\n			return true\n		}\n	}\n	return false")),
 bug("peek no state",(GM,"		{Key: keyState, Value: 1},\n		{Key: keyNonce, Value: 1},\n	}\n	o :=","		{Key: keyNonce, Value: 1},\n	}\n	o :=")),
 bug("peek no sort",(GM,".SetSort(sort).SetProjection(j)",".SetProjection(j)")),
 bug("peek partial",(GM,"queryOpsPoll returns","queryOpsPoll returns") ) if 0 else bug("poll lt active",(GM,'{Key: "$lte", Value: t}','{Key: "$gte", Value: t}')),
 bug("missed swapped",(GM,"		return ratus.ErrConflict\n	case mongo.ErrNoDocuments:\n		return ratus.ErrNotFound","		return ratus.ErrNotFound\n	case mongo.ErrNoDocuments:\n		return ratus.ErrConflict")),
 bug("raw path off",(RT,"	r.UseRawPath = true\n","")),
 bug("no unescape",(RT,"UnescapePathValues = true","UnescapePathValues = false")),
 bug("cors late",(RT,"""	// Enable CORS for all origins.
	r.Use(cors.Default())
""",""),(RT,"	// Handle 404","	r.Use(cors.Default())\n\n	// Handle 404")),
 bug("noroute ok",(RT,"AbortWithStatusJSON(http.StatusNotFound","AbortWithStatusJSON(http.StatusOK")),
 bug("noroute plain",(RT,"c.AbortWithStatusJSON(http.StatusNotFound, e)","c.String(http.StatusNotFound, e.Error.Message)")),
 bug("first prefix only",(RT,"			g.Mount(r.Group(p))\n","			g.Mount(r.Group(p))\n			break\n")),
 bug("liveness by engine",(CH,"func (r *HealthController) GetLiveness(c *gin.Context) {\n","func (r *HealthController) GetLiveness(c *gin.Context) {\n	if err := r.Engine.Ready(c.Request.Context()); err != nil {\n		send(c, nil, err)\n		return\n	}\n")),
 bug("ready no return",(CH,"		send(c, nil, err)\n		return\n","		send(c, nil, err)\n")),
 bug("pprof always",(RT,"	if gin.Mode() != gin.ReleaseMode {","	if gin.Mode() != gin.TestMode {")),
]
