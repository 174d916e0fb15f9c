From 2c39b7120b36ce9b75768471017b44e1d9081510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:00 +0000
Subject: [PATCH 01/20] fix: do not poll tasks of other topics from MemDB

---
 internal/engine/memdb/queue.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..7c79df6 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,14 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The lower bound does not limit the iterator to the topic, therefore the
+	// candidate could belong to another topic if the topic has been emptied.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
+
+	// Do not consume the task until the scheduled time.
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From 6b42b873e69d165fee75672b736356b6197af637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:00 +0000
Subject: [PATCH 02/20] fix: include timestamps before the Unix epoch in MemDB
 index scans

---
 internal/engine/memdb/queue.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 7c79df6..1ee5bb4 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"context"
+	"math"
 	"time"
 
 	"github.com/hyperonym/ratus"
@@ -14,7 +15,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(math.MinInt64))
 	if err != nil {
 		return err
 	}
@@ -30,7 +31,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(math.MinInt64))
 	if err != nil {
 		return err
 	}
@@ -74,7 +75,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6f78305583f798a257e02cd36a8f4350b5eaf2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:00 +0000
Subject: [PATCH 03/20] fix: reject null elements in task lists instead of
 panicking

---
 internal/middleware/task.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..cc1fc1b 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -77,6 +77,11 @@ func Tasks() gin.HandlerFunc {
 
 func normalizeTask(t *ratus.Task, id, topic string) error {
 
+	// Task lists might contain null elements.
+	if t == nil {
+		return errors.New("task must not be null")
+	}
+
 	// Normalize and validate ID.
 	if t.ID == "" {
 		t.ID = id
-- 
2.43.0


From 22fadc945aed1624a0ba2cc25bc560f5e729742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:00 +0000
Subject: [PATCH 04/20] fix: reject malformed commits instead of applying them
 partially

---
 internal/middleware/commit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..529b095 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,7 +17,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := c.ShouldBindJSON(&m); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
-- 
2.43.0


From 841b1a04fc8f45062a71e6bf5bdce1ed48efcbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:00 +0000
Subject: [PATCH 05/20] fix: reject malformed promises instead of claiming
 tasks with defaults

---
 internal/middleware/promise.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..891f57f 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -3,6 +3,7 @@ package middleware
 import (
 	"errors"
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -17,8 +18,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := c.ShouldBindJSON(&p); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From 2928645f5af46dcb6b87e99864ecbc43468ea6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:53 +0000
Subject: [PATCH 06/20] fix: report failures of replacing the MemDB snapshot
 file

---
 internal/engine/memdb/memdb.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..e75691e 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -236,7 +236,7 @@ func clone[T any](v *T) *T {
 }
 
 // save writes a snapshot of the database to a file.
-func save(db *memdb.MemDB, path string) error {
+func save(db *memdb.MemDB, path string) (err error) {
 
 	// Create a temporary file for writing the snapshot.
 	p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))
@@ -245,14 +245,22 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 
-	// Rename or delete the temporary file before returning.
+	// Rename or delete the temporary file before returning. The previous
+	// snapshot is replaced only if the new one has been completely written.
 	var ok bool
 	defer func() {
-		f.Close()
-		if !ok {
+		e := f.Sync()
+		if x := f.Close(); e == nil {
+			e = x
+		}
+		if ok && e == nil {
+			e = os.Rename(p, path)
+		}
+		if !ok || e != nil {
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
+		}
+		if err == nil {
+			err = e
 		}
 	}()
 
-- 
2.43.0


From 9155e4159de9d23f850d64da2211e93073f16728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:53 +0000
Subject: [PATCH 07/20] fix: convert timestamps to UTC before encoding MemDB
 snapshots

---
 internal/engine/memdb/memdb.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e75691e..133e093 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -235,6 +235,19 @@ func clone[T any](v *T) *T {
 	return &u
 }
 
+// portable returns a copy of the task with all timestamps converted to UTC.
+// Some of the zone offsets accepted by the API could not be encoded by gob.
+func portable(v *ratus.Task) *ratus.Task {
+	u := clone(v)
+	for _, p := range []**time.Time{&u.Produced, &u.Scheduled, &u.Consumed, &u.Deadline} {
+		if *p != nil {
+			t := (*p).UTC()
+			*p = &t
+		}
+	}
+	return u
+}
+
 // save writes a snapshot of the database to a file.
 func save(db *memdb.MemDB, path string) (err error) {
 
@@ -273,7 +286,7 @@ func save(db *memdb.MemDB, path string) (err error) {
 		return err
 	}
 	for r := it.Next(); r != nil; r = it.Next() {
-		if err := enc.Encode(r); err != nil {
+		if err := enc.Encode(portable(r.(*ratus.Task))); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From e865964884cad8c876926618fab6164971f61f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:53 +0000
Subject: [PATCH 08/20] fix: wait for requests in progress before closing the
 engine

---
 cmd/ratus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..165137b 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -166,6 +168,10 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// Serving stops as soon as the shutdown begins, wait for it to complete so
+	// that requests in progress are not interrupted by closing the engine.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From 5f4f69b93940ea8f768712b23d68792645cd0bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:58 +0000
Subject: [PATCH 09/20] fix: report failures of closing the engine on shutdown

---
 cmd/ratus/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 165137b..f79632e 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -73,7 +73,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -83,10 +83,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -104,7 +101,11 @@ func run() error {
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func(ctx context.Context) {
+		if e := g.Close(ctx); err == nil {
+			err = e
+		}
+	}(ctx)
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0


From 392367cb010aabef04f50c94e02c0110968af872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:25 +0000
Subject: [PATCH 10/20] fix: tolerate invalid UTF-8 sequences in metrics labels

---
 internal/controller/promise.go    |  4 ++--
 internal/controller/task.go       | 12 ++++++------
 internal/metrics/metrics.go       | 11 +++++++++++
 internal/middleware/prometheus.go |  2 +-
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 867b680..38695d9 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -152,11 +152,11 @@ func (r *PromiseController) collectMetrics(t *ratus.Task) {
 	// Collect task schedule delay.
 	if t != nil && t.Scheduled != nil && t.Consumed != nil {
 		d := t.Consumed.Sub(*t.Scheduled).Seconds()
-		metrics.DelayGauge.WithLabelValues(t.Topic, t.Producer, t.Consumer).Set(d)
+		metrics.DelayGauge.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...).Set(d)
 	}
 
 	// Collect number of tasks consumed.
 	if t != nil {
-		metrics.ConsumedCounter.WithLabelValues(t.Topic, t.Producer, t.Consumer).Add(1)
+		metrics.ConsumedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer, t.Consumer)...).Add(1)
 	}
 }
diff --git a/internal/controller/task.go b/internal/controller/task.go
index 6cde157..d4f77e5 100644
--- a/internal/controller/task.go
+++ b/internal/controller/task.go
@@ -57,7 +57,7 @@ func (r *TaskController) PostTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(c.Param(middleware.ParamTopic), ts.Data[0].Producer)...).Add(float64(v.Created))
 	}
 }
 
@@ -80,7 +80,7 @@ func (r *TaskController) PutTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(c.Param(middleware.ParamTopic), ts.Data[0].Producer)...).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -135,7 +135,7 @@ func (r *TaskController) PostTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created))
 	}
 }
 
@@ -159,7 +159,7 @@ func (r *TaskController) PutTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Labels(t.Topic, t.Producer)...).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -202,11 +202,11 @@ func (r *TaskController) PatchTask(c *gin.Context) {
 	// Collect task execution time.
 	if v != nil && v.Consumed != nil {
 		d := time.Since(*v.Consumed).Seconds()
-		metrics.ExecutionGauge.WithLabelValues(v.Topic, v.Producer, v.Consumer).Set(d)
+		metrics.ExecutionGauge.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Set(d)
 	}
 
 	// Collect number of tasks committed.
 	if v != nil {
-		metrics.CommittedCounter.WithLabelValues(v.Topic, v.Producer, v.Consumer).Add(1)
+		metrics.CommittedCounter.WithLabelValues(metrics.Labels(v.Topic, v.Producer, v.Consumer)...).Add(1)
 	}
 }
diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 3c589f5..74cdd2f 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -2,6 +2,8 @@
 package metrics
 
 import (
+	"strings"
+
 	"github.com/prometheus/client_golang/prometheus"
 	"github.com/prometheus/client_golang/prometheus/promauto"
 )
@@ -61,3 +63,12 @@ var (
 		Help: "Total number of tasks committed",
 	}, []string{labelTopic, labelProducer, labelConsumer})
 )
+
+// Labels returns label values with invalid UTF-8 sequences replaced, as they
+// come from request URLs and would cause panics in the Prometheus client.
+func Labels(vs ...string) []string {
+	for i, v := range vs {
+		vs[i] = strings.ToValidUTF8(v, "\uFFFD")
+	}
+	return vs
+}
diff --git a/internal/middleware/prometheus.go b/internal/middleware/prometheus.go
index 1d2eb0a..3754b6e 100644
--- a/internal/middleware/prometheus.go
+++ b/internal/middleware/prometheus.go
@@ -16,6 +16,6 @@ func Prometheus() gin.HandlerFunc {
 		c.Next()
 		d := time.Since(t).Seconds()
 		s := strconv.Itoa(c.Writer.Status())
-		metrics.RequestHistogram.WithLabelValues(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s).Observe(d)
+		metrics.RequestHistogram.WithLabelValues(metrics.Labels(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s)...).Observe(d)
 	}
 }
-- 
2.43.0


From 01dcdef01ba0b2e0e12402c2c0aa9114502f8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:25 +0000
Subject: [PATCH 11/20] fix: report failed commits of deleted tasks to the
 subscription handler

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 5ccea86..f26eda5 100644
--- a/client.go
+++ b/client.go
@@ -150,7 +150,10 @@ func (c *Client) Subscribe(ctx context.Context, o *SubscribeOptions, f Subscribe
 					// Automatically commit the updates if no commit has been
 					// made explicitly in the handler function.
 					if err := x.Commit(); err != nil {
-						ec <- err
+						if ctx.Err() == nil {
+							f(nil, err)
+							r.Reset(ed)
+						}
 						break
 					}
 					r.Reset(o.PollInterval)
-- 
2.43.0


From ed95c4899af003d610c7c5a1c2d676ac7673b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:25 +0000
Subject: [PATCH 12/20] fix: do not let client calls with empty names act on
 the collection

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index f26eda5..01647da 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"strings"
 	"time"
 
 	"golang.org/x/sync/errgroup"
@@ -221,6 +222,12 @@ func (c *Client) Poll(ctx context.Context, topic string, p *Promise) (*Context,
 // errors and returned.
 func (c *Client) Request(ctx context.Context, method, endpoint string, body, result any) error {
 
+	// An endpoint ends with a slash only if the name of the resource is empty.
+	// Do not send the request as it would be redirected to the collection.
+	if strings.HasSuffix(endpoint, "/") {
+		return fmt.Errorf("%w: resource name must not be empty", ErrBadRequest)
+	}
+
 	// Encode the request body in JSON.
 	var b io.Reader
 	if body != nil {
-- 
2.43.0


From 08a7cbd131de8d8bbd263c79dff70979dc215d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:59 +0000
Subject: [PATCH 13/20] fix: accept empty task lists in MongoDB bulk operations

---
 internal/engine/mongodb/task.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..032af58 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,12 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes without any operations are not allowed.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +57,12 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes without any operations are not allowed.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From d5351de6865b2badd890255e4e7ba2d304daeb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:00 +0000
Subject: [PATCH 14/20] fix: report failures other than duplicate keys when
 inserting tasks into MongoDB

---
 internal/engine/mongodb/mongodb.go | 15 +++++++++++++++
 internal/engine/mongodb/task.go    |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..0d0ca67 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -270,6 +270,21 @@ func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
 	return err == nil
 }
 
+// isDuplicateKeyOnly returns whether all failures of a bulk write were caused
+// by duplicate keys.
+func isDuplicateKeyOnly(err error) bool {
+	e, ok := err.(mongo.BulkWriteException)
+	if !ok || e.WriteConcernError != nil {
+		return false
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w.WriteError) {
+			return false
+		}
+	}
+	return true
+}
+
 // queryOpsPoll returns a document containing query operators to peek into the
 // topic to find the next available task based on the scheduled time.
 func queryOpsPoll(topic string, t time.Time) bson.D {
diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index 032af58..9574a9a 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -45,7 +45,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !isDuplicateKeyOnly(err) {
 		return nil, err
 	}
 
-- 
2.43.0


From c56954d1e149b49bd3e69361be2d3475a5500386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:00 +0000
Subject: [PATCH 15/20] fix: do not report tasks as not found when MongoDB
 could not be queried

---
 internal/engine/mongodb/mongodb.go | 13 ++++++++++---
 internal/engine/mongodb/promise.go |  6 +-----
 internal/engine/mongodb/queue.go   |  7 +++----
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index 0d0ca67..281e28b 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -264,10 +264,17 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 	return &v, nil
 }
 
-// exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
+// missed returns the reason why an update matched no documents: a conflict if
+// a document that matches the filter criteria exists, or otherwise not found.
+func (g *Engine) missed(ctx context.Context, filter any, hint string) error {
 	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+	switch err {
+	case nil:
+		return ratus.ErrConflict
+	case mongo.ErrNoDocuments:
+		return ratus.ErrNotFound
+	}
+	return err
 }
 
 // isDuplicateKeyOnly returns whether all failures of a bulk write were caused
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..ad225f8 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,11 +100,7 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
-			}
+			err = g.missed(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
 		}
 		return nil, err
 	}
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..7f56f00 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,9 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				err = g.missed(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
 			}
 		}
 		return nil, err
-- 
2.43.0


From bda86b146b1fc079f0e852c1c346fdaf48a4788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 16/20] fix: reject names that could be mistaken for others in
 MemDB indexes

---
 internal/middleware/commit.go | 7 +++++++
 internal/middleware/task.go   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 529b095..21792fd 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -1,8 +1,10 @@
 package middleware
 
 import (
+	"errors"
 	"fmt"
 	"io"
+	"strings"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -37,6 +39,11 @@ func Commit() gin.HandlerFunc {
 
 func normalizeCommit(m *ratus.Commit) error {
 
+	// Validate target topic.
+	if strings.Contains(m.Topic, "\x00") {
+		return errors.New("target topic must not contain null characters")
+	}
+
 	// Normalize and validate state.
 	if m.State == nil {
 		s := ratus.TaskStateCompleted
diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index cc1fc1b..bb59fbc 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"strings"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -101,6 +102,12 @@ func normalizeTask(t *ratus.Task, id, topic string) error {
 		return errors.New("topic must not be empty")
 	}
 
+	// Null characters are used by storage engines to separate names in indexes,
+	// a name containing them might be mistaken for another one.
+	if strings.Contains(t.ID, "\x00") || strings.Contains(t.Topic, "\x00") {
+		return errors.New("task ID and topic must not contain null characters")
+	}
+
 	// Validate task state.
 	if t.State < ratus.TaskStatePending || t.State > ratus.TaskStateArchived {
 		return fmt.Errorf("invalid state %d", t.State)
-- 
2.43.0


From 9dd1f70ff5c13bf84009fa50a28bd986f661167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 17/20] fix: escape plus signs in resource names of client
 requests

---
 client.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/client.go b/client.go
index 01647da..2ccc72b 100644
--- a/client.go
+++ b/client.go
@@ -267,6 +267,13 @@ func (c *Client) Request(ctx context.Context, method, endpoint string, body, res
 	return json.NewDecoder(res.Body).Decode(result)
 }
 
+// escape escapes the string so it can be safely placed inside a path segment.
+// Plus signs must also be escaped, as the server might otherwise unescape them
+// to the space character and refer to another resource.
+func escape(s string) string {
+	return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")
+}
+
 // ListTopics lists all topics.
 func (c *Client) ListTopics(ctx context.Context, limit, offset int) ([]*Topic, error) {
 	var v Topics
@@ -288,7 +295,7 @@ func (c *Client) DeleteTopics(ctx context.Context) (*Deleted, error) {
 // GetTopic gets information about a topic.
 func (c *Client) GetTopic(ctx context.Context, topic string) (*Topic, error) {
 	var v Topic
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s", escape(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -297,7 +304,7 @@ func (c *Client) GetTopic(ctx context.Context, topic string) (*Topic, error) {
 // DeleteTopic deletes a topic and its tasks.
 func (c *Client) DeleteTopic(ctx context.Context, topic string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s", escape(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -306,7 +313,7 @@ func (c *Client) DeleteTopic(ctx context.Context, topic string) (*Deleted, error
 // ListTasks lists all tasks in a topic.
 func (c *Client) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*Task, error) {
 	var v Tasks
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/tasks?limit=%d&offset=%d", url.PathEscape(topic), limit, offset), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/tasks?limit=%d&offset=%d", escape(topic), limit, offset), nil, &v); err != nil {
 		return nil, err
 	}
 	return v.Data, nil
@@ -333,7 +340,7 @@ func (c *Client) UpsertTasks(ctx context.Context, ts []*Task) (*Updated, error)
 // DeleteTasks deletes all tasks in a topic.
 func (c *Client) DeleteTasks(ctx context.Context, topic string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/tasks", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/tasks", escape(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -342,7 +349,7 @@ func (c *Client) DeleteTasks(ctx context.Context, topic string) (*Deleted, error
 // GetTask gets a task by its unique ID.
 func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//tasks/%s", escape(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -351,7 +358,7 @@ func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
 // InsertTask inserts a new task.
 func (c *Client) InsertTask(ctx context.Context, t *Task) (*Updated, error) {
 	var v Updated
-	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(t.ID)), t, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//tasks/%s", escape(t.ID)), t, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -360,7 +367,7 @@ func (c *Client) InsertTask(ctx context.Context, t *Task) (*Updated, error) {
 // UpsertTask inserts or updates a task.
 func (c *Client) UpsertTask(ctx context.Context, t *Task) (*Updated, error) {
 	var v Updated
-	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(t.ID)), t, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//tasks/%s", escape(t.ID)), t, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -369,7 +376,7 @@ func (c *Client) UpsertTask(ctx context.Context, t *Task) (*Updated, error) {
 // DeleteTask deletes a task by its unique ID.
 func (c *Client) DeleteTask(ctx context.Context, id string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//tasks/%s", escape(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -378,7 +385,7 @@ func (c *Client) DeleteTask(ctx context.Context, id string) (*Deleted, error) {
 // PatchTask applies a set of updates to a task and returns the updated task.
 func (c *Client) PatchTask(ctx context.Context, id string, m *Commit) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPatch, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(id)), m, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPatch, fmt.Sprintf("/v1/topics//tasks/%s", escape(id)), m, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -387,7 +394,7 @@ func (c *Client) PatchTask(ctx context.Context, id string, m *Commit) (*Task, er
 // ListPromises lists all promises in a topic.
 func (c *Client) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*Promise, error) {
 	var v Promises
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/promises?limit=%d&offset=%d", url.PathEscape(topic), limit, offset), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/promises?limit=%d&offset=%d", escape(topic), limit, offset), nil, &v); err != nil {
 		return nil, err
 	}
 	return v.Data, nil
@@ -396,7 +403,7 @@ func (c *Client) ListPromises(ctx context.Context, topic string, limit, offset i
 // PostPromises makes a promise to claim and execute the next available task in a topic.
 func (c *Client) PostPromises(ctx context.Context, topic string, p *Promise) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics/%s/promises", url.PathEscape(topic)), p, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics/%s/promises", escape(topic)), p, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -405,7 +412,7 @@ func (c *Client) PostPromises(ctx context.Context, topic string, p *Promise) (*T
 // DeletePromises deletes all promises in a topic.
 func (c *Client) DeletePromises(ctx context.Context, topic string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/promises", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/promises", escape(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -414,7 +421,7 @@ func (c *Client) DeletePromises(ctx context.Context, topic string) (*Deleted, er
 // GetPromise gets a promise by the unique ID of its target task.
 func (c *Client) GetPromise(ctx context.Context, id string) (*Promise, error) {
 	var v Promise
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//promises/%s", escape(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -423,7 +430,7 @@ func (c *Client) GetPromise(ctx context.Context, id string) (*Promise, error) {
 // InsertPromise makes a promise to claim and execute a task if it is in pending state.
 func (c *Client) InsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(p.ID)), p, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//promises/%s", escape(p.ID)), p, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -432,7 +439,7 @@ func (c *Client) InsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 // UpsertPromise makes a promise to claim and execute a task regardless of its current state.
 func (c *Client) UpsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(p.ID)), p, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//promises/%s", escape(p.ID)), p, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -441,7 +448,7 @@ func (c *Client) UpsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 // DeletePromise deletes a promise by the unique ID of its target task.
 func (c *Client) DeletePromise(ctx context.Context, id string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//promises/%s", escape(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
-- 
2.43.0


From a12278532a075861a5073e807aca41b9095f5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 18/20] fix: do not run background jobs twice when an instance
 starts

---
 cmd/ratus/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index f79632e..ea1f2c0 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -196,10 +196,10 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
 
-	// Start ticker for background jobs. The ticker will adjust the time
-	// interval or drop ticks to make up for slow receivers.
+	// Start timer for background jobs. Unlike a ticker, a timer does not queue
+	// ticks that are still delivered after it has been reset.
 	var n bool
-	r := time.NewTicker(d)
+	r := time.NewTimer(d)
 	for {
 		select {
 		case <-ch:
@@ -212,10 +212,10 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 		case <-r.C:
 
 			// Reset the timer to use the normal interval after the initial delay.
+			r.Reset(c.Interval)
 			if !n {
 				log.Println("start running background jobs")
 				n = true
-				r.Reset(c.Interval)
 			}
 
 			// Run background jobs and collect the elapsed time.
-- 
2.43.0


From a18476fb4fddd6c9c3f3d10ae19c3565020e0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 19/20] fix: document conflicts of promises that name a task

---
 docs/openapi.json              | 10 ++++++++++
 docs/openapi.yaml              |  6 ++++++
 docs/swagger.json              |  6 ++++++
 docs/swagger.yaml              |  4 ++++
 internal/controller/promise.go |  1 +
 5 files changed, 27 insertions(+)

diff --git a/docs/openapi.json b/docs/openapi.json
index 19a69f2..a47e4fa 100644
--- a/docs/openapi.json
+++ b/docs/openapi.json
@@ -394,6 +394,16 @@
                             }
                         }
                     },
+                    "409": {
+                        "description": "Conflict",
+                        "content": {
+                            "application/json": {
+                                "schema": {
+                                    "$ref": "#/components/schemas/ratus.Error"
+                                }
+                            }
+                        }
+                    },
                     "500": {
                         "description": "Internal Server Error",
                         "content": {
diff --git a/docs/openapi.yaml b/docs/openapi.yaml
index 7ac0ddf..38ec04d 100644
--- a/docs/openapi.yaml
+++ b/docs/openapi.yaml
@@ -239,6 +239,12 @@ paths:
             application/json:
               schema:
                 $ref: '#/components/schemas/ratus.Error'
+        "409":
+          description: Conflict
+          content:
+            application/json:
+              schema:
+                $ref: '#/components/schemas/ratus.Error'
         "500":
           description: Internal Server Error
           content:
diff --git a/docs/swagger.json b/docs/swagger.json
index 471f1cd..707d89c 100644
--- a/docs/swagger.json
+++ b/docs/swagger.json
@@ -304,6 +304,12 @@
                             "$ref": "#/definitions/ratus.Error"
                         }
                     },
+                    "409": {
+                        "description": "Conflict",
+                        "schema": {
+                            "$ref": "#/definitions/ratus.Error"
+                        }
+                    },
                     "500": {
                         "description": "Internal Server Error",
                         "schema": {
diff --git a/docs/swagger.yaml b/docs/swagger.yaml
index 2f76a54..de5dc6c 100644
--- a/docs/swagger.yaml
+++ b/docs/swagger.yaml
@@ -424,6 +424,10 @@ paths:
           description: Not Found
           schema:
             $ref: '#/definitions/ratus.Error'
+        "409":
+          description: Conflict
+          schema:
+            $ref: '#/definitions/ratus.Error'
         "500":
           description: Internal Server Error
           schema:
diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 38695d9..ac35308 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -48,6 +48,7 @@ func (r *PromiseController) GetPromises(c *gin.Context) {
 // @success  200 {object} ratus.Task
 // @failure  400 {object} ratus.Error
 // @failure  404 {object} ratus.Error
+// @failure  409 {object} ratus.Error
 // @failure  500 {object} ratus.Error
 func (r *PromiseController) PostPromises(c *gin.Context) {
 	p := c.MustGet(middleware.ParamPromise).(*ratus.Promise)
-- 
2.43.0


From 6b2eb1485bc68b347aa84dfdab7f8f87b402fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 20/20] fix: set the bind address of the image through the
 variable that is read

---
 Dockerfile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dockerfile b/Dockerfile
index 8402ef9..7dfe66f 100644
--- a/Dockerfile
+++ b/Dockerfile
@@ -42,7 +42,7 @@ EXPOSE 80
 ENV GIN_MODE="release"
 ENV ENGINE="memdb"
 ENV PORT="80"
-ENV ADDR="0.0.0.0"
+ENV BIND="0.0.0.0"
 ENV CHORE_INTERVAL="10s"
 ENV CHORE_INITIAL_DELAY="10s"
 ENV CHORE_INITIAL_RANDOM="true"
-- 
2.43.0

