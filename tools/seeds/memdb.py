Q, K, T, R, O = [MEM + f for f in ("queue.go", "memdb.go", "task.go", "promise.go", "topic.go")] if "MEM" in globals() else ["internal/engine/memdb/" + f for f in ("queue.go", "memdb.go", "task.go", "promise.go", "topic.go")]
D = "internal/engine/memdb"
def go(body, imports=""):
    return '''package memdb_test

import (
	"context"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var _ = time.Now

func open(t *testing.T, c *memdb.Config) *memdb.Engine {
	g, err := memdb.New(c)
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(context.Background()); err != nil {
		t.Fatal(err)
	}
	return g
}

func at(d time.Duration) *time.Time {
	n := time.Now().Add(d)
	return &n
}

func task(id, topic string) *ratus.Task {
	return &ratus.Task{ID: id, Topic: topic, State: ratus.TaskStatePending, Produced: at(0), Scheduled: at(-time.Second), Payload: "x"}
}

func must[T any](v T, err error) func(t *testing.T) T {
	return func(t *testing.T) T {
		if err != nil {
			t.Helper()
			t.Fatal(err)
		}
		return v
	}
}

''' + body

seed("claim-finished-task", "C01", [(R, "if t.State != ratus.TaskStatePending {", "if t.State == ratus.TaskStateActive {")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	v := task("a", "t")
	v.State = ratus.TaskStateArchived
	must(g.InsertTask(ctx, v))(t)
	if _, err := g.InsertPromise(ctx, &ratus.Promise{ID: "a", Deadline: at(time.Hour)}); err != ratus.ErrConflict {
		t.Fatalf("an archived task was claimed: %v", err)
	}
}
'''), "Claiming a task that was completed or archived by identifier.", "Tasks that are finished can be claimed and executed again.")

seed("poll-early-within-tick", "C02", [(Q, "if t.Scheduled != nil && t.Scheduled.After(n) {", "if t.Scheduled != nil && t.Scheduled.Truncate(10 * time.Millisecond).After(n) {")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	for i := 0; i < 200; i++ {
		time.Sleep(time.Duration(i%7) * time.Millisecond)
		n := time.Now()
		v := task("a", "t")
		s := n.Truncate(10 * time.Millisecond).Add(9900 * time.Microsecond)
		if s.Sub(n) < 5*time.Millisecond {
			continue
		}
		v.Scheduled = &s
		must(g.UpsertTask(ctx, v))(t)
		if u, err := g.Poll(ctx, "t", &ratus.Promise{Deadline: at(time.Hour)}); err == nil && time.Now().Before(s) {
			t.Fatalf("%s granted before %v", u.ID, s)
		}
	}
}
'''), "A poll a few milliseconds before the scheduled time of the task.", "Scheduled times are compared with their last digits cut off, so tasks are handed out up to ten milliseconds early.")

seed("claim-keeps-old-consumer", "C03", [(K, "	u.Consumer = p.Consumer\n", "	if p.Consumer != \"\" {\n		u.Consumer = p.Consumer\n	}\n")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	must(g.InsertTask(ctx, task("a", "t")))(t)
	must(g.Poll(ctx, "t", &ratus.Promise{Consumer: "alice", Deadline: at(time.Hour)}))(t)
	must(g.DeletePromise(ctx, "a"))(t)
	v := must(g.Poll(ctx, "t", &ratus.Promise{Deadline: at(time.Hour)}))(t)
	if v.Consumer != "" {
		t.Fatalf("claimed anonymously, recorded as claimed by %q", v.Consumer)
	}
}
'''), "A task claimed by a named consumer, released, and claimed again by a consumer without a name.", "The consumer of the previous execution stays recorded on the task.")

seed("commit-stale-nonce-after-recovery", "C04", [(Q, 'if m.Nonce != "" && m.Nonce != t.Nonce {', 'if m.Nonce != "" && m.Nonce != t.Nonce && t.State != ratus.TaskStatePending {')], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	must(g.InsertTask(ctx, task("a", "t")))(t)
	v := must(g.Poll(ctx, "t", &ratus.Promise{Deadline: at(-time.Millisecond)}))(t)
	if err := g.Chore(ctx); err != nil {
		t.Fatal(err)
	}
	s := ratus.TaskStateCompleted
	if _, err := g.Commit(ctx, "a", &ratus.Commit{Nonce: v.Nonce, State: &s}); err != ratus.ErrConflict {
		t.Fatalf("stale commit: %v", err)
	}
}
'''), "A consumer whose promise timed out commits after the task was recovered and before it is claimed again.", "Any nonce is accepted by tasks that are pending, so a timed out consumer completes a task that is pending again.")

seed("commit-drops-empty-payload", "C05", [(K, "	if m.Payload != nil {\n		u.Payload", "	if m.Payload != nil && m.Payload != \"\" {\n		u.Payload")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	must(g.InsertTask(ctx, task("a", "t")))(t)
	v := must(g.Commit(ctx, "a", &ratus.Commit{Payload: ""}))(t)
	if v.Payload != "" {
		t.Fatalf("payload not replaced: %v", v.Payload)
	}
}
'''), "A commit whose payload is the empty string.", "The old payload is kept although the commit specifies a new one.")

seed("chore-bounded-batch", "C06", [(Q, '''	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if t.Deadline != nil && t.Deadline.After(n) {
			break
		}
''', '''	var c int
	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if t.Deadline != nil && t.Deadline.After(n) {
			break
		}

		// Limit the size of the transaction to keep the write lock short.
		if c++; c > 1000 {
			break
		}
''')], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	var ts []*ratus.Task
	for i := 0; i < 1500; i++ {
		v := task(strconv.Itoa(i), "t")
		v.State, v.Nonce, v.Deadline = ratus.TaskStateActive, "n", at(-time.Minute)
		ts = append(ts, v)
	}
	must(g.InsertTasks(ctx, ts))(t)
	if err := g.Chore(ctx); err != nil {
		t.Fatal(err)
	}
	if ps := must(g.ListPromises(ctx, "t", 1, 0))(t); len(ps) != 0 {
		t.Fatal("timed out tasks are still active")
	}
}
''', "strconv"), "More than a thousand tasks that timed out since the last run.", "A run recovers at most a thousand tasks.")

seed("retention-waits-for-deadline", "C07", [(Q, """
		// No need to clone the task before passing into delete.
""", """
		// Skip tasks that are still covered by their promise.
		if t.Deadline != nil && t.Deadline.After(n) {
			continue
		}

		// No need to clone the task before passing into delete.
""")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Minute})
	b := task("b", "t")
	b.State, b.Consumed, b.Deadline = ratus.TaskStateCompleted, at(-time.Hour), at(time.Hour)
	must(g.InsertTask(ctx, b))(t)
	if err := g.Chore(ctx); err != nil {
		t.Fatal(err)
	}
	if _, err := g.GetTask(ctx, "b"); err == nil {
		t.Fatal("a task past its retention period was kept")
	}
}
'''), "A task completed long before the deadline of its promise.", "Completed tasks whose retention period has passed are kept until the deadline of the promise they were completed under.")

seed("release-any-state", "C08", [(R, "t.State == ratus.TaskStateActive {\n			if err", "t.State != ratus.TaskStatePending && t.Nonce != \"\" || t.State > ratus.TaskStateCompleted || t.State == ratus.TaskStateActive {\n			if err")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	v := task("a", "t")
	v.State = ratus.TaskStateArchived
	must(g.InsertTask(ctx, v))(t)
	d := must(g.DeletePromise(ctx, "a"))(t)
	if u := must(g.GetTask(ctx, "a"))(t); d.Deleted != 0 || u.State != ratus.TaskStateArchived {
		t.Fatalf("archived task released: %v", u.State)
	}
}
'''), "Deleting the promise of an archived task.", "Archived tasks are put back to pending when their non-existing promise is deleted.")

seed("gettask-shares-record", "C09", [(T, "	return clone(r.(*ratus.Task)), nil", "	return r.(*ratus.Task), nil")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	must(g.InsertTask(ctx, task("a", "t")))(t)
	v := must(g.GetTask(ctx, "a"))(t)
	v.State = ratus.TaskStateCompleted
	if u := must(g.GetTask(ctx, "a"))(t); u.State != ratus.TaskStatePending {
		t.Fatal("the stored task changed outside of any operation")
	}
}
'''), "A caller that modifies the task it was given while others read the store.", "Lookups hand out the record of the store itself instead of a copy.")

seed("insert-batch-duplicates", "C10", [(T, '''	var c int64
	for _, t := range ts {
		r, err := txn.First(tableTask, indexID, t.ID)
		if err != nil {
			return nil, err
		}
		if r != nil {
			continue
		}
		if err := txn.Insert(tableTask, clone(t)); err != nil {
''', '''	var c int64
	vs := make([]*ratus.Task, 0, len(ts))
	for _, t := range ts {
		r, err := txn.First(tableTask, indexID, t.ID)
		if err != nil {
			return nil, err
		}
		if r == nil {
			vs = append(vs, t)
		}
	}
	for _, t := range vs {
		if err := txn.Insert(tableTask, clone(t)); err != nil {
''')], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	a, b := task("a", "t"), task("a", "t")
	b.Payload = "second"
	u := must(g.InsertTasks(ctx, []*ratus.Task{a, b}))(t)
	v := must(g.GetTask(ctx, "a"))(t)
	if u.Created != 1 || v.Payload != "x" {
		t.Fatalf("%d created, payload %v", u.Created, v.Payload)
	}
}
'''), "A batch that contains the same identifier twice.", "The second task of the batch overwrites the first and both are counted as created.")

seed("delete-topic-prefix", "C11", [(O, '''	n, err := txn.DeleteAll(tableTask, indexTopic, topic)''', '''	n, err := txn.DeleteAll(tableTask, indexTopic+"_prefix", topic)''')], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	must(g.InsertTask(ctx, task("a", "mail")))(t)
	must(g.InsertTask(ctx, task("b", "mailing")))(t)
	must(g.DeleteTopic(ctx, "mail"))(t)
	must(g.GetTask(ctx, "b"))(t)
}
'''), "Two topics of which one name is a prefix of the other.", "Deleting a topic also deletes every topic whose name starts with its name.")

seed("snapshot-replaced-on-error", "C12", [(K, '''	// Create a snapshot of the database and encode all records.
''', '''	// Create a snapshot of the database and encode all records.
	ok = true
'''), (K, '''	txn.Commit()

	// Mark the operation as successful.
	ok = true

	return nil
''', '''	txn.Commit()

	return nil
''')], D, go('''type odd struct{ V int }

func TestDemo(t *testing.T) {
	ctx := context.Background()
	c := &memdb.Config{RetentionPeriod: time.Hour, SnapshotPath: filepath.Join(t.TempDir(), "s")}
	g := open(t, c)
	must(g.InsertTask(ctx, task("b", "t")))(t)
	if err := g.Close(ctx); err != nil {
		t.Fatal(err)
	}
	g = open(t, c)
	v := task("a", "t")
	v.Payload = odd{1}
	must(g.InsertTask(ctx, v))(t)
	if err := g.Close(ctx); err == nil {
		t.Fatal("no error")
	}
	g = open(t, c)
	must(g.GetTask(ctx, "b"))(t)
}
''', "path/filepath"), "A record that cannot be encoded, or a write that fails, while the snapshot is written.", "The previous snapshot is replaced by the part written before the failure.")

seed("load-truncated-snapshot", "C13", [(K, "if errors.Is(err, io.EOF) {", "if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {")], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	c := &memdb.Config{RetentionPeriod: time.Hour, SnapshotPath: filepath.Join(t.TempDir(), "s")}
	g := open(t, c)
	for i := 0; i < 10; i++ {
		must(g.InsertTask(ctx, task(strconv.Itoa(i), "t")))(t)
	}
	if err := g.Close(ctx); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(c.SnapshotPath)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(c.SnapshotPath, b[:len(b)-20], 0o600); err != nil {
		t.Fatal(err)
	}
	g, err = memdb.New(c)
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Open(ctx); err == nil {
		t.Fatal("a truncated snapshot was opened as if it were complete")
	}
}
''', "os path/filepath strconv"), "A snapshot file that lost its end.", "Opening succeeds with the last task missing.")

seed("list-topics-ignores-case", "C14", [(O, "t.Topic != p {", "!strings.EqualFold(t.Topic, p) {"), (O, '	"context"\n', '	"context"\n	"strings"\n')], D, go('''func TestDemo(t *testing.T) {
	ctx := context.Background()
	g := open(t, &memdb.Config{RetentionPeriod: time.Hour})
	must(g.InsertTask(ctx, task("a", "X")))(t)
	must(g.InsertTask(ctx, task("b", "x")))(t)
	if v := must(g.ListTopics(ctx, 10, 0))(t); len(v) != 2 {
		t.Fatalf("%d topics listed", len(v))
	}
}
'''), "Two topics that follow each other and differ only in case.", "One of the topics is missing from the listing.")
