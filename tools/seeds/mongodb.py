MG = "internal/engine/mongodb/"
D = "internal/engine/mongodb"
FAKE = open(os.path.join(here, "seeds", "mongofake.go.txt")).read()
EX = [("fake_test.go", FAKE)]
def go(body, imports=""):
    return '''package mongodb_test

import (
	"context"
	"errors"
	"testing"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var (
	_ = time.Now
	_ = errors.Is
	_ bson.M
	_ ratus.Task
	ctx = context.Background()
)

func TestDemo(t *testing.T) {
	f := newFake(t)
''' + body + '''
}
'''
seed("mongo-unclaimed-insert", "C01", [(MG+"promise.go", '''		{Key: keyID, Value: p.ID},
		{Key: keyState, Value: ratus.TaskStatePending},
	}
	u := updateOpsConsume(p, t)''', '''		{Key: keyID, Value: p.ID},
		{Key: keyState, Value: bson.D{{Key: "$ne", Value: ratus.TaskStateActive}}},
	}
	u := updateOpsConsume(p, t)''')], D, go('''
	g := f.open(t, &mongodb.Config{})
	x := task("a", "t")
	x.State = ratus.TaskStateArchived
	if _, err := g.InsertTask(ctx, x); err != nil {
		t.Fatal(err)
	}
	if _, err := g.InsertPromise(ctx, &ratus.Promise{ID: "a", Deadline: at(time.Minute)}); !errors.Is(err, ratus.ErrConflict) {
		t.Fatal("an archived task was claimed", err)
	}'''), "a promise for a task that is completed or archived, on MongoDB", "finished tasks are executed again", EX)
seed("mongo-optimistic-any", "C01", [(MG+"queue.go", '''	f = append(f, bson.E{Key: keyID, Value: c.ID})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsConsume(p, t)''', '''	f = bson.D{{Key: keyID, Value: c.ID}, {Key: keyTopic, Value: c.Topic}}
	if c.Nonce != "" {
		f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	}
	u := updateOpsConsume(p, t)''')], D, go('''
	g := f.open(t, &mongodb.Config{DisableAtomicPoll: true})
	if _, err := g.InsertTask(ctx, task("a", "t")); err != nil {
		t.Fatal(err)
	}
	// Another consumer obtains the task between the two steps.
	f.before = func(cmd string, d bson.M) {
		if cmd == "findAndModify" {
			f.before = nil
			f.set("a", bson.M{"state": int32(1), "nonce": "other"})
		}
	}
	if v, err := g.Poll(ctx, "t", &ratus.Promise{Deadline: at(time.Minute)}); err == nil {
		t.Fatal("the task was claimed twice", v)
	}'''), "another consumer claims the task between the two steps of optimistic polling", "two consumers execute the same task", EX)
seed("mongo-commit-reuse", "C04", [(MG+"queue.go", '''	f = append(f, bson.E{Key: keyState, Value: c.State})
	f = append(f, bson.E{Key: keyNonce, Value: c.Nonce})
	u := updateOpsCommit(m)''', '''	f = append(f, bson.E{Key: keyState, Value: c.State})
	u := updateOpsCommit(m)''')], D, go('''
	g := f.open(t, &mongodb.Config{})
	g.Fallback(1)
	x := task("a", "t")
	x.State, x.Nonce = ratus.TaskStateActive, "mine"
	if _, err := g.InsertTask(ctx, x); err != nil {
		t.Fatal(err)
	}
	// The promise times out and the task is claimed by another consumer meanwhile.
	f.before = func(cmd string, d bson.M) {
		if cmd == "findAndModify" {
			f.before = nil
			f.set("a", bson.M{"nonce": "other"})
		}
	}
	s := ratus.TaskStateCompleted
	if _, err := g.Commit(ctx, "a", &ratus.Commit{Nonce: "mine", State: &s}); !errors.Is(err, ratus.ErrConflict) {
		t.Fatal("an outdated commit was applied", err)
	}'''), "the task changes hands between the two steps of an optimistic commit", "outdated commits are applied", EX)
seed("mongo-poll-latest", "C02", [(MG+"queue.go", '''	s := bson.D{{Key: keyScheduled, Value: 1}}
	c, err := g.peek(ctx, f, s, indexPendingTopicScheduled)''', '''	c, err := g.peek(ctx, f, nil, indexPendingTopicScheduled)''')], D, go('''
	g := f.open(t, &mongodb.Config{DisableAtomicPoll: true})
	for i, id := range []string{"a", "b", "c"} {
		x := task(id, "t")
		x.Scheduled = at(-time.Duration(i+1) * time.Minute)
		if _, err := g.InsertTask(ctx, x); err != nil {
			t.Fatal(err)
		}
	}
	v, err := g.Poll(ctx, "t", &ratus.Promise{Deadline: at(time.Minute)})
	if err != nil || v.ID != "c" {
		t.Fatal("not the earliest task", v, err)
	}'''), "optimistic polling with several due tasks inserted out of order", "tasks are not executed in the order of their schedule", EX)
seed("mongo-recover-consumer", "C06", [(MG+"queue.go", '''			{Key: "$lt", Value: time.Now()},
		}},
	}
''', '''			{Key: "$lt", Value: time.Now()},
		}},
	}
	if g.config.DisableAutoFallback {
		f = append(f, bson.E{Key: keyNonce, Value: bson.D{{Key: "$ne", Value: ""}}}, bson.E{Key: keyConsumer, Value: bson.D{{Key: "$ne", Value: ""}}})
	}
''')], D, go('''
	g := f.open(t, &mongodb.Config{DisableAutoFallback: true})
	x := task("a", "t")
	x.State, x.Deadline = ratus.TaskStateActive, at(-time.Minute)
	if _, err := g.InsertTask(ctx, x); err != nil {
		t.Fatal(err)
	}
	if err := g.Chore(ctx); err != nil {
		t.Fatal(err)
	}
	if s := f.get("a")["state"]; s != int32(0) {
		t.Fatal("a task that timed out was not recovered", s)
	}'''), "fallbacks disabled and a task that became active without a nonce", "such tasks stay active for ever", EX)
seed("mongo-replace-moved", "C10", [(MG+"task.go", '''		m := mongo.NewDeleteOneModel()
		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}})''', '''		m := mongo.NewDeleteOneModel()
		m = m.SetFilter(bson.D{{Key: keyID, Value: t.ID}, {Key: keyTopic, Value: t.Topic}})''')], D, go('''
	g := f.open(t, &mongodb.Config{})
	g.Fallback(1)
	if _, err := g.InsertTask(ctx, task("a", "old")); err != nil {
		t.Fatal(err)
	}
	u, err := g.UpsertTask(ctx, task("a", "new"))
	if err != nil || u.Updated != 1 || f.get("a")["topic"] != "new" {
		t.Fatal("the task was not replaced", u, err, f.get("a"))
	}'''), "upserting a task that moves to another topic on a sharded collection", "the upsert is reported but not stored", EX)
seed("mongo-fallback-forgotten", "C15", [(MG+"mongodb.go", '''	v, err := preferred()
	if err == nil || flag.Load() < 0 {
		return v, err
	}
''', '''	v, err := preferred()
	if err == nil || flag.Load() != 0 {
		return v, err
	}
''')], D, go('''
	g := f.open(t, &mongodb.Config{})
	for _, id := range []string{"a", "b"} {
		if _, err := g.InsertTask(ctx, task(id, "t")); err != nil {
			t.Fatal(err)
		}
	}
	// Two first polls run at the same time and are both rejected: the second one
	// sees that the first has already asked for the fallback.
	nested := false
	f.fail = func(cmd string, d bson.M) bson.M {
		if q, _ := d["query"].(bson.M); cmd != "findAndModify" || q["_id"] != nil {
			return nil
		}
		if !nested {
			nested = true
			f.mu.Unlock()
			_, err := g.Poll(ctx, "t", &ratus.Promise{Deadline: at(time.Minute)})
			f.mu.Lock()
			if err != nil {
				t.Error(err)
			}
		}
		return sharded()
	}
	if _, err := g.Poll(ctx, "t", &ratus.Promise{Deadline: at(time.Minute)}); err != nil {
		t.Fatal("the fallback was not taken:", err)
	}'''), "two operations are rejected by a sharded deployment at the same time", "one of them fails instead of falling back", EX)
seed("mongo-hint-missing", "C16", [(MG+"promise.go", 'o := options.Update().SetUpsert(false).SetHint(indexActiveTopic)', 'o := options.Update().SetUpsert(false).SetHint(indexActiveDeadline)'),
  (MG+"mongodb.go", '''Options: options.Index().SetName(indexActiveDeadline).SetPartialFilterExpression(filterStateActive),''', '''Options: options.Index().SetPartialFilterExpression(append(bson.D{{Key: keyDeadline, Value: bson.D{{Key: "$gte", Value: time.Unix(0, 0)}}}}, filterStateActive...)),''')], D, go('''
	g := f.open(t, &mongodb.Config{})
	x := task("a", "t")
	x.State = ratus.TaskStateActive
	if _, err := g.InsertTask(ctx, x); err != nil {
		t.Fatal(err)
	}
	if d, err := g.DeletePromises(ctx, "t"); err != nil || d.Deleted != 1 {
		t.Fatal("the promise was not deleted", d, err)
	}'''), "an active task without a deadline", "its promise cannot be deleted by topic: the index used does not contain it", EX)
