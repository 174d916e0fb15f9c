# Records collected in a list first and processed afterwards.
import os
R=os.environ.get("REPO","/repo")
ALL=["all"]
def same(n,*e): return (n,"same",ALL,list(e))
def bug(n,p,*e): return (n,"bug",p,list(e))
Q="internal/engine/memdb/queue.go"; P="internal/engine/memdb/promise.go"; M="internal/engine/memdb/memdb.go"
T="internal/engine/memdb/task.go"
REC='''	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if t.Deadline != nil && t.Deadline.After(n) {
			break
		}
		u := updateOpsRecover(t)
		if err := txn.Insert(tableTask, u); err != nil {
			return err
		}
	}
'''
RET='''	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if t.Consumed != nil && t.Consumed.Add(g.config.RetentionPeriod).After(n) {
			break
		}

		// No need to clone the task before passing into delete.
		if err := txn.Delete(tableTask, t); err != nil {
			return err
		}
	}
'''
def rec(add="ts = append(ts, t)", cond="t.Deadline != nil && t.Deadline.After(n)", decl="var ts []*ratus.Task", rng="_, t := range ts", body="txn.Insert(tableTask, updateOpsRecover(t))"):
    return (Q,REC,f'''	{decl}
	for r := it.Next(); r != nil; r = it.Next() {{
		t := r.(*ratus.Task)
		if {cond} {{
			break
		}}
		{add}
	}}
	for {rng} {{
		if err := {body}; err != nil {{
			return err
		}}
	}}
''')
def ret(cond="t.Consumed != nil && t.Consumed.Add(g.config.RetentionPeriod).After(n)", rng="_, t := range ds", body="txn.Delete(tableTask, t)", add="ds = append(ds, t)"):
    return (Q,RET,f'''	var ds []*ratus.Task
	for r := it.Next(); r != nil; r = it.Next() {{
		t := r.(*ratus.Task)
		if {cond} {{
			break
		}}
		{add}
	}}
	for {rng} {{
		if err := {body}; err != nil {{
			return err
		}}
	}}
''')
MUT=[
same("recover collected", rec()),
same("recover updates collected", rec(add="ts = append(ts, updateOpsRecover(t))",body="txn.Insert(tableTask, t)")),
same("recover collected indexed", rec(rng="i := 0; i < len(ts); i++",body="txn.Insert(tableTask, updateOpsRecover(ts[i]))")),
same("recover collected with capacity", rec(decl="ts := make([]*ratus.Task, 0, 16)")),
same("recover collected untyped", rec(decl="var ts []any", add="ts = append(ts, r)", body="txn.Insert(tableTask, updateOpsRecover(t.(*ratus.Task)))")),
same("retention collected", ret()),
same("both collected", rec(), ret()),
same("recover by helper", (Q,REC,'''	ts, err := due(it, n)
	if err != nil {
		return err
	}
	for _, t := range ts {
		if err := txn.Insert(tableTask, updateOpsRecover(t)); err != nil {
			return err
		}
	}
'''),(Q,"// Poll makes",'''// due lists the active tasks that have timed out.
func due(it memdb.ResultIterator, now time.Time) ([]*ratus.Task, error) {
	var ts []*ratus.Task
	for r := it.Next(); r != nil; r = it.Next() {
		t, ok := r.(*ratus.Task)
		if !ok {
			return nil, ratus.ErrInternalServerError
		}
		if t.Deadline != nil && t.Deadline.After(now) {
			break
		}
		ts = append(ts, t)
	}
	return ts, nil
}

// Poll makes'''),(Q,'	"github.com/hyperonym/ratus"\n)','	"github.com/hashicorp/go-memdb"\n\n	"github.com/hyperonym/ratus"\n)')),
bug("recover collected but the first",["C06"], rec(rng="_, t := range ts[min(1, len(ts)):]")),
bug("recover collected but the last",["C06"], rec(rng="i := 0; i+1 < len(ts) || i == 0 && len(ts) == 1; i++",body="txn.Insert(tableTask, updateOpsRecover(ts[i]))")),
bug("recover collected in batches",["C06"], rec(rng="_, t := range ts[:min(len(ts), 1000)]")),
bug("recover collects all",["C06"], rec(cond="t.Deadline == nil")),
bug("recover collected later deadline",["C06"], rec(cond="t.Deadline != nil && t.Deadline.After(n.Add(time.Second))")),
bug("recover collected conditionally",["C06"], rec(add="if t.Consumer != \"\" {\n\t\t\tts = append(ts, t)\n\t\t}")),
bug("recover collected skips in second loop",["C06"], rec(body="func() error {\n\t\t\tif t.Producer == \"x\" {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\treturn txn.Insert(tableTask, updateOpsRecover(t))\n\t\t}()")),
bug("recover collected only first",["C06"], rec(body="txn.Insert(tableTask, updateOpsRecover(ts[0]))", rng="range ts")),
bug("recover collected limited",["C06"], rec(cond="t.Deadline != nil && t.Deadline.After(n) || len(ts) == 1000")),
bug("retention collected all",["C07"], ret(cond="t.Consumed == nil")),
bug("retention collected early",["C07"], ret(cond="t.Consumed != nil && t.Consumed.Add(g.config.RetentionPeriod/2).After(n)")),
bug("retention collected deletes recovered",["C07"], rec(), ret(rng="_, t := range ts")),
bug("retention collected resliced",["C07"], ret(rng="_, t := range ds[:len(ds)/2]")),
bug("retention collected reset",["C07"], ret(add="ds = append(ds[:0], t)")),
bug("list tasks hands out records",["C09"], (T,"v = append(v, clone(r.(*ratus.Task)))","v = append(v, r.(*ratus.Task))")),
]
