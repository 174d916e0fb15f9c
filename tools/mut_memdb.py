Q="internal/engine/memdb/queue.go"; M="internal/engine/memdb/memdb.go"; T="internal/engine/memdb/task.go"; P="internal/engine/memdb/promise.go"; O="internal/engine/memdb/topic.go"; I="internal/engine/memdb/indexer.go"
A=["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14"]
def bug(n,*e): return (n,"bug",A,list(e))
def same(n,*e): return (n,"same",A,list(e))
MUT=[
bug("poll read txn then write", (Q,'''	u := updateOpsConsume(t, p, n)
	if err := txn.Insert(tableTask, u); err != nil {
		return nil, err
	}

	txn.Commit()
	return clone(u), nil
}

// Commit applies''','''	txn.Abort()
	txn = g.database.Txn(true)
	defer txn.Abort()
	u := updateOpsConsume(t, p, n)
	if err := txn.Insert(tableTask, u); err != nil {
		return nil, err
	}

	txn.Commit()
	return clone(u), nil
}

// Commit applies''')),
bug("poll wrong topic", (Q,'	if t.Topic != topic {\n		return nil, ratus.ErrNotFound\n	}\n','')),
bug("poll strings prefix", (Q,'t.Topic != topic {','!strings.HasPrefix(t.Topic, topic) {'),(Q,'	"math"\n','	"math"\n	"strings"\n')),
bug("poll schedule inverted", (Q,'t.Scheduled.After(n)','t.Scheduled.Before(n)')),
bug("poll schedule dropped", (Q,'if t.Scheduled != nil && t.Scheduled.After(n) {\n		return nil, ratus.ErrNotFound\n	}','')),
bug("poll schedule lowerbound zero", (Q,'ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64)','ratus.TaskStatePending, topic, time.Unix(0, 0)')),
bug("poll reverse", (Q,'txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64))','txn.GetReverse(tableTask, indexTopic, topic)')),
bug("poll index get topic", (Q,'txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(math.MinInt64))','txn.Get(tableTask, indexTopic, topic)')),
bug("poll no commit", (Q,'	txn.Commit()\n	return clone(u), nil\n}\n\n// Commit applies','	return clone(u), nil\n}\n\n// Commit applies')),
bug("poll returns stored", (Q,'	return clone(u), nil\n}\n\n// Commit applies','	return u, nil\n}\n\n// Commit applies')),
bug("consume keeps deadline", (M,'	u.Deadline = p.Deadline\n','	if u.Deadline == nil {\n		u.Deadline = p.Deadline\n	}\n')),
bug("consume nonce only if empty", (M,'	u.Nonce = nonce.Generate(ratus.NonceLength)\n','	if u.Nonce == "" {\n		u.Nonce = nonce.Generate(ratus.NonceLength)\n	}\n')),
bug("consume in place", (M,'''func updateOpsConsume(v *ratus.Task, p *ratus.Promise, t time.Time) *ratus.Task {
	u := clone(v)''','''func updateOpsConsume(v *ratus.Task, p *ratus.Promise, t time.Time) *ratus.Task {
	u := v''')),
bug("recover no nonce", (M,'	u.State = ratus.TaskStatePending\n	u.Nonce = ""\n','	u.State = ratus.TaskStatePending\n')),
bug("recover clears consumer", (M,'	u.State = ratus.TaskStatePending\n	u.Nonce = ""\n','	u.State = ratus.TaskStatePending\n	u.Nonce = ""\n	u.Deadline = nil\n')),
bug("recover in place", (M,'''func updateOpsRecover(v *ratus.Task) *ratus.Task {
	u := clone(v)''','''func updateOpsRecover(v *ratus.Task) *ratus.Task {
	u := v''')),
bug("commit nonce guard off", (Q,'m.Nonce != "" && m.Nonce != t.Nonce','m.Nonce != "" && t.Nonce != "" && m.Nonce != t.Nonce')),
bug("commit keeps nonce", (M,'	u := clone(v)\n	u.Nonce = ""\n	if m.Topic','	u := clone(v)\n	if m.Nonce == "" {\n		u.Nonce = ""\n	}\n	if m.Topic')),
bug("commit state default", (M,'	if m.State != nil {\n		u.State = *m.State\n	}','	if m.State != nil && *m.State != ratus.TaskStatePending {\n		u.State = *m.State\n	}')),
bug("commit payload nil", (M,'	if m.Payload != nil {\n		u.Payload = m.Payload\n	}','	u.Payload = m.Payload')),
bug("commit defer", (M,'	if m.Scheduled != nil {\n		u.Scheduled = m.Scheduled\n	}\n','	if m.Scheduled != nil && u.State == ratus.TaskStatePending {\n		u.Scheduled = m.Scheduled\n	}\n')),
bug("chore recover deadline before", (Q,'t.Deadline != nil && t.Deadline.After(n)','t.Deadline != nil && t.Deadline.Add(time.Second).After(n)')),
bug("chore break continue swap", (Q,'if t.Deadline != nil && t.Deadline.After(n) {\n			break','if t.Deadline == nil || t.Deadline.Before(n) {\n			break')),
bug("chore recover first 1000", (Q,'	for r := it.Next(); r != nil; r = it.Next() {\n		t := r.(*ratus.Task)\n		if t.Deadline','	k := 0\n	for r := it.Next(); r != nil && k < 1000; r = it.Next() {\n		k++\n		t := r.(*ratus.Task)\n		if t.Deadline')),
bug("chore retention sub", (Q,'t.Consumed.Add(g.config.RetentionPeriod).After(n)','t.Consumed.After(n)')),
bug("chore retention zero early", (Q,'	// Delete completed tasks','	if g.config.RetentionPeriod == 0 {\n		txn.Commit()\n		return nil\n	}\n	// Delete completed tasks')),
bug("chore delete from active", (Q,'txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted','txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive')),
bug("chore early return when nothing recovered", (Q,'	// Delete completed tasks','	if it.Next() == nil {\n		return nil\n	}\n	// Delete completed tasks')),
bug("chore ignores insert error", (Q,'''		if err := txn.Insert(tableTask, u); err != nil {
			return err
		}''','''		if err := txn.Insert(tableTask, u); err != nil {
			continue
		}''')),
bug("index filter wrong", (M,'&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateCompleted}','&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateArchived}')),
bug("index pending scheduled swapped", (M,'''								&memdb.StringFieldIndex{Field: keyTopic},
								&TimeFieldIndex{Field: keyScheduled},''','''								&memdb.StringFieldIndex{Field: keyTopic},
								&TimeFieldIndex{Field: keyProduced},'''),(M,'keyScheduled','"Scheduled"; keyProduced = "Produced"; keyScheduled2') if False else (M,'	"github.com/hyperonym/ratus"\n','	"github.com/hyperonym/ratus"\n\n') if False else (M,'''&TimeFieldIndex{Field: keyProduced},''','''&TimeFieldIndex{Field: "Produced"},''')),
bug("index lowercase topic", (M,'''						Unique:       false,
						Indexer:      &memdb.StringFieldIndex{Field: keyTopic},''','''						Unique:       false,
						Indexer:      &memdb.StringFieldIndex{Field: keyTopic, Lowercase: true},''')),
bug("indexer seconds", (I,'i.encodeInt64(t.UnixMilli()), nil\n}\n\n// FromArgs','i.encodeInt64(t.Unix()), nil\n}\n\n// FromArgs')),
bug("indexer no bias", (I,'	v = v ^ int64(-1<<63)\n','')),
bug("indexer little endian", (I,'binary.BigEndian','binary.LittleEndian')),
bug("indexer state inverted", (I,'	if s != i.Filter {\n		return false, nil, nil','	if s < i.Filter {\n		return false, nil, nil')),
bug("insertpromise active ok", (P,'t.State != ratus.TaskStatePending','t.State != ratus.TaskStatePending && t.State != ratus.TaskStateActive')),
bug("insertpromise expired ok", (P,'if t.State != ratus.TaskStatePending {','if t.State != ratus.TaskStatePending && (t.Deadline == nil || t.Deadline.After(time.Now())) {')),
bug("deletepromise any state", (P,'t.State == ratus.TaskStateActive','t.State != ratus.TaskStatePending')),
bug("deletepromises index topic", (P,'''	it, err := txn.Get(tableTask, indexActiveTopic, ratus.TaskStateActive, topic)
	if err != nil {
		return nil, err
	}
	for r''','''	it, err := txn.Get(tableTask, indexTopic, topic)
	if err != nil {
		return nil, err
	}
	for r''')),
bug("deletepromises prefix", (P,'''	it, err := txn.Get(tableTask, indexActiveTopic, ratus.TaskStateActive, topic)
	if err != nil {
		return nil, err
	}
	for r''','''	it, err := txn.Get(tableTask, indexActiveTopic+"_prefix", ratus.TaskStateActive, topic)
	if err != nil {
		return nil, err
	}
	for r''')),
bug("deletepromises count", (P,'		d++\n	}\n\n	txn.Commit()','	}\n	d++\n\n	txn.Commit()')),
bug("getpromise any state", (P,'t.State != ratus.TaskStateActive','t.State == ratus.TaskStatePending')),
bug("getpromise consumer", (P,'''	txn.Commit()
	return &ratus.Promise{
		ID:       t.ID,
		Consumer: t.Consumer,
		Deadline: t.Deadline,''','''	txn.Commit()
	return &ratus.Promise{
		ID:       t.ID,
		Consumer: t.Producer,
		Deadline: t.Deadline,''')),
bug("inserttasks overwrite", (T,'		if r != nil {\n			continue\n		}\n','		_ = r\n')),
bug("inserttasks no clone", (T,'		if err := txn.Insert(tableTask, clone(t)); err != nil {\n			return nil, err\n		}\n		c++','		if err := txn.Insert(tableTask, t); err != nil {\n			return nil, err\n		}\n		c++')),
bug("inserttasks break", (T,'		if r != nil {\n			continue\n		}\n','		if r != nil {\n			break\n		}\n')),
bug("inserttasks skip error", (T,'		if err := txn.Insert(tableTask, clone(t)); err != nil {\n			return nil, err\n		}\n		c++','		if err := txn.Insert(tableTask, clone(t)); err != nil {\n			continue\n		}\n		c++')),
bug("upserttasks keep state", (T,'''		if err := txn.Insert(tableTask, clone(t)); err != nil {
			return nil, err
		}
		if r == nil {''','''		u := clone(t)
		if r != nil {
			u.Produced = r.(*ratus.Task).Produced
		}
		if err := txn.Insert(tableTask, u); err != nil {
			return nil, err
		}
		if r == nil {''')),
bug("upserttask count", (T,'		Created: 1 - u,\n		Updated: u,','		Created: 1,\n		Updated: u,')),
bug("deletetasks prefix", (T,'txn.DeleteAll(tableTask, indexTopic, topic)','txn.DeleteAll(tableTask, indexTopic+"_prefix", topic)')),
bug("deletetask by topic", (T,'txn.DeleteAll(tableTask, indexID, id)','txn.DeleteAll(tableTask, indexTopic, id)')),
bug("gettask stored", (T,'return clone(r.(*ratus.Task)), nil','return r.(*ratus.Task), nil')),
bug("list off by one", (T,'i < offset+limit','i <= offset+limit')),
bug("list skip wrong", (T,'if i < offset {','if i <= offset {')),
bug("list break early", (T,'i < offset+limit','i < limit')),
bug("list stored", (T,'v = append(v, clone(r.(*ratus.Task)))','v = append(v, r.(*ratus.Task))')),
bug("listpromises topic idx", (P,'it, err := txn.Get(tableTask, indexActiveTopic, ratus.TaskStateActive, topic)','it, err := txn.Get(tableTask, indexTopic, topic)')),
bug("listtopics dup", (O,'			p = t.Topic\n			if n','			if n')),
bug("listtopics limit", (O,'len(v) < limit','n < limit')),
bug("listtopics count", (O,'			n++\n		}\n	}\n','		}\n		n++\n	}\n')),
bug("gettopic zero", (O,'	if n == 0 {\n		return nil, ratus.ErrNotFound\n	}\n','')),
bug("save no sync", (M,'e := f.Sync()','var e error')),
bug("save rename always", (M,'if ok && e == nil {\n			e = os.Rename(p, path)','if ok {\n			e = os.Rename(p, path)')),
bug("save direct", (M,'p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))','p := path\n	_ = fmt.Sprint(nonce.Generate(8))')),
bug("save tmpdir", (M,'p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))','p := fmt.Sprint(os.TempDir(), "/", nonce.Generate(8))')),
bug("save err drop", (M,'		if err == nil {\n			err = e\n		}\n','')),
bug("save leaves temp", (M,'		if !ok || e != nil {\n			os.Remove(p)\n		}\n','		if !ok {\n			os.Remove(p)\n		}\n')),
bug("save pending only", (M,'it, err := txn.Get(tableTask, indexID)','it, err := txn.Get(tableTask, indexPendingTopicScheduled)')),
bug("save skip archived", (M,'	for r := it.Next(); r != nil; r = it.Next() {\n		if err := enc','	for r := it.Next(); r != nil; r = it.Next() {\n		if r.(*ratus.Task).State == ratus.TaskStateArchived {\n			continue\n		}\n		if err := enc')),
bug("save skip encode error", (M,'''		if err := enc.Encode(portable(r.(*ratus.Task))); err != nil {
			return err
		}''','''		if err := enc.Encode(portable(r.(*ratus.Task))); err != nil {
			continue
		}''')),
bug("portable drops", (M,'[]**time.Time{&u.Produced, &u.Scheduled, &u.Consumed, &u.Deadline}','[]**time.Time{&u.Produced, &u.Scheduled, &u.Consumed}')),
bug("portable in place", (M,'func portable(v *ratus.Task) *ratus.Task {\n	u := clone(v)','func portable(v *ratus.Task) *ratus.Task {\n	u := v')),
bug("saved before save", (Q,'	if err := save(g.database, g.config.SnapshotPath); err != nil {\n		return err\n	}\n	g.saved = n','	g.saved = n\n	if err := save(g.database, g.config.SnapshotPath); err != nil {\n		return err\n	}')),
bug("chore save err ignored", (Q,'	if err := save(g.database, g.config.SnapshotPath); err != nil {\n		return err\n	}\n','	_ = save(g.database, g.config.SnapshotPath)\n')),
bug("close never saves when recent", (M,'	if g.config.SnapshotPath != "" {\n		return save(','	if g.config.SnapshotPath != "" && time.Since(g.saved) > g.config.SnapshotInterval {\n		return save(')),
bug("load shared var", (M,'	for {\n		var t ratus.Task\n','	var t ratus.Task\n	for {\n')),
bug("load any error eof", (M,'			if errors.Is(err, io.EOF) {\n				break\n			}\n			return err','			break'),(M,'	"errors"\n','	"errors"\n	_ "io"\n') if False else (M,'	return nil\n}\n\n// load','	_ = io.EOF\n	return nil\n}\n\n// load')),
bug("load unexpected eof", (M,'if errors.Is(err, io.EOF) {','if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {')),
bug("load missing ok any", (M,'		if errors.Is(err, fs.ErrNotExist) {\n			return nil\n		}\n		return err','		if !errors.Is(err, fs.ErrNotExist) {\n			return nil\n		}\n		return nil')),
bug("load resets active", (M,'		if err := txn.Insert(tableTask, &t); err','		if t.State == ratus.TaskStateActive {\n			t.State = ratus.TaskStatePending\n		}\n		if err := txn.Insert(tableTask, &t); err')),
bug("open db before load", (M,'''	// Load data from snapshot file if required.''','''	g.database = db
	// Load data from snapshot file if required.''')),
bug("gob register", ("ratus.go",'	gob.Register(map[string]interface{}{})\n','')),

same("comment only", (Q,'	n := time.Now()\n','	// hello\n	n := time.Now()\n')),
same("noop stmt", (Q,'	n := time.Now()\n','	_ = len(ctx.Err2())\n	n := time.Now()\n') if False else (Q,'	n := time.Now()\n','	_ = 0\n	n := time.Now()\n')),
same("loop style", (Q,'''	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if t.Deadline != nil && t.Deadline.After(n) {
			break
		}''','''	for {
		r := it.Next()
		if r == nil {
			break
		}
		t := r.(*ratus.Task)
		if t.Deadline != nil && n.Before(*t.Deadline) {
			break
		}''')),
same("extract helper find", (P,'''	r, err := txn.First(tableTask, indexID, p.ID)
	if err != nil {
		return nil, err
	}
	if r == nil {
		return nil, ratus.ErrNotFound
	}
	t := r.(*ratus.Task)
	if t.State''','''	t, err := findByID(txn, p.ID)
	if err != nil {
		return nil, err
	}
	if t.State'''),(P,'','''
func findByID(txn *memdb.Txn, id string) (*ratus.Task, error) {
	r, err := txn.First(tableTask, indexID, id)
	switch {
	case err != nil:
		return nil, err
	case r == nil:
		return nil, ratus.ErrNotFound
	}
	return r.(*ratus.Task), nil
}
'''),(P,'	"time"\n','	"time"\n\n	"github.com/hashicorp/go-memdb"\n')),
same("closure txn wrapper", (T,'''	txn := g.database.Txn(true)
	defer txn.Abort()

	n, err := txn.DeleteAll(tableTask, indexTopic, topic)
	if err != nil {
		return nil, err
	}

	txn.Commit()
	return''','''	var n int
	if err := g.update(func(txn *memdb.Txn) (err error) {
		n, err = txn.DeleteAll(tableTask, indexTopic, topic)
		return
	}); err != nil {
		return nil, err
	}
	return'''),(T,'','''
func (g *Engine) update(f func(txn *memdb.Txn) error) error {
	txn := g.database.Txn(true)
	defer txn.Abort()
	if err := f(txn); err != nil {
		return err
	}
	txn.Commit()
	return nil
}
'''),(T,'	"context"\n','	"context"\n\n	"github.com/hashicorp/go-memdb"\n')),
same("poll closure", (Q,'''	u := updateOpsConsume(t, p, n)
	if err := txn.Insert(tableTask, u); err != nil {
		return nil, err
	}

	txn.Commit()
	return clone(u), nil
}

// Commit applies''','''	return g.put(txn, updateOpsConsume(t, p, n))
}

func (g *Engine) put(txn *memdb.Txn, u *ratus.Task) (*ratus.Task, error) {
	if err := txn.Insert(tableTask, u); err != nil {
		return nil, err
	}
	txn.Commit()
	return clone(u), nil
}

// Commit applies'''),(Q,'	"time"\n','	"time"\n\n	"github.com/hashicorp/go-memdb"\n')),
same("recover collect then write", (P,'''	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		if err := txn.Insert(tableTask, updateOpsRecover(t)); err != nil {
			return nil, err
		}
		d++
	}
''','''	for r := it.Next(); r != nil; r = it.Next() {
		if err := txn.Insert(tableTask, updateOpsRecover(r.(*ratus.Task))); err != nil {
			return nil, err
		}
		d = d + 1
	}
''')),
same("inline clone struct", (M,'''	u := clone(v)
	u.State = ratus.TaskStatePending
	u.Nonce = ""
	return u''','''	u := *v
	u.Nonce, u.State = "", ratus.TaskStatePending
	return &u''')),
same("consume literal", (M,'''	u := clone(v)
	u.State = ratus.TaskStateActive
	u.Nonce = nonce.Generate(ratus.NonceLength)
	u.Consumer = p.Consumer
	u.Consumed = &t
	u.Deadline = p.Deadline
	return u''','''	return &ratus.Task{
		ID: v.ID, Topic: v.Topic, State: ratus.TaskStateActive,
		Nonce: nonce.Generate(ratus.NonceLength), Producer: v.Producer, Consumer: p.Consumer,
		Produced: v.Produced, Scheduled: v.Scheduled, Consumed: &t, Deadline: p.Deadline,
		Payload: v.Payload, Defer: v.Defer,
	}''')),
same("commit guard helper", (Q,'if m.Nonce != "" && m.Nonce != t.Nonce {','if !nonceAccepted(m, t) {'),(Q,'','''
func nonceAccepted(m *ratus.Commit, t *ratus.Task) bool {
	if m.Nonce == "" {
		return true
	}
	return m.Nonce == t.Nonce
}
''')),
same("upserttask swapped", (T,'''	var u int64
	r, err := txn.First(tableTask, indexID, t.ID)
	if err != nil {
		return nil, err
	}
	if r != nil {
		u = 1
	}
	if err := txn.Insert(tableTask, clone(t)); err != nil {
		return nil, err
	}

	txn.Commit()
	return &ratus.Updated{
		Created: 1 - u,
		Updated: u,
	}, nil''','''	r, err := txn.First(tableTask, indexID, t.ID)
	if err != nil {
		return nil, err
	}
	if err := txn.Insert(tableTask, clone(t)); err != nil {
		return nil, err
	}
	txn.Commit()
	if r == nil {
		return &ratus.Updated{Created: 1}, nil
	}
	return &ratus.Updated{Updated: 1}, nil''')),
same("upserttasks two counters", (T,'''		if r == nil {
			c++
		}
	}

	txn.Commit()
	return &ratus.Updated{
		Created: c,
		Updated: int64(len(ts)) - c,
	}, nil''','''		if r != nil {
			u++
		} else {
			c++
		}
	}

	txn.Commit()
	return &ratus.Updated{
		Created: c,
		Updated: u,
	}, nil'''),(T,'''	// Check if a task with the same ID already exists before updating to count
	// the number of creations and modifications separately.
	var c int64
	for _, t := range ts {''','''	var c, u int64
	for _, t := range ts {''')),
same("inserttasks index loop", (T,'	for _, t := range ts {\n		r, err := txn.First(tableTask, indexID, t.ID)\n		if err != nil {\n			return nil, err\n		}\n		if r != nil {','	for i := 0; i < len(ts); i++ {\n		t := ts[i]\n		r, err := txn.First(tableTask, indexID, t.ID)\n		if err != nil {\n			return nil, err\n		}\n		if r != nil {')),
same("inserttasks nested", (T,'''		if r != nil {
			continue
		}
		if err := txn.Insert(tableTask, clone(t)); err != nil {
			return nil, err
		}
		c++
''','''		if r == nil {
			if err := txn.Insert(tableTask, clone(t)); err != nil {
				return nil, err
			}
			c++
		}
''')),
same("list skip loop", (T,'''	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
		if i < offset {
			continue
		}
		v = append(v, clone(r.(*ratus.Task)))
	}
''','''	for i := 0; i < offset; i++ {
		if it.Next() == nil {
			break
		}
	}
	for len(v) < limit {
		r := it.Next()
		if r == nil {
			break
		}
		v = append(v, clone(r.(*ratus.Task)))
	}
''')),
same("list len", (T,'''	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
		if i < offset {
			continue
		}
		v = append(v, clone(r.(*ratus.Task)))
	}
''','''	i := 0
	for r := it.Next(); r != nil && len(v) < limit; r = it.Next() {
		if i >= offset {
			v = append(v, clone(r.(*ratus.Task)))
		}
		i++
	}
''')),
same("list end var", (T,'''	for i, r := 0, it.Next(); i < offset+limit && r != nil; i, r = i+1, it.Next() {
		if i < offset {
			continue
		}
''','''	end := limit + offset
	for i := 0; i < end; i++ {
		r := it.Next()
		if r == nil {
			break
		}
		if i < offset {
			continue
		}
''')),
same("listtopics nested", (O,'''	for r := it.Next(); r != nil && len(v) < limit; r = it.Next() {
		if t := r.(*ratus.Task); t.Topic != p {
			p = t.Topic
			if n >= offset {
				v = append(v, &ratus.Topic{Name: t.Topic})
			}
			n++
		}
	}''','''	for r := it.Next(); r != nil; r = it.Next() {
		if len(v) >= limit {
			break
		}
		t := r.(*ratus.Task)
		if t.Topic == p {
			continue
		}
		p = t.Topic
		n++
		if n > offset {
			v = append(v, &ratus.Topic{Name: p})
		}
	}''')),
same("gettopic for", (O,'''	for r := it.Next(); r != nil; r = it.Next() {
		n++
	}
	if n == 0 {''','''	for it.Next() != nil {
		n++
	}
	if n < 1 {''')),
same("save restructure", (M,'''	var ok bool
	defer func() {
		e := f.Sync()
		if x := f.Close(); e == nil {
			e = x
		}
		if ok && e == nil {
			e = os.Rename(p, path)
		}
		if !ok || e != nil {
			os.Remove(p)
		}
		if err == nil {
			err = e
		}
	}()
''','''	if err := dump(db, f); err != nil {
		f.Close()
		os.Remove(p)
		return err
	}
	if err := f.Sync(); err != nil {
		f.Close()
		os.Remove(p)
		return err
	}
	if err := f.Close(); err != nil {
		os.Remove(p)
		return err
	}
	if err := os.Rename(p, path); err != nil {
		os.Remove(p)
		return err
	}
	return nil
}

func dump(db *memdb.MemDB, f io.Writer) (err error) {
'''),(M,'''	txn.Commit()

	// Mark the operation as successful.
	ok = true

	return nil''','''	txn.Commit()
	return nil''')),
same("save bufio", (M,'	enc := gob.NewEncoder(f)\n','	w := bufio.NewWriter(f)\n	enc := gob.NewEncoder(w)\n'),(M,'	// Mark the operation as successful.\n	ok = true\n','	if err := w.Flush(); err != nil {\n		return err\n	}\n	ok = true\n'),(M,'import (\n','import (\n	"bufio"\n')),
bug("save bufio noflush", (M,'	enc := gob.NewEncoder(f)\n','	w := bufio.NewWriter(f)\n	enc := gob.NewEncoder(w)\n'),(M,'import (\n','import (\n	"bufio"\n')),
same("load while", (M,'''	for {
		var t ratus.Task
		if err := dec.Decode(&t); err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return err
		}
		if err := txn.Insert(tableTask, &t); err != nil {
			return err
		}
	}
	txn.Commit()''','''	for {
		t := new(ratus.Task)
		err := dec.Decode(t)
		if err == io.EOF {
			txn.Commit()
			return nil
		}
		if err == nil {
			err = txn.Insert(tableTask, t)
		}
		if err != nil {
			return err
		}
	}''')),
same("load os.IsNotExist", (M,'errors.Is(err, fs.ErrNotExist)','os.IsNotExist(err) || errors.Is(err, fs.ErrNotExist)')),
same("chore split", (Q,'''	// Write a snapshot if the time since the last save exceeded the interval.
	if g.config.SnapshotPath == "" {
		return nil
	}
	g.mux.Lock()
	defer g.mux.Unlock()
	n = time.Now()
	if g.saved.Add(g.config.SnapshotInterval).After(n) {
		return nil
	}
	if err := save(g.database, g.config.SnapshotPath); err != nil {
		return err
	}
	g.saved = n

	return nil
}''','''	return g.maybeSave()
}

func (g *Engine) maybeSave() error {
	if g.config.SnapshotPath != "" {
		g.mux.Lock()
		defer g.mux.Unlock()
		if n := time.Now(); !n.Before(g.saved.Add(g.config.SnapshotInterval)) {
			if err := save(g.database, g.config.SnapshotPath); err != nil {
				return err
			}
			g.saved = n
		}
	}
	return nil
}''')),
]
