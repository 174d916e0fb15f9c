R="ratus.go"
def pk(name, imports, body):
    return "package %s\n\nimport (\n" % name + "".join('\t"%s"\n' % i for i in imports.split()) + ")\n\n" + body

seed("consumed-has-other-name", "C31", [(R, 'Consumed *time.Time `json:"consumed,omitempty"', 'Consumed *time.Time `json:"claimed,omitempty"')], ".", pk("ratus_test", "encoding/json testing time github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	n := time.Now()
	b, _ := json.Marshal(&ratus.Task{Consumed: &n})
	var m map[string]any
	json.Unmarshal(b, &m)
	if m["consumed"] == nil {
		t.Fatalf("%s", b)
	}
}
'''), "A client that does not share the types.", "The time of consumption is not found under its documented name.")

seed("query-timeout-ignored", "C31", [(R, 'Timeout string `json:"timeout,omitempty" bson:"-" form:"timeout"`', 'Timeout string `json:"timeout,omitempty" bson:"-" form:"-"`')], "internal/middleware", pk("middleware_test", "net/http/httptest testing time github.com/gin-gonic/gin github.com/hyperonym/ratus github.com/hyperonym/ratus/internal/middleware", '''func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	var p *ratus.Promise
	r.POST("/", middleware.Promise(), func(c *gin.Context) { p = c.MustGet(middleware.ParamPromise).(*ratus.Promise) })
	r.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/?timeout=30s", nil))
	if p == nil || p.Deadline == nil || time.Until(*p.Deadline) > time.Minute {
		t.Fatal("timeout in the query is ignored")
	}
}
'''), "A promise given in the query, as in the first steps of the manual.", "The default timeout is used instead of the one in the query.")

seed("pending-state-not-stored", "C32", [(R, 'State TaskState `json:"state" bson:"state"`', 'State TaskState `json:"state" bson:"state,omitempty"`')], ".", pk("ratus_test", "testing go.mongodb.org/mongo-driver/bson github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	b, err := bson.Marshal(&ratus.Task{ID: "1", Topic: "t"})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := bson.Raw(b).LookupErr("state"); err != nil {
		t.Fatal("the pending state is not stored, so that no query finds it")
	}
}
'''), "MongoDB: tasks inserted in their initial state.", "No query by state finds pending tasks, so they are never handed out.")

seed("promise-deadline-other-key", "C32", [(R, 'Deadline *time.Time `json:"deadline,omitempty" bson:"deadline,omitempty" form:"deadline"`', 'Deadline *time.Time `json:"deadline,omitempty" bson:"expires,omitempty" form:"deadline"`')], ".", pk("ratus_test", "testing time go.mongodb.org/mongo-driver/bson github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	n := time.Now()
	b, err := bson.Marshal(&ratus.Task{ID: "1", Topic: "t", Deadline: &n})
	if err != nil {
		t.Fatal(err)
	}
	var p ratus.Promise
	if err := bson.Unmarshal(b, &p); err != nil || p.Deadline == nil {
		t.Fatal("the deadline of the promise is lost")
	}
}
'''), "MongoDB: reading a promise.", "Promises read from the database have no deadline.")

seed("decode-shortcut-for-text", "C32", [(R, '''	b, err := json.Marshal(t.Payload)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)''', '''	if s, ok := t.Payload.(string); ok && json.Valid([]byte(s)) {
		// The payload is already encoded.
		return json.Unmarshal([]byte(s), v)
	}
	b, err := json.Marshal(t.Payload)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)''')], ".", pk("ratus_test", "testing github.com/hyperonym/ratus", '''func TestDemo(t *testing.T) {
	var s string
	if err := (&ratus.Task{Payload: "42"}).Decode(&s); err != nil || s != "42" {
		t.Fatal(err, s)
	}
}
'''), "A payload that is a text which happens to be valid JSON.", "The payload is decoded as a number, or not at all.")
