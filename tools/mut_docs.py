R="ratus.go"; D="docs/"
A=["C31","C32"]
def bug(n,f,a,b,ids=A): return (n,"bug",ids,[(f,a,b)])
def same(n,*e): return (n,"same",A,list(e))
MP="internal/middleware/promise.go"; PG="internal/middleware/pagination.go"; CP="internal/controller/promise.go"; CT="internal/controller/task.go"
MUT=[
 bug("json name of consumed",R,'Consumed *time.Time `json:"consumed,omitempty"','Consumed *time.Time `json:"claimed,omitempty"',["C31"]),
 bug("json drop nonce when empty",R,'Nonce string `json:"nonce" bson:"nonce"`','Nonce string `json:"nonce,omitempty" bson:"nonce"`',["C31"]),
 bug("json topic shared",R,'Producer string `json:"producer,omitempty"','Producer string `json:"consumer,omitempty"'),
 bug("json defer hidden",R,'''	Defer string `json:"defer,omitempty" bson:"-"`
}

// Decode''','''	Defer string `json:"-" bson:"-"`
}

// Decode'''),
 bug("data omitted",R,'''type Tasks struct {
	Data []*Task `json:"data"`''','''type Tasks struct {
	Data []*Task `json:"data,omitempty"`'''),
 bug("updated omitted",R,'Updated int64 `json:"updated"`','Updated int64 `json:"updated,omitempty"`',["C31"]),
 bug("quoted counts",R,'Deleted int64 `json:"deleted"`','Deleted int64 `json:"deleted,string"`',["C31"]),
 bug("states swapped",R,'	TaskStateActive\n','	TaskStateActive TaskState = iota + 1\n',["C31"]),
 bug("states from one",R,'TaskStatePending TaskState = iota','TaskStatePending TaskState = iota + 1',["C31"]),
 bug("form timeout",R,'form:"timeout"','form:"ttl"',["C31"]),
 bug("form deadline missing",R,' form:"deadline"`','`',["C31"]),
 bug("form limit",PG,'form:"limit"','form:"size"',["C31"]),
 bug("limit as string",PG,'Offset int `form:"offset"`','Offset int `form:"skip"`',["C31"]),
 bug("error code name",R,'Code int `json:"code"`','Code int `json:"status"`',["C31"]),
 bug("bson nonce dropped",R,'Producer string `json:"producer,omitempty" bson:"producer,omitempty"`','Producer string `json:"producer,omitempty" bson:"-"`',["C32"]),
 bug("bson shared",R,'Producer string `json:"producer,omitempty" bson:"producer,omitempty"`','Producer string `json:"producer,omitempty" bson:"consumer,omitempty"`',["C32"]),
 bug("bson state omitted",R,'State TaskState `json:"state" bson:"state"`','State TaskState `json:"state" bson:"state,omitempty"`',["C32"]),
 bug("bson payload inline",R,'Payload any `json:"payload,omitempty" bson:"payload,omitempty"`\n\n	// A duration relative to the time the task','Payload any `json:"payload,omitempty" bson:"payload,inline"`\n\n	// A duration relative to the time the task',["C32"]),
 bug("bson promise deadline",R,'bson:"deadline,omitempty" form:"deadline"','bson:"expires,omitempty" form:"deadline"',["C32"]),
 bug("decode string",R,'''	b, err := json.Marshal(t.Payload)
''','''	if s, ok := t.Payload.(string); ok {
		if p, ok := v.(*string); ok {
			*p = s
			return nil
		}
		return json.Unmarshal([]byte(s), v)
	}
	b, err := json.Marshal(t.Payload)
''',["C32"]),
 bug("decode whole",R,'json.Marshal(t.Payload)','json.Marshal(t)',["C32"]),
 bug("decode swallow",R,'''	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)''','''	if err != nil {
		return nil
	}
	return json.Unmarshal(b, v)''',["C32"]),
 bug("yaml differs",D+"openapi.yaml",'"201"','"202"',["C31"]),
 bug("documented elsewhere",D+"openapi.json",'"/topics/{topic}": {','"/topic/{topic}": {',["C31"]),
 bug("list reported bare",CT,'send(c, &ratus.Tasks{Data: v}, err)','send(c, v, err)',["C31"]),
 bug("promises as tasks",CP,'send(c, &ratus.Promises{Data: v}, err)','send(c, &struct {\n\t\tItems []*ratus.Promise `json:"items"`\n\t}{v}, err)',["C31"]),
 bug("promise from part",MP,'c.ShouldBindJSON(&p)','c.ShouldBindJSON(&struct{ ID *string }{&p.ID})',["C31"]),
 bug("marshaler",R,'''// Decode parses''','''// MarshalText encodes the state by name.
func (s TaskState) MarshalText() ([]byte, error) {
	return []byte([]string{"pending", "active", "completed", "archived"}[s]), nil
}

// Decode parses'''),
 same("decode inlined",(R,'''	b, err := json.Marshal(t.Payload)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)''','''	p := t.Payload
	if b, err := json.Marshal(p); err == nil {
		return json.Unmarshal(b, v)
	} else {
		return err
	}''')),
 same("states explicit",(R,'	TaskStateArchived\n)','	TaskStateArchived TaskState = 3\n)')),
 same("list variable",(CT,'send(c, &ratus.Tasks{Data: v}, err)','l := ratus.Tasks{}\n\tl.Data = v\n\tsend(c, &l, err)')),
 same("list by value",(CT,'send(c, &ratus.Tasks{Data: v}, err)','send(c, ratus.Tasks{Data: v}, err)')),
 same("named pagination",(PG,'''		var p struct {
			Limit  int `form:"limit"`
			Offset int `form:"offset"`
		}
''','''		type page struct {
			Limit  int `form:"limit"`
			Offset int `form:"offset"`
		}
		var p page
''')),
 same("stringer",(R,'// Decode parses','''// String names the state.
func (s TaskState) String() string {
	return []string{"pending", "active", "completed", "archived"}[s]
}

// Decode parses''')),
]
