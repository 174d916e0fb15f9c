package main

// Rules that compare the served API with its published description.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Checker) docsRules() {
	dir := filepath.Join(c.x.prog.dir, "docs")
	doc, _, err := readDoc(dir, "openapi.json")
	if !c.must(err == nil, "doc-read", "openapi.json", 0, nil, "the description of the API cannot be read: %v", err) {
		return
	}
	// All published forms say the same.
	want := doc.summary()
	for _, f := range []string{"openapi.yaml", "swagger.json", "swagger.yaml"} {
		d, _, err := readDoc(dir, f)
		if !c.must(err == nil, "doc-read", f, 0, nil, "the description of the API cannot be read: %v", err) {
			continue
		}
		for _, diff := range diffLists(want, d.summary()) {
			c.must(false, "doc-forms", f+" "+diff[1:], 0, nil, "openapi.json and %s differ: %s", f, diff)
		}
		c.ok("doc-forms")
	}
	c.docRoutes(doc)
	c.docSchemas(doc)
	c.atLeast("doc-forms", 3)
}

// diffLists lists what only one of two sorted lists contains.
func diffLists(a, b []string) (out []string) {
	in := map[string]int{}
	for _, x := range a {
		in[x] |= 1
	}
	for _, x := range b {
		in[x] |= 2
	}
	for x, k := range in {
		switch k {
		case 1:
			out = append(out, "-"+x)
		case 2:
			out = append(out, "+"+x)
		}
	}
	sort.Strings(out)
	return
}

// docKey converts the path of a document to the form of routeKey.
func docKey(k string) (key string, params []string) {
	m, p, _ := strings.Cut(k, " ")
	segs := strings.Split(p, "/")
	for i, s := range segs {
		if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
			params = append(params, s[1:len(s)-1])
			segs[i] = fmt.Sprintf(":%d", len(params))
		}
	}
	return m + " " + strings.Join(segs, "/"), params
}

// docRoutes: endpoints, parameters, requests and responses.
func (c *Checker) docRoutes(doc *apiDoc) {
	a := c.api()
	type served struct {
		mounted map[string]bool // prefixes
		outs    []*apiOut
	}
	by := map[string]*served{}
	for _, r := range a.routes {
		key, _ := routeKey(r.method, r.path)
		s := by[key]
		if s == nil {
			s = &served{mounted: map[string]bool{}}
			by[key] = s
		}
		if strings.HasPrefix(r.path, "/v1/") || r.path == "/v1" {
			s.mounted["/v1"] = true
		} else {
			s.mounted["/"] = true
		}
		s.outs = append(s.outs, c.apiOuts(r)...)
	}
	// Every endpoint that uses the storage engine is documented.
	documented := map[string]*specOp{}
	for k, op := range doc.ops {
		key, params := docKey(k)
		documented[key] = op
		s := by[key]
		if !c.must(s != nil, "doc-endpoint", key, 0, nil, "the documented endpoint is not served") {
			continue
		}
		for _, b := range doc.bases {
			if b == "" {
				b = "/"
			}
			c.must(s.mounted[b], "doc-endpoint", key+" "+b, 0, nil, "the documented endpoint is not served below %s", b)
		}
		var inPath []string
		for _, p := range op.params {
			if p.in == "path" {
				inPath = append(inPath, p.name)
			}
		}
		sort.Strings(inPath)
		ps := append([]string{}, params...)
		sort.Strings(ps)
		c.must(strings.Join(inPath, ",") == strings.Join(ps, ","), "doc-parameters", key, 0, nil, "the documented parameters %v are not those of the path %v", inPath, ps)
	}
	for key, s := range by {
		uses := false
		for _, o := range s.outs {
			uses = uses || len(o.eng) > 0 && !o.eng0("Ready")
		}
		if uses {
			c.must(documented[key] != nil, "doc-endpoint", key+" undocumented", 0, nil, "the endpoint is not documented")
		}
	}
	classes := c.opClasses()
	for key, op := range documented {
		s := by[key]
		if s == nil || len(s.outs) == 0 {
			continue
		}
		possible := map[string]bool{}
		hasJSON := false
		hasOp := false
		for _, o := range s.outs {
			if o.ret.Panic || o.ret.Exit {
				continue
			}
			for _, e := range o.binds {
				switch e.Kind {
				case "bind.query":
					// Parameters are read under their documented names.
					b, _ := e.Tag.(*Term)
					if b != nil && schemaOf(b.T) == op.body && doc.schemas[op.body] != nil {
						// What a body may say can equally be given in the query.
						for p := range doc.schemas[op.body].props {
							c.must(tagged(b, "form", p) != nil, "doc-query", key+" "+p, e.Pos, o.st, "the property %s is not read from the query", p)
						}
					}
					for _, p := range op.params {
						if p.in != "query" {
							continue
						}
						f := tagged(b, "form", p.name)
						if c.must(f != nil || c.readsQuery(o, p.name), "doc-query", key+" "+p.name, e.Pos, o.st, "the documented parameter %s of the query is not read", p.name) && f != nil {
							c.must(jsonType(f.T) == p.typ, "doc-query", key+" "+p.name+" type", e.Pos, o.st, "the parameter is documented as %s", p.typ)
						}
					}
				case "bind.json":
					hasJSON = true
					b, _ := e.Tag.(*Term)
					got := ""
					if b != nil {
						got = schemaOf(b.T)
					}
					c.must(got == op.body, "doc-request", key, e.Pos, o.st, "the body of the request is documented as %q but decoded as %q", op.body, got)
				}
			}
			if len(o.resp) != 1 {
				continue
			}
			code, ok := c.status(o.st, o.resp[0])
			if !ok {
				continue
			}
			if len(o.eng) == 0 || o.eng0("Ready") {
				if code < 400 || code == 400 {
					possible[fmt.Sprint(code)] = true
				}
			}
			if len(o.eng) == 0 {
				continue
			}
			g := o.eng[len(o.eng)-1]
			hasOp = true
			if g.Name == "Ready" {
				possible["503"] = possible["503"] || classes["Ready"]["ErrServiceUnavailable"]
				continue
			}
			for cl := range classes[g.Name] {
				switch cl {
				case "ErrNotFound":
					possible["404"] = true
				case "ErrConflict":
					possible["409"] = true
				case "other", "unknown":
					possible["500"] = true
				}
			}
			er := opErr(g)
			if !o.st.isNil(er) {
				continue
			}
			if u := c.createdSigns(g.Name); u != nil && (code == 201 || code == 200) && !u[code == 201] {
				continue // the engines never report such a result
			}
			// The body of a success is what is documented for its status.
			possible[fmt.Sprint(code)] = true
			got := ""
			if o.spec != nil && o.spec.list != "" {
				e := o.resp[0]
				if jsonResponses[respName(e)] && len(e.Args) == 3 {
					got = schemaOf(unIface(e.St.norm(e.Args[2])).T)
				}
			} else if len(g.Res) == 2 {
				got = schemaOf(g.Res[0].T)
			}
			want, isDoc := op.responses[fmt.Sprint(code)]
			if c.must(isDoc, "doc-response", fmt.Sprintf("%s %d", key, code), o.pos(), o.st, "the status code %d of a success is not documented", code) {
				c.must(got == want, "doc-response", fmt.Sprintf("%s %d body", key, code), o.pos(), o.st, "the body is documented as %q but is %q", want, got)
			}
		}
		c.must(hasJSON == (op.body != ""), "doc-request", key+" body", 0, nil, "the documentation disagrees on whether the request has a body")
		for code := range op.responses {
			c.must(possible[code] || !hasOp && code == "200", "doc-status", key+" "+code, 0, nil, "the documented status code %s can never occur", code)
		}
		for code := range possible {
			if code == "404" || code == "409" || code == "503" {
				_, isDoc := op.responses[code]
				c.must(isDoc, "doc-status", key+" "+code+" undocumented", 0, nil, "the status code %s can occur but is not documented", code)
			}
		}
		for code, sc := range op.responses {
			if hasOp && code >= "400" && code != "503" {
				c.must(sc == "ratus.Error", "doc-status", key+" "+code+" body", 0, nil, "failures are reported as errors, not as %q", sc)
			}
		}
	}
	for r, n := range map[string]int{"doc-endpoint": 40, "doc-parameters": 20, "doc-query": 6, "doc-request": 20, "doc-response": 20, "doc-status": 40} {
		c.atLeast(r, n)
	}
}

func (o *apiOut) eng0(name string) bool { return len(o.eng) > 0 && o.eng[0].Name == name }

// readsQuery: a handler of the chain asks for a parameter of the query by name.
func (c *Checker) readsQuery(o *apiOut, name string) bool {
	found := false
	var walk func(t *Term, depth int)
	walk = func(t *Term, depth int) {
		if t == nil || found || depth > 30 {
			return
		}
		if t.K == KOp && strings.Contains(t.Op, "Query") {
			for _, a := range t.Args {
				if s, ok := a.strConst(); ok && s == name {
					found = true
				}
			}
		}
		for _, a := range t.Args {
			walk(a, depth+1)
		}
	}
	for _, e := range o.ev {
		for _, a := range e.Args {
			walk(a, 0)
		}
	}
	return found
}

// opClasses: the classes of errors each operation of a storage engine may report.
func (c *Checker) opClasses() map[string]map[string]bool {
	out := map[string]map[string]bool{}
	it, _ := c.x.prog.typeNamed(pkgEngine, "Engine").Underlying().(*types.Interface)
	if it == nil {
		return out
	}
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		k := it.Method(i).Type().(*types.Signature).Results().Len()
		if k != 2 && n != "Ready" {
			continue
		}
		out[n] = map[string]bool{}
		for _, rets := range [][]Ret{c.memdb(n), c.mongo(n)} {
			for j := range rets {
				r := &rets[j]
				if !r.Panic && !r.Exit {
					out[n][c.errClass(&r.St, r.res(k-1))] = true
				}
			}
		}
	}
	return out
}

// createdSigns: whether a successful operation that reports numbers of resources
// may have created any (true), and none (false); nil for other operations.
func (c *Checker) createdSigns(op string) map[bool]bool {
	if m, ok := c.signs[op]; ok {
		return m
	}
	var out map[bool]bool
	U := c.x.prog.typeNamed(modPath, "Updated")
	for _, rets := range [][]Ret{c.memdb(op), c.mongo(op)} {
		for j := range rets {
			r := &rets[j]
			if r.Panic || r.Exit || r.St.notNil(r.res(1)) || U == nil {
				continue
			}
			v := r.res(0)
			if n := derefType(v.T); n == nil || !types.Identical(n, U) {
				continue
			}
			if out == nil {
				out = map[bool]bool{}
			}
			switch r.St.known(mkGe0(toLin(c.field(&r.St, c.deref(&r.St, v), "Created")).add(lin{c: 1}, -1))) {
			case 1:
				out[true] = true
			case 0:
				out[false] = true
			default:
				out[true], out[false] = true, true
			}
		}
	}
	if c.signs == nil {
		c.signs = map[string]map[bool]bool{}
	}
	c.signs[op] = out
	return out
}

// schemaOf is the name of a type in the documentation.
func schemaOf(T types.Type) string {
	for {
		d := derefType(T)
		if d == nil {
			break
		}
		T = d
	}
	if n, ok := types.Unalias(T).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return jsonType(T)
}

// jsonType is the type of JSON values that values of a type are encoded as.
func jsonType(T types.Type) string {
	if T == nil {
		return ""
	}
	if d := derefType(T); d != nil {
		return jsonType(d)
	}
	if n, ok := types.Unalias(T).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			switch p := n.Obj().Pkg().Path(); {
			case p == "time" && n.Obj().Name() == "Time":
				return "string"
			case p == modPath:
				return "ratus." + n.Obj().Name()
			}
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsInteger != 0:
			return "integer"
		case u.Info()&types.IsBoolean != 0:
			return "boolean"
		case u.Info()&types.IsNumeric != 0:
			return "number"
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "string"
		}
		return "[]" + jsonType(u.Elem())
	case *types.Array:
		return "[]" + jsonType(u.Elem())
	case *types.Interface, *types.Map:
		return "object"
	case *types.Struct:
		var l []string
		for _, f := range jsonFields(u) {
			l = append(l, f.name+":"+jsonType(f.typ))
		}
		if len(l) == 0 {
			return "object"
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return "?"
}

type jsonField struct {
	name      string
	field     *types.Var
	typ       types.Type
	omitempty bool
	quoted    bool
}

// jsonFields lists the properties that encoding/json gives a struct.
func jsonFields(s *types.Struct) (out []jsonField) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		if tag == "-" || !f.Exported() && !f.Embedded() {
			continue
		}
		if f.Embedded() && name == "" {
			if u := structOf(f.Type()); u != nil {
				out = append(out, jsonFields(u)...)
				continue
			}
		}
		if name == "" {
			name = f.Name()
		}
		j := jsonField{name: name, field: f, typ: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			j.omitempty = j.omitempty || o == "omitempty" || o == "omitzero"
			j.quoted = j.quoted || o == "string"
		}
		out = append(out, j)
	}
	return
}

// always lists the properties that are present in every message, whatever their
// values, as clients tell resources and results apart by them.
var docAlways = map[string][]string{
	"Task":     {"_id", "topic", "state", "nonce"},
	"Topic":    {"name"},
	"Topics":   {"data"},
	"Tasks":    {"data"},
	"Promises": {"data"},
	"Updated":  {"created", "updated"},
	"Deleted":  {"deleted"},
	"Error":    {"error"},
}

// docSchemas: the types that are encoded and decoded have exactly the documented
// properties.
func (c *Checker) docSchemas(doc *apiDoc) {
	coders := []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"}
	for name, sc := range doc.schemas {
		short := strings.TrimPrefix(name, "ratus.")
		T := c.x.prog.typeNamed(modPath, short)
		if !c.must(T != nil, "doc-schema", name, 0, nil, "the documented type does not exist") {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(T))
		for _, m := range coders {
			c.must(ms.Lookup(nil, m) == nil, "doc-schema", name+" "+m, 0, nil, "the type has an encoding of its own, which is not analysed")
		}
		if len(sc.enum) > 0 {
			c.docEnum(name, T, sc)
			continue
		}
		S := structOf(T)
		if !c.must(S != nil && sc.typ == "object", "doc-schema", name+" type", 0, nil, "the type is documented as %q", sc.typ) {
			continue
		}
		got := map[string]jsonField{}
		for _, f := range jsonFields(S) {
			_, dup := got[f.name]
			c.must(!dup, "doc-property", name+"."+f.name+" twice", f.field.Pos(), nil, "two fields are encoded under the same name, so neither is")
			got[f.name] = f
		}
		for p, t := range sc.props {
			f, ok := got[p]
			if c.must(ok, "doc-property", name+"."+p, c.x.objPos(T), nil, "the documented property does not exist") {
				c.must(jsonType(f.typ) == t && !f.quoted, "doc-property", name+"."+p+" type", f.field.Pos(), nil, "the property is documented as %s but is %s", t, jsonType(f.typ))
			}
		}
		for p, f := range got {
			_, ok := sc.props[p]
			c.must(ok, "doc-property", name+"."+p+" undocumented", f.field.Pos(), nil, "the property is not documented")
		}
		for _, p := range docAlways[short] {
			f, ok := got[p]
			c.must(ok && !f.omitempty, "doc-always", name+"."+p, c.x.objPos(T), nil, "the property must be present whatever its value")
		}
		for p, f := range got {
			// A property that may be absent must not be lost for a value that
			// means something else than its absence.
			if f.omitempty {
				c.must(c.absentMeansZero(f.typ), "doc-omitted", name+"."+p, f.field.Pos(), nil, "the property is left out although its zero value is not the same as its absence")
			}
		}
	}
	for r, n := range map[string]int{"doc-schema": 10, "doc-property": 40, "doc-always": 8, "doc-enum": 4} {
		c.atLeast(r, n)
	}
}

// absentMeansZero: decoding an absent property gives the value that was left out.
func (c *Checker) absentMeansZero(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Basic:
		return true
	case *types.Slice, *types.Map:
		return false
	}
	return true
}

func (x *Exec) objPos(T types.Type) token.Pos {
	if n, ok := types.Unalias(T).(*types.Named); ok {
		return n.Obj().Pos()
	}
	return 0
}

// docEnum: the values of an enumeration and their names.
func (c *Checker) docEnum(name string, T types.Type, sc *specSchema) {
	b, ok := T.Underlying().(*types.Basic)
	c.must(ok && b.Info()&types.IsInteger != 0 && sc.typ == "integer", "doc-enum", name+" type", c.x.objPos(T), nil, "the type is documented as %s", sc.typ)
	got := map[string]string{}
	pk := c.x.prog.pkg(modPath)
	if pk == nil {
		return
	}
	for n, m := range pk.Members {
		k, isC := m.(*ssa.NamedConst)
		if !isC || !types.Identical(k.Type(), T) || !ast.IsExported(n) {
			continue
		}
		if v, exact := constant.Int64Val(constant.ToInt(k.Value.Value)); exact {
			got[n] = fmt.Sprint(v)
		}
	}
	for i, n := range sc.names {
		if i < len(sc.enum) {
			c.must(got[n] == sc.enum[i], "doc-enum", name+" "+n, c.x.objPos(T), nil, "%s is documented as %s but is %s", n, sc.enum[i], got[n])
		}
		delete(got, n)
	}
	for n := range got {
		c.must(false, "doc-enum", name+" "+n+" undocumented", c.x.objPos(T), nil, "the value is not documented")
	}
}

// ---- C32: encodings of stored and transmitted resources ----------------------------

type bsonField struct {
	key      string
	opts     []string
	field    *types.Var
	stored   bool
	exported bool
}

func bsonFields(s *types.Struct) (out []bsonField) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag, has := reflect.StructTag(s.Tag(i)).Lookup("bson")
		if !has && !strings.Contains(s.Tag(i), ":") {
			tag = s.Tag(i)
		}
		l := strings.Split(tag, ",")
		b := bsonField{key: l[0], opts: l[1:], field: f, stored: tag != "-" && f.Exported(), exported: f.Exported()}
		if b.key == "" {
			b.key = strings.ToLower(f.Name())
		}
		out = append(out, b)
	}
	return
}

// codecRules: what is stored and transmitted can be found and read again.
func (c *Checker) codecRules() {
	own := []string{"MarshalBSON", "UnmarshalBSON", "MarshalBSONValue", "UnmarshalBSONValue", "MarshalJSON", "UnmarshalJSON",
		"MarshalText", "UnmarshalText", "GobEncode", "GobDecode", "MarshalBinary", "UnmarshalBinary"}
	task := map[string]bsonField{}
	for _, name := range []string{"Task", "Promise", "Topic", "TaskState", "Commit", "Tasks", "Promises", "Topics", "Updated", "Deleted", "Error"} {
		T := c.x.prog.typeNamed(modPath, name)
		if !c.must(T != nil, "codec-type", name, 0, nil, "the type does not exist") {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(T))
		for _, m := range own {
			c.must(ms.Lookup(nil, m) == nil, "codec-type", name+" "+m, c.x.objPos(T), nil, "the type has an encoding of its own, which is not analysed")
		}
		S := structOf(T)
		if S == nil {
			continue
		}
		seen := map[string]string{}
		for i, f := range bsonFields(S) {
			at := name + "." + f.field.Name()
			if name != "Task" && name != "Promise" && name != "Topic" {
				continue
			}
			if !f.stored {
				if name == "Task" {
					c.must(f.exported, "codec-snapshot", at, f.field.Pos(), nil, "the field is not written to snapshots")
				}
				// Delays are converted to times and cleared when a request is accepted.
				c.must(at == "Task.Defer" || at == "Promise.Timeout", "codec-stored", at, f.field.Pos(), nil, "the field is not stored")
				continue
			}
			c.must(f.exported, "codec-stored", at, f.field.Pos(), nil, "the field is not stored")
			c.must(seen[f.key] == "", "codec-distinct", at, f.field.Pos(), nil, "the field is stored under the same name as %s", seen[f.key])
			seen[f.key] = f.field.Name()
			for _, o := range f.opts {
				switch o {
				case "", "minsize":
				case "omitempty":
					// Filters and partial indexes look for the value of the pending state.
					c.must(f.field.Name() != "State", "codec-zero", at, f.field.Pos(), nil, "the initial state must be stored as any other, as commands and indexes look for it")
				default:
					c.must(false, "codec-stored", at+" "+o, f.field.Pos(), nil, "the option %q changes how the field is stored", o)
				}
			}
			if name == "Task" {
				task[f.field.Name()] = f
			}
			if t, ok := task[f.field.Name()]; ok && name == "Promise" {
				// Promises are decoded from stored tasks.
				c.must(t.key == f.key, "codec-promise", at, f.field.Pos(), nil, "the field is stored in tasks as %q", t.key)
				c.must(types.Identical(t.field.Type(), f.field.Type()), "codec-promise", at+" type", f.field.Pos(), nil, "the field has another type in tasks")
			}
			_ = i
		}
		// Client and server encode and decode the same types: properties must not
		// be shared or left out.
		names := map[string]string{}
		n := 0
		for _, f := range jsonFields(S) {
			c.must(names[f.name] == "", "codec-json", name+"."+f.field.Name(), f.field.Pos(), nil, "the field is transmitted under the same name as %s", names[f.name])
			names[f.name] = f.field.Name()
			n++
			if f.omitempty {
				c.must(c.absentMeansZero(f.typ), "codec-json", name+"."+f.field.Name()+" empty", f.field.Pos(), nil, "an empty value of the field is not transmitted")
			}
		}
		c.must(n == S.NumFields(), "codec-json", name, c.x.objPos(T), nil, "not all fields are transmitted")
		for i := 0; i < S.NumFields(); i++ {
			// A field that may be left unspecified must have a value for that which
			// differs from every value it can be given.
			f := S.Field(i)
			if name == "Commit" && (f.Name() == "State" || f.Name() == "Scheduled" || f.Name() == "Payload") {
				switch f.Type().Underlying().(type) {
				case *types.Pointer, *types.Interface:
					c.ok("codec-optional")
				default:
					c.must(false, "codec-optional", name+"."+f.Name(), f.Pos(), nil, "it cannot be told whether the field is specified")
				}
			}
		}
	}
	c.decodeRules()
	for r, n := range map[string]int{"codec-type": 50, "codec-stored": 10, "codec-distinct": 10, "codec-promise": 6, "codec-json": 30, "codec-optional": 2} {
		c.atLeast(r, n)
	}
}

// decodeRules: decoding a payload gives the value that was produced.
func (c *Checker) decodeRules() {
	where := "ratus.Task.Decode"
	fn := c.x.prog.method(modPath, "Task", "Decode")
	if fn == nil || len(fn.Params) != 2 {
		c.fail("payload-decode", where, 0, "the method could not be found", nil)
		return
	}
	t, v := c.param(fn, 0), c.param(fn, 1)
	payload := mkField2(pristine(t), "Payload")
	for _, r := range c.method(modPath, "Task", "Decode") {
		r := r
		st := &r.St
		if !c.must(!r.Panic && !r.Exit, "payload-decode", where+" panic", posOf(st.events()), st, "decoding must not panic") {
			continue
		}
		var into []*Event
		failed := false
		for _, e := range st.events() {
			if !kindIn(e, "json.marshal", "json.encode", "json.unmarshal", "json.decode") {
				continue
			}
			failed = failed || opFailed(st, e)
			for i, a := range e.Args {
				if st.norm(unIface(a)) == st.norm(unIface(v)) && i > 0 {
					into = append(into, e)
				}
			}
		}
		if failed {
			c.must(st.notNil(r.res(0)), "payload-error", where, posOf(st.events()), st, "a payload that cannot be decoded must be reported")
			continue
		}
		c.must(st.isNil(r.res(0)), "payload-error", where+" spurious", posOf(st.events()), st, "an error is reported although the payload has been decoded")
		if c.must(len(into) == 1, "payload-decode", where, posOf(st.events()), st, "the payload must be decoded into the given value exactly once") {
			from := into[0].Args[0]
			src := false
			for _, e := range st.events() {
				switch {
				case e == into[0]:
				case e.Kind == "json.marshal" && st.norm(unIface(e.Args[0])) == st.norm(payload):
					src = src || st.norm(from) == st.norm(e.Res[0]) || containsTerm(from, e.Res[0])
				case e.Kind == "json.encode" && len(e.Args) > 1 && st.norm(unIface(e.Args[1])) == st.norm(payload):
					src = true
				}
			}
			c.must(src, "payload-decode", where+" source", into[0].Pos, st, "what is decoded must be the payload of the task")
		}
	}
	c.atLeast("payload-decode", 3)
	c.atLeast("payload-error", 2)
}
