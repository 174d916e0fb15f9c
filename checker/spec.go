package main

// Published API descriptions: OpenAPI 3 and Swagger 2 documents in JSON or YAML,
// reduced to what they promise to clients.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

type specParam struct {
	in, name, typ string
	required      bool
}

type specOp struct {
	params    []specParam
	body      string            // schema of the request
	responses map[string]string // status code -> schema
}

type specSchema struct {
	typ   string
	props map[string]string
	enum  []string
	names []string // names of the values of an enumeration
}

type apiDoc struct {
	file    string
	bases   []string
	ops     map[string]*specOp // "GET /topics/{topic}"
	schemas map[string]*specSchema
}

func asMap(v any) map[string]any { m, _ := v.(map[string]any); return m }
func asList(v any) []any         { l, _ := v.([]any); return l }
func asStr(v any) string         { s, _ := v.(string); return s }

// schemaName describes a schema: the name of a component, or a type.
func schemaName(v any) string {
	m := asMap(v)
	if m == nil {
		return ""
	}
	if r := asStr(m["$ref"]); r != "" {
		return r[strings.LastIndexByte(r, '/')+1:]
	}
	for _, k := range []string{"allOf", "oneOf", "anyOf"} {
		if l := asList(m[k]); len(l) == 1 {
			return schemaName(l[0])
		}
	}
	switch t := asStr(m["type"]); t {
	case "array":
		return "[]" + schemaName(m["items"])
	case "object", "":
		if p := asMap(m["properties"]); len(p) > 0 {
			var l []string
			for n, s := range p {
				l = append(l, n+":"+schemaName(s))
			}
			sort.Strings(l)
			return "{" + strings.Join(l, ",") + "}"
		}
		return "object"
	default:
		return t
	}
}

func readDoc(dir, file string) (*apiDoc, any, error) {
	b, err := os.ReadFile(filepath.Join(dir, file))
	if err != nil {
		return nil, nil, err
	}
	var raw any
	if strings.HasSuffix(file, ".json") {
		err = json.Unmarshal(b, &raw)
	} else {
		var y any
		if err = yaml.Unmarshal(b, &y); err == nil {
			raw = likeJSON(y)
		}
	}
	if err != nil {
		return nil, nil, fmt.Errorf("%s: %w", file, err)
	}
	m := asMap(raw)
	d := &apiDoc{file: file, ops: map[string]*specOp{}, schemas: map[string]*specSchema{}}
	if b := asStr(m["basePath"]); b != "" {
		d.bases = append(d.bases, b)
	}
	for _, s := range asList(m["servers"]) {
		d.bases = append(d.bases, asStr(asMap(s)["url"]))
	}
	for p, ms := range asMap(m["paths"]) {
		for meth, o := range asMap(ms) {
			om := asMap(o)
			op := &specOp{responses: map[string]string{}}
			d.ops[strings.ToUpper(meth)+" "+p] = op
			for _, x := range asList(om["parameters"]) {
				xm := asMap(x)
				if asStr(xm["in"]) == "body" {
					op.body = schemaName(xm["schema"])
					continue
				}
				t := asStr(xm["type"])
				if t == "" {
					t = schemaName(xm["schema"])
				}
				req, _ := xm["required"].(bool)
				op.params = append(op.params, specParam{asStr(xm["in"]), asStr(xm["name"]), t, req})
			}
			sort.Slice(op.params, func(i, j int) bool {
				a, b := op.params[i], op.params[j]
				return a.in+" "+a.name < b.in+" "+b.name
			})
			for _, ct := range asMap(asMap(om["requestBody"])["content"]) {
				op.body = schemaName(asMap(ct)["schema"])
			}
			for code, x := range asMap(om["responses"]) {
				xm := asMap(x)
				s := schemaName(xm["schema"])
				for _, ct := range asMap(xm["content"]) {
					if n := schemaName(asMap(ct)["schema"]); n != "" {
						s = n
					}
				}
				op.responses[code] = s
			}
		}
	}
	defs := asMap(m["definitions"])
	if defs == nil {
		defs = asMap(asMap(m["components"])["schemas"])
	}
	for n, s := range defs {
		sm := asMap(s)
		sc := &specSchema{typ: asStr(sm["type"]), props: map[string]string{}}
		for p, x := range asMap(sm["properties"]) {
			sc.props[p] = schemaName(x)
		}
		for _, e := range asList(sm["enum"]) {
			sc.enum = append(sc.enum, fmt.Sprint(e))
		}
		for _, e := range asList(sm["x-enum-varnames"]) {
			sc.names = append(sc.names, asStr(e))
		}
		d.schemas[n] = sc
	}
	return d, raw, nil
}

// likeJSON converts decoded YAML to what decoding JSON would give.
func likeJSON(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = likeJSON(x)
		}
		return m
	case map[any]any:
		m := map[string]any{}
		for k, x := range v {
			m[fmt.Sprint(k)] = likeJSON(x)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i, x := range v {
			l[i] = likeJSON(x)
		}
		return l
	case int:
		return float64(v)
	}
	return v
}

// summary renders what a document promises, for comparing its published forms.
func (d *apiDoc) summary() []string {
	var l []string
	for _, b := range d.bases {
		l = append(l, "base "+b)
	}
	for k, o := range d.ops {
		l = append(l, fmt.Sprintf("%s params %v", k, o.params), k+" body "+o.body)
		for c, s := range o.responses {
			l = append(l, k+" "+c+" "+s)
		}
	}
	for n, s := range d.schemas {
		l = append(l, fmt.Sprintf("%s type %s %v %v", n, s.typ, s.enum, s.names))
		for p, t := range s.props {
			l = append(l, n+"."+p+" "+t)
		}
	}
	sort.Strings(l)
	return l
}
