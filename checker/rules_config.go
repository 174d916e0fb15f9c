package main

// Rules about the command line options and environment variables: their names,
// their defaults, and the places that tell users to set them.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
)

type cfgOption struct {
	path             string // Go fields
	long, short, env string
	typ              types.Type
	def              string
	required, posit  bool
}

// cfgOptions lists the options that go-arg derives from a struct, in its order.
func cfgOptions(T types.Type, path string, bad func(path, what string)) (out []cfgOption) {
	s := structOf(T)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f, tag := s.Field(i), reflect.StructTag(s.Tag(i))
		p := path + "." + f.Name()
		arg := tag.Get("arg")
		if arg == "-" {
			continue
		}
		if f.Embedded() && structOf(f.Type()) != nil {
			if derefType(f.Type()) != nil {
				bad(p, "an embedded pointer has no options")
				continue
			}
			out = append(out, cfgOptions(f.Type(), p, bad)...)
			continue
		}
		if !ast.IsExported(f.Name()) {
			if arg != "" {
				bad(p, "the option is never set because the field is not exported")
			}
			continue
		}
		o := cfgOption{path: p, long: strings.ToLower(f.Name()), typ: f.Type(), def: tag.Get("default")}
		for _, k := range strings.Split(arg, ",") {
			k = strings.TrimLeft(k, " ")
			v := ""
			if j := strings.Index(k, ":"); j >= 0 {
				k, v = k[:j], k[j+1:]
			}
			switch {
			case k == "":
			case strings.HasPrefix(k, "---"):
				bad(p, "the name of the option has too many hyphens")
			case strings.HasPrefix(k, "--"):
				o.long = k[2:]
			case strings.HasPrefix(k, "-"):
				o.short = k[1:]
				if len(k) != 2 {
					bad(p, "the short name of the option is not one character")
				}
			case k == "env":
				if o.env = v; v == "" {
					o.env = strings.ToUpper(f.Name())
				}
			case k == "required":
				o.required = true
			case k == "positional":
				o.posit = true
			case k == "separate", k == "help":
			default:
				bad(p, "the tag "+k+" is not understood")
			}
		}
		if _, has := tag.Lookup("default"); has {
			if why := cfgParse(o.typ, o.def); why != "" {
				bad(p, "the default "+strconv.Quote(o.def)+" is "+why)
			}
		}
		out = append(out, o)
	}
	return out
}

// cfgParse: why a text is not a value of a type ("" if it is).
func cfgParse(T types.Type, s string) string {
	if typeKey(T) == "time.Duration" {
		if _, err := time.ParseDuration(s); err != nil {
			return "no duration"
		}
		return ""
	}
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	var err error
	bits := map[types.BasicKind]int{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32}[b.Kind()]
	if bits == 0 {
		bits = 64
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		_, err = strconv.ParseBool(s)
	case b.Info()&types.IsUnsigned != 0:
		_, err = strconv.ParseUint(s, 0, bits)
	case b.Info()&types.IsInteger != 0:
		_, err = strconv.ParseInt(s, 0, bits)
	case b.Info()&types.IsFloat != 0:
		_, err = strconv.ParseFloat(s, bits)
	}
	if err != nil {
		return "no " + b.Name()
	}
	return ""
}

// positive: the value is a number, duration or text that enables something.
func cfgPositive(s string) bool {
	if d, err := time.ParseDuration(s); err == nil {
		return d > 0
	}
	n, err := strconv.ParseInt(s, 0, 64)
	return err == nil && n > 0
}

func (c *Checker) configRules() {
	// The structs that are parsed on every path of the program.
	var T types.Type
	pos := 0
	for i := range c.api().main {
		st := &c.api().main[i].St
		var first *Event
		for _, e := range st.events() {
			switch e.Kind {
			case "args":
				if !c.must(first == nil, "cfg-parse", "once", e.Pos, st, "the command line is parsed more than once") {
					continue
				}
				first = e
				if c.must(len(e.Res) == 1 && structOf(e.Res[0].T) != nil, "cfg-parse", "one", e.Pos, st, "the command line is not parsed into one struct") {
					c.must(T == nil || types.Identical(T, e.Res[0].T), "cfg-parse", "same", e.Pos, st, "the command line is parsed into different structs")
					T = e.Res[0].T
				}
			case "engine", "group.new":
				c.must(first != nil, "cfg-parse", "order", e.Pos, st, "the instance starts before the command line is parsed")
			}
		}
		pos++
	}
	if !c.must(T != nil && pos > 0, "cfg-parse", "any", 0, nil, "the command line is not parsed") {
		return
	}
	opts := cfgOptions(T, "args", func(p, what string) { c.must(false, "cfg-option", p, 0, nil, "%s: %s", p, what) })
	long, short, env := map[string]*cfgOption{}, map[string]*cfgOption{}, map[string]*cfgOption{}
	for i := range opts {
		o := &opts[i]
		c.ok("cfg-option")
		c.must(!o.required && !o.posit, "cfg-option", "--"+o.long, 0, nil, "the option --%s must be given", o.long)
		if d := long[o.long]; d != nil {
			c.must(false, "cfg-distinct", "--"+o.long, 0, nil, "--%s is the name of both %s and %s", o.long, d.path, o.path)
		}
		c.must(o.long != "help" && o.long != "version" && o.short != "h", "cfg-distinct", "--"+o.long, 0, nil, "--%s means something else", o.long)
		if d := short[o.short]; d != nil && o.short != "" {
			c.must(false, "cfg-distinct", "-"+o.short, 0, nil, "-%s is the name of both --%s and --%s", o.short, d.long, o.long)
		}
		if d := env[o.env]; d != nil && o.env != "" {
			c.must(false, "cfg-distinct", o.env, 0, nil, "%s is the variable of both --%s and --%s", o.env, d.long, o.long)
		}
		c.must(o.env == strings.ToUpper(strings.ReplaceAll(o.long, "-", "_")), "cfg-env", "--"+o.long, 0, nil, "the option --%s is not read from the environment variable of its name, but from %q", o.long, o.env)
		long[o.long], short[o.short], env[o.env] = o, o, o
	}
	// What users are told to set.
	named := func(from, name string, o *cfgOption) *cfgOption {
		c.must(o != nil, "cfg-documented", from+" "+name, 0, nil, "%s sets %s, which is not an option", from, name)
		return o
	}
	valued := func(from, name, value string, o *cfgOption) {
		if named(from, name, o) != nil {
			why := cfgParse(o.typ, value)
			c.must(why == "", "cfg-documented", from+" "+name, 0, nil, "%s sets %s to %q, which is %s", from, name, value, why)
		}
	}
	dir := c.x.prog.dir
	read := func(f string) string {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return ""
		}
		return string(b)
	}
	readme := read("README.md")
	for _, m := range regexp.MustCompile("`--([a-z][a-z-]*)`").FindAllStringSubmatch(readme, -1) {
		named("README.md", "--"+m[1], long[m[1]])
	}
	for _, l := range strings.Split(readme, "\n") {
		if l = strings.TrimSpace(l); !strings.HasPrefix(l, "$ ratus ") {
			continue
		}
		w := strings.Fields(l)[2:]
		for i := 0; i < len(w); i++ {
			if !strings.HasPrefix(w[i], "--") {
				continue
			}
			k, v, eq := strings.Cut(w[i][2:], "=")
			o := long[k]
			if o != nil && !eq && i+1 < len(w) && !(types.Identical(o.typ.Underlying(), types.Typ[types.Bool])) {
				v, eq = w[i+1], true
			}
			if eq {
				valued("README.md", "--"+k, v, o)
			} else {
				named("README.md", "--"+k, o)
			}
		}
	}
	for _, m := range regexp.MustCompile("`((?:MEMDB|MONGODB|CHORE|PAGINATION)_[A-Z_]+|ENGINE|PORT|BIND)(?:=([^`]*))?`").FindAllStringSubmatch(readme, -1) {
		if m[2] != "" {
			valued("README.md", m[1], m[2], env[m[1]])
		} else {
			named("README.md", m[1], env[m[1]])
		}
	}
	for _, m := range regexp.MustCompile(`(?m)^ENV ([A-Z_]+)="?([^"\n]*)"?$`).FindAllStringSubmatch(read("Dockerfile"), -1) {
		if !strings.HasPrefix(m[1], "GIN_") {
			valued("Dockerfile", m[1], m[2], env[m[1]])
		}
	}
	files, _ := filepath.Glob(filepath.Join(dir, "deployments", "*", "*.y*ml"))
	sort.Strings(files)
	for _, f := range files {
		rel, _ := filepath.Rel(dir, f)
		for _, kv := range deployed(read(rel)) {
			valued(rel, kv[0], kv[1], env[kv[0]])
		}
	}
	// Documented defaults.
	for _, d := range []struct{ name, want string }{
		{"engine", "memdb"}, {"port", "80"}, {"memdb-snapshot-path", ""},
		{"mongodb-disable-index-creation", "false"}, {"mongodb-disable-auto-fallback", "false"}, {"mongodb-disable-atomic-poll", "false"},
		{"chore-interval", "+"}, {"pagination-max-limit", "+"}, {"pagination-max-offset", "+"},
		{"memdb-snapshot-interval", "+"}, {"memdb-retention-period", "+"}, {"mongodb-retention-period", "+"},
		{"bind", "0.0.0.0"}, {"chore-initial-delay", ""}, {"chore-initial-random", ""}, {"mongodb-uri", "*"}, {"mongodb-database", "*"}, {"mongodb-collection", "*"},
	} {
		o := long[d.name]
		if !c.must(o != nil, "cfg-default", "--"+d.name, 0, nil, "there is no option --%s", d.name) {
			continue
		}
		ok := true
		switch d.want {
		case "+":
			ok = cfgPositive(o.def)
		case "*":
			ok = o.def != ""
		case "":
			ok = d.name != "memdb-snapshot-path" || o.def == ""
		case "false":
			ok = o.def == "" || o.def == "false"
		default:
			ok = o.def == d.want
		}
		c.must(ok, "cfg-default", "--"+d.name, 0, nil, "the default of --%s is %q", d.name, o.def)
	}
	for r, n := range map[string]int{"cfg-parse": 10, "cfg-option": 18, "cfg-env": 18, "cfg-distinct": 18, "cfg-documented": 30, "cfg-default": 18} {
		c.atLeast(r, n)
	}
}

// deployed lists the environment variables of the services of a deployment that
// run the published image.
func deployed(text string) (out [][2]string) {
	dec := yaml.NewDecoder(strings.NewReader(text))
	for {
		var doc any
		if dec.Decode(&doc) != nil {
			return out
		}
		var walk func(v any)
		walk = func(v any) {
			switch v := v.(type) {
			case map[string]any:
				if img, _ := v["image"].(string); strings.HasPrefix(img, "hyperonym/ratus") {
					switch e := v["environment"].(type) {
					case map[string]any:
						for k, x := range e {
							out = append(out, [2]string{k, fmt.Sprint(x)})
						}
					case []any:
						for _, x := range e {
							if k, y, ok := strings.Cut(fmt.Sprint(x), "="); ok {
								out = append(out, [2]string{k, y})
							}
						}
					}
					if e, ok := v["env"].([]any); ok {
						for _, x := range e {
							if m, ok := x.(map[string]any); ok && m["value"] != nil {
								out = append(out, [2]string{fmt.Sprint(m["name"]), fmt.Sprint(m["value"])})
							}
						}
					}
				}
				for _, x := range v {
					walk(x)
				}
			case []any:
				for _, x := range v {
					walk(x)
				}
			}
		}
		walk(doc)
		sort.Slice(out, func(i, j int) bool { return out[i][0]+out[i][1] < out[j][0]+out[j][1] })
	}
}
