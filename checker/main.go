package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	out := flag.String("out", "/verif", "directory of the evidence and the known findings")
	flag.Parse()
	if flag.Arg(0) == "run" {
		os.Exit(runCheck(*repo, *out, flag.Arg(1)))
	}
	pr, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	x := newExec(pr)
	if err := x.initGlobals(); err != nil {
		fmt.Fprintln(os.Stderr, "init:", err)
		os.Exit(2)
	}
	rep := x.deriveSchema()
	x.schemaRep = rep
	if flag.Arg(0) == "schema" {
		fmt.Println(strings.Join(rep.Lines, "\n"))
		fmt.Println(rep.Problems)
	}
	if flag.Arg(0) == "check" {
		var ids []string
		for _, a := range flag.Args()[1:] {
			if a == "all" {
				for id := range properties {
					ids = append(ids, id)
				}
			} else {
				ids = append(ids, a)
			}
		}
		if os.Getenv("RC_FIRST") == "" {
			sort.Strings(ids)
		}
		cache := map[string][]Ret{}
		for _, id := range ids {
			c := newChecker(x)
			c.cache = cache
			c.runProperty(properties[id])
			first := os.Getenv("RC_FIRST") != "" && len(c.viol) > 0
			fmt.Println(id, len(c.viol), "violations", c.rules)
			for _, v := range c.violations() {
				fmt.Println("  ", v.Rule, v.Construct, v.Where, v.Message)
				if os.Getenv("RC_PATH") != "" {
					for _, l := range v.Path {
						fmt.Println("        ", l)
					}
				}
			}
			if first {
				break
			}
		}
	}
	if flag.Arg(0) == "refactor" {
		pr.refactor(flag.Arg(1))
		return
	}
	if flag.Arg(0) == "mutants" {
		pr.mutants()
	}
	if flag.Arg(0) == "api" {
		newChecker(x).dumpAPI(flag.Arg(1))
	}
	if flag.Arg(0) == "main" {
		c := newChecker(x)
		c.dumpRets(c.api().main)
	}
	if flag.Arg(0) == "sub" {
		newChecker(x).dumpSub()
	}
	if flag.Arg(0) == "dump" {
		dump(x, flag.Arg(1))
	}
}

func dump(x *Exec, name string) {
	parts := strings.Split(name, ".")
	pk := x.prog.pkg(modPath + "/" + parts[0])
	if parts[0] == "" {
		pk = x.prog.pkg(modPath)
	}
	fn := pk.Func(parts[1])
	if len(parts) == 3 {
		fn = x.prog.method(pk.Pkg.Path(), parts[1], parts[2])
	}
	if os.Getenv("NOOP") == "" {
		x.opaque[pkgNonce+".Generate"] = true
	}
	st := x.base
	rets := x.callEntry(st, fn)
	for i, r := range rets {
		if i > 400 {
			break
		}
		fmt.Printf("== outcome %d panic=%v exit=%v: %v\n", i, r.Panic, r.Exit, r.V)
		for _, e := range r.St.events() {
			fmt.Printf("   %-14s %s %v -> %v  [%s]\n", e.Kind, e.Name, e.Args, e.Res, x.prog.pos(e.Pos))
			if e.Loop != nil {
				for _, v := range append(e.Loop.Phis, e.Loop.Cells...) {
					fmt.Printf("       var %s %v init %v\n", v.Name, v.Sym, v.Init)
				}
				for _, s := range e.Loop.Steps {
					fmt.Printf("       step next=%v nextC=%v\n", s.Next, s.NextC)
					for _, e := range s.Events {
						fmt.Printf("           %-14s %s %v -> %v\n", e.Kind, e.Name, e.Args, e.Res)
					}
				}
			}
		}
		var fs []string
		for _, l := range r.St.facts.list {
			fs = append(fs, fmt.Sprintf("%v=%v", l.t, l.truth))
		}
		fmt.Printf("   facts: %s\n", strings.Join(fs, " ; "))
	}
	var ns []string
	for n, k := range x.notes {
		ns = append(ns, fmt.Sprintf("%s (%d)", n, k))
	}
	sort.Strings(ns)
	fmt.Println("notes:", ns, "limit", x.limit, "paths", x.paths)
}

// callEntry runs a function with symbolic parameters.
func (x *Exec) callEntry(st State, fn ssaFn) []Ret {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, x.named(p.Name(), p.Type()))
	}
	return x.callFn(st, fn, args, nil, nil, nil)
}
