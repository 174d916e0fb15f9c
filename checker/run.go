package main

// The check command: decides one property on the current source tree, writes the
// evidence and the report of the violations.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFindings struct {
	keys map[string]string // property + rule@construct -> text
}

// loadKnown reads the committed list of known findings. Lines starting with
// "fixed:" document repaired defects and suppress nothing.
func loadKnown(path string) (knownFindings, error) {
	k := knownFindings{keys: map[string]string{}}
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return k, nil
	}
	if err != nil {
		return k, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=<id> key=<rule@construct> <text>
		fs := strings.Fields(strings.TrimPrefix(l, "known:"))
		if len(fs) < 3 {
			continue
		}
		id, key := strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "key=")
		k.keys[id+" "+key] = strings.Join(fs[2:], " ")
	}
	return k, sc.Err()
}

func runCheck(repo, out, id string) int {
	start := time.Now()
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known, err := loadKnown(filepath.Join(out, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	pr, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "the source tree cannot be loaded:", err)
		return 2
	}
	x := newExec(pr)
	if tier == "thorough" {
		x.maxPath *= 10
	}
	c := newChecker(x)
	if err := x.initGlobals(); err != nil {
		c.fail("analysis", "globals", 0, "package initialisation cannot be analysed: "+err.Error(), nil)
	} else {
		c.runProperty(p)
	}
	vs := c.violations()
	var report strings.Builder
	var bad []*Violation
	fmt.Fprintf(&report, "property %s\nrule: %s\n\n", id, p.Rule)
	for _, v := range vs {
		mark := "VIOLATION"
		if t, ok := known.keys[id+" "+v.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, t)
			mark = "KNOWN"
		} else {
			bad = append(bad, v)
		}
		fmt.Fprintf(&report, "%s %s\n  at %s\n  %s\n", mark, v.key(), v.Where, v.Message)
		for _, l := range v.Path {
			fmt.Fprintf(&report, "    %s\n", l)
		}
		report.WriteByte('\n')
	}
	if err := c.writeEvidence(out, id, tier, seed, p, bad, time.Since(start).Seconds()); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	if len(bad) == 0 {
		n := 0
		for _, k := range c.rules {
			n += k
		}
		fmt.Printf("property %s holds: %d obligations of %d rules on %d entry points\n", id, n, len(c.rules), len(c.entries))
		return 0
	}
	rp := filepath.Join(out, "evidence", id+".report.txt")
	if err := os.WriteFile(rp, []byte(report.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
	}
	for _, v := range bad {
		fmt.Printf("%s: [%s] %s: %s\n", v.Where, v.Rule, v.Construct, v.Message)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func (c *Checker) writeEvidence(out, id, tier string, seed int, p *Property, bad []*Violation, wall float64) error {
	dir := filepath.Join(out, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	os.Remove(filepath.Join(dir, id+".report.txt"))
	total := 0
	for _, n := range c.rules {
		total += n
	}
	outcomes := 0
	var es []string
	for e, n := range c.entries {
		outcomes += n
		es = append(es, fmt.Sprintf("%s: %d outcomes", e, n))
	}
	sort.Strings(es)
	cov := map[string]any{
		"explanation":           "Static analysis of the current source (SSA form, type-checked, all dependencies resolved): every path through each entry point is interpreted over abstract values (value numbers, nullness, intervals and linear relations, heap shapes, typestates of transactions, iterators, files, timers and responses), loops by an inductive abstraction of one iteration, and the rule is checked as an obligation on every path and every abstract iteration. Nothing of the repository is executed. Rule: " + p.Rule,
		"rule":                  p.Rule,
		"entry_points_analysed": es,
		"outcomes_enumerated":   outcomes,
		"functions_inlined":     c.x.inlinedList(),
		"obligations":           total,
		"discharged":            total - len(c.viol),
		"obligations_by_rule":   c.rules,
	}
	if c.schema != nil {
		cov["derived_indexes"] = c.schema.Lines
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov,
		"assumptions": append([]string{
			"Library code outside the repository behaves as its documentation says (models of go-memdb, the MongoDB driver, gin, net/http, encoding, time and os are part of the analyser).",
			"No use of unsafe, reflection or cgo alters values behind the analysis, except where modelled.",
		}, p.Assume...),
		"wall_s":     wall,
		"violations": len(bad),
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

// inlinedList names the repository functions the analysis went through.
func (x *Exec) inlinedList() []string {
	var r []string
	for fn := range x.visited {
		r = append(r, strings.ReplaceAll(fn.String(), modPath, "ratus"))
	}
	sort.Strings(r)
	return r
}
