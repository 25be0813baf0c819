package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// violation is one construct that breaks a property.
type violation struct {
	rule  string
	where string // function or type
	what  string
	pos   token.Pos
	more  []string
}

func (v *violation) key() string { return v.rule + "|" + v.where + "|" + v.what }

// Report collects what one check examined and found.
type Report struct {
	P     *Prog
	prop  string
	vs    map[string]*violation
	rules map[string]*ruleStat
	notes []string
	extra map[string]any
}

type ruleStat struct {
	Rule     string `json:"rule"`
	Text     string `json:"decides"`
	Examined int    `json:"obligations"`
	Open     int    `json:"not_discharged"`
}

func newReport(P *Prog, prop string) *Report {
	return &Report{P: P, prop: prop, vs: map[string]*violation{}, rules: map[string]*ruleStat{}, extra: map[string]any{}}
}

// rule declares a rule; ob counts what it examined.
func (r *Report) rule(name, text string) {
	if r.rules[name] == nil {
		r.rules[name] = &ruleStat{Rule: name, Text: text}
	}
}

func (r *Report) ob(name string, n int) {
	if r.rules[name] == nil {
		r.rule(name, "")
	}
	r.rules[name].Examined += n
}

func (r *Report) bad(rule, where string, pos token.Pos, format string, a ...any) *violation {
	v := &violation{rule: rule, where: where, what: fmt.Sprintf(format, a...), pos: pos}
	k := v.key()
	if o := r.vs[k]; o != nil {
		if pos.IsValid() {
			o.more = append(o.more, "also "+r.P.pos(pos))
		}
		return o
	}
	r.vs[k] = v
	if r.rules[rule] == nil {
		r.rule(rule, "")
	}
	r.rules[rule].Open++
	return v
}

func (r *Report) fnBad(rule string, f *ssa.Function, pos token.Pos, format string, a ...any) *violation {
	return r.bad(rule, fnName(f), pos, format, a...)
}

// need reports an anchor of the analysis that the source no longer has.
func (r *Report) need(ok bool, what string) bool {
	r.rule("anchor", "the constructs the analysis starts from exist in the source")
	r.ob("anchor", 1)
	if !ok {
		r.bad("anchor", what, token.NoPos, "not found in the source, so the property cannot be decided")
	}
	return ok
}

type finding struct {
	key, text string
	used      bool
}

// anyWhere: the finding names what fails by itself (a slot, a word), wherever the code that fills it stands.
func (f *finding) anyWhere(v *violation) bool {
	return f.key == v.rule+"|*|"+v.what
}

// loadFindings reads the known findings of one property.
//
//	known: property=P04 key=<rule|where|what> :: <what fails>
//	fixed: property=P04 <commit> <what failed>
func loadFindings(path, prop string) ([]*finding, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []*finding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "known: property=" + prop + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		k, t, ok := strings.Cut(strings.TrimPrefix(l, pre), " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed finding: %s", l)
		}
		out = append(out, &finding{key: k, text: t})
	}
	return out, sc.Err()
}

// finish prints the verdict, writes the evidence and returns the exit status.
func (r *Report) finish(tier string, seed int, evidence, findings, replayDir string, t0 time.Time) int {
	fs, err := loadFindings(findings, r.prop)
	if err != nil {
		r.bad("tool", "known findings", token.NoPos, "%v", err)
	}
	var keys []string
	for k := range r.vs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var open []*violation
	var known []string
	for _, k := range keys {
		hit := false
		for _, f := range fs {
			if f.key == k || f.anyWhere(r.vs[k]) {
				hit = true
				if !f.used {
					f.used = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, f.text)
					known = append(known, k)
				}
			}
		}
		if !hit {
			open = append(open, r.vs[k])
		}
	}
	var rs []*ruleStat
	var names []string
	for n := range r.rules {
		names = append(names, n)
	}
	sort.Strings(names)
	total := 0
	for _, n := range names {
		rs = append(rs, r.rules[n])
		total += r.rules[n].Examined
	}
	var texts []string
	for _, v := range open {
		texts = append(texts, r.text(v))
	}
	cov := map[string]any{
		"explanation":            "Static analysis of the type-checked source and its SSA form; nothing is executed. Each rule lists the number of constructs (call sites, paths, fields, blocks) it had to discharge in this run and how many it could not.",
		"rules":                  rs,
		"obligations_examined":   total,
		"functions_in_packages":  len(r.P.Funcs),
		"node_types":             len(r.P.Nodes),
		"known_findings_matched": known,
		"reported":               texts,
		"notes":                  r.notes,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": r.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{"the Go type checker and golang.org/x/tools/go/ssa represent the source faithfully", "no unsafe, cgo or linkname in the analysed packages (checked by P16)"},
		"wall_s":      time.Since(t0).Seconds(), "violations": len(open)}
	if evidence != "" {
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(open) == 0 {
		fmt.Printf("%s: held; %d obligations in %d rules, %d known findings, %.1fs\n", r.prop, total, len(rs), len(known), time.Since(t0).Seconds())
		return 0
	}
	os.MkdirAll(replayDir, 0o755)
	for i, v := range open {
		p := filepath.Join(replayDir, fmt.Sprintf("%s-%d.txt", r.prop, i+1))
		os.WriteFile(p, []byte(r.text(v)+"\nkey: "+v.key()+"\n"), 0o644)
		fmt.Printf("%s\n", r.text(v))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
	}
	return 1
}

func (r *Report) text(v *violation) string {
	s := fmt.Sprintf("[%s] %s: %s", v.rule, v.where, v.what)
	if v.pos.IsValid() {
		s = r.P.pos(v.pos) + ": " + s
	}
	for _, m := range v.more {
		s += "\n    " + m
	}
	return s
}
