package main

import (
	"flag"
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// checks maps a property to the function deciding it.
var checks = map[string]func(*Prog, *Report){}

func main() {
	repo := flag.String("repo", "/repo", "working tree to analyse")
	prop := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	ev := flag.String("evidence", "", "evidence file to write")
	kf := flag.String("findings", "/verif/known_findings.txt", "known findings")
	rd := flag.String("replay", "/verif/evidence/replay", "directory for violation records")
	dbg := flag.String("dbg", "", "print contexts matching this")
	dump := flag.String("dump", "", "print a function's SSA")
	flag.Parse()
	debug.SetGCPercent(400)
	if pf := os.Getenv("SAPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	P, err := load(*repo)
	if err == nil && *dump != "" {
		for _, f := range P.Funcs {
			if strings.Contains(f.String(), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *prop != "" {
		if P == nil {
			P = &Prog{Repo: *repo, Fset: token.NewFileSet()}
		}
		os.Exit(runCheck(P, err, *prop, *tier, seed, *ev, *kf, *rd, t0))
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	debugMain(P, *dbg, t0)
}

func runCheck(P *Prog, err error, prop, tier string, seed int, ev, kf, rd string, t0 time.Time) (code int) {
	r := newReport(P, prop)
	f := checks[prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	if err != nil {
		r.bad("tool", "load", token.NoPos, "the source could not be loaded: %v", err)
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("SADEBUG") != "" {
						panic(x)
					}
					r.bad("tool", "analysis", token.NoPos, "the analysis could not finish: %v", x)
				}
			}()
			f(P, r)
		}()
	}
	return r.finish(tier, seed, ev, kf, rd, t0)
}

func debugMain(P *Prog, dbg string, t0 time.Time) {
	fmt.Println("load", time.Since(t0), len(P.Funcs))
	e, err := runParse(P)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	printAlarms(P, e)
	if os.Getenv("SAAST") != "" {
		a := runAST(P, e)
		printAlarms(P, a)
		e = a
	}
	if dbg != "" {
		for _, c := range e.ctxs {
			if strings.Contains(c.k, dbg) {
				fmt.Println("CTX", c.k, "live", e.live[c])
				for k := range c.outs {
					fmt.Println("     ", k)
				}
			}
		}
	}
	if os.Getenv("SADEAD") != "" {
		for _, l := range e.deadBlocks() {
			fmt.Println("DEAD", l)
		}
	}
	if os.Getenv("SASTAT") != "" {
		stats(e)
	}
	fmt.Println("done", time.Since(t0), "ctxs", len(e.ctxs), "rounds", e.rounds)
}

func printAlarms(P *Prog, e *Engine) {
	for _, a := range e.sorted() {
		fmt.Printf("%s %s %s: %s\n", a.rule, P.pos(a.pos), fnName(a.fn), a.what)
		if os.Getenv("SACHAIN") != "" {
			fmt.Println("     ctx", a.ctx.k)
			for _, l := range e.chain(a.ctx) {
				fmt.Println("    ", l)
			}
		}
	}
	for k, v := range e.oblig {
		fmt.Println(k, v)
	}
}

func stats(e *Engine) {
	type st struct {
		n       string
		s, c, o int
	}
	m := map[string]*st{}
	for _, c := range e.ctxs {
		k := fnName(c.fn)
		if m[k] == nil {
			m[k] = &st{n: k}
		}
		m[k].s += c.states
		m[k].c++
		m[k].o += len(c.outs)
	}
	var l []*st
	for _, x := range m {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].c > l[j].c })
	for i := 0; i < 30 && i < len(l); i++ {
		fmt.Println(l[i].s, "ctx", l[i].c, "outs", l[i].o, l[i].n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s > l[j].s })
	for i := 0; i < 50 && i < len(l); i++ {
		fmt.Println(l[i].s, "ctx", l[i].c, "outs", l[i].o, l[i].n)
	}
}
