package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runParse analyses everything reachable from the parsing entry point.
func runParse(P *Prog) (*Engine, error) { return runFocus(P, nil) }

func runFocus(P *Prog, f focus) (*Engine, error) {
	return runHooked(P, func(e *Engine) { e.focus = f })
}

func runHooked(P *Prog, set func(*Engine)) (*Engine, error) {
	e, err := newEngine(P, "parse")
	if err != nil {
		return nil, err
	}
	set(e)
	root := P.fn("(*Parser).ParseStmts")
	if root == nil {
		return nil, fmt.Errorf("entry point (*Parser).ParseStmts not found")
	}
	// A new parser has no current token yet; the first step of the entry point
	// is to read one, which the token model describes like any other step.
	c := e.getCtx(root, []aval{{b: bV}}, tokV, "", tkSep)
	c.root = true
	e.solve()
	e.finish()
	return e, nil
}

func (e *Engine) sorted() []*alarm {
	var ks []string
	for k := range e.alarms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*alarm
	for _, k := range ks {
		out = append(out, e.alarms[k])
	}
	return out
}

// chain gives one way the context is reached.
func (e *Engine) chain(c *ctx) []string {
	var out []string
	seen := map[*ctx]bool{}
	for n := 0; c != nil && n < 6; n++ {
		seen[c] = true
		var best *ctx
		for d := range e.live {
			if d.calls[c] && !seen[d] && (best == nil || d.k < best.k) {
				best = d
			}
		}
		if best != nil {
			out = append(out, "called from "+fnName(best.fn))
		}
		c = best
	}
	return out
}

func (r *Report) take(e *Engine, rules ...string) {
	for _, n := range rules {
		r.ob(n, e.oblig[n])
	}
	for _, a := range e.sorted() {
		for _, n := range rules {
			if a.rule == n {
				v := r.fnBad(n, a.fn, a.pos, "%s", a.what)
				if len(v.more) == 0 {
					v.more = e.chain(a.ctx)
				}
			}
		}
	}
}

func (r *Report) parse() *Engine {
	e, err := runParse(r.P)
	if err != nil {
		r.need(false, err.Error())
		return nil
	}
	fns := map[*ssa.Function]bool{}
	for c := range e.live {
		fns[c.fn] = true
	}
	r.extra["parse_functions_analysed"] = len(fns)
	r.extra["parse_contexts"] = len(e.live)
	n := 0
	for c := range e.live {
		n += c.states
	}
	r.extra["parse_abstract_states"] = n
	r.extra["branches_no_path_takes"] = e.deadBlocks()
	return e
}

func init() {
	checks["P01"] = checkP01
	checks["P02"] = checkP02
	checks["P03"] = checkP03
	checks["P04"] = checkP04
	checks["P05"] = checkP05
	checks["P06"] = checkP06
	checks["P08"] = checkP08
}

func panicRules(r *Report) {
	r.rule("nil", "every pointer or interface that is dereferenced or called through is non-nil on every path reaching it")
	r.rule("index", "every index and slice bound is within range on every path")
	r.rule("assert", "every unchecked type assertion holds")
	r.rule("panic", "no explicit panic is reachable")
}

func checkP01(P *Prog, r *Report) {
	panicRules(r)
	e := r.parse()
	if e == nil {
		return
	}
	r.take(e, "nil", "index", "assert", "panic")
	r.rule("lexbounds", "every byte and slice of the input the tokenizer reads lies within the input")
	r.rule("within", "every step of the tokenizer leaves its position inside the input")
	r.lex(e, "lexbounds", "within")
	// Pos and End of nodes the parser asks for positions while it is still reading
	asked := e.nodeCalls
	a := runAST(P, e)
	r.rule("node", "the position methods the parser calls on nodes it has built do not panic for any node it can have built")
	for _, al := range a.sorted() {
		n, _ := structOf(recvType(al.ctx))
		if n != nil && (asked[al.ctx.fn.Name()+"@"+n.Obj().Name()] || asked[al.ctx.fn.Name()+"@*"]) {
			v := r.fnBad("node", al.fn, al.pos, "%s", al.what)
			v.more = a.chain(al.ctx)
		}
	}
	r.ob("node", len(asked))
}

func recvType(c *ctx) types.Type {
	if c.fn.Signature.Recv() != nil {
		return c.fn.Signature.Recv().Type()
	}
	return types.Typ[types.Int]
}

func checkP02(P *Prog, r *Report) {
	r.rule("loop", "every loop either has a bounded control or consumes input on every path back to its head")
	r.rule("recursion", "no function is re-entered from itself without a token consumed in between")
	e := r.parse()
	if e == nil {
		return
	}
	r.take(e, "loop")
	// strongly connected components of the calls made before anything is consumed
	idx := map[*ctx]int{}
	low := map[*ctx]int{}
	on := map[*ctx]bool{}
	var stack []*ctx
	n := 0
	edges := 0
	var sccs [][]*ctx
	succs := func(c *ctx) []*ctx {
		var out []*ctx
		for d := range c.advFalse {
			out = append(out, d)
		}
		sort.Slice(out, func(i, j int) bool { return out[i].k < out[j].k })
		return out
	}
	var dfs func(c *ctx)
	dfs = func(c *ctx) {
		n++
		idx[c], low[c] = n, n
		stack = append(stack, c)
		on[c] = true
		for _, d := range succs(c) {
			edges++
			if idx[d] == 0 {
				dfs(d)
				low[c] = min(low[c], low[d])
			} else if on[d] {
				low[c] = min(low[c], idx[d])
			}
		}
		if low[c] == idx[c] {
			var s []*ctx
			for {
				d := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[d] = false
				s = append(s, d)
				if d == c {
					break
				}
			}
			_, self := c.advFalse[c]
			if len(s) > 1 || self {
				sccs = append(sccs, s)
			}
		}
	}
	var all []*ctx
	for c := range e.live {
		all = append(all, c)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].k < all[j].k })
	for _, c := range all {
		if idx[c] == 0 {
			dfs(c)
		}
	}
	r.ob("recursion", edges)
	for _, s := range sccs {
		names := map[string]token.Pos{}
		touches := false
		for _, c := range s {
			names[fnName(c.fn)] = c.fn.Pos()
			if e.touchesParser(c.fn) {
				touches = true
			}
		}
		if !touches { // not part of the grammar: data recursion over the tree
			continue
		}
		var ns []string
		for k := range names {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		r.bad("recursion", ns[0], names[ns[0]], "can re-enter itself without consuming input: %s", strings.Join(ns, " -> "))
	}
	r.rule("lexloop", "every loop of the tokenizer moves its position forward on every path back to its head")
	r.lex(e, "lexloop")
}

func recvOf(f *ssa.Function) types.Type {
	if f.Signature.Recv() != nil {
		return f.Signature.Recv().Type()
	}
	return types.Typ[types.Int]
}

func checkP03(P *Prog, r *Report) {
	r.rule("swallow", "on every path to a successful return, no call that failed after consuming input has had its failure dropped, unless the state from before the attempt was restored")
	e := r.parse()
	if e == nil {
		return
	}
	r.take(e, "swallow")
	r.rule("failure", "a tokenization failure is kept and reported by every later step, and leaves no current token")
	r.lex(e, "failure")
}

func checkP04(P *Prog, r *Report) {
	r.rule("end", "the entry point succeeds only at the end of the input")
	r.rule("absent", "a function that reports its construct as absent without an error has consumed nothing")
	r.rule("dropped", "every node a grammar function returns is kept in a node, a list or the result, or passed on")
	r.rule("unseen", "no token is consumed that was not first compared with what the grammar expects or copied into the tree")
	e := r.parse()
	if e == nil {
		return
	}
	r.rule("overwritten", "storing what was read into a node never replaces something read earlier into the same place")
	r.take(e, "absent", "dropped", "overwritten", "unseen", "end")
	r.rule("eof", "the tokenizer reports the end of input only when the input is used up")
	r.lex(e, "eof")
}

func checkP05(P *Prog, r *Report) {
	r.rule("restore", "every state given back to the lexer is one saved earlier from the same lexer")
	r.rule("tokstore", "only the tokenizer replaces the current token")
	r.rule("lookahead", "a function that only asks about upcoming tokens gives every token back, on every path")
	r.rule("state", "everything the tokenizer and parser change while reading is part of the saved state")
	e := r.parse()
	if e == nil {
		return
	}
	r.take(e, "restore", "tokstore", "lookahead")
	stateRule(P, r, e)
}

func checkP06(P *Prog, r *Report) {
	r.rule("token", "the text of every token is the slice of the input between its recorded offsets, on every path that makes one")
	r.rule("skipped", "what a step moves past is the token, its quotes, white space or comments")
	r.rule("lexbounds", "every byte and slice of the input the tokenizer reads lies within the input")
	r.rule("within", "every step leaves the position inside the input and never before where it was")
	e, err := newEngine(P, "parse")
	if err != nil {
		r.need(false, err.Error())
		return
	}
	r.lex(e, "token", "skipped", "lexbounds", "within")
}

func checkP08(P *Prog, r *Report) {
	panicRules(r)
	e := r.parse()
	if e == nil {
		return
	}
	a := runAST(P, e)
	r.take(a, "nil", "index", "assert", "panic")
	var ms int
	for c := range a.live {
		if c.root {
			ms++
		}
	}
	r.extra["method_and_shape_combinations"] = ms
	shapes := 0
	for _, n := range P.Nodes {
		if c := e.class[n]; c != nil {
			shapes += len(c.shapes)
		}
	}
	r.extra["node_shapes_the_parser_builds"] = shapes
}
