package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A focus names fields of a node whose presence must be told apart together: states and outcomes that
// differ in them are never merged by force.

// focusVals lists the values a function stores into fields of the focus.
func (e *Engine) focusVals(f *ssa.Function) []ssa.Value {
	if len(e.focus) == 0 {
		return nil
	}
	if vs, ok := e.focusV[f]; ok {
		return vs
	}
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value, d int)
	add = func(v ssa.Value, d int) {
		if _, c := v.(*ssa.Const); c || seen[v] || d > 4 {
			return
		}
		seen[v] = true
		out = append(out, v)
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				add(y, d+1)
			}
		case *ssa.MakeInterface:
			add(x.X, d+1)
		case *ssa.ChangeInterface:
			add(x.X, d+1)
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						add(st.Val, d+1)
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n, _ := structOf(fa.X.Type())
			for _, i := range e.focus[n] {
				if i == fa.Field {
					add(st.Val, 0)
				}
			}
		}
	}
	if e.focusV == nil {
		e.focusV = map[*ssa.Function][]ssa.Value{}
	}
	e.focusV[f] = out
	return out
}

func (e *Engine) projShape(sh *shape) string {
	if sh == nil || len(e.focus[sh.n]) == 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString(sh.n.Obj().Name())
	for _, i := range e.focus[sh.n] {
		b.WriteString("," + (sh.f[i] & bMask).String())
	}
	return b.String()
}

// proj is what a state knows of the focus.
func (r *run) proj(s *state) string {
	if len(r.e.focus) == 0 {
		return ""
	}
	var out []string
	for v, n := range s.fresh {
		if len(r.e.focus[n]) > 0 && !s.pub[v] {
			out = append(out, v.Name()+r.e.projShape(r.shapeOf(s, v)))
		}
	}
	for _, v := range r.e.focusVals(r.fn) {
		if b, ok := s.env[v]; ok {
			out = append(out, v.Name()+"="+(b&bMask).String())
		} else if c := s.canon(v); c != v {
			out = append(out, v.Name()+"="+(s.get(c)&bMask).String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func (e *Engine) projOut(o *outcome) string {
	if len(e.focus) == 0 {
		return ""
	}
	s := ""
	for i, a := range o.res {
		if p := e.projShape(a.sh); p != "" {
			s += string(rune('a'+i)) + p + ";"
		}
	}
	for i, sh := range o.psh {
		if p := e.projShape(sh); p != "" {
			s += string(rune('A'+i)) + p + ";"
		}
	}
	return s
}

type focus map[*types.Named][]int

func (f focus) add(n *types.Named, i int) {
	for _, j := range f[n] {
		if i == j {
			return
		}
	}
	f[n] = append(f[n], i)
	sort.Ints(f[n])
}
