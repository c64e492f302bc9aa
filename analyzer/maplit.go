package main

// Maps that are tables: made by a literal with constant keys, and only read
// afterwards.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mapEntry struct {
	key *ssa.Const
	val ssa.Value
}

var globalMaps = map[*ssa.Global][]mapEntry{}

// mapLiteral are the entries of the map, when it is such a table
func mapLiteral(v ssa.Value) ([]mapEntry, bool) {
	switch m := v.(type) {
	case *ssa.MakeMap:
		return entriesOf(m, nil)
	case *ssa.UnOp:
		if g, ok := m.X.(*ssa.Global); ok && m.Op == token.MUL {
			es, ok := globalMaps[g]
			return es, ok
		}
	}
	return nil, false
}

// entriesOf: the map is filled where it is made and, but for being stored in
// the variable, only read
func entriesOf(m *ssa.MakeMap, g *ssa.Global) ([]mapEntry, bool) {
	var es []mapEntry
	seen := map[string]bool{}
	pos := map[ssa.Instruction]int{}
	for i, in := range m.Block().Instrs {
		pos[in] = i
	}
	last, first := -1, len(pos)
	read := func(in ssa.Instruction) {
		if i, ok := pos[in]; ok && i < first {
			first = i
		}
	}
	for _, r := range *m.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			k, ok := u.Key.(*ssa.Const)
			if !ok || k.Value == nil || u.Map != m || u.Value == m || u.Block() != m.Block() {
				return nil, false
			}
			if k.Value.Kind() != constant.String && k.Value.Kind() != constant.Int {
				return nil, false
			}
			if seen[k.Value.ExactString()] {
				return nil, false
			}
			seen[k.Value.ExactString()] = true
			if pos[u] > last {
				last = pos[u]
			}
			es = append(es, mapEntry{k, u.Value})
		case *ssa.Store:
			if g == nil || u.Addr != g || u.Val != m {
				return nil, false
			}
			read(u)
		default:
			if !readsMap(r) {
				return nil, false
			}
			read(r)
		}
	}
	return es, last < first
}

func readsMap(r ssa.Instruction) bool {
	switch u := r.(type) {
	case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
		return true
	case *ssa.Call:
		b, ok := u.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	return false
}

// globalMap: the variable holds such a table, and no other map ever
func globalMap(g *ssa.Global, us []ssa.Instruction, in *ssa.Function) {
	if p, ok := g.Type().Underlying().(*types.Pointer); !ok {
		return
	} else if _, ok := p.Elem().Underlying().(*types.Map); !ok {
		return
	}
	var m *ssa.MakeMap
	for _, u := range us {
		switch v := u.(type) {
		case *ssa.Store:
			k, ok := v.Val.(*ssa.MakeMap)
			if !ok || v.Parent() != in || v.Addr != g || m != nil {
				return
			}
			m = k
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return
			}
			for _, r := range *v.Referrers() {
				if !readsMap(r) {
					return
				}
			}
		case *ssa.DebugRef:
		default:
			return
		}
	}
	if m == nil {
		return
	}
	es, ok := entriesOf(m, g)
	for _, e := range es {
		switch e.val.(type) {
		case *ssa.Const, *ssa.Function:
		default:
			return
		}
	}
	if ok {
		globalMaps[g] = es
	}
}

// lookupLiteral: one path for each entry that it may be, and one for none
func (x *Exec) lookupLiteral(st *State, v *ssa.Lookup, es []mapEntry) []Outcome {
	et := v.Type()
	if v.CommaOk {
		et = v.Type().(*types.Tuple).At(0).Type()
	}
	give := func(s *State, val Value, ok bool) []Outcome {
		if v.CommaOk {
			val = VTuple{[]Value{val, VBool{condBool(ok)}}}
		}
		return x.set(s, v, val)
	}
	k := x.val(st, v.Index)
	if _, ok := k.(VIface); ok {
		return x.set(st, v, symVal(st.fresh("mapget"), v.Type()))
	}
	cur := []*State{st}
	var out []Outcome
	for _, e := range es {
		var next []*State
		for _, s := range cur {
			c := x.val(s, e.key)
			var cond *Cond
			if ki, ok := k.(VInt); ok {
				cond = condEQ(ki.L.sub(intOf(c)))
			} else {
				x.equal(s, v, k, c, v.Index.Type(), func(q *State, b *Cond) []Outcome {
					cond = b
					return nil
				})
			}
			t, f := s.branch(cond)
			for _, q := range t {
				out = append(out, give(q, x.val(q, e.val), true)...)
			}
			next = append(next, f...)
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, give(s, zeroVal(et), false)...)
	}
	return out
}
