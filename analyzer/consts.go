package main

// Package variables that are set once, by their initialiser, and only read
// afterwards: their value is known.

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// constInit is the value of such variables, and of what they point to
var constInit = map[*Term]Value{}
var constDone = map[*Repo]bool{}

func (x *Exec) constGlobals() {
	if constDone[x.r] {
		return
	}
	constDone[x.r] = true
	uses := map[*ssa.Global][]ssa.Instruction{}
	inits := map[*ssa.Package]*ssa.Function{}
	fns := append([]*ssa.Function{}, x.r.funcs...)
	for _, p := range x.r.pkgs {
		if f := p.Func("init"); f != nil {
			inits[p] = f
			fns = append(fns, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						uses[g] = append(uses[g], ins)
					}
				}
			}
		}
	}
	for g, us := range uses {
		in := inits[g.Pkg]
		if in != nil {
			globalMap(g, us, in)
		}
		if in == nil || g.Name() == "init$guard" || !onlyRead(us, in) {
			continue
		}
		x.evalGlobal(g, in)
	}
}

// onlyRead: outside the initialiser, the variable and what it refers to are
// only read
func onlyRead(us []ssa.Instruction, in *ssa.Function) bool {
	for _, u := range us {
		switch v := u.(type) {
		case *ssa.Store:
			if v.Parent() != in {
				return false
			}
			if _, ok := v.Val.(*ssa.Global); ok {
				return false
			}
		case *ssa.UnOp:
			if v.Op != token.MUL || !readsValue(v) {
				return false
			}
		case *ssa.IndexAddr:
			if !readsAddr(v, in) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func readsAddr(v *ssa.IndexAddr, in *ssa.Function) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Parent() != in || u.Addr != v {
				return false
			}
		case *ssa.UnOp:
			if u.Op != token.MUL || !readsValue(u) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// readsValue: a value read from the variable is not a way to change it
func readsValue(v *ssa.UnOp) bool {
	switch t := v.Type().Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Array:
		_, ok := t.Elem().Underlying().(*types.Basic)
		return ok
	case *types.Pointer:
		if t.Elem().String() != "math/big.Int" {
			return false
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				f := u.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "math/big" {
					return false
				}
				for i, a := range u.Call.Args {
					if a != v {
						continue
					}
					switch f.Name() {
					case "Cmp", "CmpAbs", "Sign", "BitLen", "Bit", "Bytes", "Int64", "Uint64", "IsInt64", "IsUint64", "String", "Text":
					case "Add", "Sub", "Mul", "Div", "Quo", "Mod", "Rem", "Exp", "GCD", "Set":
						if i == 0 {
							return false
						}
					case "DivMod", "QuoRem":
						if i != 1 && i != 2 {
							return false
						}
					default:
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	case *types.Slice:
		if _, ok := t.Elem().Underlying().(*types.Basic); !ok {
			return false
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.IndexAddr:
				if !readsAddr(u, nil) {
					return false
				}
			case *ssa.Call:
				b, ok := u.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

// evalGlobal runs the part of the initialiser that makes the variable
func (x *Exec) evalGlobal(g *ssa.Global, in *ssa.Function) {
	need := map[ssa.Instruction]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		ins, ok := v.(ssa.Instruction)
		if !ok || need[ins] {
			return
		}
		need[ins] = true
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				mark(*op)
			}
		}
		// what is stored in memory made here
		if _, ok := v.(*ssa.Alloc); ok {
			for _, r := range *v.Referrers() {
				switch u := r.(type) {
				case *ssa.Store:
					need[u] = true
					mark(u.Val)
				case *ssa.IndexAddr:
					mark(u)
					for _, s := range *u.Referrers() {
						if t, ok := s.(*ssa.Store); ok {
							need[t] = true
							mark(t.Val)
						}
					}
				}
			}
		}
	}
	found := false
	for _, b := range in.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			root := s.Addr
			if a, ok := root.(*ssa.IndexAddr); ok {
				root = a.X
			}
			if root == g {
				need[s] = true
				mark(s.Addr)
				mark(s.Val)
				found = true
			}
		}
	}
	var b0 *ssa.BasicBlock
	for ins := range need {
		if b0 == nil {
			b0 = ins.Block()
		}
		if ins.Block() != b0 {
			return
		}
		switch c := ins.(type) {
		case *ssa.Phi:
			return
		case *ssa.Call:
			if f := c.Call.StaticCallee(); f == nil {
				if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
					return
				}
			}
		}
	}
	if !found {
		return
	}
	st := newState()
	o := x.global(g)
	st.heap[o] = zeroVal(objType[o])
	if b0 != nil {
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			for _, ins := range b0.Instrs {
				if !need[ins] {
					continue
				}
				outs := x.step(st, ins)
				if len(outs) != 1 || outs[0].panic != nil {
					return false
				}
				st = outs[0].st
			}
			return true
		}()
		if !ok {
			return
		}
	}
	v := st.heap[o]
	switch a := v.(type) {
	case VPtr:
		w, ok := st.heap[a.Obj].(VInt)
		if !ok || len(a.Path) > 0 || a.Nil != nil || !w.L.isConst() {
			return
		}
		t := mkTerm("const", o)
		objType[t] = objType[a.Obj]
		constInit[t] = w
		v = VPtr{Obj: t}
	case VSlice:
		w, ok := st.heap[a.Obj].(VArr)
		if !ok || len(a.Path) > 0 || a.Nil != nil || !constContent(w.C) {
			return
		}
		t := mkTerm("const", o)
		objType[t] = objType[a.Obj]
		constInit[t] = w
		a.Obj = t
		v = a
	case VArr:
		if !constContent(a.C) {
			return
		}
	case VInt:
		if !a.L.isConst() {
			return
		}
	case VStr:
		if !constContent(a.C) {
			return
		}
	default:
		return
	}
	constInit[o] = v
}

func constContent(c *Content) bool {
	_, ok := constVals(c)
	return ok
}

// constVals are the elements of a content that is known altogether
func constVals(c *Content) ([]int64, bool) {
	var r []int64
	for i := range c.segs {
		switch g := &c.segs[i]; g.K {
		case 'e':
			v, ok := g.V.(VInt)
			if !ok {
				return nil, false
			}
			n, ok := v.L.int()
			if !ok {
				return nil, false
			}
			r = append(r, n)
		case 'z':
			n, ok := g.N.int()
			if !ok || n > 1<<16 {
				return nil, false
			}
			for ; n > 0; n-- {
				r = append(r, 0)
			}
		case 'l':
			for _, b := range []byte(g.Str) {
				r = append(r, int64(b))
			}
		default:
			return nil, false
		}
	}
	return r, true
}

// tableAt is the element of a known table at a position that is not known:
// a table at a position read from another known table is a table by itself
func (st *State) tableAt(c *Content, p Lin) (Value, bool) {
	vals, ok := constVals(c)
	if !ok || len(vals) == 0 {
		return nil, false
	}
	if len(p.ts) == 1 && p.k.Sign() == 0 && p.ts[0].c.Cmp(big1) == 0 {
		t := p.ts[0].t
		if t.op == "elem" {
			if s, ok := t.args[0].(*Term); ok && s.op == "snap" {
				if in, ok := constVals(s.args[0].(*Content)); ok {
					// where the inner index may be
					idx := t.args[1].(Lin)
					lo, hi := 0, len(in)
					for lo < hi && st.ge(idx.addc(int64(-lo-1))) {
						lo++
					}
					for lo < hi && st.ge(LC(int64(hi-2)).sub(idx)) {
						hi--
					}
					var segs []Seg
					ident := true
					for i, x := range in {
						v := int64(0)
						if i >= lo && i < hi {
							if x < 0 || x >= int64(len(vals)) {
								return nil, false
							}
							v = vals[x]
							ident = ident && v == int64(i)
						}
						segs = append(segs, Seg{K: 'e', V: VInt{LC(v)}})
					}
					if ident {
						return VInt{idx}, true
					}
					return st.tableTerm(content(segs...), idx), true
				}
			}
		}
	}
	return st.tableTerm(c, p), true
}

// tableTerm is an element of a known table, within the limits of those that
// may be meant
func (st *State) tableTerm(c *Content, p Lin) Value {
	vals, _ := constVals(c)
	// the same table, however it was made
	lit, isLit := make([]byte, len(vals)), true
	for i, v := range vals {
		if v < 0 || v > 255 {
			isLit = false
			break
		}
		lit[i] = byte(v)
	}
	if isLit {
		c = content(Seg{K: 'l', Str: string(lit)})
	}
	t := mkTerm("elem", snapTerm(c), p)
	lo, hi, any := int64(0), int64(0), false
	all := true
	for i, v := range vals {
		if len(vals) <= 256 && (st.ge(p.addc(int64(-i-1))) || st.ge(LC(int64(i-1)).sub(p))) {
			all = false
			continue
		}
		if !any || v < lo {
			lo = v
		}
		if !any || v > hi {
			hi = v
		}
		any = true
	}
	if any && lo == hi {
		return VInt{LC(lo)}
	}
	if any {
		if all {
			setRange(t, big.NewInt(lo), big.NewInt(hi))
		} else {
			st.push(LT(t).addc(-lo), false)
			st.push(LC(hi).sub(LT(t)), false)
		}
	}
	return VInt{LT(t)}
}

// eqTable: d is zero. For an element of a known table, this says where it is.
func eqTable(d Lin) *Cond {
	if len(d.ts) != 1 || d.ts[0].t.op != "elem" || d.ts[0].c.CmpAbs(big1) != 0 {
		return condEQ(d)
	}
	t := d.ts[0].t
	s, ok := t.args[0].(*Term)
	if !ok || s.op != "snap" {
		return condEQ(d)
	}
	vals, ok := constVals(s.args[0].(*Content))
	if !ok {
		return condEQ(d)
	}
	want := d.k
	if d.ts[0].c.Sign() > 0 {
		want = new(big.Int).Neg(want)
	}
	p := t.args[1].(Lin)
	r, runs := condFalse, 0
	for i := 0; i < len(vals); i++ {
		if big.NewInt(vals[i]).Cmp(want) != 0 {
			continue
		}
		j := i
		for j+1 < len(vals) && vals[j+1] == vals[i] {
			j++
		}
		if runs++; runs > 2 {
			return condEQ(d)
		}
		if i == j {
			r = condOr(r, condEQ(p.addc(int64(-i))))
		} else {
			r = condOr(r, condAnd(condGE(p.addc(int64(-i))), condGE(LC(int64(j)).sub(p))))
		}
		i = j
	}
	return r
}
