package main

// Models of the functions the repository calls but does not contain: Go
// builtins and the standard library. They are part of the trusted base.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

func ret(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, rets: vs}} }

func str(s string) Value { return VStr{content(Seg{K: 'l', Str: s})} }

// nonNil records that the interface value named t is not nil
func nonNil(st *State, t *Term) {
	c := condNil(t)
	st.facts[c.k] = fact{c, false}
}

func isNilFact(st *State, t *Term) {
	c := condNil(t)
	st.facts[c.k] = fact{c, true}
}

// mkErr is a non-nil error
func mkErr(st *State, name string, args ...Arg) Value {
	t := mkTerm("err:"+name, args...)
	nonNil(st, t)
	return VSym{t, errType}
}

func freshErr(st *State, name string) Value {
	t := st.fresh("err:" + name)
	nonNil(st, t)
	return VSym{t, errType}
}

// flat is what an argument shows to a function that only reads it
func (x *Exec) flat(st *State, v Value, depth int) Arg {
	switch a := v.(type) {
	case VInt:
		return a.L
	case VStr:
		return a.C
	case VSlice:
		if a.Obj == nil {
			return content()
		}
		c := st.norm(st.bytesOf(a))
		if depth > 0 {
			c = x.flatContent(st, c, depth)
		}
		return c
	case VIface:
		if depth > 0 {
			return x.flat(st, a.V, depth-1)
		}
	case VPtr:
		if depth > 0 && a.Obj != nil {
			// what a printing function may reach
			if lv, ok := st.heap[a.Obj]; ok && len(a.Path) == 0 {
				if s, ok := lv.(VStruct); ok {
					var as []Arg
					for _, f := range s.F {
						as = append(as, x.flat(st, f, depth-1))
					}
					return mkTerm("struct", as...)
				}
			}
		}
	case nil:
		return "?"
	}
	return v
}

func (x *Exec) flatContent(st *State, c *Content, depth int) *Content {
	var out []Seg
	ch := false
	for _, g := range c.segs {
		if g.K == 'e' {
			if _, ok := g.V.(VInt); !ok {
				switch f := x.flat(st, g.V, depth-1).(type) {
				case *Content:
					out = append(out, Seg{K: 'e', V: VStr{f}})
					ch = true
					continue
				case Value:
					out = append(out, Seg{K: 'e', V: f})
					ch = true
					continue
				case *Term:
					out = append(out, Seg{K: 'e', V: VSym{f, errType}})
					ch = true
					continue
				}
			}
		}
		out = append(out, g)
	}
	if !ch {
		return c
	}
	return content(out...)
}

func pureArg(v Value) bool {
	switch a := v.(type) {
	case VInt, VBool, VStr, VNil, VType, VRVal:
		return true
	case VSym:
		return true
	case VIface:
		return pureArg(a.V)
	case VStruct:
		for _, f := range a.F {
			if !pureArg(f) {
				return false
			}
		}
		return true
	case VSlice:
		return a.Obj == nil
	}
	return false
}

// results makes opaque results for a call
func (x *Exec) results(st *State, sig *types.Signature, mk func(i int, t types.Type) *Term) []Value {
	var rs []Value
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		tm := mk(i, t)
		rs = append(rs, symVal(tm, t))
	}
	return rs
}

func isErrType(t types.Type) bool { return types.Identical(t, errType) }

// opaque is a call whose code is not known: its results are a function of
// the function, the arguments and what the arguments show
func (x *Exec) opaque(st *State, name string, sig *types.Signature, args []Value, site ssa.CallInstruction) []Outcome {
	x.calls[name]++
	var as []Arg
	for _, a := range args {
		as = append(as, x.flat(st, a, 1))
	}
	rs := x.results(st, sig, func(i int, t types.Type) *Term {
		return mkTerm(fmt.Sprintf("%s.%d", name, i), as...)
	})
	x.note(st, "call", name, args, rs, site)
	return ret(st, rs...)
}

func (x *Exec) note(st *State, kind, name string, args, rs []Value, site ssa.CallInstruction) *Event {
	e := &Event{kind: kind, fn: name, args: args, rets: rs}
	if site != nil {
		e.site = site
		e.in = site.Parent()
	}
	if x.snapEv != nil && x.snapEv(e) {
		e.snap = st.clone()
	}
	st.event(e)
	return e
}

// external is a call of a function outside the repository, or of a method of
// an interface value about which nothing is known
func (x *Exec) external(st *State, name string, sig *types.Signature, args []Value, site ssa.CallInstruction) []Outcome {
	if h := x.ext[name]; h != nil {
		if os := h(x, st, args, site); os != nil {
			return os
		}
	}
	name, _, _ = strings.Cut(name, "[") // an instance of a generic function
	if m := models[name]; m != nil {
		x.calls[name]++
		c := &mcall{x: x, st: st, name: name, sig: sig, args: args, site: site}
		if os := m(c); os != nil {
			return os
		}
	}
	if i := strings.Index(name, "."); i > 0 {
		// interfaces of the repository: deterministic
		if _, ok := x.r.tpkgs[name[:i]]; ok {
			return x.opaque(st, name, sig, args, site)
		}
		if m := models[name[:i]+".*"]; m != nil {
			x.calls[name]++
			c := &mcall{x: x, st: st, name: name, sig: sig, args: args, site: site}
			if os := m(c); os != nil {
				return os
			}
		}
	}
	return x.unknownStd(st, name, sig, args, site)
}

func (x *Exec) unknownStd(st *State, name string, sig *types.Signature, args []Value, site ssa.CallInstruction) []Outcome {
	x.calls[name]++
	pure := true
	for _, a := range args {
		if !pureArg(a) {
			pure = false
		}
	}
	n := sig.Results().Len()
	if pure && !(n > 0 && isErrType(sig.Results().At(n-1).Type())) {
		return x.opaque(st, name, sig, args, site)
	}
	pre := st
	if x.snapEv != nil {
		pre = st.clone()
	}
	note := func(s *State, rs []Value) {
		if e := x.note(s, "call", name, args, rs, site); e.snap != nil {
			e.snap = pre // what it was given, not what it may have made of it
		}
	}
	// it may write what it can reach through slices and pointers it is given
	for _, a := range args {
		x.havoc(st, a, site)
	}
	mk := func(s *State) []Value {
		return x.results(s, sig, func(i int, t types.Type) *Term {
			return s.fresh(fmt.Sprintf("%s.%d:%s", name, i, typeKey(t)))
		})
	}
	if n > 0 && isErrType(sig.Results().At(n-1).Type()) {
		bad := st.clone()
		rs := mk(st)
		rs[n-1] = VNil{}
		for _, r := range rs[:n-1] {
			switch p := r.(type) {
			case VPtr:
				nonNil(st, p.Nil)
			case VSym:
				nonNil(st, p.Tm)
			}
		}
		rb := mk(bad)
		for i, r := range rb[:n-1] {
			if _, ok := r.(VPtr); ok {
				rb[i] = VNil{}
			}
			if s, ok := r.(VSym); ok && types.IsInterface(s.T) {
				rb[i] = VNil{}
			}
		}
		rb[n-1] = freshErr(bad, name)
		note(st, rs)
		note(bad, rb)
		return []Outcome{{st: st, rets: rs}, {st: bad, rets: rb}}
	}
	rs := mk(st)
	note(st, rs)
	return ret(st, rs...)
}

func (x *Exec) havoc(st *State, v Value, site ssa.CallInstruction) {
	switch a := v.(type) {
	case VSlice:
		if a.Obj != nil && !a.Len.isInt(0) {
			x.writeSlice(st, a, content(Seg{K: 'b', Src: st.fresh("havoc"), Off: LC(0), N: a.Len}), site)
		}
	case VIface:
		x.havoc(st, a.V, site)
	case VPtr:
		if a.Obj == nil {
			return
		}
		x.havocAt(st, a, typeAt(a.Obj, a.Path))
	}
}

// havocAt: a call that is not known may have written a number, a text or a
// slice where it was told
func (x *Exec) havocAt(st *State, a VPtr, t types.Type) {
	if t == nil {
		return
	}
	switch t.Underlying().(type) {
	case *types.Basic, *types.Slice:
		if st.isNil(a) == 1 {
			return
		}
		st.store(a, symVal(st.fresh("havoc:"+typeKey(t)), t))
	}
}

// writeSlice overwrites the start of a slice
func (x *Exec) writeSlice(st *State, s VSlice, c *Content, site ssa.Instruction) {
	if c.length().isInt(0) {
		return
	}
	if x.trackW && (!isAlloc(s.Obj) || x.trackObj[s.Obj]) && !st.cons.entailsEq(c.length()) {
		st.event(&Event{kind: "write", args: []Value{VPtr{Obj: s.Obj, Path: append(append([]PE{}, s.Path...), PE{Idx: &s.Off})}}, site: site, in: parentOf(site)})
	}
	st.setArr(s, st.putRun(st.arr(s), s.Off, c))
}

func parentOf(i ssa.Instruction) *ssa.Function {
	if i == nil {
		return nil
	}
	return i.Parent()
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, v *ssa.Call, name string, cc *ssa.CallCommon, args []Value, f func(*State, Value) []Outcome) []Outcome {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case VSlice:
			if a.Obj == nil {
				return f(st, VInt{LC(0)})
			}
			if name == "len" {
				return f(st, VInt{a.Len})
			}
			return f(st, VInt{a.Cap})
		case VStr:
			return f(st, VInt{a.C.length()})
		case VArr:
			return f(st, VInt{a.C.length()})
		case VPtr:
			if at, ok := typeAt(a.Obj, a.Path).Underlying().(*types.Array); ok {
				return f(st, VInt{LC(at.Len())})
			}
		case VNil:
			return f(st, VInt{LC(0)})
		case VSym:
			t := setRange(mkTerm("maplen", a.Tm, fmt.Sprint(st.nver)), big0, maxLen)
			return f(st, VInt{LT(t)})
		}
	case "append":
		return x.appendTo(st, v, args, f)
	case "copy":
		dst, ok := args[0].(VSlice)
		if !ok {
			break
		}
		var c *Content
		switch s := args[1].(type) {
		case VSlice:
			c = st.bytesOf(s)
		case VStr:
			c = s.C
		}
		if c == nil {
			break
		}
		n := c.length()
		if dst.Obj == nil {
			return f(st, VInt{LC(0)})
		}
		t, e := st.branch(condGE(dst.Len.sub(n)))
		var out []Outcome
		for _, s := range t {
			if src, ok := args[1].(VSlice); ok {
				c = s.bytesOf(src)
			}
			x.writeSlice(s, dst, c, v)
			out = append(out, f(s, VInt{n})...)
		}
		for _, s := range e {
			x.writeSlice(s, dst, s.sub(c, LC(0), dst.Len), v)
			out = append(out, f(s, VInt{dst.Len})...)
		}
		return out
	case "delete":
		st.event(&Event{kind: "mapdel", args: args, site: v, in: v.Parent()})
		st.nver++
		return f(st, nil)
	case "print", "println":
		x.note(st, "call", name, args, nil, v)
		return f(st, nil)
	case "ssa:wrapnilchk":
		ok, bad := x.check(st, v, "nil", nilCond(st, args[0]).not(), func() string { return "nil receiver" })
		return each(ok, bad, func(s *State) []Outcome { return f(s, args[0]) })
	case "min", "max":
		if a, ok := args[0].(VInt); ok {
			cur := []struct {
				st *State
				l  Lin
			}{{st, a.L}}
			for _, b := range args[1:] {
				bl := intOf(b)
				var next []struct {
					st *State
					l  Lin
				}
				for _, c := range cur {
					t, e := c.st.branch(condGE(bl.sub(c.l)))
					for _, s := range t {
						l := c.l
						if name == "max" {
							l = bl
						}
						next = append(next, struct {
							st *State
							l  Lin
						}{s, l})
					}
					for _, s := range e {
						l := bl
						if name == "max" {
							l = c.l
						}
						next = append(next, struct {
							st *State
							l  Lin
						}{s, l})
					}
				}
				cur = next
			}
			var out []Outcome
			for _, c := range cur {
				out = append(out, f(c.st, VInt{c.l})...)
			}
			return out
		}
	case "clear":
		if s, ok := args[0].(VSlice); ok {
			if s.Obj != nil {
				x.writeSlice(st, s, content(Seg{K: 'z', N: s.Len}), v)
			}
			return f(st, nil)
		}
	case "recover":
		return f(st, VNil{})
	}
	x.unsup(v, "builtin %s of %s", name, valString(args[0]))
	return nil
}

func (x *Exec) appendTo(st *State, v *ssa.Call, args []Value, f func(*State, Value) []Outcome) []Outcome {
	s, ok := args[0].(VSlice)
	if !ok {
		x.unsup(v, "append to %s", valString(args[0]))
	}
	var c *Content
	switch a := args[1].(type) {
	case VSlice:
		c = st.bytesOf(a)
	case VStr:
		c = a.C
	default:
		x.unsup(v, "append of %s", valString(args[1]))
	}
	return x.appendContent(st, v, elemType(v.Type()), s, c, f)
}

// ---------------------------------------------------------------- reflection

func (x *Exec) typeOf(st *State, v Value) []Outcome {
	switch a := v.(type) {
	case VNil:
		return ret(st, VNil{})
	case VIface:
		return ret(st, VType{a.T})
	case VType, VRVal:
		return ret(st, VSym{mkTerm("typeof", v), errType})
	case VSym:
		if T, ok := st.dyn[a.Tm]; ok {
			return ret(st, VType{T})
		}
		t, f := st.branch(condNil(a.Tm))
		var out []Outcome
		for _, s := range t {
			out = append(out, ret(s, VNil{})...)
		}
		for _, s := range f {
			tm := mkTerm("typeof", a.Tm)
			nonNil(s, tm)
			out = append(out, ret(s, VSym{tm, errType})...)
		}
		return out
	}
	panic(undecided{"reflect.TypeOf " + valString(v)})
}

var kinds = []string{"Invalid", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Uintptr",
	"Float32", "Float64", "Complex64", "Complex128", "Array", "Chan", "Func", "Interface", "Map", "Pointer", "Slice", "String", "Struct", "UnsafePointer"}

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (x *Exec) kind(st *State, v Value) Lin {
	switch a := v.(type) {
	case VType:
		return LC(kindOf(a.T))
	case VSym:
		t := setRange(mkTerm("kind", a.Tm.args[0]), big1, big.NewInt(26))
		return LT(t)
	case VRVal:
		switch b := a.V.(type) {
		case VIface:
			return LC(kindOf(b.T))
		case VSym:
			if T, ok := st.dyn[b.Tm]; ok {
				return LC(kindOf(T))
			}
			return LT(setRange(mkTerm("kind", b.Tm), big1, big.NewInt(26)))
		case VNil:
			return LC(0)
		}
	}
	panic(undecided{"kind of " + valString(v)})
}

// rvNil: the held value is nil
func (x *Exec) rvNil(st *State, v Value) *Cond {
	switch b := v.(type) {
	case VIface:
		return nilCond(st, b.V)
	case VSym:
		if T, ok := st.dyn[b.Tm]; ok {
			return nilCond(st, x.payload(st, b.Tm, T))
		}
		return condNil(mkTerm("rv", b.Tm))
	}
	return condTrue
}

func (x *Exec) reflectCall(st *State, name string, args []Value, sig *types.Signature, site ssa.CallInstruction) []Outcome {
	switch name {
	case "Elem":
		if t, ok := args[0].(VType); ok {
			switch u := t.T.Underlying().(type) {
			case *types.Pointer:
				return ret(st, VType{u.Elem()})
			case *types.Slice:
				return ret(st, VType{u.Elem()})
			case *types.Array:
				return ret(st, VType{u.Elem()})
			}
			return []Outcome{{st: st, panic: &Panic{"type", "reflect: Elem of invalid type", site}}}
		}
	case "Implements":
		u, ok := args[1].(VType)
		if !ok {
			if n, isn := args[1].(VNil); isn {
				_ = n
				return []Outcome{{st: st, panic: &Panic{"nil", "reflect: nil type passed to Type.Implements", site}}}
			}
			break
		}
		switch t := args[0].(type) {
		case VType:
			return ret(st, VBool{condBool(implements(t.T, u.T))})
		case VSym:
			tm, ok := t.Tm.args[0].(*Term)
			if !ok {
				break
			}
			if T, ok := st.dyn[tm]; ok {
				return ret(st, VBool{condBool(implements(T, u.T))})
			}
			return ret(st, VBool{condOp(mkTerm("implements", tm, typeKey(u.T)))})
		}
	case "Kind":
		return ret(st, VInt{x.kind(st, args[0])})
	case "String", "Name":
		return ret(st, symVal(mkTerm("typename", args[0]), types.Typ[types.String]))
	case "IsNil":
		rv, ok := args[0].(VRVal)
		if !ok {
			break
		}
		k := x.kind(st, rv)
		// nillable kinds
		var or *Cond = condFalse
		for _, n := range []int64{18, 19, 20, 21, 22, 23, 26} {
			or = condOr(or, condEQ(k.addc(-n)))
		}
		ok2, bad := x.check(st, site, "type", or, func() string { return "reflect: IsNil of a value that is never nil" })
		return each(ok2, bad, func(s *State) []Outcome { return ret(s, VBool{x.rvNil(s, rv.V)}) })
	}
	return x.opaque(st, "reflect."+name, sig, args, site)
}

// ---------------------------------------------------------------- library models

type mcall struct {
	x    *Exec
	st   *State
	name string
	sig  *types.Signature
	args []Value
	site ssa.CallInstruction
}

func (c *mcall) arg(i int) Value { return c.args[i] }
func (c *mcall) int(i int) Lin   { return intOf(c.args[i]) }
func (c *mcall) bytes(i int) *Content {
	switch a := c.args[i].(type) {
	case VSlice:
		return c.st.norm(c.st.bytesOf(a))
	case VStr:
		return a.C
	case VNil:
		return content()
	}
	c.x.unsup(c.site, "%s of %s", c.name, valString(c.args[i]))
	return nil
}
func (c *mcall) note(st *State, rs ...Value) {
	c.x.note(st, "call", c.name, c.args, rs, c.site)
}
func (c *mcall) ret(rs ...Value) []Outcome {
	c.note(c.st, rs...)
	return ret(c.st, rs...)
}
func (c *mcall) need(st *State, cond *Cond, kind, msg string, f func(*State) []Outcome) []Outcome {
	ok, bad := c.x.check(st, c.site, kind, cond, func() string { return c.name + ": " + msg })
	return each(ok, bad, f)
}

// newBytes makes a slice of exactly the given content
func newBytes(st *State, hint string, c *Content) VSlice {
	n := c.length()
	return st.newSlice(hint, types.Typ[types.Uint8], c, &n)
}

var models map[string]func(*mcall) []Outcome

func blob(src *Term, n Lin) *Content {
	if objType[src] == nil {
		objType[src] = types.NewArray(types.Typ[types.Uint8], -1)
	}
	return content(Seg{K: 'b', Src: src, Off: LC(0), N: n})
}

func endian(n int, big_ bool, put bool) func(*mcall) []Outcome {
	return func(c *mcall) []Outcome {
		b, ok := c.args[1].(VSlice)
		if !ok {
			return nil
		}
		ln := LC(0)
		if b.Obj != nil {
			ln = b.Len
		}
		return c.need(c.st, condGE(ln.addc(int64(-n))), "index", fmt.Sprintf("needs %d bytes, has %s", n, ln), func(st *State) []Outcome {
			if put {
				v := intOf(c.args[2])
				var segs []Seg
				for i := 0; i < n; i++ {
					sh := 8 * i
					if big_ {
						sh = 8 * (n - 1 - i)
					}
					segs = append(segs, Seg{K: 'e', V: VInt{lowBits(divLin(v, pow2(sh)), 8)}})
				}
				c.x.writeSlice(st, b, content(segs...), c.site)
				c.note(st)
				return []Outcome{{st: st}}
			}
			arr := st.arr(b)
			l := LC(0)
			for i := 0; i < n; i++ {
				e := intOf(st.at(arr, b.Off.addc(int64(i)), types.Typ[types.Uint8]))
				sh := 8 * i
				if big_ {
					sh = 8 * (n - 1 - i)
				}
				l = l.add(e.mul(pow2(sh)))
			}
			return ret(st, VInt{l})
		})
	}
}

// heads splits the state so that the content starts with a segment that is
// certainly not empty, or is empty
func (x *Exec) heads(st *State, c *Content, f func(*State, *Content) []Outcome) []Outcome {
	if len(c.segs) == 0 {
		return f(st, c)
	}
	g := c.segs[0]
	rest := content(c.segs[1:]...)
	switch g.K {
	case 'b', 'z':
		if st.ge(g.N.addc(-1)) {
			if g.K == 'b' && g.Src.op == "snap" {
				if nc := st.norm(c); nc != c {
					return x.heads(st, nc, f)
				}
			}
			return f(st, c)
		}
		if g.K == 'b' && len(c.segs) == 1 {
			return f(st, c)
		}
		t, e := st.branch(condGE(g.N.addc(-1)))
		var out []Outcome
		for _, s := range t {
			out = append(out, f(s, c)...)
		}
		for _, s := range e {
			out = append(out, x.heads(s, rest, f)...)
		}
		return out
	case 'r':
		t, e := st.branch(condGE(g.Hi.sub(g.Lo).addc(-1)))
		var out []Outcome
		for _, s := range t {
			in := instBody(g.Body, g.Lo)
			nc := append(append([]Seg{}, in.segs...), Seg{K: 'r', Lo: g.Lo.addc(1), Hi: g.Hi, Body: g.Body})
			// bypass the normaliser, which would fold the instance again
			out = append(out, x.heads(s, rawContent(append(nc, rest.segs...)), f)...)
		}
		for _, s := range e {
			out = append(out, x.heads(s, rest, f)...)
		}
		return out
	}
	return f(st, c)
}

// rawContent is a content that is not normalised
func rawContent(segs []Seg) *Content { return &Content{id: -1, segs: segs, deps: map[int]bool{}} }

func (x *Exec) uvarint(c *mcall, signed bool) []Outcome {
	b, ok := c.args[0].(VSlice)
	if !ok {
		return nil
	}
	k := byte('u')
	if signed {
		k = 's'
	}
	done := func(st *State, v, n Lin) []Outcome { return ret(st, VInt{v}, VInt{n}) }
	if b.Obj == nil {
		return done(c.st, LC(0), LC(0))
	}
	return x.heads(c.st, c.st.norm(c.st.bytesOf(b)), func(st *State, cc *Content) []Outcome {
		if len(cc.segs) == 0 {
			return done(st, LC(0), LC(0))
		}
		g := cc.segs[0]
		sign := func(l Lin) Lin { return l }
		if signed {
			sign = nil
		}
		switch g.K {
		case k:
			return done(st, g.X, g.length())
		case 'l', 'e', 'z':
			// concrete bytes
			if !signed {
				v := new(big.Int)
				sh := uint(0)
				n := int64(0)
				for _, s := range cc.segs {
					var bs []byte
					switch s.K {
					case 'l':
						bs = []byte(s.Str)
					case 'e':
						iv, ok := s.V.(VInt)
						if !ok {
							return nil
						}
						if kk, ok := iv.L.int(); ok {
							bs = []byte{byte(kk)}
						}
					case 'z':
						bs = []byte{0}
					}
					if bs == nil {
						break
					}
					for _, y := range bs {
						n++
						if n > 10 {
							break
						}
						v.Or(v, new(big.Int).Lsh(big.NewInt(int64(y&127)), sh))
						sh += 7
						if y < 128 && v.BitLen() <= 64 {
							return done(st, LB(v), LC(n))
						}
					}
				}
			}
			if g.K == 'e' && n0(cc) {
				iv, ok := g.V.(VInt)
				if ok && sign != nil {
					t, e := st.branch(condGE(LC(127).sub(iv.L)))
					var out []Outcome
					for _, s := range t {
						out = append(out, done(s, iv.L, LC(1))...)
					}
					for _, s := range e {
						out = append(out, x.uvOpaque(s, mkTerm("snap", content(cc.segs...)), LC(0), cc.length(), signed)...)
					}
					return out
				}
			}
			return x.uvOpaque(st, mkTerm("snap", content(cc.segs...)), LC(0), cc.length(), signed)
		case 'b':
			return x.uvOpaque(st, g.Src, g.Off, cc.length(), signed)
		}
		return x.uvOpaque(st, mkTerm("snap", content(cc.segs...)), LC(0), cc.length(), signed)
	})
}

func n0(c *Content) bool { return true }

// uvOpaque decodes a variable length integer at an unknown place
func (x *Exec) uvOpaque(st *State, src *Term, off, avail Lin, signed bool) []Outcome {
	p := "uv"
	if signed {
		p = "sv"
	}
	v := mkTerm(p, src, off)
	if signed {
		setRange(v, new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big1))
	} else {
		setRange(v, big0, new(big.Int).Sub(pow2(64), big1))
	}
	n := setRange(mkTerm("uvn", src, off), big1, big.NewInt(10))
	var out []Outcome
	ok := condOp(mkTerm("uvok", src, off, avail))
	if st.decide(ok) == 0 {
		// decided by a look at a longer or shorter part of the same bytes
		for _, f := range st.facts {
			if f.c.op == "op" && f.c.T.op == "uvok" && f.c.T.args[0] == Arg(src) {
				o2 := f.c.T.args[1].(Lin)
				a2 := f.c.T.args[2].(Lin)
				if !(o2.eq(off) || st.eqL(o2, off)) {
					continue
				}
				if f.val && st.ge(avail.sub(LT(n))) {
					st.facts[ok.k] = fact{ok, true}
				} else if !f.val && st.ge(a2.sub(avail)) {
					st.facts[ok.k] = fact{ok, false}
				}
			}
		}
	}
	// every byte of a number that does not end has its top bit set, the first too
	more := LT(setRange(mkTerm("elem", src, off), big0, big.NewInt(255))).addc(-128)
	t, f := st.branch(ok)
	for _, s := range t {
		s.push(avail.sub(LT(n)), false)
		out = append(out, ret(s, VInt{LT(v)}, VInt{LT(n)})...)
	}
	for _, s := range f {
		over := condOp(mkTerm("uvover", src, off))
		t2, f2 := s.branch(over)
		for _, q := range t2 {
			m := setRange(mkTerm("uvneg", src, off), big.NewInt(10), big.NewInt(11))
			q.cons = q.cons.push(con{avail.sub(LT(m)), false})
			q.cons = q.cons.push(con{more, false})
			if q.infeasible() {
				continue
			}
			out = append(out, ret(q, VInt{LC(0)}, VInt{LT(m).neg()})...)
		}
		for _, q := range f2 {
			q.cons = q.cons.push(con{LC(10).sub(avail), false})
			if q.infeasible() {
				continue
			}
			some, none := q.branch(condGE(avail.addc(-1)))
			for _, r := range none {
				out = append(out, ret(r, VInt{LC(0)}, VInt{LC(0)})...)
			}
			for _, r := range some {
				r.cons = r.cons.push(con{more, false})
				if !r.infeasible() {
					out = append(out, ret(r, VInt{LC(0)}, VInt{LC(0)})...)
				}
			}
		}
	}
	return out
}

// bigInt is the value of a *big.Int
func (x *Exec) bigInt(st *State, v Value, site ssa.CallInstruction) Lin {
	p, ok := v.(VPtr)
	if !ok {
		x.unsup(site, "big.Int operation on %s", valString(v))
	}
	if len(p.Path) == 0 {
		switch h := st.heap[p.Obj].(type) {
		case VInt:
			return h.L
		case VStruct:
			if st.isZero(h) {
				return LC(0)
			}
		case nil:
			if v, ok := constInit[p.Obj].(VInt); ok {
				return v.L
			}
			return LT(mkTerm("bigval", p.Obj))
		}
	} else {
		switch h := st.load(p).(type) {
		case VInt:
			return h.L
		case VStruct:
			if st.isZero(h) {
				return LC(0)
			}
		}
	}
	return LT(mkTerm("bigval", p.Obj, pathKey(p.Path)))
}

func (x *Exec) setBig(st *State, v Value, l Lin, site ssa.CallInstruction) {
	p := v.(VPtr)
	x.noteWrite(st, p, site)
	if len(p.Path) == 0 {
		st.heap[p.Obj] = VInt{l}
	} else {
		st.store(p, VInt{l})
	}
}

func (c *mcall) newBig(st *State, l Lin) VPtr {
	var T types.Type
	if c.sig.Results().Len() > 0 {
		if pt, ok := c.sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			T = pt.Elem()
		}
	}
	o := st.newObj("big", T)
	st.heap[o] = VInt{l}
	return VPtr{Obj: o}
}

// bigOp: receiver is set to f(args) and returned
func bigOp(f func(c *mcall, st *State, as []Lin) (Lin, bool)) func(*mcall) []Outcome {
	return func(c *mcall) []Outcome {
		return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
			var as []Lin
			for _, a := range args[1:] {
				if i, ok := a.(VInt); ok {
					as = append(as, i.L)
				} else {
					as = append(as, c.x.bigInt(st, a, c.site))
				}
			}
			l, ok := f(c, st, as)
			if !ok {
				var ts []Arg
				for _, a := range as {
					ts = append(ts, a)
				}
				l = LT(mkTerm("big:"+c.name, ts...))
			}
			c.x.setBig(st, args[0], l, c.site)
			c.note(st, args[0])
			return ret(st, args[0])
		})
	}
}

// bigDiv divides args[1] by args[2]; the arguments that get the quotient and
// the remainder are given. The
// truncating variants are the same for numbers that are not negative.
func bigDiv(qi, ri int) func(*mcall) []Outcome {
	return func(c *mcall) []Outcome {
		return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
			a, m := c.x.bigInt(st, args[1], c.site), c.x.bigInt(st, args[2], c.site)
			return c.need(st, condEQ(m).not(), "div", "division by zero", func(st *State) []Outcome {
				var q, r Lin
				trunc := c.name == "Quo" || c.name == "Rem" || c.name == "QuoRem"
				switch {
				case trunc && !st.ge(a):
					q = LT(mkTerm("bigquo", a, m))
					r = LT(mkTerm("bigrem", a, m))
				case m.isConst() && m.k.Sign() > 0:
					switch {
					case st.ge(a) && st.ge(m.sub(a).addc(-1)):
						q = LC(0)
					case st.ge(a.neg().addc(-1)) && st.ge(a.add(m)):
						q = LC(-1)
					default:
						q = divLin(a, m.k)
					}
					r = a.sub(q.mul(m.k))
				default:
					q = LT(mkTerm("bigdiv", a, m))
					r = LT(setRange(mkTerm("bigmod", a, m), big0, nil))
					if st.ge(m) {
						st.push(m.sub(r).addc(-1), false)
					}
					if st.ge(a) && st.ge(m) {
						st.push(q, false)
					}
				}
				res := []Value{args[0]}
				if qi >= 0 {
					c.x.setBig(st, args[0], q, c.site)
				}
				if ri == 0 {
					c.x.setBig(st, args[0], r, c.site)
				}
				if ri > 0 {
					c.x.setBig(st, args[ri], r, c.site)
					res = append(res, args[ri])
				}
				c.note(st, args[0])
				return ret(st, res...)
			})
		})
	}
}

// ptrs demands that the pointers among args are not nil
func (c *mcall) ptrs(args []Value, f func(*State, []Value) []Outcome) []Outcome {
	var rec func(st *State, i int, out []Value) []Outcome
	rec = func(st *State, i int, out []Value) []Outcome {
		if i == len(args) {
			return f(st, out)
		}
		switch args[i].(type) {
		case VPtr, VNil:
			return c.x.derefs(st, args[i], c.site, func(s *State, q VPtr) []Outcome {
				return rec(s, i+1, append(append([]Value{}, out...), q))
			})
		}
		return rec(st, i+1, append(append([]Value{}, out...), args[i]))
	}
	return rec(c.st, 0, nil)
}

// randomFill: success fills the whole of buf, failure an unknown part
func (x *Exec) randomFill(c *mcall, b VSlice, source string) []Outcome {
	bad := c.st.clone()
	n := LC(0)
	if b.Obj != nil {
		n = b.Len
		src := c.st.fresh("random:" + source)
		x.writeSlice(c.st, b, blob(src, n), c.site)
		x.writeSlice(bad, b, blob(bad.fresh("partial:"+source), n), c.site)
	}
	k := setRange(bad.fresh("nread"), big0, maxLen)
	bad.push(n.sub(LT(k)), false)
	e := freshErr(bad, c.name)
	c.note(c.st, VInt{n}, VNil{})
	c.note(bad, VInt{LT(k)}, e)
	return []Outcome{{st: c.st, rets: []Value{VInt{n}, VNil{}}}, {st: bad, rets: []Value{VInt{LT(k)}, e}}}
}

func hashModel(n int64) func(*mcall) []Outcome {
	return func(c *mcall) []Outcome {
		d := c.bytes(0)
		return c.ret(VArr{blob(mkTerm(c.name, d), LC(n))})
	}
}

// sprintf renders %s, %d and %v of strings and integers, and the rest opaquely
func (x *Exec) sprintf(st *State, format *Content, args []Value) *Content {
	if len(format.segs) != 1 || format.segs[0].K != 'l' {
		if len(format.segs) == 0 {
			return content()
		}
		var as []Arg
		as = append(as, format)
		for _, a := range args {
			as = append(as, x.flat(st, a, 3))
		}
		t := mkTerm("sprintf", as...)
		return blob(mkTerm("strdata", t), LT(lenTerm(t)))
	}
	f := format.segs[0].Str
	var segs []Seg
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			segs = append(segs, Seg{K: 'l', Str: f[i : i+1]})
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j
		if f[j] == '%' {
			segs = append(segs, Seg{K: 'l', Str: "%"})
			continue
		}
		var a Value
		if ai < len(args) {
			a = args[ai]
		}
		ai++
		if verb == "%s" || verb == "%v" {
			if fi, ok := a.(VIface); ok {
				if s, ok := fi.V.(VStr); ok && types.Identical(fi.T, types.Typ[types.String]) {
					segs = append(segs, s.C.segs...)
					continue
				}
			}
		}
		if verb == "%x" || verb == "%X" {
			if fi, ok := a.(VIface); ok {
				var c *Content
				switch s := fi.V.(type) {
				case VStr:
					c = s.C
				case VSlice:
					if s.Obj == nil {
						c = content()
					} else if isByte(elemType(fi.T)) {
						c = st.norm(st.bytesOf(s))
					}
				}
				if c != nil && types.NewMethodSet(fi.T).Len() == 0 {
					segs = append(segs, hexIn(verb, c).segs...)
					continue
				}
			}
		}
		var fl Arg = "missing"
		if a != nil {
			fl = x.flat(st, a, 3)
		}
		t := mkTerm("fmt"+verb, fl)
		segs = append(segs, blob(mkTerm("strdata", t), LT(lenTerm(t))).segs...)
	}
	return content(segs...)
}

func (c *mcall) varargs(i int) []Value {
	s, ok := c.args[i].(VSlice)
	if !ok || s.Obj == nil {
		return nil
	}
	var r []Value
	cc := c.st.bytesOf(s)
	for _, g := range cc.segs {
		switch g.K {
		case 'e':
			r = append(r, g.V)
		case 'z':
			n, _ := g.N.int()
			for ; n > 0; n-- {
				r = append(r, VNil{})
			}
		default:
			r = append(r, VSym{mkTerm("snap", cc), errType})
		}
	}
	return r
}

func newEmpty() *Content { return content() }

func init() {
	models = map[string]func(*mcall) []Outcome{
		"reflect.TypeOf": func(c *mcall) []Outcome { return c.x.typeOf(c.st, c.args[0]) },
		"reflect.ValueOf": func(c *mcall) []Outcome {
			return ret(c.st, VRVal{c.args[0]})
		},
		"reflect.Value.IsNil": func(c *mcall) []Outcome { return c.x.reflectCall(c.st, "IsNil", c.args, c.sig, c.site) },
		"reflect.Value.Kind":  func(c *mcall) []Outcome { return c.x.reflectCall(c.st, "Kind", c.args, c.sig, c.site) },

		"fmt.Errorf": func(c *mcall) []Outcome {
			var as []Arg
			as = append(as, c.bytes(0))
			for _, a := range c.varargs(1) {
				as = append(as, c.x.flat(c.st, a, 2))
			}
			e := mkErr(c.st, "fmt.Errorf", as...)
			return c.ret(e)
		},
		"errors.New": func(c *mcall) []Outcome { return c.ret(mkErr(c.st, "errors.New", c.bytes(0))) },
		"fmt.Sprintf": func(c *mcall) []Outcome {
			r := VStr{c.x.sprintf(c.st, c.bytes(0), c.varargs(1))}
			return c.ret(r)
		},
		"fmt.Sprint": func(c *mcall) []Outcome {
			vs := c.varargs(0)
			if len(vs) == 1 {
				return c.ret(VStr{c.x.sprintf(c.st, content(Seg{K: 'l', Str: "%v"}), vs)})
			}
			return nil
		},
		"error.Error": func(c *mcall) []Outcome {
			return ret(c.st, symVal(mkTerm("errtext", c.args[0]), types.Typ[types.String]))
		},
		"os.Exit": func(c *mcall) []Outcome {
			c.note(c.st)
			return []Outcome{{st: c.st, panic: &Panic{"exit", "os.Exit", c.site}}}
		},
		"log.Fatal":        exitModel,
		"log.Fatalf":       exitModel,
		"log.Fatalln":      exitModel,
		"log.Logger.Fatal": exitModel,
		"log.Panic":        panicModel,
		"log.Panicf":       panicModel,

		"bytes.Equal": func(c *mcall) []Outcome {
			return ret(c.st, VBool{c.x.contentEq(c.st, c.bytes(0), c.bytes(1))})
		},
		"bytes.Compare": func(c *mcall) []Outcome {
			return c.x.bytesCompare(c.st, c.bytes(0), c.bytes(1), 0, func(s *State, sign int) []Outcome {
				return ret(s, VInt{LC(int64(sign))})
			})
		},
		"bytes.NewReader": func(c *mcall) []Outcome {
			T := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			o := c.st.newObj("reader", T)
			c.st.heap[o] = VStr{c.bytes(0)}
			return ret(c.st, VPtr{Obj: o})
		},
		"binary.Read": binaryRead,

		// a time is known by its distance from the epoch
		"time.Unix": func(c *mcall) []Outcome {
			t := mkTerm("time.Unix", c.int(0), c.int(1))
			return c.ret(symVal(t, c.sig.Results().At(0).Type()))
		},
		"time.Time.UnixNano": func(c *mcall) []Outcome {
			if v, ok := c.args[0].(VStruct); ok && len(v.F) > 0 {
				if iv, ok := v.F[0].(VInt); ok && len(iv.L.ts) == 1 && iv.L.ts[0].t.op == "f.wall" {
					if t, ok := iv.L.ts[0].t.args[0].(*Term); ok && t.op == "time.Unix" {
						n := t.args[0].(Lin).mul(big.NewInt(1000000000)).add(t.args[1].(Lin))
						if c.st.ge(n.add(LB(pow2(63)))) && c.st.ge(LB(pow2(63)).sub(n).addc(-1)) {
							return c.ret(VInt{n})
						}
					}
				}
				// a function of the time
				var as []Arg
				for _, f := range v.F[:len(v.F)-1] {
					as = append(as, c.x.flat(c.st, f, 1))
				}
				t := mkTerm("unixnano", as...)
				setRange(t, new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big1))
				return c.ret(VInt{LT(t)})
			}
			return nil
		},

		"binary.PutUvarint": putVarint('u'),
		"binary.PutVarint":  putVarint('s'),
		"binary.Uvarint":    func(c *mcall) []Outcome { return c.x.uvarint(c, false) },
		"binary.Varint":     func(c *mcall) []Outcome { return c.x.uvarint(c, true) },

		"md5.Sum":       hashModel(16),
		"sha256.Sum256": hashModel(32),
		"sha512.Sum512": hashModel(64),
		"sha1.Sum":      hashModel(20),
		"crc32.ChecksumIEEE": func(c *mcall) []Outcome {
			t := setRange(mkTerm("crc32", c.bytes(0)), big0, new(big.Int).Sub(pow2(32), big1))
			return c.ret(VInt{LT(t)})
		},

		"hex.DecodedLen": func(c *mcall) []Outcome {
			return ret(c.st, VInt{divLin(c.int(0), big.NewInt(2))})
		},
		"hex.EncodedLen": func(c *mcall) []Outcome { return ret(c.st, VInt{c.int(0).mulc(2)}) },
		"hex.Decode": func(c *mcall) []Outcome {
			dst, ok := c.args[0].(VSlice)
			if !ok {
				return nil
			}
			src := c.bytes(1)
			n := divLin(src.length(), big.NewInt(2))
			dl := LC(0)
			if dst.Obj != nil {
				dl = dst.Len
			}
			return c.need(c.st, condGE(dl.sub(n)), "index", "destination too short", func(st *State) []Outcome {
				bad := st.clone()
				out := unhex(src)
				if dst.Obj != nil {
					c.x.writeSlice(st, dst, out, c.site)
					c.x.writeSlice(bad, dst, blob(bad.fresh("partialhex"), n), c.site)
				}
				st.push(src.length().sub(n.mulc(2)), true)
				k := setRange(bad.fresh("nhex"), big0, maxLen)
				bad.push(n.sub(LT(k)), false)
				e := freshErr(bad, c.name)
				c.note(st, VInt{n}, VNil{})
				if isHex(src) {
					return ret(st, VInt{n}, VNil{})
				}
				c.note(bad, VInt{LT(k)}, e)
				return []Outcome{{st: st, rets: []Value{VInt{n}, VNil{}}}, {st: bad, rets: []Value{VInt{LT(k)}, e}}}
			})
		},
		"hex.Encode": func(c *mcall) []Outcome {
			dst, ok := c.args[0].(VSlice)
			if !ok {
				return nil
			}
			h := hexOf(c.bytes(1))
			dl := LC(0)
			if dst.Obj != nil {
				dl = dst.Len
			}
			return c.need(c.st, condGE(dl.sub(h.length())), "index", "destination too short", func(st *State) []Outcome {
				if dst.Obj != nil {
					c.x.writeSlice(st, dst, h, c.site)
				}
				return ret(st, VInt{h.length()})
			})
		},
		"hex.EncodeToString": func(c *mcall) []Outcome { return c.ret(VStr{hexOf(c.bytes(0))}) },
		"hex.DecodeString": func(c *mcall) []Outcome {
			src := c.bytes(0)
			n := divLin(src.length(), big.NewInt(2))
			bad := c.st.clone()
			c.st.push(src.length().sub(n.mulc(2)), true)
			r := newBytes(c.st, "unhex", unhex(src))
			k := setRange(bad.fresh("nhex"), big0, maxLen)
			bad.push(n.sub(LT(k)), false)
			e := freshErr(bad, c.name)
			rb := newBytes(bad, "unhex", blob(bad.fresh("partialhex"), LT(k)))
			c.note(c.st, r, VNil{})
			if isHex(src) {
				return ret(c.st, r, VNil{})
			}
			c.note(bad, rb, e)
			return []Outcome{{st: c.st, rets: []Value{r, VNil{}}}, {st: bad, rets: []Value{rb, e}}}
		},

		"rand.Read": func(c *mcall) []Outcome {
			b, ok := c.args[0].(VSlice)
			if !ok {
				return nil
			}
			return c.x.randomFill(c, b, "crypto")
		},
		"io.ReadFull": func(c *mcall) []Outcome {
			b, ok := c.args[1].(VSlice)
			if !ok {
				return nil
			}
			return c.x.randomFill(c, b, readerName(c.args[0]))
		},

		"strconv.Itoa": func(c *mcall) []Outcome {
			t := mkTerm("itoa", c.int(0))
			l := setRange(lenTerm(t), big1, big.NewInt(20))
			return ret(c.st, VStr{blob(mkTerm("strdata", t), LT(l))})
		},

		"math.Pow": nil,

		"big.NewInt":  func(c *mcall) []Outcome { return ret(c.st, c.newBig(c.st, c.int(0))) },
		"big.Int.Add": bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) { return a[0].add(a[1]), true }),
		"big.Int.Sub": bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) { return a[0].sub(a[1]), true }),
		"big.Int.Mul": bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) {
			if a[1].isConst() {
				return a[0].mul(a[1].k), true
			}
			if a[0].isConst() {
				return a[1].mul(a[0].k), true
			}
			return Lin{}, false
		}),
		"big.Int.Lsh": bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) {
			if n, ok := a[1].int(); ok && n >= 0 && n < 4096 {
				return a[0].mul(pow2(int(n))), true
			}
			return Lin{}, false
		}),
		"big.Int.Exp": func(c *mcall) []Outcome {
			return c.ptrs(c.args[:3], func(st *State, args []Value) []Outcome {
				b, e := c.x.bigInt(st, args[1], c.site), c.x.bigInt(st, args[2], c.site)
				m := LC(0)
				if p, ok := c.args[3].(VPtr); ok && p.Obj != nil && st.isNil(p) == -1 {
					m = c.x.bigInt(st, p, c.site)
				} else if st.isNil(c.args[3]) != 1 {
					return nil
				}
				r := LT(mkTerm("big:"+c.name, b, e, m))
				if n, ok := e.int(); ok && n >= 1 && n <= 8 && m.isConst() && m.k.Sign() >= 0 {
					r = b
					for i := int64(1); i < n; i++ {
						r = LT(mkTerm("big:big.Int.Mul", r, b))
					}
					if m.k.Sign() > 0 {
						r = r.sub(divLin(r, m.k).mul(m.k))
					}
				}
				c.x.setBig(st, args[0], r, c.site)
				c.note(st, args[0])
				return ret(st, args[0])
			})
		},
		"big.Int.Set":       bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) { return a[0], true }),
		"big.Int.SetInt64":  bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) { return a[0], true }),
		"big.Int.SetUint64": bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) { return a[0], true }),
		"big.Int.Neg":       bigOp(func(c *mcall, st *State, a []Lin) (Lin, bool) { return a[0].neg(), true }),
		"big.Int.Mod":       bigDiv(-1, 0),
		"big.Int.Rem":       bigDiv(-1, 0),
		"big.Int.Div":       bigDiv(0, -1),
		"big.Int.Quo":       bigDiv(0, -1),
		"big.Int.DivMod":    bigDiv(0, 3),
		"big.Int.QuoRem":    bigDiv(0, 3),
		"big.Int.Cmp": func(c *mcall) []Outcome {
			return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
				d := c.x.bigInt(st, args[0], c.site).sub(c.x.bigInt(st, args[1], c.site))
				var out []Outcome
				t, f := st.branch(condEQ(d))
				for _, s := range t {
					out = append(out, ret(s, VInt{LC(0)})...)
				}
				for _, s := range f {
					t, f := s.branch(condGE(d))
					for _, q := range t {
						out = append(out, ret(q, VInt{LC(1)})...)
					}
					for _, q := range f {
						out = append(out, ret(q, VInt{LC(-1)})...)
					}
				}
				return out
			})
		},
		"big.Int.Sign": func(c *mcall) []Outcome {
			return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
				d := c.x.bigInt(st, args[0], c.site)
				var out []Outcome
				t, f := st.branch(condEQ(d))
				for _, s := range t {
					out = append(out, ret(s, VInt{LC(0)})...)
				}
				for _, s := range f {
					t, f := s.branch(condGE(d))
					for _, q := range t {
						out = append(out, ret(q, VInt{LC(1)})...)
					}
					for _, q := range f {
						out = append(out, ret(q, VInt{LC(-1)})...)
					}
				}
				return out
			})
		},
		"big.Int.Int64": func(c *mcall) []Outcome {
			return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
				l := c.x.bigInt(st, args[0], c.site)
				if st.ge(l.add(LB(pow2(63)))) && st.ge(LB(pow2(63)).sub(l).addc(-1)) {
					return ret(st, VInt{l})
				}
				return ret(st, symVal(mkTerm("bigint64", l), types.Typ[types.Int64]))
			})
		},
		"big.Int.SetBytes": func(c *mcall) []Outcome {
			return c.ptrs(c.args[:1], func(st *State, args []Value) []Outcome {
				cc := c.bytes(1)
				c.x.setBig(st, args[0], bigFrom(st, cc), c.site)
				c.note(st, args[0])
				return ret(st, args[0])
			})
		},
		"big.Int.Bytes": func(c *mcall) []Outcome {
			return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
				l := c.x.bigInt(st, args[0], c.site)
				r := newBytes(st, "bigbytes", bigBytes(st, l))
				c.note(st, r)
				return ret(st, r)
			})
		},
		"big.Int.BitLen": func(c *mcall) []Outcome {
			return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
				l := c.x.bigInt(st, args[0], c.site)
				n := bigLen(st, l)
				t := setRange(mkTerm("bitlen", l), big0, pow2(43))
				st.push(n.mulc(8).sub(LT(t)), false)
				st.push(LT(t).sub(n.mulc(8)).addc(7), false)
				return ret(st, VInt{LT(t)})
			})
		},
		"big.Int.ModSqrt": func(c *mcall) []Outcome {
			return c.ptrs(c.args, func(st *State, args []Value) []Outcome {
				a, p := c.x.bigInt(st, args[1], c.site), c.x.bigInt(st, args[2], c.site)
				if p.isConst() && p.k.Sign() > 0 {
					a = canonMod(a, p.k)
				}
				has := condOp(mkTerm("issquare", a, p))
				t, f := st.branch(has)
				var out []Outcome
				for _, s := range t {
					r := LT(setRange(mkTerm("modsqrt", a, p), big0, nil))
					s.push(p.sub(r).addc(-1), false)
					c.x.setBig(s, args[0], r, c.site)
					c.note(s, args[0])
					out = append(out, ret(s, args[0])...)
				}
				for _, s := range f {
					c.note(s, VNil{})
					out = append(out, ret(s, VNil{})...)
				}
				return out
			})
		},

		"sort.Sort": func(c *mcall) []Outcome {
			if f, ok := c.args[0].(VIface); ok {
				if s, ok := f.V.(VSlice); ok && s.Obj != nil {
					cc := c.st.norm(c.st.bytesOf(s))
					src := mkTerm("sorted", cc)
					objType[src] = types.NewArray(elemType(f.T), -1)
					c.st.setArr(s, c.st.putRun(c.st.arr(s), s.Off, content(Seg{K: 'b', Src: src, Off: LC(0), N: s.Len})))
					c.note(c.st)
					return []Outcome{{st: c.st}}
				}
				if _, ok := f.V.(VSlice); ok {
					return []Outcome{{st: c.st}}
				}
			}
			return nil
		},
		"strings.ToUpper": func(c *mcall) []Outcome {
			if b := c.bytes(0); len(b.segs) == 1 && b.segs[0].K == 'b' && b.segs[0].Src.op == "hex" && b.segs[0].Off.isInt(0) {
				return c.ret(VStr{blob(mkTerm("HEX", b.segs[0].Src.args...), b.segs[0].N)})
			}
			return nil
		},
		"os.IsNotExist": func(c *mcall) []Outcome {
			if c.st.isNil(c.args[0]) == 1 {
				return ret(c.st, VBool{condFalse})
			}
			return nil
		},
		"ioutil.ReadFile": readFile,
		"os.ReadFile":     readFile,
	}
	delete(models, "math.Pow")
	for _, e := range []string{"bigEndian", "littleEndian"} {
		for _, n := range []int{16, 32, 64} {
			models[fmt.Sprintf("binary.%s.PutUint%d", e, n)] = endian(n/8, e == "bigEndian", true)
			models[fmt.Sprintf("binary.%s.Uint%d", e, n)] = endian(n/8, e == "bigEndian", false)
		}
	}
	// methods of values without a pointer: the prefix of the package path is kept by fname
}

func exitModel(c *mcall) []Outcome {
	c.note(c.st)
	return []Outcome{{st: c.st, panic: &Panic{"exit", c.name, c.site}}}
}

func panicModel(c *mcall) []Outcome {
	c.note(c.st)
	return []Outcome{{st: c.st, panic: &Panic{"explicit", c.name, c.site}}}
}

func readFile(c *mcall) []Outcome {
	bad := c.st.clone()
	path := c.bytes(0)
	t := c.st.fresh("file")
	data := newBytes(c.st, "filebuf", blob(mkTerm("filedata", t, path), LT(lenTerm(mkTerm("filedata", t, path)))))
	e := freshErr(bad, c.name)
	c.note(c.st, data, VNil{})
	c.note(bad, nilSlice, e)
	return []Outcome{{st: c.st, rets: []Value{data, VNil{}}}, {st: bad, rets: []Value{nilSlice, e}}}
}

func readerName(v Value) string {
	if s, ok := v.(VSym); ok && s.Tm.op == "init" {
		if o, ok := s.Tm.args[0].(*Term); ok && strings.HasPrefix(o.op, "global:rand.Reader") {
			return "crypto"
		}
	}
	return "reader:" + v.vkey()
}

func putVarint(k byte) func(*mcall) []Outcome {
	return func(c *mcall) []Outcome {
		b, ok := c.args[0].(VSlice)
		if !ok {
			return nil
		}
		v := c.int(1)
		cc := content(Seg{K: k, X: v})
		n := cc.length()
		ln := LC(0)
		if b.Obj != nil {
			ln = b.Len
		}
		return c.need(c.st, condGE(ln.sub(n)), "index", "buffer too short", func(st *State) []Outcome {
			if b.Obj != nil {
				c.x.writeSlice(st, b, cc, c.site)
			}
			return ret(st, VInt{n})
		})
	}
}

func binaryRead(c *mcall) []Outcome {
	be := true
	if o, ok := c.args[1].(VIface); ok {
		be = strings.Contains(typeKey(o.T), "bigEndian")
	} else {
		return nil
	}
	d, ok := c.args[2].(VIface)
	if !ok {
		return nil
	}
	dp, ok := d.V.(VPtr)
	if !ok || dp.Obj == nil {
		return nil
	}
	et := d.T.Underlying().(*types.Pointer).Elem()
	lo, hi, ok := sizeRange(et)
	if !ok {
		return nil
	}
	width := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	n := int64((width.BitLen() - 1) / 8)
	number := func(s *State, b *Content) Lin {
		l := LC(0)
		for i := int64(0); i < n; i++ {
			e := intOf(s.at(b, LC(i), types.Typ[types.Uint8]))
			sh := int(8 * i)
			if be {
				sh = int(8 * (n - 1 - i))
			}
			l = l.add(e.mul(pow2(sh)))
		}
		return l
	}
	if readerName(c.args[0]) == "crypto" {
		// a draw of that many bytes
		bad := c.st.clone()
		src := c.st.fresh("random:crypto")
		e := freshErr(bad, c.name)
		bad.store(dp, symVal(bad.fresh("partial:crypto:"+typeKey(et)), et))
		c.note(bad, e)
		return append(c.x.fit(c.st, number(c.st, content(Seg{K: 'b', Src: src, Off: LC(0), N: LC(n)})), et, func(q *State, v Lin) []Outcome {
			q.store(dp, VInt{v})
			c.note(q, VNil{})
			return ret(q, VNil{})
		}), Outcome{st: bad, rets: []Value{e}})
	}
	rd, ok := c.args[0].(VIface)
	if !ok {
		return nil
	}
	rp, ok := rd.V.(VPtr)
	if !ok || rp.Obj == nil {
		return nil
	}
	rc, ok := c.st.heap[rp.Obj].(VStr)
	if !ok {
		return nil
	}
	t, f := c.st.branch(condGE(rc.C.length().addc(-n)))
	var out []Outcome
	for _, s := range t {
		l := number(s, rc.C)
		s.heap[rp.Obj] = VStr{s.sub(rc.C, LC(n), rc.C.length().addc(-n))}
		out = append(out, c.x.fit(s, l, et, func(q *State, v Lin) []Outcome {
			q.store(dp, VInt{v})
			c.note(q, VNil{})
			return ret(q, VNil{})
		})...)
	}
	for _, s := range f {
		e := freshErr(s, c.name)
		c.note(s, e)
		out = append(out, ret(s, e)...)
	}
	return out
}

// hexOf and unhex are inverse
func hexOf(c *Content) *Content { return hexIn("%x", c) }

func hexIn(verb string, c *Content) *Content {
	if len(c.segs) == 0 {
		return c
	}
	op := "hex"
	if verb == "%X" {
		op = "HEX"
	}
	return blob(mkTerm(op, c), c.length().mulc(2))
}

// isHex: the hex form of something
func isHex(c *Content) bool {
	return len(c.segs) == 0 || len(c.segs) == 1 && c.segs[0].K == 'b' && strings.EqualFold(c.segs[0].Src.op, "hex") && c.segs[0].Off.isInt(0) &&
		c.segs[0].N.eq(c.segs[0].Src.args[0].(*Content).length().mulc(2))
}

func unhexLen(c *Content) Lin { return divLin(c.length(), big.NewInt(2)) }

func unhex(c *Content) *Content {
	if len(c.segs) == 0 {
		return c
	}
	if len(c.segs) == 1 && c.segs[0].K == 'b' && strings.EqualFold(c.segs[0].Src.op, "hex") && c.segs[0].Off.isInt(0) {
		in := c.segs[0].Src.args[0].(*Content)
		if c.segs[0].N.eq(in.length().mulc(2)) {
			return in
		}
	}
	return blob(mkTerm("unhex", c), unhexLen(c))
}

// bigFrom is the number a big endian byte string stands for
func bigFrom(st *State, c *Content) Lin {
	c = st.norm(c)
	// leading zeros do not count
	for len(c.segs) > 0 {
		g := c.segs[0]
		if g.K == 'z' {
			c = content(c.segs[1:]...)
			continue
		}
		if g.K == 'e' {
			if iv, ok := g.V.(VInt); ok && st.cons.entailsEq(iv.L) {
				c = content(c.segs[1:]...)
				continue
			}
		}
		break
	}
	if len(c.segs) == 0 {
		return LC(0)
	}
	if len(c.segs) == 1 && c.segs[0].K == 'b' && c.segs[0].Src.op == "bigbytes" && c.segs[0].Off.isInt(0) {
		l := c.segs[0].Src.args[0].(Lin)
		if st.eqL(c.segs[0].N, bigLen(st, l)) {
			return l
		}
	}
	if n, ok := c.length().int(); ok && n <= 16 {
		l := LC(0)
		for i := int64(0); i < n; i++ {
			v, ok := st.at(c, LC(i), types.Typ[types.Uint8]).(VInt)
			if !ok {
				l = Lin{}
				break
			}
			l = l.add(v.L.mul(pow2(int(8 * (n - 1 - i)))))
		}
		if l.k != nil {
			return l
		}
	}
	t := setRange(mkTerm("frombytes", c), big0, nil)
	if n, ok := c.length().int(); ok && n < 1024 {
		setRange(t, nil, new(big.Int).Sub(pow2(int(8*n)), big1))
	}
	return LT(t)
}

func bigLen(st *State, l Lin) Lin {
	t := setRange(mkTerm("biglen", l), big0, maxLen)
	// zero has no bytes, and every other number at least one
	if st.ge(l.addc(-1)) || st.ge(l.neg().addc(-1)) {
		st.push(LT(t).addc(-1), false)
	} else if st.cons.entailsEq(l) {
		st.push(LT(t), true)
	}
	// numbers below 2^(8n) have at most n bytes
	for _, n := range []int{1, 2, 4, 8, 16, 32, 64} {
		if st.ge(LB(pow2(8*n)).sub(l).addc(-1)) && st.ge(l) {
			st.push(LC(int64(n)).sub(LT(t)), false)
			break
		}
	}
	for _, n := range []int{64, 32, 16, 8, 4, 2, 1} {
		if st.ge(l.sub(LB(pow2(8 * n)))) {
			st.push(LT(t).addc(int64(-n-1)), false)
			break
		}
	}
	return LT(t)
}

// bigDigits are the bytes of a number that is written as a sum of digits
func bigDigits(st *State, l Lin) (*Content, bool) {
	if l.isConst() && l.k.Sign() == 0 || len(l.ts) > 32 || l.k.Sign() < 0 {
		return nil, false
	}
	var segs []Seg
	rest := l
	for i := 0; i < 32 && !(rest.isConst() && rest.k.Sign() == 0); i++ {
		d := Lin{k: new(big.Int).And(rest.k, big.NewInt(255))}
		for _, m := range rest.ts {
			if new(big.Int).And(m.c, big.NewInt(255)).Sign() != 0 {
				d.ts = append(d.ts, m)
			}
		}
		if !st.ge(d) || !st.ge(LC(255).sub(d)) {
			return nil, false
		}
		segs = append([]Seg{{K: 'e', V: VInt{d}}}, segs...)
		rest = rest.sub(d)
		n := Lin{k: new(big.Int).Rsh(rest.k, 8)}
		for _, m := range rest.ts {
			n.ts = append(n.ts, mono{m.t, new(big.Int).Rsh(m.c, 8)})
		}
		rest = n
	}
	// the first of them counts
	if len(segs) == 0 || !st.ge(intOf(segs[0].V).addc(-1)) {
		return nil, false
	}
	return content(segs...), true
}

func bigBytes(st *State, l Lin) *Content {
	if c, ok := bigDigits(st, l); ok {
		return c
	}
	n := bigLen(st, l)
	t := mkTerm("bigbytes", l)
	if st.ge(l.addc(-1)) {
		// no leading zeros
		c := blob(t, n)
		if v, ok := st.at(c, LC(0), types.Typ[types.Uint8]).(VInt); ok {
			st.push(v.L.addc(-1), false)
		}
		return c
	}
	return blob(t, n)
}
