package main

// Abstract values.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{ vkey() string }

type VInt struct{ L Lin }
type VBool struct{ C *Cond }

// VPtr is the address of a location. When Nil is set the pointer may be nil,
// which the state knows or not.
type VPtr struct {
	Obj  *Term
	Path []PE
	Nil  *Term
}
type PE struct {
	F   int // field, when Idx is nil
	Idx *Lin
}
type VNil struct{} // nil pointer, interface, map, function, channel

// VSlice is a view of an array object; Obj is nil for the nil slice.
type VSlice struct {
	Obj           *Term
	Path          []PE // the array inside the object
	Off, Len, Cap Lin
	Nil           *Term
}

var nilSlice = VSlice{Off: LC(0), Len: LC(0), Cap: LC(0)}

type VStr struct{ C *Content }
type VIface struct {
	T types.Type
	V Value
}
type VSym struct {
	Tm *Term
	T  types.Type
}
type VTuple struct{ Vs []Value }
type VStruct struct{ F []Value }
type VArr struct{ C *Content }
type VFunc struct {
	Fn   *ssa.Function
	Bind []Value
}
type VType struct{ T types.Type } // a reflect.Type
type VRVal struct{ V Value }      // a reflect.Value

// ---------------------------------------------------------------- conditions

type Cond struct {
	op   string // true ge eq nil type op not and or
	L    Lin
	T    *Term
	Ty   types.Type
	A, B *Cond
	k    string
}

var condTrue = &Cond{op: "true", k: "true"}
var condFalse = &Cond{op: "not", A: condTrue, k: "!true"}

func condBool(b bool) *Cond {
	if b {
		return condTrue
	}
	return condFalse
}

func condGE(l Lin) *Cond { // l >= 0
	if l.isConst() {
		return condBool(l.k.Sign() >= 0)
	}
	return &Cond{op: "ge", L: l, k: "ge" + l.key()}
}
func condEQ(l Lin) *Cond {
	if l.isConst() {
		return condBool(l.k.Sign() == 0)
	}
	if l.ts[0].c.Sign() < 0 {
		l = l.neg()
	}
	return &Cond{op: "eq", L: l, k: "eq" + l.key()}
}
func condNil(t *Term) *Cond {
	if t.op == "nilif" {
		return nilIf(t)
	}
	return &Cond{op: "nil", T: t, k: fmt.Sprintf("nil t%d", t.id)}
}

// a term "nilif" is nil exactly when a condition holds
func nilIfTerm(c *Cond, val bool) *Term {
	v := 1
	if !val {
		v = 0
	}
	switch c.op {
	case "nil":
		if val {
			return c.T
		}
		return mkTerm("nilif", "nil", c.T, v)
	case "op":
		return mkTerm("nilif", "op", c.T, v)
	case "eq", "ge":
		return mkTerm("nilif", c.op, c.L, v)
	}
	return nil
}

func nilIf(t *Term) *Cond {
	var c *Cond
	switch t.args[0].(string) {
	case "nil":
		c = condNil(t.args[1].(*Term))
	case "op":
		c = condOp(t.args[1].(*Term))
	case "eq":
		c = condEQ(t.args[1].(Lin))
	default:
		c = condGE(t.args[1].(Lin))
	}
	if t.args[2].(int) == 0 {
		return c.not()
	}
	return c
}
func condOp(t *Term) *Cond { return &Cond{op: "op", T: t, k: fmt.Sprintf("op t%d", t.id)} }
func condType(t *Term, ty types.Type) *Cond {
	return &Cond{op: "type", T: t, Ty: ty, k: fmt.Sprintf("type t%d %s", t.id, typeKey(ty))}
}
func (c *Cond) not() *Cond {
	if c.op == "not" {
		return c.A
	}
	if c == condTrue {
		return condFalse
	}
	return &Cond{op: "not", A: c, k: "!" + c.k}
}
func condAnd(a, b *Cond) *Cond {
	switch {
	case a == condTrue:
		return b
	case b == condTrue:
		return a
	case a == condFalse || b == condFalse:
		return condFalse
	}
	return &Cond{op: "and", A: a, B: b, k: "(" + a.k + "&" + b.k + ")"}
}
func condOr(a, b *Cond) *Cond { return condAnd(a.not(), b.not()).not() }

func (c *Cond) String() string {
	switch c.op {
	case "true":
		return "true"
	case "ge":
		return c.L.String() + " >= 0"
	case "eq":
		return c.L.String() + " == 0"
	case "nil":
		return c.T.String() + " is nil"
	case "op":
		return c.T.String()
	case "type":
		return c.T.String() + " is " + typeKey(c.Ty)
	case "not":
		return "not(" + c.A.String() + ")"
	case "and":
		return "(" + c.A.String() + " and " + c.B.String() + ")"
	}
	return "?"
}

// ---------------------------------------------------------------- keys

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeys[t] = s
	return s
}

func pathKey(p []PE) string {
	var sb strings.Builder
	for _, e := range p {
		if e.Idx != nil {
			sb.WriteString("[" + e.Idx.key() + "]")
		} else {
			fmt.Fprintf(&sb, ".%d", e.F)
		}
	}
	return sb.String()
}

func termKey(t *Term) string {
	if t == nil {
		return "-"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (v VInt) vkey() string  { return v.L.key() }
func (v VBool) vkey() string { return "B" + v.C.k }
func (v VPtr) vkey() string  { return "P" + termKey(v.Obj) + pathKey(v.Path) + "/" + termKey(v.Nil) }
func (v VNil) vkey() string  { return "nil" }
func (v VSlice) vkey() string {
	if v.Obj == nil {
		return "S-"
	}
	return "S" + termKey(v.Obj) + pathKey(v.Path) + "," + v.Off.key() + "," + v.Len.key() + "," + v.Cap.key() + "/" + termKey(v.Nil)
}
func (v VStr) vkey() string   { return fmt.Sprintf("\"c%d", v.C.id) }
func (v VIface) vkey() string { return "I" + typeKey(v.T) + ":" + v.V.vkey() }
func (v VSym) vkey() string   { return "Y" + termKey(v.Tm) }
func keysOf(vs []Value) string {
	var sb strings.Builder
	for _, v := range vs {
		if v == nil {
			sb.WriteString("?;")
		} else {
			sb.WriteString(v.vkey())
			sb.WriteByte(';')
		}
	}
	return sb.String()
}
func (v VTuple) vkey() string  { return "T(" + keysOf(v.Vs) + ")" }
func (v VStruct) vkey() string { return "R{" + keysOf(v.F) + "}" }
func (v VArr) vkey() string    { return fmt.Sprintf("A{c%d}", v.C.id) }
func (v VFunc) vkey() string   { return "F" + v.Fn.String() + "(" + keysOf(v.Bind) + ")" }
func (v VType) vkey() string   { return "rt" + typeKey(v.T) }
func (v VRVal) vkey() string   { return "rv" + v.V.vkey() }

func valString(v Value) string {
	switch x := v.(type) {
	case VInt:
		return x.L.String()
	case VBool:
		return x.C.String()
	case VPtr:
		s := "&" + x.Obj.String()
		for _, p := range x.Path {
			if p.Idx != nil {
				s += "[" + p.Idx.String() + "]"
			} else {
				s += fmt.Sprintf(".%d", p.F)
			}
		}
		return s
	case VNil:
		return "nil"
	case VSlice:
		if x.Obj == nil {
			return "nil[]"
		}
		return fmt.Sprintf("%s[%s:+%s]", x.Obj, x.Off, x.Len)
	case VStr:
		return x.C.String()
	case VIface:
		return "iface(" + typeKey(x.T) + "," + valString(x.V) + ")"
	case VSym:
		return x.Tm.String()
	case VTuple, VStruct:
		var vs []Value
		if t, ok := x.(VTuple); ok {
			vs = t.Vs
		} else {
			vs = x.(VStruct).F
		}
		var s []string
		for _, e := range vs {
			if e == nil {
				s = append(s, "?")
			} else {
				s = append(s, valString(e))
			}
		}
		return "{" + strings.Join(s, ", ") + "}"
	case VArr:
		return x.C.String()
	case VFunc:
		return x.Fn.String()
	case nil:
		return "<none>"
	}
	return v.vkey()
}

// walkValue calls f on every Lin, Term and Content inside v
func walkValue(v Value, f func(Arg)) {
	wp := func(p []PE) {
		for _, e := range p {
			if e.Idx != nil {
				f(*e.Idx)
			}
		}
	}
	switch x := v.(type) {
	case VInt:
		f(x.L)
	case VBool:
		walkCond(x.C, f)
	case VPtr:
		f(x.Obj)
		wp(x.Path)
		if x.Nil != nil {
			f(x.Nil)
		}
	case VSlice:
		if x.Obj != nil {
			f(x.Obj)
			wp(x.Path)
			f(x.Off)
			f(x.Len)
			f(x.Cap)
			if x.Nil != nil {
				f(x.Nil)
			}
		}
	case VStr:
		f(x.C)
	case VIface:
		walkValue(x.V, f)
	case VSym:
		f(x.Tm)
	case VTuple:
		for _, e := range x.Vs {
			if e != nil {
				walkValue(e, f)
			}
		}
	case VStruct:
		for _, e := range x.F {
			walkValue(e, f)
		}
	case VArr:
		f(x.C)
	case VFunc:
		for _, e := range x.Bind {
			walkValue(e, f)
		}
	case VRVal:
		walkValue(x.V, f)
	}
}

func walkCond(c *Cond, f func(Arg)) {
	if c == nil {
		return
	}
	switch c.op {
	case "ge", "eq":
		f(c.L)
	case "nil", "op", "type":
		f(c.T)
	}
	walkCond(c.A, f)
	walkCond(c.B, f)
}

// ---------------------------------------------------------------- substitution

// Subst replaces terms. lin maps integer terms, term maps any term.
type Subst struct {
	lin  map[*Term]Lin
	term map[*Term]*Term
	memo map[*Term]*Term
	cm   map[*Content]*Content
}

func substLin1(t *Term, l Lin) *Subst {
	return &Subst{lin: map[*Term]Lin{t: l}, memo: map[*Term]*Term{}, cm: map[*Content]*Content{}}
}

func newSubst() *Subst {
	return &Subst{lin: map[*Term]Lin{}, term: map[*Term]*Term{}, memo: map[*Term]*Term{}, cm: map[*Content]*Content{}}
}

func (s *Subst) touches(d map[int]bool) bool {
	for t := range s.lin {
		if d[t.id] {
			return true
		}
	}
	for t := range s.term {
		if d[t.id] {
			return true
		}
	}
	return false
}

func (s *Subst) L(l Lin) Lin {
	hit := false
	for _, m := range l.ts {
		if s.touches(m.t.deps) {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := Lin{k: l.k}
	for _, m := range l.ts {
		if !s.touches(m.t.deps) {
			r = r.add(Lin{ts: []mono{m}, k: big0})
			continue
		}
		r = r.add(s.termLin(m.t).mul(m.c))
	}
	return r
}

// termLin is the integer value of a term after substitution
func (s *Subst) termLin(t *Term) Lin {
	if l, ok := s.lin[t]; ok {
		return l
	}
	if !s.touches(t.deps) {
		return LT(t)
	}
	switch t.op {
	case "psum":
		c := t.args[1].(*Content)
		return psumLin(s.C(c), s.L(t.args[0].(Lin)))
	case "div":
		a := s.L(t.args[0].(Lin))
		c, _ := t.args[1].(Lin)
		return divLin(a, c.k)
	case "uvlen":
		return uvlenLin(s.L(t.args[0].(Lin)))
	case "elem":
		if src, ok := t.args[0].(*Term); ok {
			ns := s.T(src)
			idx := s.L(t.args[1].(Lin))
			if ns != src && ns.op == "snap" {
				if v := snapElem(ns, idx); v != nil {
					if vi, ok := v.(VInt); ok {
						return vi.L
					}
				}
			}
		}
	}
	return LT(s.T(t))
}

func (s *Subst) T(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s.term[t]; ok {
		return r
	}
	if !s.touches(t.deps) {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	if l, ok := s.lin[t]; ok {
		if len(l.ts) == 1 && l.k.Sign() == 0 && l.ts[0].c.Cmp(big1) == 0 {
			return l.ts[0].t
		}
		// a term position cannot hold a sum: wrap it
		return mkTerm("int", l)
	}
	args := make([]Arg, len(t.args))
	for i, a := range t.args {
		args[i] = s.arg(a)
	}
	switch t.op {
	case "op^", "op&", "op|", "op*":
		a, ok1 := args[0].(Lin)
		b, ok2 := args[1].(Lin)
		if ok1 && ok2 && a.key() > b.key() {
			args[0], args[1] = args[1], args[0]
		}
	}
	r := mkTerm(t.op, args...)
	if r.lo == nil {
		r.lo = t.lo
	}
	if r.hi == nil {
		r.hi = t.hi
	}
	if r.def == nil && len(t.def) > 0 {
		for _, d := range t.def {
			// definitions of the term refer to itself
			r.def = append(r.def, con{s.selfL(d.e, t, r), d.eq})
		}
	}
	if ty, ok := objType[t]; ok {
		if _, ok := objType[r]; !ok {
			objType[r] = ty
		}
	}
	s.memo[t] = r
	return r
}

func (s *Subst) selfL(l Lin, from, to *Term) Lin {
	r := Lin{k: l.k}
	for _, m := range l.ts {
		if m.t == from {
			r = r.add(LT(to).mul(m.c))
		} else {
			r = r.add(s.L(Lin{ts: []mono{m}, k: big0}))
		}
	}
	return r
}

func (s *Subst) arg(a Arg) Arg {
	switch x := a.(type) {
	case Lin:
		return s.L(x)
	case *Term:
		return s.T(x)
	case *Content:
		return s.C(x)
	case string:
		return x
	case Value:
		return s.V(x)
	}
	return a
}

func (s *Subst) path(p []PE) []PE {
	if len(p) == 0 {
		return p
	}
	r := make([]PE, len(p))
	for i, e := range p {
		r[i] = e
		if e.Idx != nil {
			l := s.L(*e.Idx)
			r[i].Idx = &l
		}
	}
	return r
}

func (s *Subst) vs(vs []Value) []Value {
	r := make([]Value, len(vs))
	for i, v := range vs {
		if v != nil {
			r[i] = s.V(v)
		}
	}
	return r
}

func (s *Subst) V(v Value) Value {
	switch x := v.(type) {
	case VInt:
		return VInt{s.L(x.L)}
	case VBool:
		return VBool{s.cond(x.C)}
	case VPtr:
		return VPtr{s.T(x.Obj), s.path(x.Path), s.T(x.Nil)}
	case VSlice:
		if x.Obj == nil {
			return x
		}
		return VSlice{s.T(x.Obj), s.path(x.Path), s.L(x.Off), s.L(x.Len), s.L(x.Cap), s.T(x.Nil)}
	case VStr:
		return VStr{s.C(x.C)}
	case VIface:
		return VIface{x.T, s.V(x.V)}
	case VSym:
		return VSym{s.T(x.Tm), x.T}
	case VTuple:
		return VTuple{s.vs(x.Vs)}
	case VStruct:
		return VStruct{s.vs(x.F)}
	case VArr:
		return VArr{s.C(x.C)}
	case VFunc:
		return VFunc{x.Fn, s.vs(x.Bind)}
	case VRVal:
		return VRVal{s.V(x.V)}
	}
	return v
}

func (s *Subst) cond(c *Cond) *Cond {
	switch c.op {
	case "ge":
		return condGE(s.L(c.L))
	case "eq":
		return condEQ(s.L(c.L))
	case "nil":
		return condNil(s.T(c.T))
	case "op":
		return condOp(s.T(c.T))
	case "type":
		return condType(s.T(c.T), c.Ty)
	case "not":
		return s.cond(c.A).not()
	case "and":
		return condAnd(s.cond(c.A), s.cond(c.B))
	}
	return c
}

// ---------------------------------------------------------------- symbolic values

// objType is the type of the object a term names
var objType = map[*Term]types.Type{}

func sizeRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	u := func(n int) (*big.Int, *big.Int, bool) { return big0, new(big.Int).Sub(pow2(n), big1), true }
	i := func(n int) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), big1), true
	}
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return i(8)
	case types.Int16:
		return i(16)
	case types.Int32, types.UntypedRune:
		return i(32)
	case types.Int64, types.Int, types.UntypedInt:
		return i(64)
	}
	return nil, nil, false
}

func isInt(t types.Type) bool { _, _, ok := sizeRange(t); return ok }
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func setRange(t *Term, lo, hi *big.Int) *Term {
	if t.lo == nil || lo != nil && lo.Cmp(t.lo) > 0 {
		t.lo = lo
	}
	if t.hi == nil || hi != nil && hi.Cmp(t.hi) < 0 {
		t.hi = hi
	}
	return t
}

var maxLen = pow2(40)

func lenTerm(t *Term) *Term { return setRange(mkTerm("len", t), big0, maxLen) }
func capTerm(t *Term) *Term {
	c := mkTerm("cap", t)
	if c.def == nil {
		setRange(c, big0, pow2(41))
		c.def = []con{{LT(c).sub(LT(lenTerm(t))), false}}
	}
	return c
}

// symKind is the type of the integer a term names
var symKind = map[*Term]types.BasicKind{}

func symVal(t *Term, ty types.Type) Value {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := sizeRange(ty); ok {
			if k, ok := symKind[t]; ok && k != u.Kind() {
				panic(undecided{"one name for integers of different types: " + t.String()})
			}
			symKind[t] = u.Kind()
			setRange(t, lo, hi)
			return VInt{LT(t)}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{condOp(t)}
		case u.Info()&types.IsString != 0:
			l := lenTerm(t)
			return VStr{content(Seg{K: 'b', Src: mkTerm("strdata", t), Off: LC(0), N: LT(l)})}
		}
		return VSym{t, ty}
	case *types.Pointer:
		o := mkTerm("deref", t)
		objType[o] = u.Elem()
		return VPtr{Obj: o, Nil: t}
	case *types.Slice:
		o := mkTerm("arr", t)
		objType[o] = types.NewArray(u.Elem(), -1)
		return VSlice{Obj: o, Off: LC(0), Len: LT(lenTerm(t)), Cap: LT(capTerm(t)), Nil: t}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = symVal(mkTerm("f."+u.Field(i).Name(), t), u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		o := mkTerm("arrdata", t)
		objType[o] = ty
		return VArr{content(Seg{K: 'b', Src: o, Off: LC(0), N: LC(u.Len())})}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = symVal(mkTerm(fmt.Sprintf("r.%d", i), t), u.At(i).Type())
		}
		return VTuple{f}
	}
	return VSym{t, ty}
}

func zeroVal(ty types.Type) Value {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case isInt(ty):
			return VInt{LC(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{condFalse}
		case u.Info()&types.IsString != 0:
			return VStr{content()}
		}
		if u.Kind() == types.UntypedNil {
			return VNil{}
		}
		return VSym{mkTerm("zero", typeKey(ty)), ty}
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		return VArr{content(Seg{K: 'z', N: LC(u.Len())})}
	}
	return VNil{}
}

// elemVal is element idx of the symbolic source src, of type ty
func elemVal(src *Term, idx Lin, ty types.Type) Value {
	return symVal(mkTerm("elem", src, idx), ty)
}
