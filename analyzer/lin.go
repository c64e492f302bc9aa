package main

// Linear expressions over integer terms, and the convex-polyhedra style
// constraint domain used by the abstract interpreter: conjunctions of linear
// (in)equalities, with emptiness decided by equality substitution and
// Fourier-Motzkin projection, tightened to the integers.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- terms

// Arg is an argument of a term: Lin, *Term, *Content, or string.
type Arg interface{}

// Term names an abstract entity (integer, object, content, boolean ...).
// Terms are hash-consed: two uses of one name are the same entity.
type Term struct {
	id     int
	op     string
	args   []Arg
	lo, hi *big.Int // bounds, when it names an integer
	deps   map[int]bool
	born   int
	def    []con // definitional facts about the term
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	freshN   int
)

func argKey(a Arg) string {
	switch x := a.(type) {
	case Lin:
		return x.key()
	case *Term:
		if x == nil {
			return "t-"
		}
		return fmt.Sprintf("t%d", x.id)
	case *Content:
		return fmt.Sprintf("c%d", x.id)
	case string:
		return fmt.Sprintf("%q", x)
	case Value:
		return "v" + x.vkey()
	}
	panic(fmt.Sprintf("argKey %T", a))
}

func mkTerm(op string, args ...Arg) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte('(')
		sb.WriteString(argKey(a))
	}
	k := sb.String()
	if t := termTab[k]; t != nil {
		return t
	}
	t := &Term{id: len(termList), op: op, args: args, born: freshN}
	t.deps = map[int]bool{t.id: true}
	for _, a := range args {
		addDeps(t.deps, a)
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func addDeps(d map[int]bool, a Arg) {
	switch x := a.(type) {
	case Lin:
		for _, m := range x.ts {
			for k := range m.t.deps {
				d[k] = true
			}
		}
	case *Term:
		if x != nil {
			for k := range x.deps {
				d[k] = true
			}
		}
	case *Content:
		for k := range x.deps {
			d[k] = true
		}
	case Value:
		walkValue(x, func(a Arg) { addDeps(d, a) })
	}
}

func freshTerm(hint string) *Term {
	freshN++
	return mkTerm(fmt.Sprintf("%s#%d", hint, freshN))
}

func (t *Term) isFresh() bool { return len(t.args) == 0 && strings.Contains(t.op, "#") }

func (t *Term) dep(x *Term) bool { return t.deps[x.id] }

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if len(t.args) == 0 {
		return t.op
	}
	var s []string
	for _, a := range t.args {
		s = append(s, argString(a))
	}
	return t.op + "(" + strings.Join(s, ",") + ")"
}

func argString(a Arg) string {
	switch x := a.(type) {
	case Lin:
		return x.String()
	case *Term:
		return x.String()
	case *Content:
		return x.String()
	case string:
		return x
	case Value:
		return valString(x)
	}
	return "?"
}

// ---------------------------------------------------------------- linear expressions

type mono struct {
	t *Term
	c *big.Int
}

type Lin struct {
	ts []mono // sorted by term id, no zero coefficient
	k  *big.Int
}

var big0 = big.NewInt(0)
var big1 = big.NewInt(1)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func LC(n int64) Lin        { return Lin{k: big.NewInt(n)} }
func LB(n *big.Int) Lin     { return Lin{k: n} }
func LT(t *Term) Lin        { return Lin{ts: []mono{{t, big1}}, k: big0} }
func (a Lin) isConst() bool { return len(a.ts) == 0 }
func (a Lin) neg() Lin      { return a.mul(big.NewInt(-1)) }
func (a Lin) sub(b Lin) Lin { return a.add(b.neg()) }
func (a Lin) addc(n int64) Lin {
	return Lin{ts: a.ts, k: new(big.Int).Add(a.k, big.NewInt(n))}
}
func (a Lin) mulc(n int64) Lin { return a.mul(big.NewInt(n)) }
func (a Lin) mul(c *big.Int) Lin {
	if c.Sign() == 0 {
		return LC(0)
	}
	r := Lin{k: new(big.Int).Mul(a.k, c)}
	for _, m := range a.ts {
		r.ts = append(r.ts, mono{m.t, new(big.Int).Mul(m.c, c)})
	}
	return r
}
func (a Lin) add(b Lin) Lin {
	r := Lin{k: new(big.Int).Add(a.k, b.k)}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].t.id < b.ts[j].t.id:
			r.ts = append(r.ts, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].t.id < a.ts[i].t.id:
			r.ts = append(r.ts, b.ts[j])
			j++
		default:
			c := new(big.Int).Add(a.ts[i].c, b.ts[j].c)
			if c.Sign() != 0 {
				r.ts = append(r.ts, mono{a.ts[i].t, c})
			}
			i++
			j++
		}
	}
	return r
}
func (a Lin) coef(t *Term) *big.Int {
	for _, m := range a.ts {
		if m.t == t {
			return m.c
		}
	}
	return big0
}
func (a Lin) eq(b Lin) bool {
	if len(a.ts) != len(b.ts) || a.k.Cmp(b.k) != 0 {
		return false
	}
	for i := range a.ts {
		if a.ts[i].t != b.ts[i].t || a.ts[i].c.Cmp(b.ts[i].c) != 0 {
			return false
		}
	}
	return true
}
func (a Lin) isInt(n int64) bool { return a.isConst() && a.k.IsInt64() && a.k.Int64() == n }
func (a Lin) int() (int64, bool) {
	if a.isConst() && a.k.IsInt64() {
		return a.k.Int64(), true
	}
	return 0, false
}
func (a Lin) dep(x *Term) bool {
	for _, m := range a.ts {
		if m.t.dep(x) {
			return true
		}
	}
	return false
}
func (a Lin) key() string {
	var sb strings.Builder
	sb.WriteByte('L')
	for _, m := range a.ts {
		fmt.Fprintf(&sb, "%st%d+", m.c.String(), m.t.id)
	}
	sb.WriteString(a.k.String())
	return sb.String()
}
func (a Lin) String() string {
	if a.k == nil {
		return "<nolin>"
	}
	var sb strings.Builder
	for i, m := range a.ts {
		if m.c.Cmp(big1) == 0 {
			if i > 0 {
				sb.WriteByte('+')
			}
		} else if m.c.Cmp(big.NewInt(-1)) == 0 {
			sb.WriteByte('-')
		} else {
			if i > 0 && m.c.Sign() > 0 {
				sb.WriteByte('+')
			}
			sb.WriteString(m.c.String() + "*")
		}
		sb.WriteString(m.t.String())
	}
	if len(a.ts) == 0 {
		return a.k.String()
	}
	if a.k.Sign() > 0 {
		sb.WriteString("+" + a.k.String())
	} else if a.k.Sign() < 0 {
		sb.WriteString(a.k.String())
	}
	return sb.String()
}

// bounds by intervals of the terms only
func (a Lin) interval() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(a.k), new(big.Int).Set(a.k)
	for _, m := range a.ts {
		l, h := m.t.lo, m.t.hi
		if m.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(m.c, l))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(m.c, h))
			}
		}
	}
	return
}

// ---------------------------------------------------------------- constraints

// con is e >= 0, or e == 0 when eq.
type con struct {
	e  Lin
	eq bool
}

func (c con) String() string {
	if c.eq {
		return c.e.String() + " == 0"
	}
	return c.e.String() + " >= 0"
}

// normalise divides by the gcd of the coefficients, rounding towards the
// integer points. ok is false when the constraint has no integer point.
func (c con) normalise() (con, bool) {
	if len(c.e.ts) == 0 {
		if c.eq {
			return c, c.e.k.Sign() == 0
		}
		return c, c.e.k.Sign() >= 0
	}
	g := new(big.Int).Abs(c.e.ts[0].c)
	for _, m := range c.e.ts[1:] {
		if g.Cmp(big1) == 0 {
			break
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(big1) == 0 {
		return c, true
	}
	if c.eq {
		if new(big.Int).Mod(c.e.k, g).Sign() != 0 {
			return c, false
		}
	}
	r := Lin{k: new(big.Int).Div(c.e.k, g)} // Euclidean = floor for g>0
	for _, m := range c.e.ts {
		r.ts = append(r.ts, mono{m.t, new(big.Int).Div(m.c, g)})
	}
	return con{r, c.eq}, true
}

type conNode struct {
	c    con
	prev *conNode
	id   int
	n    int
}

var conN int

func (n *conNode) push(c con) *conNode {
	conN++
	k := 1
	if n != nil {
		k = n.n + 1
	}
	return &conNode{c: c, prev: n, id: conN, n: k}
}

func (n *conNode) ID() int {
	if n == nil {
		return 0
	}
	return n.id
}

const fmLimit = 1200

// empty reports whether the constraints have no integer solution, as far as
// projection over the rationals with integer tightening can tell.
func empty(cs []con) bool {
	var eqs, ineqs []con
	for _, c := range cs {
		c, ok := c.normalise()
		if !ok {
			return true
		}
		if len(c.e.ts) == 0 {
			continue
		}
		if c.eq {
			eqs = append(eqs, c)
		} else {
			ineqs = append(ineqs, c)
		}
	}
	// equalities: substitute
	for len(eqs) > 0 {
		// prefer a unit coefficient
		bi, bj := -1, -1
		for i, c := range eqs {
			for j, m := range c.e.ts {
				if m.c.CmpAbs(big1) == 0 {
					bi, bj = i, j
					break
				}
			}
			if bi >= 0 {
				break
			}
		}
		if bi < 0 {
			bi, bj = 0, 0
		}
		c := eqs[bi]
		m := c.e.ts[bj]
		eqs = append(append([]con{}, eqs[:bi]...), eqs[bi+1:]...)
		sub := func(d con) (con, bool) {
			k := d.e.coef(m.t)
			if k.Sign() == 0 {
				return d, true
			}
			// d*|m| - sign(m)*k*c
			am := new(big.Int).Abs(m.c)
			f := new(big.Int).Set(k)
			if m.c.Sign() < 0 {
				f.Neg(f)
			}
			r := con{d.e.mul(am).sub(c.e.mul(f)), d.eq}
			return r.normalise()
		}
		var ne []con
		for _, d := range eqs {
			r, ok := sub(d)
			if !ok {
				return true
			}
			if len(r.e.ts) > 0 {
				ne = append(ne, r)
			}
		}
		eqs = ne
		var ni []con
		for _, d := range ineqs {
			r, ok := sub(d)
			if !ok {
				return true
			}
			if len(r.e.ts) > 0 {
				ni = append(ni, r)
			}
		}
		ineqs = ni
	}
	// Fourier-Motzkin
	for {
		// dedupe: keep the tightest constant for each linear part
		best := map[string]int{}
		var out []con
		for _, c := range ineqs {
			k := Lin{ts: c.e.ts, k: big0}.key()
			if i, ok := best[k]; ok {
				if c.e.k.Cmp(out[i].e.k) < 0 {
					out[i] = c
				}
			} else {
				best[k] = len(out)
				out = append(out, c)
			}
		}
		ineqs = out
		// opposite pairs
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, c := range ineqs {
			for _, m := range c.e.ts {
				if m.c.Sign() > 0 {
					pos[m.t]++
				} else {
					neg[m.t]++
				}
			}
		}
		if len(pos) == 0 && len(neg) == 0 {
			return false
		}
		// drop constraints of terms bounded on one side only
		var bt *Term
		bc := 1 << 30
		var names []*Term
		for t := range pos {
			names = append(names, t)
		}
		for t := range neg {
			if pos[t] == 0 {
				names = append(names, t)
			}
		}
		sort.Slice(names, func(i, j int) bool { return names[i].id < names[j].id })
		for _, t := range names {
			p := pos[t]*neg[t] - pos[t] - neg[t]
			if p < bc {
				bc, bt = p, t
			}
		}
		var P, N, rest []con
		for _, c := range ineqs {
			k := c.e.coef(bt)
			switch k.Sign() {
			case 0:
				rest = append(rest, c)
			case 1:
				P = append(P, c)
			default:
				N = append(N, c)
			}
		}
		if len(rest)+len(P)*len(N) > fmLimit {
			return false
		}
		for _, p := range P {
			pk := p.e.coef(bt)
			for _, n := range N {
				nk := new(big.Int).Neg(n.e.coef(bt))
				r, ok := con{p.e.mul(nk).add(n.e.mul(pk)), false}.normalise()
				if !ok {
					return true
				}
				if len(r.e.ts) > 0 {
					rest = append(rest, r)
				}
			}
		}
		ineqs = rest
	}
}

// relevant collects the constraints of n connected with the terms of es,
// and the bounds of all terms involved.
func relevant(n *conNode, es ...Lin) []con {
	var all []con
	for p := n; p != nil; p = p.prev {
		all = append(all, p.c)
	}
	in := map[*Term]bool{}
	var work []*Term
	mark := func(e Lin) {
		for _, m := range e.ts {
			if !in[m.t] {
				in[m.t] = true
				work = append(work, m.t)
			}
		}
	}
	for _, e := range es {
		mark(e)
	}
	byTerm := map[*Term][]int{}
	for i, c := range all {
		for _, m := range c.e.ts {
			byTerm[m.t] = append(byTerm[m.t], i)
		}
	}
	used := make([]bool, len(all))
	var out []con
	for i, c := range all {
		if len(c.e.ts) == 0 {
			out = append(out, c)
			used[i] = true
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, d := range t.def {
			out = append(out, d)
			mark(d.e)
		}
		for _, i := range byTerm[t] {
			if !used[i] {
				used[i] = true
				out = append(out, all[i])
				mark(all[i].e)
			}
		}
	}
	var ts []*Term
	for t := range in {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		if t.lo != nil {
			out = append(out, con{LT(t).sub(LB(t.lo)), false})
		}
		if t.hi != nil {
			out = append(out, con{LB(t.hi).sub(LT(t)), false})
		}
	}
	return out
}

type entKey struct {
	n int
	k string
}

var entCache = map[entKey]bool{}
var numQueries, numProj int

// entails: every integer point of n satisfies e >= 0
func (n *conNode) entails(e Lin) bool {
	numQueries++
	lo, hi := e.interval()
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	if hi != nil && hi.Sign() < 0 {
		// false unless the state itself is empty
		if len(e.ts) == 0 {
			return false
		}
	}
	k := entKey{n.ID(), e.key()}
	if r, ok := entCache[k]; ok {
		return r
	}
	numProj++
	cs := relevant(n, e)
	cs = append(cs, con{e.neg().addc(-1), false})
	r := empty(cs)
	entCache[k] = r
	return r
}

func (n *conNode) entailsEq(e Lin) bool {
	if e.isConst() {
		return e.k.Sign() == 0
	}
	return n.entails(e) && n.entails(e.neg())
}

var emptyCache = map[int]bool{}

// infeasible: no integer point satisfies n. Each constraint is checked with
// those that it is connected with when it is the last one.
func (n *conNode) infeasible() bool {
	var path []*conNode
	r := false
	for p := n; p != nil; p = p.prev {
		if v, ok := emptyCache[p.id]; ok {
			r = v
			break
		}
		path = append(path, p)
	}
	for i := len(path) - 1; i >= 0; i-- {
		p := path[i]
		if !r {
			r = empty(relevant(p, p.c.e))
		}
		emptyCache[p.id] = r
	}
	return r
}
