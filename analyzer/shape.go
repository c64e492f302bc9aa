package main

// Shape analysis: an exact abstract interpretation of code that works on
// linked structures (the balanced tree, its iterator, the hash chains).
//
// A state describes the part of the heap the code has looked at exactly, and
// the rest by abstract trees, lists and stacks: a sequence of entries nobody
// has looked into yet, with its height where heights matter. Looking into one
// (comparing it with nil, reading a field) splits the state into the cases it
// stands for. What the structure held at the start is kept as a ghost
// sequence that is refined along with it, so that at the end the sequence the
// code left behind can be compared with the one it was given. Keys and values
// are opaque tokens with the order facts the code learned by comparing them.
// At loop heads, structure that no variable points at is folded back into
// sequences; the states at a loop head are finitely many after that, and the
// analysis is done when no new one appears.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sv interface{}
type sInt struct {
	base int // 0: the constant k
	k    int64
}
type sBool bool
type sUnk struct{ id int }
type sPtr struct {
	obj  int
	path string
}
type sNil struct{}
type sAbs struct{ id int }
type sTok struct{ id int }
type sIface struct {
	typ types.Type
	v   sv
}
type sTup []sv
type sAgg struct {
	typ   types.Type
	cells map[string]sv
}
type sStk struct {
	base  int
	items []sv
}
type sElem struct {
	s sStk
	i int
}
type sFn struct {
	fn   *ssa.Function
	bind []sv
}
type sArr struct{ obj int } // a slice that is a whole table of chains
type sHashV struct {        // the hash of a key, under a hash function
	tok int
	by  string
}
type sSlot struct { // a slot number: hash modulo the length of a table
	tok, arr int
	by       string
}

// bits of an order relation
const (
	rLT = 1
	rEQ = 2
	rGT = 4
)

func flip(m uint8) uint8 {
	r := m & rEQ
	if m&rLT != 0 {
		r |= rGT
	}
	if m&rGT != 0 {
		r |= rLT
	}
	return r
}

// sitem of a sequence: 's' a segment, 'e' an entry, 'n' what hangs off a node
type sitem struct {
	kind byte
	id   int // segment or object
	k, v sv
}

func segItem(id int) sitem { return sitem{kind: 's', id: id} }

type ht struct{ v, o int } // height: variable (0: none) plus offset

type stree struct {
	items   []sitem
	h       ht
	heights bool
	nonzero bool // if the height is at least 2, the balance is not 0
	node    *nodeType
	frozen  bool
}

type nodeType struct {
	named   *types.Named
	key     string
	val     string
	bal     string
	links   []string // tree: left, right; list: next
	keyT    types.Type
	valT    types.Type
	linksAt []int
}

func (n *nodeType) list() bool { return len(n.links) == 1 }

type sobj struct {
	typ      types.Type
	cells    map[string]sv
	node     *nodeType
	pristine bool // a node of a tree that has not been written to
	h        ht
	alloc    bool
	// a table of chains
	isArr  bool
	plain  bool // a list of unknown values instead
	length sInt
	cursor sInt // slots below it have been enumerated
	curSet bool
	rest   int // segment of the slots not enumerated
	orig   map[string]int
	elem   *nodeType
	more   bool // the cursor is known to be below the length
	fin    bool // everything has been enumerated
	frozen bool
	snap   []sitem // a table that was rebuilt: what the chain looked at held before
	snapOK bool
}

type sedit struct {
	from, to int
	kind     string
	k, v     sv
}

// smark remembers, at a loop head, what the loop must make smaller
type smark struct {
	depth int
	blk   *ssa.BasicBlock
	seqs  map[string][]sitem // by measure
	cur   map[int]sInt
	ints  map[string]sInt
}

type sframe struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	env  map[ssa.Value]sv
	call *ssa.Call
}

type sst struct {
	frames []*sframe
	heap   map[int]*sobj
	exp    map[int][]sitem
	trees  map[int]*stree
	hlo    map[int]int
	lo, hi map[int]int64
	rel    map[[2]int]uint8
	nilk   map[int]int8 // nilness of tokens: 1 nil, 2 not nil
	ghost  []sitem
	moved  []sitem // entries put into a new table
	into   int     // that table
	edits  []sedit
	spec   []int // tokens the specification speaks about
	next   int
	ret    []sv
	panicV string
	expl   bool // explicit panic
	dead   bool
	trace  []string
	notes  []string
	visits map[string]int
	pend   []*ssa.Phi
	atHead bool
	hkeep  int              // height variable the specification refers to
	roots  []int            // objects the specification refers to
	lt     map[[2]sInt]bool // what is known of a < b
	full   map[int]bool     // segments known not to be empty
	marks  map[string]*smark
}

type shape struct {
	r        *Repo
	c        *Check
	nodes    []*nodeType
	owner    func(t types.Type) bool                                     // holds the root of a structure
	hooks    map[*ssa.Function]func(x *shape, st *sst, args []sv) []*sst // result put by setRes
	invoke   map[string]func(x *shape, st *sst, recv sv, args []sv) []*sst
	sorted   bool
	heights  bool
	live     map[*ssa.Function]*liveInfo
	steps    int
	maxSteps int
	needNil  map[*ssa.Function]bool
	seen     map[string]bool
	onStore  func(st *sst, obj int, path string)
	measure  func(st *sst) ([]sitem, bool)
	term     map[*ssa.BasicBlock]map[string]bool // loop: what gets smaller on every path around it
	recur    []*ssa.Function                     // recursion that does not descend
	slotBy   map[string]bool                     // the hash functions slots are computed with
	seedBase int                                 // the number that is the seed of the table
	widen    bool                                // forget counters that go on changing
	before   map[string]sInt                     // what they were the last time around
	body     bool                                // verifying the body of a recursive function
	onWrite  func(st *sst, obj int, path string, v sv)
	lazy     func(st *sst, obj int, path string) (sv, bool)    // content of a part nobody has looked at
	refold   func(st *sst, b *ssa.BasicBlock, phis []*ssa.Phi) // folds instead of the usual way
	rank     func(st *sst, v sv) (sInt, bool)                  // what a loop may be counting down

	stackElem func(st *sst) (sv, []sitem) // an element of a stack nobody has looked at, and what it stands for
	stackOf   func(t types.Type) bool     // slices with elements of the type are stacks
}

type needMat struct{ id int }
type needFork struct{ f func(st *sst) []*sst }
type crash struct{ msg string }

func (st *sst) id() int { st.next++; return st.next }

func (st *sst) clone() *sst {
	n := &sst{heap: map[int]*sobj{}, exp: map[int][]sitem{}, trees: map[int]*stree{}, hlo: map[int]int{}, lo: map[int]int64{}, hi: map[int]int64{},
		rel: map[[2]int]uint8{}, nilk: map[int]int8{}, next: st.next, panicV: st.panicV, expl: st.expl, visits: map[string]int{},
		into: st.into, pend: st.pend, atHead: st.atHead, hkeep: st.hkeep, roots: st.roots,
		lt: map[[2]sInt]bool{}, full: map[int]bool{}, marks: map[string]*smark{}}
	for k, v := range st.full {
		n.full[k] = v
	}
	for k, v := range st.lt {
		n.lt[k] = v
	}
	for k, v := range st.marks {
		m := *v
		m.seqs = map[string][]sitem{}
		for a, b := range v.seqs {
			m.seqs[a] = b
		}
		n.marks[k] = &m
	}
	for _, f := range st.frames {
		g := *f
		g.env = map[ssa.Value]sv{}
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	for k, o := range st.heap {
		p := *o
		p.cells = map[string]sv{}
		for a, b := range o.cells {
			p.cells[a] = b
		}
		if o.orig != nil {
			p.orig = map[string]int{}
			for a, b := range o.orig {
				p.orig[a] = b
			}
		}
		n.heap[k] = &p
	}
	for k, v := range st.exp {
		n.exp[k] = v
	}
	for k, t := range st.trees {
		u := *t
		n.trees[k] = &u
	}
	for k, v := range st.hlo {
		n.hlo[k] = v
	}
	for k, v := range st.lo {
		n.lo[k] = v
	}
	for k, v := range st.hi {
		n.hi[k] = v
	}
	for k, v := range st.rel {
		n.rel[k] = v
	}
	for k, v := range st.nilk {
		n.nilk[k] = v
	}
	for k, v := range st.visits {
		n.visits[k] = v
	}
	n.ghost = append([]sitem(nil), st.ghost...)
	n.moved = append([]sitem(nil), st.moved...)
	n.edits = append([]sedit(nil), st.edits...)
	n.spec = append([]int(nil), st.spec...)
	n.ret = append([]sv(nil), st.ret...)
	n.trace = append([]string(nil), st.trace...)
	n.notes = append([]string(nil), st.notes...)
	return n
}

func (st *sst) note(f string, a ...interface{}) { st.notes = append(st.notes, fmt.Sprintf(f, a...)) }

func newSst() *sst {
	return (&sst{}).clone()
}

// ---------------------------------------------------------------- node types

func newShape(c *Check) *shape {
	x := &shape{r: c.r, c: c, live: map[*ssa.Function]*liveInfo{}, maxSteps: 400000, needNil: map[*ssa.Function]bool{}, seen: map[string]bool{}, term: map[*ssa.BasicBlock]map[string]bool{},
		hooks: map[*ssa.Function]func(*shape, *sst, []sv) []*sst{}, invoke: map[string]func(*shape, *sst, sv, []sv) []*sst{}}
	x.owner = func(types.Type) bool { return false }
	if fn := c.r.fn("collection.IsNil"); fn != nil {
		x.hooks[fn] = hookIsNil
	}
	x.invoke["Compare"] = invCompare
	x.invoke["Equal"] = invEqual
	x.invoke["HashUint32"] = invHash
	return x
}

// nodeOf recognises a node type by the types of its fields
func (x *shape) nodeOf(name string) *nodeType {
	t := x.r.typ(name)
	if t == nil {
		panic(undecided{"type " + name + " not found"})
	}
	nm := t.(*types.Named)
	for _, n := range x.nodes {
		if n.named == nm {
			return n
		}
	}
	s, ok := nm.Underlying().(*types.Struct)
	if !ok {
		panic(undecided{name + " is not a struct"})
	}
	n := &nodeType{named: nm}
	for i := 0; i < s.NumFields(); i++ {
		p := fmt.Sprint(i)
		ft := s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Interface:
			if u.NumMethods() == 0 {
				if n.val != "" {
					panic(undecided{name + " has two value fields"})
				}
				n.val, n.valT = p, ft
			} else {
				if n.key != "" {
					panic(undecided{name + " has two key fields"})
				}
				n.key, n.keyT = p, ft
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 && n.bal == "" {
				n.bal = p
			}
		case *types.Pointer:
			if types.Identical(u.Elem(), nm) {
				n.links = append(n.links, p)
			}
		case *types.Array:
			if q, ok := u.Elem().Underlying().(*types.Pointer); ok && types.Identical(q.Elem(), nm) {
				for j := int64(0); j < u.Len(); j++ {
					n.links = append(n.links, fmt.Sprintf("%s.%d", p, j))
				}
			}
		}
	}
	if n.key == "" || n.val == "" || len(n.links) == 0 || len(n.links) > 2 {
		panic(undecided{name + " does not look like a node with a key, a value and links"})
	}
	x.nodes = append(x.nodes, n)
	return n
}

func (x *shape) nodeFor(t types.Type) *nodeType {
	for _, n := range x.nodes {
		if types.Identical(n.named, t) {
			return n
		}
	}
	return nil
}

// fieldOf finds the field of a struct type that satisfies a predicate
func fieldOf(t types.Type, want func(types.Type) bool) []int {
	s := t.Underlying().(*types.Struct)
	var r []int
	for i := 0; i < s.NumFields(); i++ {
		if want(s.Field(i).Type()) {
			r = append(r, i)
		}
	}
	return r
}

// ---------------------------------------------------------------- building

func (st *sst) tok() sTok { return sTok{st.id()} }

// newTree makes an abstract tree (or list) with unknown content
func (x *shape) newTree(st *sst, n *nodeType, h ht) sAbs {
	id := st.id()
	st.trees[id] = &stree{items: []sitem{segItem(id)}, h: h, heights: x.heights && !n.list(), node: n}
	return sAbs{id}
}

func (st *sst) hvar(lo int) ht {
	v := st.id()
	st.hlo[v] = lo
	return ht{v, 0}
}

func (st *sst) newObj(t types.Type) int {
	id := st.id()
	st.heap[id] = &sobj{typ: t, cells: map[string]sv{}}
	return id
}

// ---------------------------------------------------------------- sequences

func (st *sst) flat(items []sitem) []sitem {
	var r []sitem
	depth := 0
	var seq func(v sv)
	var walk func(its []sitem)
	walk = func(its []sitem) {
		depth++
		if depth > 200 {
			panic(undecided{"cyclic structure"})
		}
		for _, it := range its {
			switch it.kind {
			case 's':
				if e, ok := st.exp[it.id]; ok {
					walk(e)
				} else {
					r = append(r, it)
				}
			case 'e':
				r = append(r, it)
			case 'n':
				seq(sPtr{it.id, ""})
			}
		}
		depth--
	}
	seq = func(v sv) {
		depth++
		if depth > 200 {
			panic(undecided{"cyclic structure"})
		}
		defer func() { depth-- }()
		switch v := v.(type) {
		case sNil:
		case sAbs:
			walk(st.trees[v.id].items)
		case sPtr:
			o := st.heap[v.obj]
			if o == nil || o.node == nil || v.path != "" {
				panic(undecided{"not a node"})
			}
			n := o.node
			e := sitem{kind: 'e', k: st.cell(o, n.key), v: st.cell(o, n.val)}
			if n.list() {
				r = append(r, e)
				seq(st.cell(o, n.links[0]))
			} else {
				seq(st.cell(o, n.links[0]))
				r = append(r, e)
				seq(st.cell(o, n.links[1]))
			}
		default:
			panic(undecided{fmt.Sprintf("not a tree: %T", v)})
		}
	}
	walk(items)
	return r
}

// seqOf is the sequence of entries a tree or list value stands for
func (st *sst) seqOf(v sv) []sitem {
	switch v := v.(type) {
	case sNil:
		return nil
	case sAbs:
		return st.flat(st.trees[v.id].items)
	case sPtr:
		return st.flat([]sitem{{kind: 'n', id: v.obj}})
	}
	panic(undecided{fmt.Sprintf("not a tree: %T", v)})
}

func (st *sst) cell(o *sobj, path string) sv {
	if v, ok := o.cells[path]; ok {
		return v
	}
	t := cellType(o.typ, path)
	if o.alloc {
		return zeroSv(t)
	}
	v := st.unknownOf(t)
	o.cells[path] = v
	return v
}

func (st *sst) unknownOf(t types.Type) sv {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return st.tok()
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return sInt{st.id(), 0}
		}
	}
	return sUnk{st.id()}
}

func cellType(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	for _, p := range strings.Split(path, ".") {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			i := 0
			fmt.Sscan(p, &i)
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			panic(undecided{"path into " + t.String()})
		}
	}
	return t
}

func zeroSv(t types.Type) sv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return sInt{}
		case u.Info()&types.IsBoolean != 0:
			return sBool(false)
		}
		return sUnk{}
	case *types.Slice:
		return sStk{}
	case *types.Struct, *types.Array:
		return sAgg{t, map[string]sv{}}
	}
	return sNil{}
}

func tokID(v sv) int {
	if t, ok := v.(sTok); ok {
		return t.id
	}
	return 0
}

func itemKey(it sitem) int {
	if it.kind == 'e' {
		return tokID(it.k)
	}
	return it.id
}

func sameItem(a, b sitem) bool {
	return a.kind == b.kind && a.id == b.id && a.k == b.k && a.v == b.v
}

// fact is what is known directly about the order of a (token or segment) and token b
func (st *sst) fact(a, b int) uint8 {
	if a == b && a != 0 {
		return rEQ
	}
	m := uint8(7)
	if f, ok := st.rel[[2]int{a, b}]; ok {
		m &= f
	}
	if f, ok := st.rel[[2]int{b, a}]; ok {
		m &= flip(f)
	}
	return m
}

func (st *sst) learn(a, b int, m uint8) {
	if a == 0 || b == 0 {
		return
	}
	f := st.fact(a, b) & m
	if f == 0 {
		st.dead = true
	}
	st.rel[[2]int{a, b}] = f
	delete(st.rel, [2]int{b, a})
}

// rels is the relation of every sitem of the ghost sequence to token b, with
// what follows from the order of the sequence
func (x *shape) rels(st *sst, g []sitem, b int) []uint8 {
	r := make([]uint8, len(g))
	for i, it := range g {
		r[i] = st.fact(itemKey(it), b)
	}
	if !x.sorted {
		for i, it := range g {
			if it.kind == 'e' && r[i] == rEQ {
				for j := range g {
					if j != i {
						r[j] &^= rEQ
					}
				}
			}
		}
		return r
	}
	// a segment may be empty
	for i, it := range g {
		if it.kind != 'e' && !st.full[it.id] {
			continue
		}
		if r[i]&rGT == 0 {
			for j := 0; j < i; j++ {
				r[j] &= rLT
			}
		}
		if r[i]&rLT == 0 {
			for j := i + 1; j < len(g); j++ {
				r[j] &= rGT
			}
		}
	}
	return r
}

// saturate stores what follows from the order of the ghost sequence
func (x *shape) saturate(st *sst, toks []int) {
	g := st.flat(st.ghost)
	for _, b := range toks {
		in := false
		for _, it := range g {
			if it.kind == 'e' && tokID(it.k) == b {
				in = true
			}
		}
		if in {
			continue
		}
		for i, m := range x.rels(st, g, b) {
			if m == 0 {
				if g[i].kind == 's' && !st.full[g[i].id] { // must be empty
					st.exp[g[i].id] = nil
					continue
				}
				st.dead = true
				return
			}
			if m != 7 && itemKey(g[i]) != 0 && itemKey(g[i]) != b {
				st.rel[[2]int{itemKey(g[i]), b}] = m
				delete(st.rel, [2]int{b, itemKey(g[i])})
			}
		}
	}
}

// relTok is what is known about two keys
func (x *shape) relTok(st *sst, a, b int) uint8 {
	if a == b {
		return rEQ
	}
	m := st.fact(a, b)
	g := st.flat(st.ghost)
	pa, pb := -1, -1
	for i, it := range g {
		if it.kind == 'e' {
			if tokID(it.k) == a {
				pa = i
			}
			if tokID(it.k) == b {
				pb = i
			}
		}
	}
	switch {
	case pa >= 0 && pb >= 0:
		if !x.sorted {
			return m &^ rEQ
		}
		if pa < pb {
			return m & rLT
		}
		return m & rGT
	case pa >= 0:
		m &= x.rels(st, g, b)[pa]
	case pb >= 0:
		m &= flip(x.rels(st, g, a)[pb])
	}
	return m
}

// ---------------------------------------------------------------- substitution

func substSv(v sv, f func(sv) (sv, bool)) sv {
	if n, ok := f(v); ok {
		return n
	}
	switch v := v.(type) {
	case sIface:
		return sIface{v.typ, substSv(v.v, f)}
	case sTup:
		r := make(sTup, len(v))
		for i := range v {
			r[i] = substSv(v[i], f)
		}
		return r
	case sAgg:
		c := map[string]sv{}
		for k, w := range v.cells {
			c[k] = substSv(w, f)
		}
		return sAgg{v.typ, c}
	case sStk:
		r := make([]sv, len(v.items))
		for i := range r {
			r[i] = substSv(v.items[i], f)
		}
		if n, ok := f(sStk{base: v.base}); ok && v.base != 0 {
			b := n.(sStk)
			return sStk{b.base, append(append([]sv(nil), b.items...), r...)}
		}
		return sStk{v.base, r}
	case sElem:
		return v
	case sFn:
		r := make([]sv, len(v.bind))
		for i := range r {
			r[i] = substSv(v.bind[i], f)
		}
		return sFn{v.fn, r}
	}
	return v
}

func (st *sst) subst(f func(sv) (sv, bool)) {
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = substSv(v, f)
		}
	}
	for _, o := range st.heap {
		for k, v := range o.cells {
			o.cells[k] = substSv(v, f)
		}
	}
	for i, v := range st.ret {
		st.ret[i] = substSv(v, f)
	}
}

// ---------------------------------------------------------------- heights

func (st *sst) hmin(h ht) int {
	if h.v == 0 {
		return h.o
	}
	return st.hlo[h.v] + h.o
}

// atLeast asserts that a height is at least n
func (st *sst) atLeast(h ht, n int) {
	if h.v == 0 {
		if h.o < n {
			st.dead = true
		}
		return
	}
	if st.hlo[h.v]+h.o < n {
		st.hlo[h.v] = n - h.o
	}
}

// bind asserts that a height is n
func (st *sst) bind(h ht, n int) {
	if h.v == 0 {
		if h.o != n {
			st.dead = true
		}
		return
	}
	val := n - h.o
	if st.hlo[h.v] > val {
		st.dead = true
		return
	}
	fix := func(g ht) ht {
		if g.v == h.v {
			return ht{0, val + g.o}
		}
		return g
	}
	for _, t := range st.trees {
		t.h = fix(t.h)
	}
	for _, o := range st.heap {
		o.h = fix(o.h)
	}
	for k := range st.exp {
		_ = k
	}
	st.hspec(h.v, val)
}

// heights the specification remembers
func (st *sst) hspec(v, val int) {
	st.hlo[-v] = val // the value the variable was found to have
	delete(st.hlo, v)
}

func (st *sst) hval(h ht) ht {
	if h.v != 0 {
		if val, ok := st.hlo[-h.v]; ok {
			return ht{0, val + h.o}
		}
	}
	return h
}

// ---------------------------------------------------------------- materialising

func (x *shape) materialise(st *sst, id int) []*sst {
	if t := st.trees[id]; t != nil {
		return x.matTree(st, id, t)
	}
	// a stack
	var outs []*sst
	a := st.clone()
	a.exp[id] = nil
	a.dead = st.full[id]
	a.subst(func(v sv) (sv, bool) {
		switch v := v.(type) {
		case sStk:
			if v.base == id && len(v.items) == 0 {
				return sStk{}, true
			}
		case sInt:
			if v.base == id {
				return sInt{0, v.k}, true
			}
		}
		return nil, false
	})
	outs = append(outs, a)
	b := st.clone()
	if x.stackElem != nil {
		b2 := b.id()
		v, its := x.stackElem(b)
		b.exp[id] = append(its, segItem(b2))
		b.subst(func(w sv) (sv, bool) {
			switch w := w.(type) {
			case sStk:
				if w.base == id && len(w.items) == 0 {
					return sStk{b2, []sv{v}}, true
				}
			case sInt:
				if w.base == id {
					return sInt{b2, w.k + 1}, true
				}
			}
			return nil, false
		})
		return append(outs, b)
	}
	n := x.nodes[0]
	p := b.newNode(x, n, false)
	o := b.heap[p]
	b2 := b.id()
	b.exp[id] = []sitem{{kind: 'e', k: o.cells[n.key], v: o.cells[n.val]}, segItem(o.cells[n.links[1]].(sAbs).id), segItem(b2)}
	b.inherit(id)
	b.subst(func(v sv) (sv, bool) {
		switch v := v.(type) {
		case sStk:
			if v.base == id && len(v.items) == 0 {
				return sStk{b2, []sv{sPtr{p, ""}}}, true
			}
		case sInt:
			if v.base == id {
				return sInt{b2, v.k + 1}, true
			}
		}
		return nil, false
	})
	return append(outs, b)
}

// inherit passes what is known of a segment on to its parts
func (st *sst) inherit(id int) {
	var add [][3]int
	for k, m := range st.rel {
		if k[0] == id {
			for _, it := range st.exp[id] {
				add = append(add, [3]int{itemKey(it), k[1], int(m)})
			}
		}
	}
	for _, a := range add {
		st.learn(a[0], a[1], uint8(a[2]))
	}
}

// newNode makes a node nobody has written to, with unknown children
func (st *sst) newNode(x *shape, n *nodeType, heights bool) int {
	id := st.id()
	o := &sobj{typ: n.named, cells: map[string]sv{}, node: n, pristine: true}
	st.heap[id] = o
	kt := st.tok()
	o.cells[n.key] = kt
	o.cells[n.val] = st.tok()
	st.nilk[kt.id] = 2
	for _, l := range n.links {
		o.cells[l] = x.newTree(st, n, ht{})
	}
	if n.bal != "" && !heights {
		o.cells[n.bal] = sUnk{st.id()}
	}
	return id
}

func (x *shape) matTree(st *sst, id int, t *stree) []*sst {
	its := st.flat(t.items)
	if len(its) == 0 {
		a := st.clone()
		if t.heights {
			a.bind(t.h, 0)
		}
		a.subst(func(v sv) (sv, bool) {
			if w, ok := v.(sAbs); ok && w.id == id {
				return sNil{}, true
			}
			return nil, false
		})
		return []*sst{a}
	}
	if len(its) != 1 || its[0].kind != 's' {
		panic(undecided{"looking into a summarised structure"})
	}
	seg := its[0].id
	var outs []*sst
	if (!t.heights || st.hmin(t.h) <= 0) && !st.full[seg] {
		a := st.clone()
		a.exp[seg] = nil
		if t.heights {
			a.bind(t.h, 0)
		}
		a.subst(func(v sv) (sv, bool) {
			if w, ok := v.(sAbs); ok && w.id == id {
				return sNil{}, true
			}
			return nil, false
		})
		if !a.dead {
			outs = append(outs, a)
		}
	}
	bals := []int{9}
	if t.heights {
		bals = []int{-1, 0, 1}
	}
	for _, bal := range bals {
		b := st.clone()
		p := b.newNode(x, t.node, t.heights)
		o := b.heap[p]
		n := t.node
		if o.frozen = t.frozen; t.frozen {
			for _, l := range n.links {
				b.trees[o.cells[l].(sAbs).id].frozen = true
			}
		}
		e := sitem{kind: 'e', k: o.cells[n.key], v: o.cells[n.val]}
		if n.list() {
			b.exp[seg] = []sitem{e, segItem(o.cells[n.links[0]].(sAbs).id)}
		} else {
			b.exp[seg] = []sitem{segItem(o.cells[n.links[0]].(sAbs).id), e, segItem(o.cells[n.links[1]].(sAbs).id)}
		}
		b.inherit(seg)
		if t.heights {
			o.h = t.h
			o.cells[n.bal] = sInt{0, int64(bal)}
			dl, dr := 1, 1
			if bal > 0 {
				dl = 2
			}
			if bal < 0 {
				dr = 2
			}
			b.trees[o.cells[n.links[0]].(sAbs).id].h = ht{t.h.v, t.h.o - dl}
			b.trees[o.cells[n.links[1]].(sAbs).id].h = ht{t.h.v, t.h.o - dr}
			switch {
			case bal != 0:
				b.atLeast(t.h, 2)
			case t.nonzero:
				b.bind(t.h, 1)
			default:
				b.atLeast(t.h, 1)
			}
		}
		if b.dead {
			continue
		}
		b.subst(func(v sv) (sv, bool) {
			if w, ok := v.(sAbs); ok && w.id == id {
				return sPtr{p, ""}, true
			}
			return nil, false
		})
		outs = append(outs, b)
	}
	return outs
}

// ---------------------------------------------------------------- execution

func (x *shape) start(st *sst, fn *ssa.Function, args ...sv) {
	if fn.Blocks == nil || len(args) != len(fn.Params) {
		panic(undecided{"cannot call " + fname(fn)})
	}
	f := &sframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]sv{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	st.frames = append(st.frames, f)
	x.c.fns[fn] = true
}

// run executes all paths; the final states have returned or crashed
func (x *shape) run(st *sst) []*sst {
	x.seen = map[string]bool{}
	work := []*sst{st}
	var outs []*sst
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.dead {
				break
			}
			if len(s.frames) == 0 || s.panicV != "" {
				outs = append(outs, s)
				x.c.paths++
				break
			}
			x.steps++
			if x.steps > x.maxSteps {
				panic(undecided{"too many steps"})
			}
			next := x.step(s)
			if next == nil {
				continue
			}
			work = append(work, next...)
			break
		}
	}
	x.c.steps += x.steps
	return outs
}

// step executes one instruction; nil: the state was updated in place
func (x *shape) step(st *sst) (forks []*sst) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case needMat:
				forks = x.materialise(st, e.id)
				if forks == nil {
					forks = []*sst{}
				}
			case needFork:
				forks = e.f(st)
				if forks == nil {
					forks = []*sst{}
				}
			case crash:
				f := st.frames[len(st.frames)-1]
				st.panicV = e.msg + " at " + x.r.pos(f.blk.Instrs[f.idx].Pos()) + " in " + fname(f.fn)
				forks = nil
			case undecided:
				f := st.frames[len(st.frames)-1]
				panic(undecided{e.msg + " at " + x.r.pos(f.blk.Instrs[f.idx].Pos()) + " in " + fname(f.fn)})
			default:
				panic(e)
			}
		}
	}()
	f := st.frames[len(st.frames)-1]
	if st.atHead {
		return x.head(st, f)
	}
	in := f.blk.Instrs[f.idx]
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Phi:
		// phis are evaluated on entry
		f.idx++
	case *ssa.Jump:
		return x.enter(st, f, f.blk.Succs[0])
	case *ssa.If:
		c := x.val(st, f, in.Cond)
		switch c := c.(type) {
		case sBool:
			if c {
				return x.enter(st, f, f.blk.Succs[0])
			}
			return x.enter(st, f, f.blk.Succs[1])
		case sUnk:
			var r []*sst
			for _, b := range []bool{true, false} {
				s := st.clone()
				s.setUnk(c.id, in.Cond, b)
				r = append(r, s)
			}
			return r
		}
		panic(undecided{fmt.Sprintf("condition %T", c)})
	case *ssa.Return:
		var vs []sv
		for _, v := range in.Results {
			vs = append(vs, x.val(st, f, v))
		}
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) == 0 {
			st.ret = vs
			return nil
		}
		x.setRes(st, vs)
	case *ssa.Panic:
		st.panicV = "panic at " + x.r.pos(in.Pos()) + " in " + fname(f.fn)
		st.expl = true
	case *ssa.Store:
		a := x.val(st, f, in.Addr)
		v := x.val(st, f, in.Val)
		x.store(st, a, v)
		f.idx++
	case *ssa.Call:
		return x.call(st, f, in)
	case ssa.Value:
		v := x.eval(st, f, in)
		f.env[in] = v
		f.idx++
	default:
		panic(undecided{fmt.Sprintf("instruction %T", in)})
	}
	return nil
}

// setUnk fixes an unknown truth value
func (st *sst) setUnk(id int, cond ssa.Value, b bool) {
	f := st.frames[len(st.frames)-1]
	if id != 0 {
		st.subst(func(v sv) (sv, bool) {
			if u, ok := v.(sUnk); ok && u.id == id {
				return sBool(b), true
			}
			return nil, false
		})
	}
	f.env[cond] = sBool(b)
}

// setRes gives the pending call of the top frame its result
func (x *shape) setRes(st *sst, vs []sv) {
	f := st.frames[len(st.frames)-1]
	c := f.blk.Instrs[f.idx].(*ssa.Call)
	if len(vs) == 1 {
		f.env[c] = vs[0]
	} else {
		f.env[c] = sTup(vs)
	}
	f.idx++
}

func (x *shape) val(st *sst, f *sframe, v ssa.Value) sv {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroSv(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return sBool(constant.BoolVal(v.Value))
		case constant.Int:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
				return sUnk{}
			}
			if n, ok := constant.Int64Val(v.Value); ok {
				return sInt{0, n}
			}
		}
		return sUnk{}
	case *ssa.Function:
		return sFn{fn: v}
	case *ssa.Global:
		return sUnk{}
	case *ssa.Builtin:
		return sUnk{}
	}
	r, ok := f.env[v]
	if !ok {
		panic(undecided{"no value for " + v.Name()})
	}
	return r
}

// object behind a pointer; forks or crashes if there may be none
func (x *shape) obj(st *sst, v sv) (*sobj, sPtr) {
	switch v := v.(type) {
	case sPtr:
		o := st.heap[v.obj]
		if o == nil {
			panic(undecided{"unknown object"})
		}
		return o, v
	case sNil:
		panic(crash{"nil dereference"})
	case sAbs:
		panic(needMat{v.id})
	}
	panic(undecided{fmt.Sprintf("pointer %T", v)})
}

func joinPath(p, q string) string {
	if p == "" {
		return q
	}
	return p + "." + q
}

func (x *shape) load(st *sst, a sv, t types.Type) sv {
	switch a := a.(type) {
	case sElem:
		return a.s.items[a.i]
	case sUnk:
		return st.unknownOf(t)
	}
	o, p := x.obj(st, a)
	if o.isArr {
		return x.loadArr(st, p.obj, o, p.path)
	}
	if _, ok := o.cells[p.path]; !ok {
		if x.lazy != nil {
			if v, ok := x.lazy(st, p.obj, p.path); ok {
				return v
			}
		}
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			ag := sAgg{t, map[string]sv{}}
			pre := p.path
			if pre != "" {
				pre += "."
			}
			for k, v := range o.cells {
				if strings.HasPrefix(k, pre) {
					ag.cells[k[len(pre):]] = v
				}
			}
			return ag
		}
	}
	return st.cell(o, p.path)
}

func (x *shape) store(st *sst, a, v sv) {
	switch a.(type) {
	case sElem:
		panic(undecided{"write into a stack of nodes"})
	case sUnk:
		return
	}
	o, p := x.obj(st, a)
	if o.frozen {
		panic(undecided{"write to a node of a structure that is complete"})
	}
	o.pristine = false
	if x.onStore != nil {
		x.onStore(st, p.obj, p.path)
	}
	if x.onWrite != nil {
		x.onWrite(st, p.obj, p.path, v)
	}
	if o.isArr {
		x.storeArr(st, p.obj, o, p.path, v)
		return
	}
	if ag, ok := v.(sAgg); ok {
		pre := p.path
		if pre != "" {
			pre += "."
		}
		for k := range o.cells {
			if strings.HasPrefix(k, pre) {
				delete(o.cells, k)
			}
		}
		delete(o.cells, p.path)
		if !o.alloc {
			// cells not mentioned are zero
			for _, l := range leafPaths(ag.typ, "") {
				if _, ok := ag.cells[l]; !ok {
					o.cells[pre+l] = zeroSv(cellType(ag.typ, l))
				}
			}
		}
		for k, w := range ag.cells {
			o.cells[pre+k] = w
		}
		return
	}
	o.cells[p.path] = v
}

func leafPaths(t types.Type, pre string) []string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leafPaths(u.Field(i).Type(), joinPath(pre, fmt.Sprint(i)))...)
		}
		return r
	case *types.Array:
		var r []string
		for i := int64(0); i < u.Len() && i < 64; i++ {
			r = append(r, leafPaths(u.Elem(), joinPath(pre, fmt.Sprint(i)))...)
		}
		return r
	}
	return []string{pre}
}

func (x *shape) eval(st *sst, f *sframe, in ssa.Value) sv {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		id := st.newObj(t)
		o := st.heap[id]
		o.alloc = true
		o.node = x.nodeFor(t)
		return sPtr{id, ""}
	case *ssa.FieldAddr:
		b := x.val(st, f, in.X)
		if u, ok := b.(sUnk); ok {
			return u
		}
		_, p := x.obj(st, b)
		return sPtr{p.obj, joinPath(p.path, fmt.Sprint(in.Field))}
	case *ssa.Field:
		if ag, ok := x.val(st, f, in.X).(sAgg); ok {
			return ag.sub(fmt.Sprint(in.Field), in.Type())
		}
		return st.unknownOf(in.Type())
	case *ssa.Index:
		ag, ok := x.val(st, f, in.X).(sAgg)
		i, ok2 := x.val(st, f, in.Index).(sInt)
		if ok && ok2 && i.base == 0 {
			return ag.sub(fmt.Sprint(i.k), in.Type())
		}
		panic(undecided{"index"})
	case *ssa.IndexAddr:
		return x.indexAddr(st, x.val(st, f, in.X), x.val(st, f, in.Index), in)
	case *ssa.UnOp:
		v := x.val(st, f, in.X)
		switch in.Op {
		case token.MUL:
			return x.load(st, v, in.Type())
		case token.NOT:
			if b, ok := v.(sBool); ok {
				return !b
			}
			if u, ok := v.(sUnk); ok {
				panic(needFork{func(s *sst) []*sst {
					var r []*sst
					for _, b := range []bool{true, false} {
						n := s.clone()
						n.setUnk(u.id, in.X, b)
						r = append(r, n)
					}
					return r
				}})
			}
		case token.SUB:
			if i, ok := v.(sInt); ok && i.base == 0 {
				return sInt{0, -i.k}
			}
			return st.unknownOf(in.Type())
		}
		return st.unknownOf(in.Type())
	case *ssa.BinOp:
		return x.binop(st, f, in)
	case *ssa.Extract:
		t, ok := x.val(st, f, in.Tuple).(sTup)
		if !ok {
			return st.unknownOf(in.Type())
		}
		return t[in.Index]
	case *ssa.MakeInterface:
		v := x.val(st, f, in.X)
		switch v.(type) {
		case sPtr, sNil, sAbs:
			return sIface{in.X.Type(), v}
		}
		t := st.tok()
		st.nilk[t.id] = 2
		return t
	case *ssa.ChangeInterface:
		return x.val(st, f, in.X)
	case *ssa.ChangeType:
		return x.val(st, f, in.X)
	case *ssa.Convert:
		v := x.val(st, f, in.X)
		bt, ok := in.Type().Underlying().(*types.Basic)
		if ok && bt.Info()&types.IsInteger != 0 {
			switch v.(type) {
			case sInt:
				return v
			case sHashV, sSlot:
				switch bt.Kind() {
				case types.Uint32, types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
					return v
				}
			}
		}
		return st.unknownOf(in.Type())
	case *ssa.TypeAssert:
		v := x.val(st, f, in.X)
		res := func(ok bool, w sv) sv {
			if in.CommaOk {
				return sTup{w, sBool(ok)}
			}
			if !ok {
				panic(crash{"type assertion fails"})
			}
			return w
		}
		switch v := v.(type) {
		case sNil:
			return res(false, zeroSv(in.AssertedType))
		case sIface:
			if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				if types.AssignableTo(v.typ, in.AssertedType) {
					return res(true, v)
				}
				return res(false, sNil{})
			}
			if types.Identical(v.typ, in.AssertedType) {
				return res(true, v.v)
			}
			return res(false, zeroSv(in.AssertedType))
		}
		panic(undecided{"type assertion on an opaque value"})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var b []sv
		for _, v := range in.Bindings {
			b = append(b, x.val(st, f, v))
		}
		return sFn{fn, b}
	case *ssa.MakeSlice:
		return x.makeSlice(st, x.val(st, f, in.Len), in)
	case *ssa.Slice:
		return x.slice(st, f, in)
	}
	panic(undecided{fmt.Sprintf("%T", in)})
}

func (a sAgg) sub(p string, t types.Type) sv {
	if v, ok := a.cells[p]; ok {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		r := sAgg{t, map[string]sv{}}
		for k, v := range a.cells {
			if strings.HasPrefix(k, p+".") {
				r.cells[k[len(p)+1:]] = v
			}
		}
		return r
	}
	return zeroSv(t)
}

func (x *shape) indexAddr(st *sst, b, i sv, in *ssa.IndexAddr) sv {
	switch b := b.(type) {
	case sPtr: // pointer to an array
		n, ok := i.(sInt)
		o := st.heap[b.obj]
		if o != nil && (!ok || n.base != 0) {
			panic(undecided{"symbolic index into an array"})
		}
		if at, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := at.Elem().Underlying().(*types.Array); ok && (n.k < 0 || n.k >= a.Len()) {
				panic(crash{"index out of range"})
			}
		}
		return sPtr{b.obj, joinPath(b.path, fmt.Sprint(n.k))}
	case sStk:
		n, ok := i.(sInt)
		if !ok {
			panic(undecided{"index into a stack"})
		}
		if n.base == b.base {
			if n.k >= 0 && n.k < int64(len(b.items)) {
				return sElem{b, int(n.k)}
			}
			if n.k < 0 && b.base != 0 {
				panic(needMat{b.base})
			}
			panic(crash{"index out of range"})
		}
		if b.base != 0 {
			panic(undecided{"index into a stack"})
		}
		panic(crash{"index out of range"})
	case sArr:
		return x.indexArr(st, b, i)
	case sNil:
		panic(crash{"index out of range"})
	case sUnk:
		return sUnk{st.id()}
	}
	panic(undecided{fmt.Sprintf("index into %T", b)})
}

func (x *shape) slice(st *sst, f *sframe, in *ssa.Slice) sv {
	b := x.val(st, f, in.X)
	switch b := b.(type) {
	case sPtr:
		o := st.heap[b.obj]
		a, ok := o.typ.Underlying().(*types.Array)
		if ok && in.High != nil && x.stackOf != nil && x.stackOf(a.Elem()) && x.val(st, f, in.High) == sv(sInt{}) {
			return sStk{}
		}
		if ok && in.Low == nil && in.High == nil && b.path == "" {
			if x.nodeFor(derefT(a.Elem())) != nil || x.stackOf != nil && x.stackOf(a.Elem()) {
				s := sStk{}
				for i := int64(0); i < a.Len(); i++ {
					s.items = append(s.items, st.cell(o, fmt.Sprint(i)))
				}
				return s
			}
			return sUnk{st.id()}
		}
		return sUnk{st.id()}
	case sStk:
		if in.Low != nil {
			if l, ok := x.val(st, f, in.Low).(sInt); !ok || l != (sInt{}) {
				panic(undecided{"slice of a stack from the bottom"})
			}
		}
		if in.High == nil {
			return b
		}
		h, ok := x.val(st, f, in.High).(sInt)
		if !ok {
			panic(undecided{"slice of a stack"})
		}
		if h == (sInt{}) {
			return sStk{}
		}
		if h.base != b.base {
			panic(undecided{"slice of a stack"})
		}
		if h.k < 0 {
			if b.base != 0 {
				panic(needMat{b.base})
			}
			panic(crash{"slice out of range"})
		}
		if h.k > int64(len(b.items)) {
			panic(undecided{"slice of a stack beyond its length"})
		}
		return sStk{b.base, append([]sv(nil), b.items[:h.k]...)}
	case sNil:
		for _, bound := range []ssa.Value{in.Low, in.High} {
			if bound == nil {
				continue
			}
			switch v, ok := x.val(st, f, bound).(sInt); {
			case !ok || v.base != 0:
				panic(undecided{"slice of nil"})
			case v.k != 0:
				panic(crash{"slice out of range"})
			}
		}
		return b
	case sUnk:
		return sUnk{st.id()}
	}
	panic(undecided{fmt.Sprintf("slice of %T", b)})
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// nilness of a token; forks if not known
func (x *shape) tokNil(st *sst, id int) bool {
	switch st.nilk[id] {
	case 1:
		return true
	case 2:
		return false
	}
	panic(needFork{func(s *sst) []*sst {
		a, b := s.clone(), s.clone()
		a.nilk[id], b.nilk[id] = 1, 2
		return []*sst{a, b}
	}})
}

// isNilV decides whether a value is nil
func (x *shape) isNilV(st *sst, v sv) bool {
	switch v := v.(type) {
	case sNil:
		return true
	case sPtr, sIface, sFn, sArr:
		return false
	case sAbs:
		panic(needMat{v.id})
	case sTok:
		return x.tokNil(st, v.id)
	case sStk:
		if v.base == 0 && len(v.items) == 0 && x.stackOf == nil {
			panic(undecided{"nil test of an empty slice"})
		}
		return false
	}
	panic(undecided{fmt.Sprintf("nil test of %T", v)})
}

func (x *shape) binop(st *sst, f *sframe, in *ssa.BinOp) sv {
	a, b := x.val(st, f, in.X), x.val(st, f, in.Y)
	isC := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		out := func(r bool) sv { return sBool(r != neg) }
		if isC(in.Y) || isC(in.X) {
			v := a
			if isC(in.X) {
				v = b
			}
			if _, ok := v.(sUnk); ok {
				return sUnk{st.id()}
			}
			return out(x.isNilV(st, v))
		}
		if ba, ok := a.(sBool); ok {
			if bb, ok := b.(sBool); ok {
				return out(ba == bb)
			}
		}
		switch p := a.(type) {
		case sPtr, sNil, sAbs:
			switch q := b.(type) {
			case sPtr, sNil, sAbs:
				if ab, ok := p.(sAbs); ok {
					panic(needMat{ab.id})
				}
				if ab, ok := q.(sAbs); ok {
					panic(needMat{ab.id})
				}
				return out(p == q)
			}
		}
	}
	ia, oka := a.(sInt)
	ib, okb := b.(sInt)
	if oka && okb {
		if r, ok := x.intop(st, in.Op, ia, ib); ok {
			return r
		}
	}
	if hv, ok := a.(sHashV); ok && in.Op == token.REM && okb {
		for id, o := range st.heap {
			if o.isArr && o.length == ib {
				if x.lowInt(st, ib) < 1 {
					panic(crash{"division by zero: the table may be empty"})
				}
				return sSlot{hv.tok, id, hv.by}
			}
		}
		panic(undecided{"hash modulo something that is not the length of a table"})
	}
	return st.unknownOf(in.Type())
}

func (x *shape) lowInt(st *sst, i sInt) int64 {
	if i.base == 0 {
		return i.k
	}
	if l, ok := st.lo[i.base]; ok {
		return l + i.k
	}
	return -1 << 60
}

func cmpInt(op token.Token, d int64) (bool, bool) {
	switch op {
	case token.EQL:
		return d == 0, true
	case token.NEQ:
		return d != 0, true
	case token.LSS:
		return d < 0, true
	case token.LEQ:
		return d <= 0, true
	case token.GTR:
		return d > 0, true
	case token.GEQ:
		return d >= 0, true
	}
	return false, false
}

func (x *shape) intop(st *sst, op token.Token, a, b sInt) (sv, bool) {
	if r, isCmp := cmpInt(op, a.k-b.k); isCmp {
		if a.base == b.base {
			return sBool(r), true
		}
		return x.cmpSym(st, op, a, b)
	}
	switch op {
	case token.ADD:
		if a.base == 0 || b.base == 0 {
			return sInt{a.base + b.base, a.k + b.k}, true
		}
	case token.SUB:
		if b.base == 0 {
			return sInt{a.base, a.k - b.k}, true
		}
		if a.base == b.base {
			return sInt{0, a.k - b.k}, true
		}
	}
	if a.base == 0 && b.base == 0 {
		switch op {
		case token.MUL:
			return sInt{0, a.k * b.k}, true
		case token.QUO:
			if b.k != 0 {
				return sInt{0, a.k / b.k}, true
			}
			panic(crash{"division by zero"})
		case token.REM:
			if b.k != 0 {
				return sInt{0, a.k % b.k}, true
			}
			panic(crash{"division by zero"})
		case token.XOR:
			return sInt{0, a.k ^ b.k}, true
		case token.AND:
			return sInt{0, a.k & b.k}, true
		case token.OR:
			return sInt{0, a.k | b.k}, true
		case token.SHL:
			if b.k >= 0 && b.k < 62 {
				return sInt{0, a.k << uint(b.k)}, true
			}
		case token.SHR:
			if b.k >= 0 && b.k < 63 {
				return sInt{0, a.k >> uint(b.k)}, true
			}
		}
	}
	return nil, false
}

// cmpSym compares two integers at least one of which is symbolic
func (x *shape) cmpSym(st *sst, op token.Token, a, b sInt) (sv, bool) {
	if a.base == 0 { // put the symbol on the left
		sw := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		return x.cmpSym(st, sw[op], b, a)
	}
	// progress of an enumeration of a table
	if r, ok := x.cmpCursor(st, op, a, b); ok {
		return r, true
	}
	if b.base != 0 {
		switch op {
		case token.GTR, token.LEQ: // b < a
			a, b = b, a
		case token.EQL, token.NEQ:
			return sUnk{st.id()}, true
		}
		k := [2]sInt{a, b}
		if v, ok := st.lt[k]; ok {
			return sBool(v == (op == token.LSS || op == token.GTR)), true
		}
		panic(needFork{func(s *sst) []*sst {
			p, q := s.clone(), s.clone()
			p.lt[k], q.lt[k] = true, false
			return []*sst{p, q}
		}})
	}
	c := b.k - a.k // base ? c
	if x.isStack(st, a.base) {
		// base is a length: at least 0
		switch {
		case c < 0:
			r, _ := cmpInt(op, 1)
			return sBool(r), true
		}
		panic(needMat{a.base})
	}
	lo, okl := st.lo[a.base]
	hi, okh := st.hi[a.base]
	// sets of values for which op holds, decided on bounds
	switch op {
	case token.LSS, token.GEQ:
		t := op == token.LSS
		if okh && hi < c {
			return sBool(t), true
		}
		if okl && lo >= c {
			return sBool(!t), true
		}
		x.splitAt(a.base, c)
	case token.LEQ, token.GTR:
		t := op == token.LEQ
		if okh && hi <= c {
			return sBool(t), true
		}
		if okl && lo > c {
			return sBool(!t), true
		}
		x.splitAt(a.base, c+1)
	case token.EQL, token.NEQ:
		t := op == token.EQL
		if okl && lo > c || okh && hi < c {
			return sBool(!t), true
		}
		if okl && okh && lo == hi && lo == c {
			return sBool(t), true
		}
		if !okl || lo < c {
			x.splitAt(a.base, c)
		}
		x.splitAt(a.base, c+1)
	}
	return nil, false
}

// splitAt forks into base < c and base >= c
func (x *shape) splitAt(base int, c int64) {
	panic(needFork{func(s *sst) []*sst {
		a, b := s.clone(), s.clone()
		a.hi[base] = c - 1
		b.lo[base] = c
		return []*sst{a, b}
	}})
}

func (x *shape) isStack(st *sst, id int) bool {
	found := false
	st.subst(func(v sv) (sv, bool) {
		if s, ok := v.(sStk); ok && s.base == id {
			found = true
		}
		return nil, false
	})
	return found
}

// ---------------------------------------------------------------- calls

func (x *shape) call(st *sst, f *sframe, in *ssa.Call) []*sst {
	cc := in.Common()
	x.c.sites[in] = fname(f.fn)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v := x.builtin(st, f, b.Name(), cc)
		f.env[in] = v
		f.idx++
		return nil
	}
	var args []sv
	for _, a := range cc.Args {
		args = append(args, x.val(st, f, a))
	}
	if cc.IsInvoke() {
		recv := x.val(st, f, cc.Value)
		if h := x.invoke[cc.Method.Name()]; h != nil {
			return h(x, st, recv, args)
		}
		if i, ok := recv.(sIface); ok {
			if fn := x.r.prog.LookupMethod(i.typ, cc.Method.Pkg(), cc.Method.Name()); fn != nil && fn.Blocks != nil {
				if h := x.hooks[fn]; h != nil {
					x.c.calls[fname(fn)]++
					return h(x, st, append([]sv{i.v}, args...))
				}
				x.enterCall(st, fn, append([]sv{i.v}, args...))
				return nil
			}
		}
		x.setRes(st, x.opaque(st, cc.Signature()))
		return nil
	}
	fn := cc.StaticCallee()
	var bind []sv
	if fn == nil || len(fn.FreeVars) > 0 {
		if v, ok := x.val(st, f, cc.Value).(sFn); ok {
			fn, bind = v.fn, v.bind
		}
	}
	if fn != nil && x.markCall(st, fname(fn), args) {
		return nil
	}
	if fn == nil {
		x.setRes(st, x.opaque(st, cc.Signature()))
		return nil
	}
	if h := x.hooks[fn]; h != nil {
		x.c.calls[fname(fn)]++
		return h(x, st, args)
	}
	if fn.Blocks == nil || !x.r.owns(fn) {
		x.setRes(st, x.opaque(st, cc.Signature()))
		return nil
	}
	for _, g := range st.frames {
		if g.fn == fn {
			panic(undecided{"recursive call of " + fname(fn) + " without a contract"})
		}
	}
	x.enterCall(st, fn, args)
	for i, fv := range fn.FreeVars {
		st.frames[len(st.frames)-1].env[fv] = bind[i]
	}
	return nil
}

func (x *shape) enterCall(st *sst, fn *ssa.Function, args []sv) {
	x.start(st, fn, args...)
}

func (x *shape) opaque(st *sst, sig *types.Signature) []sv {
	var vs []sv
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, st.unknownOf(sig.Results().At(i).Type()))
	}
	return vs
}

func (x *shape) builtin(st *sst, f *sframe, name string, cc *ssa.CallCommon) sv {
	switch name {
	case "len":
		switch v := x.val(st, f, cc.Args[0]).(type) {
		case sStk:
			return sInt{v.base, int64(len(v.items))}
		case sArr:
			return st.heap[v.obj].length
		case sNil:
			return sInt{}
		}
		return sInt{st.id(), 0}
	case "append":
		s, ok := x.val(st, f, cc.Args[0]).(sStk)
		if !ok {
			if _, isN := x.val(st, f, cc.Args[0]).(sNil); isN {
				s, ok = sStk{}, true
			}
		}
		if !ok {
			return sUnk{st.id()}
		}
		t, ok := x.val(st, f, cc.Args[1]).(sStk)
		if !ok || t.base != 0 {
			panic(undecided{"append of an unknown slice"})
		}
		return sStk{s.base, append(append([]sv(nil), s.items...), t.items...)}
	case "print", "println":
		return sTup{}
	}
	panic(undecided{"builtin " + name})
}

func hookIsNil(x *shape, st *sst, args []sv) []*sst {
	v := args[0]
	if i, ok := v.(sIface); ok {
		v = i.v
	}
	if _, ok := v.(sUnk); ok {
		x.setRes(st, []sv{sUnk{st.id()}})
		return nil
	}
	x.setRes(st, []sv{sBool(x.isNilV(st, v))})
	return nil
}

// unwrapTok: the token of a key
func unwrapTok(v sv) (int, bool) {
	t, ok := v.(sTok)
	return t.id, ok
}

func invCompare(x *shape, st *sst, recv sv, args []sv) []*sst {
	if _, ok := recv.(sNil); ok {
		panic(crash{"Compare of a nil key"})
	}
	a, ok1 := unwrapTok(recv)
	if len(args) != 1 {
		panic(undecided{"Compare"})
	}
	b, ok2 := unwrapTok(args[0])
	if !ok1 || !ok2 {
		panic(undecided{fmt.Sprintf("Compare of %T and %T", recv, args[0])})
	}
	if x.tokNil(st, a) {
		panic(crash{"Compare of a nil key"})
	}
	if x.tokNil(st, b) {
		panic(crash{"Compare with a nil key"})
	}
	m := x.relTok(st, a, b)
	var outs []*sst
	for _, o := range []struct {
		bit uint8
		v   int64
	}{{rLT, -1}, {rEQ, 0}, {rGT, 1}} {
		if m&o.bit == 0 {
			continue
		}
		s := st.clone()
		s.learn(a, b, o.bit)
		x.setRes(s, []sv{sInt{0, o.v}})
		outs = append(outs, s)
	}
	if outs == nil {
		st.dead = true
	}
	return outs
}

func invEqual(x *shape, st *sst, recv sv, args []sv) []*sst {
	if _, ok := recv.(sNil); ok {
		panic(crash{"Equal of a nil key"})
	}
	if len(args) != 1 {
		panic(undecided{"Equal"})
	}
	a, ok1 := unwrapTok(recv)
	b, ok2 := unwrapTok(args[0])
	if !ok1 || !ok2 {
		panic(undecided{fmt.Sprintf("Equal of %T and %T", recv, args[0])})
	}
	if x.tokNil(st, a) {
		panic(crash{"Equal of a nil key"})
	}
	if x.tokNil(st, b) {
		x.setRes(st, []sv{sBool(false)})
		return nil
	}
	m := x.relTok(st, a, b)
	var outs []*sst
	for _, o := range []struct {
		bits uint8
		v    bool
	}{{rEQ, true}, {rLT | rGT, false}} {
		if m&o.bits == 0 {
			continue
		}
		s := st.clone()
		s.learn(a, b, o.bits)
		x.setRes(s, []sv{sBool(o.v)})
		outs = append(outs, s)
	}
	if outs == nil {
		st.dead = true
	}
	return outs
}

// ---------------------------------------------------------------- blocks

func (x *shape) enter(st *sst, f *sframe, b *ssa.BasicBlock) []*sst {
	from := f.blk
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if len(phis) > 0 {
		k := -1
		for i, p := range b.Preds {
			if p == from {
				k = i
			}
		}
		var vs []sv
		for _, p := range phis {
			vs = append(vs, x.val(st, f, p.Edges[k]))
		}
		for i, p := range phis {
			f.env[p] = vs[i]
		}
	}
	f.prev, f.blk, f.idx = from, b, len(phis)
	if !x.isLoopHead(b) {
		return nil
	}
	x.c.loops[b] = true
	st.pend, st.atHead = phis, true
	return nil
}

// head folds the state at a loop head and stops if it is not a new one
func (x *shape) head(st *sst, f *sframe) []*sst {
	b := f.blk
	n := st.clone()
	x.progress(n, b)
	x.before = nil
	if m := n.marks[markKey(len(n.frames), b)]; m != nil && m.blk == b {
		x.before = m.ints
	}
	delete(n.marks, markKey(len(n.frames), b))
	vk := fmt.Sprintf("%s.%d.%d", fname(f.fn), b.Index, len(n.frames))
	x.widen = n.visits[vk] >= 3
	x.fold(n, b, n.pend)
	x.widen = false
	n.pend, n.atHead = nil, false
	if n.dead {
		return []*sst{}
	}
	x.mark(n, f.fn, b)
	key := x.canon(n)
	if x.seen[key] {
		return []*sst{}
	}
	x.seen[key] = true
	if os.Getenv("VERIF_DEBUG_SHAPE") != "" {
		fmt.Fprintf(os.Stderr, "HEAD %s b%d:\n%s\n", fname(f.fn), b.Index, key)
	}
	n.visits[vk]++
	if n.visits[vk] > 14 {
		panic(undecided{"no loop invariant found for the loop at block " + fmt.Sprint(b.Index)})
	}
	return []*sst{n}
}

func (x *shape) isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- liveness

type liveInfo struct {
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *shape) liveness(fn *ssa.Function) *liveInfo {
	if l := x.live[fn]; l != nil {
		return l
	}
	l := &liveInfo{out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l.out[b] = map[ssa.Value]bool{}
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			for _, s := range b.Succs {
				for v := range in[s] {
					if !l.out[b][v] {
						l.out[b][v] = true
						ch = true
					}
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if e := ph.Edges[k]; !l.out[b][e] {
							l.out[b][e] = true
							ch = true
						}
					}
				}
			}
			cur := liveBack(b, 0, l.out[b])
			for _, ins := range b.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					delete(cur, p)
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	x.live[fn] = l
	return l
}

// liveBack: live values before instruction idx of a block
func liveBack(b *ssa.BasicBlock, idx int, out map[ssa.Value]bool) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for v := range out {
		cur[v] = true
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		ins := b.Instrs[i]
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if v, ok := ins.(ssa.Value); ok {
			delete(cur, v)
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				cur[*op] = true
			}
		}
	}
	return cur
}

// dropDead forgets the values no frame will use again
func (x *shape) dropDead(st *sst) {
	for i, f := range st.frames {
		idx := f.idx
		if i < len(st.frames)-1 {
			idx++ // the pending call
		}
		live := liveBack(f.blk, idx, x.liveness(f.fn).out[f.blk])
		for v := range f.env {
			if !live[v] {
				delete(f.env, v)
			}
		}
	}
}

func sortedEnv(f *sframe) []ssa.Value {
	var vs []ssa.Value
	for v := range f.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}
