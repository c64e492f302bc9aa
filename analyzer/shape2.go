package main

// Folding states at loop heads, canonical forms, and contracts for the
// recursive tree functions.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flatSegs expands segments but keeps what hangs off named nodes
func (st *sst) flatSegs(items []sitem) []sitem {
	var r []sitem
	for _, it := range items {
		if it.kind == 's' {
			if e, ok := st.exp[it.id]; ok {
				r = append(r, st.flatSegs(e)...)
				continue
			}
		}
		r = append(r, it)
	}
	return r
}

type reachInfo struct {
	objs   []int
	has    map[int]bool
	named  map[int]bool // nodes a variable points at
	absN   map[int]bool // abstract trees a variable holds
	trees  []int
	hasT   map[int]bool
	toks   map[int]bool // tokens held by variables or objects
	stacks []sStk
}

func (x *shape) reach(st *sst) *reachInfo {
	ri := &reachInfo{has: map[int]bool{}, named: map[int]bool{}, absN: map[int]bool{}, hasT: map[int]bool{}, toks: map[int]bool{}}
	var val func(v sv, named bool)
	var obj func(id int)
	var tree func(id int)
	tree = func(id int) {
		if ri.hasT[id] {
			return
		}
		ri.hasT[id] = true
		ri.trees = append(ri.trees, id)
		for _, it := range st.trees[id].items {
			if it.kind == 'n' {
				obj(it.id)
			}
		}
	}
	obj = func(id int) {
		if ri.has[id] {
			return
		}
		o := st.heap[id]
		if o == nil {
			return
		}
		ri.has[id] = true
		ri.objs = append(ri.objs, id)
		naming := o.node == nil && !o.isArr && !x.owner(o.typ)
		for _, k := range sortedCells(o) {
			val(o.cells[k], naming)
		}
	}
	val = func(v sv, named bool) {
		switch v := v.(type) {
		case sPtr:
			if named {
				ri.named[v.obj] = true
			}
			obj(v.obj)
		case sArr:
			obj(v.obj)
		case sAbs:
			if named {
				ri.absN[v.id] = true
			}
			tree(v.id)
		case sTok:
			ri.toks[v.id] = true
		case sIface:
			val(v.v, named)
		case sTup:
			for _, w := range v {
				val(w, named)
			}
		case sAgg:
			for _, w := range v.cells {
				val(w, named)
			}
		case sStk:
			ri.stacks = append(ri.stacks, v)
			for _, w := range v.items {
				val(w, false)
			}
		case sElem:
			ri.stacks = append(ri.stacks, v.s)
		case sFn:
			for _, w := range v.bind {
				val(w, named)
			}
		case sHashV:
			ri.toks[v.tok] = true
		case sSlot:
			ri.toks[v.tok] = true
		}
	}
	for _, f := range st.frames {
		for _, v := range sortedEnv(f) {
			val(f.env[v], true)
		}
	}
	for _, id := range st.roots {
		obj(id)
	}
	return ri
}

func sortedCells(o *sobj) []string {
	var ks []string
	for k := range o.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// collapse summarises an unmodified subtree; what variables point at stays
func (x *shape) collapse(st *sst, v sv, keep func(int) bool) []sitem {
	switch v := v.(type) {
	case sNil:
		return nil
	case sAbs:
		return st.flatSegs(st.trees[v.id].items)
	case sPtr:
		o := st.heap[v.obj]
		if keep(v.obj) || !o.pristine {
			return []sitem{{kind: 'n', id: v.obj}}
		}
		n := o.node
		e := sitem{kind: 'e', k: o.cells[n.key], v: o.cells[n.val]}
		if n.list() {
			return append([]sitem{e}, x.collapse(st, o.cells[n.links[0]], keep)...)
		}
		return append(append(x.collapse(st, o.cells[n.links[0]], keep), e), x.collapse(st, o.cells[n.links[1]], keep)...)
	}
	panic(undecided{fmt.Sprintf("not a tree: %T", v)})
}

func (x *shape) foreign(st *sst) []int {
	return st.spec
}

// factsOf joins what is known about the items of a run
func (x *shape) factsOf(st *sst, run []sitem, id int) {
	for _, b := range x.foreign(st) {
		m := uint8(0)
		for _, it := range run {
			k := itemKey(it)
			if k == 0 {
				m = 7
			} else {
				m |= st.fact(k, b)
			}
		}
		if m != 7 && m != 0 {
			st.rel[[2]int{id, b}] = m
		}
	}
	for _, it := range run {
		if it.kind == 'e' || it.kind == 's' && st.full[it.id] {
			st.full[id] = true
		}
	}
}

func findRun(g, run []sitem) int {
	for i := 0; i+len(run) <= len(g); i++ {
		ok := true
		for j := range run {
			if !sameItem(g[i+j], run[j]) {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

// coalesce makes one segment of a run of items of the ghost sequence
func (x *shape) coalesce(st *sst, run []sitem) int {
	if len(run) == 1 && run[0].kind == 's' {
		return run[0].id
	}
	x.saturate(st, x.foreign(st))
	g := st.flat(st.ghost)
	i := findRun(g, run)
	if i < 0 {
		panic(undecided{"entries that are not together in the original"})
	}
	id := st.id()
	x.factsOf(st, run, id)
	ng := append([]sitem(nil), g[:i]...)
	ng = append(ng, segItem(id))
	st.ghost = append(ng, g[i+len(run):]...)
	st.markRun(run, id)
	return id
}

// markRun puts the segment that now stands for a run into the marks as well
func (st *sst) markRun(run []sitem, id int) {
	for _, m := range st.marks {
		for k, q := range m.seqs {
			q = st.flat(q)
			if i := findRun(q, run); i >= 0 && len(run) > 0 {
				n := append([]sitem(nil), q[:i]...)
				n = append(n, segItem(id))
				q = append(n, q[i+len(run):]...)
			}
			m.seqs[k] = q
		}
	}
}

// trimMarks forgets what the marks hold beyond the ghost sequence: a mark
// with less in it asks for more
func (x *shape) trimMarks(st *sst) {
	g := st.flat(st.ghost)
	for _, m := range st.marks {
		for k, q := range m.seqs {
			var n []sitem
			for _, it := range st.flat(q) {
				if posIn(g, it) < len(g) {
					n = append(n, it)
				}
			}
			m.seqs[k] = n
		}
	}
}

func (x *shape) fold(st *sst, b *ssa.BasicBlock, phis []*ssa.Phi) {
	x.dropDead(st)
	x.settleArrays(st)
	if x.refold != nil {
		x.refold(st, b, phis)
		x.gc(st)
		return
	}
	x.saturate(st, x.foreign(st))
	if st.dead {
		return
	}
	ri := x.reach(st)
	// a variable holds a subtree nobody has looked at, of a node that will be summarised
	for _, id := range ri.objs {
		o := st.heap[id]
		if o.node == nil || !o.pristine || ri.named[id] {
			continue
		}
		for _, l := range o.node.links {
			if t, ok := o.cells[l].(sAbs); ok && ri.absN[t.id] {
				panic(needMat{t.id})
			}
		}
	}
	keep := func(id int) bool { return ri.named[id] }
	for _, id := range ri.objs {
		o := st.heap[id]
		if o.node != nil && o.pristine && !ri.named[id] {
			continue
		}
		if o.node == nil && !o.isArr && !x.owner(o.typ) {
			continue
		}
		for _, k := range sortedCells(o) {
			p, ok := o.cells[k].(sPtr)
			if !ok || p.path != "" || ri.named[p.obj] {
				continue
			}
			n := st.heap[p.obj]
			if n == nil || n.node == nil || !n.pristine {
				continue
			}
			nid := st.id()
			st.trees[nid] = &stree{items: x.collapse(st, p, keep), h: n.h, heights: x.heights && !n.node.list(), node: n.node, frozen: n.frozen}
			o.cells[k] = sAbs{nid}
		}
	}
	// summaries: nodes inside that no variable points at any more
	for _, t := range x.reach(st).trees {
		tr := st.trees[t]
		var its []sitem
		for _, it := range st.flatSegs(tr.items) {
			if it.kind == 'n' && !ri.named[it.id] && st.heap[it.id].pristine {
				its = append(its, x.collapse(st, sPtr{it.id, ""}, keep)...)
			} else {
				its = append(its, it)
			}
		}
		tr.items = its
	}
	x.foldStacks(st)
	x.trimMarks(st)
	x.mergeRuns(st)
	x.widenHeights(st)
	x.widenInts(st, b, phis)
	x.gc(st)
}

func (x *shape) foldStacks(st *sst) {
	for n := 0; n < 20; n++ {
		var s *sStk
		for _, c := range x.reach(st).stacks {
			if len(c.items) > 0 {
				c := c
				s = &c
				break
			}
		}
		if s == nil {
			return
		}
		var rem []sitem
		for i := len(s.items) - 1; i >= 0; i-- {
			p, ok := s.items[i].(sPtr)
			if !ok {
				if a, isA := s.items[i].(sAbs); isA {
					panic(needMat{a.id})
				}
				panic(undecided{"stack of something else than nodes"})
			}
			o := st.heap[p.obj]
			rem = append(rem, sitem{kind: 'e', k: o.cells[o.node.key], v: o.cells[o.node.val]})
			rem = append(rem, st.seqOf(o.cells[o.node.links[1]])...)
		}
		if s.base != 0 {
			rem = append(rem, st.flat([]sitem{segItem(s.base)})...)
		}
		id := st.id()
		x.factsOf(st, rem, id)
		g := st.flat(st.ghost)
		if i := findRun(g, rem); i >= 0 {
			ng := append([]sitem(nil), g[:i]...)
			ng = append(ng, segItem(id))
			st.ghost = append(ng, g[i+len(rem):]...)
		}
		st.markRun(rem, id)
		key := fmt.Sprint(*s)
		nb := len(s.items)
		base := s.base
		st.subst(func(v sv) (sv, bool) {
			switch v := v.(type) {
			case sStk:
				if fmt.Sprint(v) == key {
					return sStk{base: id}, true
				}
			case sInt:
				if base != 0 && v.base == base {
					return sInt{id, v.k - int64(nb)}, true
				}
			}
			return nil, false
		})
	}
	panic(undecided{"stacks"})
}

// mergeRuns joins neighbouring items of the ghost sequence that nothing tells apart
func (x *shape) mergeRuns(st *sst) {
	ri := x.reach(st)
	g := st.flat(st.ghost)
	sig := make([]string, len(g))
	at := map[string]int{}
	for i, it := range g {
		at[fmt.Sprint(it)] = i
	}
	for _, t := range ri.trees {
		for _, it := range st.flat(st.trees[t].items) {
			if i, ok := at[fmt.Sprint(it)]; ok {
				sig[i] += fmt.Sprintf("t%d,", t)
			}
		}
	}
	for _, s := range ri.stacks {
		if i, ok := at[fmt.Sprint(segItem(s.base))]; ok {
			sig[i] += fmt.Sprintf("b%d,", s.base)
		}
	}
	for _, it := range st.flat(st.moved) {
		if i, ok := at[fmt.Sprint(it)]; ok {
			sig[i] += "moved,"
		}
	}
	for _, o := range ri.objs {
		ob := st.heap[o]
		if ob.isArr {
			if i, ok := at[fmt.Sprint(segItem(ob.rest))]; ok && ob.rest != 0 {
				sig[i] += fmt.Sprintf("rest%d,", o)
			}
		}
	}
	var mks []string
	for k := range st.marks {
		mks = append(mks, k)
	}
	sort.Strings(mks)
	for _, k := range mks {
		for _, q := range st.marks[k].names() {
			for _, it := range st.flat(st.marks[k].seqs[q]) {
				if i, ok := at[fmt.Sprint(it)]; ok {
					sig[i] += k + q + ","
				}
			}
		}
	}
	for i, it := range g {
		if it.kind == 'e' && (ri.toks[tokID(it.k)] || ri.toks[tokID(it.v)]) {
			sig[i] += fmt.Sprintf("u%d,", i)
		}
		for _, e := range st.edits {
			if it.kind == 's' && it.id == e.from {
				sig[i] += fmt.Sprintf("u%d,", i)
			}
		}
	}
	for i, it := range g {
		for _, b := range x.foreign(st) {
			if k := itemKey(it); k != 0 {
				sig[i] += fmt.Sprintf("f%d,", st.fact(k, b))
			}
		}
	}
	var ng []sitem
	repl := map[string]*sitem{} // sitem -> replacement (nil: dropped)
	for i := 0; i < len(g); {
		j := i + 1
		for j < len(g) && sig[j] == sig[i] && !strings.Contains(sig[i], "u") {
			j++
		}
		run := g[i:j]
		if strings.Contains(sig[i], "u") || len(run) == 1 && run[0].kind == 's' {
			ng = append(ng, run...)
			i = j
			continue
		}
		id := st.id()
		x.factsOf(st, run, id)
		n := segItem(id)
		ng = append(ng, n)
		for k, it := range run {
			if k == 0 {
				repl[fmt.Sprint(it)] = &n
			} else {
				repl[fmt.Sprint(it)] = nil
			}
		}
		i = j
	}
	st.ghost = ng
	sub := func(items []sitem) []sitem {
		var r []sitem
		for _, it := range items {
			if n, ok := repl[fmt.Sprint(it)]; ok {
				if n != nil {
					r = append(r, *n)
				}
				continue
			}
			r = append(r, it)
		}
		return r
	}
	for _, k := range mks {
		for _, q := range st.marks[k].names() {
			st.marks[k].seqs[q] = sub(st.flat(st.marks[k].seqs[q]))
		}
	}
	for _, t := range ri.trees {
		var its, run []sitem
		close := func() {
			if len(run) > 1 || len(run) == 1 && run[0].kind == 'e' {
				id := st.id()
				x.factsOf(st, run, id)
				run = []sitem{segItem(id)}
			}
			its = append(its, run...)
			run = nil
		}
		for _, it := range sub(st.flatSegs(st.trees[t].items)) {
			// what is not part of the original at all
			if it.kind != 'n' && posIn(ng, it) == len(ng) && !(it.kind == 'e' && (ri.toks[tokID(it.k)] || ri.toks[tokID(it.v)])) && !x.isEditSeg(st, it) {
				run = append(run, it)
				continue
			}
			close()
			its = append(its, it)
		}
		close()
		st.trees[t].items = its
	}
	mv := sub(st.flat(st.moved))
	sort.SliceStable(mv, func(i, j int) bool { return posIn(ng, mv[i]) < posIn(ng, mv[j]) })
	st.moved = mv
}

// isEditSeg: the segment is, or is part of, the result of an edit
func (x *shape) isEditSeg(st *sst, it sitem) bool {
	for _, e := range st.edits {
		for _, w := range st.flat([]sitem{segItem(e.to)}) {
			if sameItem(w, it) {
				return true
			}
		}
	}
	return false
}

func (m *smark) names() []string {
	var r []string
	for k := range m.seqs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- progress

// measures are the sequences a loop may be consuming: what a variable or a
// field of an iterator points at, and what an iterator stands for
func (x *shape) measures(st *sst, b *ssa.BasicBlock) map[string][]sitem {
	r := map[string][]sitem{}
	add := func(name string, v sv) {
		switch w := v.(type) {
		case sNil:
			r[name] = []sitem{}
		case sAbs:
			r[name] = st.seqOf(v)
		case sPtr:
			if o := st.heap[w.obj]; o != nil && o.node != nil && w.path == "" {
				r[name] = st.seqOf(v)
			}
		case sStk:
			var its []sitem
			ok := true
			for i := len(w.items) - 1; i >= 0; i-- {
				p, isP := w.items[i].(sPtr)
				if !isP {
					ok = false
					break
				}
				o := st.heap[p.obj]
				its = append(its, sitem{kind: 'e', k: o.cells[o.node.key], v: o.cells[o.node.val]})
				its = append(its, st.seqOf(o.cells[o.node.links[1]])...)
			}
			if w.base != 0 {
				its = append(its, st.flat([]sitem{segItem(w.base)})...)
			}
			if ok {
				r[name] = its
			}
		}
	}
	f := st.frames[len(st.frames)-1]
	for _, v := range sortedEnv(f) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
			add("var "+v.Name(), f.env[v])
		}
	}
	for _, id := range st.roots {
		o := st.heap[id]
		if o == nil || x.owner(o.typ) || o.isArr || o.node != nil {
			continue
		}
		for _, k := range sortedCells(o) {
			add(fmt.Sprintf("field %d.%s", id, k), o.cells[k])
		}
	}
	// objects local to the function, such as an iterator being built
	for _, v := range sortedEnv(f) {
		if p, ok := f.env[v].(sPtr); ok {
			o := st.heap[p.obj]
			if o == nil || x.owner(o.typ) || o.isArr || o.node != nil || p.path != "" {
				continue
			}
			for _, k := range sortedCells(o) {
				add(fmt.Sprintf("local %s.%s", v.Name(), k), o.cells[k])
			}
		}
	}
	if x.measure != nil {
		if its, ok := x.measure(st); ok {
			r["rest"] = its
		}
	}
	return r
}

// intsOf are the numbers a loop may be counting up
func (x *shape) intsOf(st *sst, b *ssa.BasicBlock) map[string]sInt {
	r := map[string]sInt{}
	f := st.frames[len(st.frames)-1]
	for _, v := range sortedEnv(f) {
		if i, ok := f.env[v].(sInt); ok {
			if p, isP := v.(*ssa.Phi); isP && p.Block() == b {
				r["var "+v.Name()] = i
			}
		}
		if x.rank != nil {
			if p, isP := v.(*ssa.Phi); isP && p.Block() == b {
				if i, ok := x.rank(st, f.env[v]); ok {
					r["down "+v.Name()] = i
				}
			}
		}
	}
	for _, id := range st.roots {
		if o := st.heap[id]; o != nil && !o.isArr && o.node == nil {
			for _, k := range sortedCells(o) {
				if i, ok := o.cells[k].(sInt); ok {
					r[fmt.Sprintf("field %d.%s", id, k)] = i
				}
			}
		}
	}
	return r
}

// properPart: now is a contiguous part of was that lacks at least one entry
func (st *sst) properPart(now, was []sitem) bool {
	now, was = st.flat(now), st.flat(was)
	i := findRun(was, now)
	if i < 0 {
		return false
	}
	for j, it := range was {
		if (j < i || j >= i+len(now)) && (it.kind == 'e' || st.full[it.id]) {
			return true
		}
	}
	return false
}

func markKey(depth int, b *ssa.BasicBlock) string { return fmt.Sprintf("m%d.%d", depth, b.Index) }

// progress records what the iteration that ends here has made smaller
func (x *shape) progress(st *sst, b *ssa.BasicBlock) {
	x.dropDead(st)
	m := st.marks[markKey(len(st.frames), b)]
	if m == nil || m.blk != b {
		return
	}
	got := map[string]bool{}
	ms := x.measures(st, b)
	for k, was := range m.seqs {
		if now, ok := ms[k]; ok && st.properPart(now, was) {
			got[k] = true
		}
	}
	for id, c := range m.cur {
		if o := st.heap[id]; o != nil && o.cursor.base == c.base && o.cursor.k > c.k {
			got[fmt.Sprintf("slots of %d", id)] = true
		}
	}
	ints := x.intsOf(st, b)
	for k, was := range m.ints {
		now, ok := ints[k]
		if strings.HasPrefix(k, "down ") {
			if ok && now.base == was.base && now.k < was.k {
				got[k] = true
			}
			continue
		}
		if !ok || now.base != was.base || now.k <= was.k {
			continue
		}
		for _, o := range st.heap {
			if o.isArr && (st.lt[[2]sInt{was, o.length}] || was.base == 0 && x.lowInt(st, o.length) > was.k || o.curSet && o.more && was == o.cursor) {
				got["up "+k] = true
			}
		}
	}
	if os.Getenv("VERIF_DEBUG_SHAPE") != "" {
		fmt.Fprintf(os.Stderr, "PROGRESS b%d %v ints %v was %v\n", b.Index, got, ints, m.ints)
	}
	old, seen := x.term[b]
	if !seen {
		x.term[b] = got
		return
	}
	for k := range old {
		if !got[k] {
			delete(old, k)
		}
	}
}

// mark sets the mark of this loop head and forgets those of loops left
func (x *shape) mark(st *sst, fn *ssa.Function, b *ssa.BasicBlock) {
	for k, m := range st.marks {
		if m.depth > len(st.frames) || m.depth == len(st.frames) && !inLoop(m.blk, b) || m.depth <= len(st.frames) && m.blk.Parent() != st.frames[m.depth-1].fn {
			delete(st.marks, k)
			continue
		}
		// of the loops around this one only what the iterator stands for
		for _, q := range m.names() {
			if q != "rest" {
				delete(m.seqs, q)
			}
		}
	}
	m := &smark{depth: len(st.frames), blk: b, seqs: x.measures(st, b), cur: map[int]sInt{}, ints: x.intsOf(st, b)}
	for id, o := range st.heap {
		if o.isArr && o.curSet {
			m.cur[id] = o.cursor
		}
	}
	st.marks[markKey(len(st.frames), b)] = m
}

// inLoop: block b belongs to the natural loop of head h
func inLoop(h, b *ssa.BasicBlock) bool {
	if b == h {
		return true
	}
	if !h.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(c *ssa.BasicBlock) bool
	back = func(c *ssa.BasicBlock) bool {
		if c == b {
			return true
		}
		if c == h || seen[c] {
			return false
		}
		seen[c] = true
		for _, p := range c.Preds {
			if back(p) {
				return true
			}
		}
		return false
	}
	for _, p := range h.Preds {
		if h.Dominates(p) && back(p) {
			return true
		}
	}
	return false
}

// terminates reports the loops that may go on without making progress
func (x *shape) terminates(add func(construct, bad string)) {
	for b, got := range x.term {
		bad := ""
		if len(got) == 0 {
			bad = "nothing gets smaller on every path around the loop: it may not end"
		}
		add(fmt.Sprintf("loop of %s at %s", fname(b.Parent()), fname(b.Parent())), bad)
	}
}

func posIn(g []sitem, it sitem) int {
	for i := range g {
		if sameItem(g[i], it) {
			return i
		}
	}
	return len(g)
}

// widenHeights forgets exact heights inside summaries
func (x *shape) widenHeights(st *sst) {
	if !x.heights {
		return
	}
	ri := x.reach(st)
	fresh := func(h ht) ht {
		lo := st.hmin(h)
		if lo > 1 {
			lo = 1
		}
		if lo < 0 {
			lo = 0
		}
		return st.hvar(lo)
	}
	for _, t := range ri.trees {
		for _, it := range st.trees[t].items {
			if it.kind != 'n' {
				continue
			}
			o := st.heap[it.id]
			if o.node == nil || o.node.list() {
				continue
			}
			o.h = fresh(o.h)
			for _, l := range o.node.links {
				if a, ok := o.cells[l].(sAbs); ok {
					st.trees[a.id].h = fresh(st.trees[a.id].h)
				}
			}
		}
	}
	// a height that is related to no other one
	ri = x.reach(st)
	users := map[int][]*ht{}
	for _, t := range ri.trees {
		if st.trees[t].heights {
			users[st.trees[t].h.v] = append(users[st.trees[t].h.v], &st.trees[t].h)
		}
	}
	for _, o := range ri.objs {
		if n := st.heap[o].node; n != nil && !n.list() {
			users[st.heap[o].h.v] = append(users[st.heap[o].h.v], &st.heap[o].h)
		}
	}
	for v, us := range users {
		if v == 0 {
			continue
		}
		if len(us) == 1 && v != st.hkeep {
			lo := st.hmin(*us[0])
			if lo < 0 {
				lo = 0
			}
			if lo > 3 {
				lo = 3
			}
			*us[0] = st.hvar(lo)
			continue
		}
		max := 6
		for _, u := range us {
			if 6-u.o > max {
				max = 6 - u.o
			}
		}
		if st.hlo[v] > max {
			st.hlo[v] = max
		}
	}
}

// widenInts: counters
func (x *shape) widenInts(st *sst, b *ssa.BasicBlock, phis []*ssa.Phi) {
	x.widenCells(st)
	if len(st.frames) == 0 {
		return
	}
	f := st.frames[len(st.frames)-1]
	ind := map[*ssa.Phi]bool{}
	for _, p := range phis {
		if _, live := f.env[p]; !live {
			continue
		}
		if bt, ok := p.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		for k, e := range p.Edges {
			if !b.Dominates(b.Preds[k]) {
				continue
			}
			if bo, ok := e.(*ssa.BinOp); ok && (bo.X == p || bo.Y == p) {
				ind[p] = true
			}
		}
	}
	done := map[*ssa.Phi]bool{}
	for _, id := range x.reach(st).objs {
		o := st.heap[id]
		if !o.isArr || !o.curSet {
			continue
		}
		any := false
		for p := range ind {
			if v, ok := f.env[p].(sInt); ok && v.base == o.cursor.base {
				any = true
			}
		}
		if !any {
			continue
		}
		nb := st.id()
		for p := range ind {
			if v, ok := f.env[p].(sInt); ok && v.base == o.cursor.base {
				f.env[p] = sInt{nb, v.k - o.cursor.k}
				done[p] = true
			}
		}
		o.cursor = sInt{nb, 0}
	}
	for p := range ind {
		if v, ok := f.env[p].(sInt); ok && !done[p] && !x.isStack(st, v.base) {
			lo := x.lowInt(st, v)
			nb := st.id()
			if lo >= 0 {
				st.lo[nb] = 0
			}
			f.env[p] = sInt{nb, 0}
		}
	}
}

// widenCells: positions kept in objects. Those next to the position of an
// enumeration are kept relative to it; others are forgotten when they go on
// changing
func (x *shape) widenCells(st *sst) {
	ri := x.reach(st)
	var cells []struct {
		o *sobj
		k string
	}
	for _, id := range ri.objs {
		o := st.heap[id]
		if o.isArr || o.node != nil || x.owner(o.typ) {
			continue
		}
		for _, k := range sortedCells(o) {
			if _, ok := o.cells[k].(sInt); ok {
				cells = append(cells, struct {
					o *sobj
					k string
				}{o, k})
			}
		}
	}
	tied := map[int]bool{}
	for _, id := range ri.objs {
		a := st.heap[id]
		if !a.isArr || !a.curSet {
			continue
		}
		any := false
		for _, c := range cells {
			if v := c.o.cells[c.k].(sInt); v.base == a.cursor.base && v.k-a.cursor.k <= 1 && a.cursor.k-v.k <= 1 {
				any = true
			}
		}
		if !any {
			continue
		}
		nb, cb, ck := st.id(), a.cursor.base, a.cursor.k
		for _, c := range cells {
			if v := c.o.cells[c.k].(sInt); v.base == cb && v.k-ck <= 1 && ck-v.k <= 1 {
				c.o.cells[c.k] = sInt{nb, v.k - ck}
			}
		}
		if cb != 0 {
			st.subst(func(v sv) (sv, bool) {
				if i, ok := v.(sInt); ok && i.base == cb {
					return sInt{nb, i.k - ck}, true
				}
				return nil, false
			})
		}
		a.cursor = sInt{nb, 0}
		tied[nb] = true
	}
	if !x.widen || x.before == nil {
		return
	}
	for _, c := range cells {
		changed := true
		for id, o := range st.heap {
			if o == c.o {
				was, ok := x.before[fmt.Sprintf("field %d.%s", id, c.k)]
				changed = !ok || was != o.cells[c.k].(sInt)
			}
		}
		if v := c.o.cells[c.k].(sInt); changed && !tied[v.base] && !x.isStack(st, v.base) {
			lo := x.lowInt(st, v)
			nb := st.id()
			if lo >= 0 {
				st.lo[nb] = 0
			}
			c.o.cells[c.k] = sInt{nb, 0}
		}
	}
}

// gc forgets what is out of reach
func (x *shape) gc(st *sst) {
	ri := x.reach(st)
	keepExp := map[int][]sitem{}
	for _, e := range st.edits {
		if e.to != e.from {
			keepExp[e.to] = st.flat([]sitem{segItem(e.to)})
			if len(keepExp[e.to]) == 1 && keepExp[e.to][0].kind == 's' && keepExp[e.to][0].id == e.to {
				delete(keepExp, e.to)
			}
		}
	}
	st.ghost = st.flat(st.ghost)
	st.moved = st.flat(st.moved)
	for _, t := range ri.trees {
		st.trees[t].items = st.flatSegs(st.trees[t].items)
	}
	for _, m := range st.marks {
		for k, v := range m.seqs {
			m.seqs[k] = st.flat(v)
		}
	}
	st.exp = keepExp
	for id := range st.heap {
		if !ri.has[id] {
			delete(st.heap, id)
		}
	}
	for id := range st.trees {
		if !ri.hasT[id] {
			delete(st.trees, id)
		}
	}
}

// ---------------------------------------------------------------- canonical form

type canonizer struct {
	st   *sst
	num  map[int]int
	objs []int
	seen map[int]bool
	sb   strings.Builder
	hoff map[int]int
}

func (c *canonizer) n(id int) string {
	if id == 0 {
		return "0"
	}
	k, ok := c.num[id]
	if !ok {
		k = len(c.num) + 1
		c.num[id] = k
	}
	return fmt.Sprint(k)
}

func (c *canonizer) items(its []sitem) string {
	var p []string
	for _, it := range its {
		switch it.kind {
		case 's':
			p = append(p, "s"+c.n(it.id))
		case 'n':
			p = append(p, "n"+c.n(it.id))
			c.obj(it.id)
		default:
			p = append(p, "e("+c.v(it.k)+","+c.v(it.v)+")")
		}
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (c *canonizer) obj(id int) {
	if !c.seen[id] {
		c.seen[id] = true
		c.objs = append(c.objs, id)
	}
}

func (c *canonizer) ht(h ht) string {
	if h.v == 0 {
		return fmt.Sprint(h.o)
	}
	if _, ok := c.hoff[h.v]; !ok {
		c.hoff[h.v] = h.o
	}
	return fmt.Sprintf("h%s%+d(>=%d)", c.n(h.v), h.o-c.hoff[h.v], c.st.hlo[h.v]+c.hoff[h.v])
}

func (c *canonizer) v(v sv) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case sInt:
		if v.base == 0 {
			return fmt.Sprint(v.k)
		}
		s := "i" + c.n(v.base)
		if l, ok := c.st.lo[v.base]; ok {
			s += fmt.Sprintf(">=%d", l)
		}
		if h, ok := c.st.hi[v.base]; ok {
			s += fmt.Sprintf("<=%d", h)
		}
		return fmt.Sprintf("%s%+d", s, v.k)
	case sBool:
		return fmt.Sprint(bool(v))
	case sUnk:
		return "u" + c.n(v.id)
	case sPtr:
		c.obj(v.obj)
		return "p" + c.n(v.obj) + "." + v.path
	case sNil:
		return "nil"
	case sAbs:
		t := c.st.trees[v.id]
		s := "a" + c.n(v.id) + c.items(t.items)
		if t.frozen {
			s += "*"
		}
		if t.heights {
			s += c.ht(t.h)
			if t.nonzero {
				s += "!"
			}
		}
		return s
	case sTok:
		return fmt.Sprintf("t%s/%d", c.n(v.id), c.st.nilk[v.id])
	case sIface:
		return "i(" + c.v(v.v) + ")"
	case sTup:
		s := "("
		for _, w := range v {
			s += c.v(w) + ","
		}
		return s + ")"
	case sAgg:
		var ks []string
		for k := range v.cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + c.v(v.cells[k]) + ","
		}
		return s + "}"
	case sStk:
		s := "stk" + c.n(v.base) + "["
		for _, w := range v.items {
			s += c.v(w) + ","
		}
		return s + "]"
	case sElem:
		return "el" + c.v(v.s) + fmt.Sprint(v.i)
	case sFn:
		s := "f" + v.fn.String()
		for _, w := range v.bind {
			s += c.v(w) + ","
		}
		return s
	case sArr:
		c.obj(v.obj)
		return "arr" + c.n(v.obj)
	case sHashV:
		return "hash" + c.n(v.tok) + v.by
	case sSlot:
		return "slot" + c.n(v.tok) + "/" + c.n(v.arr) + v.by
	}
	if v, ok := v.(interface{ canon(*canonizer) string }); ok {
		return v.canon(c)
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (x *shape) canon(st *sst) string {
	c := &canonizer{st: st, num: map[int]int{}, seen: map[int]bool{}, hoff: map[int]int{}}
	for _, s := range st.spec {
		fmt.Fprintf(&c.sb, "spec %s\n", c.v(sTok{s}))
	}
	for _, id := range st.roots {
		fmt.Fprintf(&c.sb, "root %s\n", c.n(id))
		c.obj(id)
	}
	for _, f := range st.frames {
		fmt.Fprintf(&c.sb, "%s b%d.%d", fname(f.fn), f.blk.Index, f.idx)
		for _, v := range sortedEnv(f) {
			fmt.Fprintf(&c.sb, " %s=%s", v.Name(), c.v(f.env[v]))
		}
		c.sb.WriteString("\n")
	}
	fmt.Fprintf(&c.sb, "ghost %s\n", c.items(st.flat(st.ghost)))
	fmt.Fprintf(&c.sb, "moved %s into %s\n", c.items(st.flat(st.moved)), c.n(st.into))
	for _, e := range st.edits {
		fmt.Fprintf(&c.sb, "edit %s %s>%s\n", e.kind, c.n(e.from), c.items(st.flat([]sitem{segItem(e.to)})))
	}
	for i := 0; i < len(c.objs); i++ {
		o := st.heap[c.objs[i]]
		if o == nil {
			continue
		}
		fmt.Fprintf(&c.sb, "obj %s %s pristine=%v/%v", c.n(c.objs[i]), o.typ, o.pristine, o.frozen)
		if o.node != nil && x.heights {
			c.sb.WriteString(" h=" + c.ht(o.h))
		}
		if o.isArr {
			fmt.Fprintf(&c.sb, " len=%s cur=%s/%v rest=%s more=%v fin=%v orig=", c.v(o.length), c.v(o.cursor), o.curSet, c.n(o.rest), o.more, o.fin)
			if o.snapOK {
				c.sb.WriteString("snap=" + c.items(st.flat(o.snap)) + " ")
			}
			var ks []string
			for k := range o.orig {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(&c.sb, "%s:%s,", c.slotKey(k), c.n(o.orig[k]))
			}
		}
		for _, k := range sortedCells(o) {
			fmt.Fprintf(&c.sb, " %s=%s", c.slotKey(k), c.v(o.cells[k]))
		}
		c.sb.WriteString("\n")
	}
	var fs []string
	for k, m := range st.rel {
		a, ok1 := c.num[k[0]]
		b, ok2 := c.num[k[1]]
		if ok1 && ok2 && m != 7 {
			if a > b {
				a, b, m = b, a, flip(m)
			}
			fs = append(fs, fmt.Sprintf("r%d,%d=%d", a, b, m))
		}
	}
	sort.Strings(fs)
	c.sb.WriteString(strings.Join(fs, " "))
	var mks []string
	for k := range st.marks {
		mks = append(mks, k)
	}
	sort.Strings(mks)
	for _, k := range mks {
		for _, q := range st.marks[k].names() {
			qn := q
			if strings.HasPrefix(q, "field ") {
				id := 0
				fmt.Sscanf(q, "field %d", &id)
				qn = "field " + c.n(id) + q[strings.Index(q, "."):]
			}
			fmt.Fprintf(&c.sb, "\nmark %s %s %s", k, qn, c.items(st.flat(st.marks[k].seqs[q])))
		}
	}
	var lts []string
	for k, v := range st.lt {
		_, ok1 := c.num[k[0].base]
		_, ok2 := c.num[k[1].base]
		if ok1 && ok2 {
			lts = append(lts, fmt.Sprintf("%s+%d<%s+%d=%v", c.n(k[0].base), k[0].k, c.n(k[1].base), k[1].k, v))
		}
	}
	sort.Strings(lts)
	fmt.Fprintf(&c.sb, "\nlt %v", lts)
	var nf []int
	for id := range st.full {
		if k, ok := c.num[id]; ok {
			nf = append(nf, k)
		}
	}
	sort.Ints(nf)
	fmt.Fprintf(&c.sb, "\nfull %v", nf)
	c.sb.WriteString("\n" + strings.Join(st.notes, ";"))
	return c.sb.String()
}

func (c *canonizer) slotKey(k string) string {
	if strings.HasPrefix(k, "@") {
		id := 0
		fmt.Sscan(k[1:], &id)
		return "@" + c.n(id)
	}
	if strings.HasPrefix(k, "#") {
		var a, b int
		fmt.Sscanf(k, "#%d+%d", &a, &b)
		return fmt.Sprintf("#%s+%d", c.n(a), b)
	}
	return k
}

// ---------------------------------------------------------------- recursion

// recursiveIn finds the functions reachable from entry that can call
// themselves; of mutually recursive ones the first met
func (r *Repo) recursiveIn(entry *ssa.Function) []*ssa.Function {
	callees := func(fn *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && r.owns(g) {
						out = append(out, g)
					}
				}
			}
		}
		return out
	}
	var found []*ssa.Function
	isFound := map[*ssa.Function]bool{}
	state := map[*ssa.Function]int{}
	var dfs func(fn *ssa.Function)
	dfs = func(fn *ssa.Function) {
		state[fn] = 1
		for _, g := range callees(fn) {
			switch state[g] {
			case 0:
				dfs(g)
			case 1:
				if !isFound[g] {
					isFound[g] = true
					found = append(found, g)
				}
			}
		}
		state[fn] = 2
	}
	dfs(entry)
	return found
}

// treeSig maps the parameters and results of a recursive tree function
type treeSig struct {
	fn               *ssa.Function
	root, key, value int // parameters
	res, old, done   int // results; -1: none
}

func (x *shape) sigOf(fn *ssa.Function, n *nodeType) *treeSig {
	s := &treeSig{fn: fn, root: -1, key: -1, value: -1, res: -1, old: -1, done: -1}
	isNode := func(t types.Type) bool { return types.Identical(t, types.NewPointer(n.named)) }
	for i, p := range fn.Params {
		switch {
		case isNode(p.Type()) && s.root < 0:
			s.root = i
		case types.Identical(p.Type(), n.keyT) && s.key < 0:
			s.key = i
		case types.Identical(p.Type(), n.valT) && s.value < 0:
			s.value = i
		default:
			panic(undecided{"unexpected parameter of " + fname(fn)})
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		b, isB := t.Underlying().(*types.Basic)
		switch {
		case isNode(t) && s.res < 0:
			s.res = i
		case isNode(t) && s.old < 0:
			s.old = i
		case isB && b.Kind() == types.Bool && s.done < 0:
			s.done = i
		default:
			panic(undecided{"unexpected result of " + fname(fn)})
		}
	}
	if s.root < 0 || s.key < 0 || s.res < 0 {
		panic(undecided{fname(fn) + " does not look like a tree function"})
	}
	return s
}

func (s *treeSig) results(root, old sv, done bool) []sv {
	r := make([]sv, s.fn.Signature.Results().Len())
	r[s.res] = root
	if s.old >= 0 {
		r[s.old] = old
	}
	if s.done >= 0 {
		r[s.done] = sBool(done)
	}
	return r
}

// consume takes the subtree a contract is applied to
func (x *shape) consume(st *sst, v sv) (items []sitem, h ht) {
	if p, ok := v.(sPtr); ok && p.path == "" {
		h = st.heap[p.obj].h
	}
	if a, ok := v.(sAbs); ok {
		h = st.trees[a.id].h
		// nodes inside that variables pointed at
		var its []sitem
		for _, it := range st.flatSegs(st.trees[a.id].items) {
			if it.kind == 'n' {
				its = append(its, x.collapse(st, sPtr{it.id, ""}, func(int) bool { return false })...)
			} else {
				its = append(its, it)
			}
		}
		items = st.flatSegs(its)
	} else {
		items = st.flatSegs(x.collapse(st, v, func(int) bool { return false }))
	}
	for _, it := range items {
		if it.kind == 'n' {
			panic(undecided{"recursion into a subtree that was modified"})
		}
	}
	return items, h
}

func (x *shape) oldNode(st *sst, n *nodeType, k, v sv) sv {
	id := st.newObj(n.named)
	o := st.heap[id]
	o.node, o.alloc = n, true
	o.cells[n.key], o.cells[n.val] = k, v
	return sPtr{id, ""}
}

// contract returns the hook that stands for a recursive call
func (x *shape) contract(op string, s *treeSig, n *nodeType, neg bool) func(*shape, *sst, []sv) []*sst {
	done := func(unchanged bool) bool { return unchanged != neg }
	return func(x *shape, st *sst, args []sv) []*sst {
		root := args[s.root]
		kt, ok := args[s.key].(sTok)
		if !ok {
			panic(undecided{"key of a recursive call"})
		}
		if x.tokNil(st, kt.id) {
			panic(undecided{"recursive call with a nil key"})
		}
		var outs []*sst
		emit := func(c *sst, r []sv) {
			x.setRes(c, r)
			if !c.dead {
				outs = append(outs, c)
			}
		}
		mk := func(c *sst, h ht, seg int) sAbs {
			a := x.newTree(c, n, h)
			if seg != 0 {
				c.trees[a.id].items = []sitem{segItem(seg)}
			}
			return a
		}
		if _, isNil := root.(sNil); isNil {
			x.needNil[s.fn] = true
			if x.body && len(st.flat(st.ghost)) == 0 {
				x.recur = append(x.recur, s.fn)
			}
			switch op {
			case "put":
				c := st.clone()
				id := c.newObj(n.named)
				o := c.heap[id]
				o.node, o.alloc, o.pristine = n, true, false
				o.h = ht{0, 1}
				o.cells[n.key], o.cells[n.val] = kt, args[s.value]
				emit(c, s.results(sPtr{id, ""}, sNil{}, done(false)))
			case "remove":
				emit(st.clone(), s.results(sNil{}, sNil{}, done(true)))
			case "get":
				emit(st.clone(), s.results(sNil{}, sNil{}, false))
			}
			return outs
		}
		base := st.clone()
		items, h := x.consume(base, root)
		if x.body {
			outside := false
			for _, it := range st.flat(st.ghost) {
				if (it.kind == 'e' || st.full[it.id]) && posIn(items, it) == len(items) {
					outside = true
				}
			}
			if !outside {
				x.recur = append(x.recur, s.fn)
			}
		}
		if x.heights && base.hmin(h) <= 0 {
			x.needNil[s.fn] = true
		}
		// a key that is known to be in there
		if op == "remove" {
			for i, it := range items {
				if it.kind == 'e' && x.relTok(base, tokID(it.k), kt.id) == rEQ {
					for _, same := range []bool{true, false} {
						c := base.clone()
						rest := append(append([]sitem(nil), items[:i]...), items[i+1:]...)
						nh := h
						if same {
							c.atLeast(h, 2)
						} else {
							c.atLeast(h, 1)
							nh.o--
						}
						old := x.oldNode(c, n, it.k, it.v)
						segs := true
						for _, r := range rest {
							if r.kind != 's' {
								segs = false
							}
						}
						if !segs {
							panic(undecided{"remainder of a removal"})
						}
						t := mk(c, nh, 0)
						seg := c.trees[t.id].items[0].id
						if len(rest) == 0 {
							c.exp[seg] = nil
						} else {
							x.factsOf(c, rest, seg)
							for j, r := range rest {
								if j == 0 {
									c.exp[r.id] = []sitem{segItem(seg)}
								} else {
									c.exp[r.id] = nil
								}
							}
						}
						emit(c, s.results(t, old, done(same)))
					}
					return outs
				}
			}
		}
		if len(items) == 0 {
			panic(undecided{"recursion into an empty summary"})
		}
		X := x.coalesce(base, items)
		found := func(kind string, c *sst, nh ht, unchanged, nonzero bool) {
			k0, v0 := c.tok(), c.tok()
			c.nilk[k0.id] = 2
			c.learn(k0.id, kt.id, rEQ)
			if c.fact(X, kt.id)&rEQ == 0 {
				return
			}
			t := mk(c, nh, 0)
			c.edits = append(c.edits, sedit{X, c.trees[t.id].items[0].id, kind, k0, v0})
			emit(c, s.results(t, x.oldNode(c, n, k0, v0), done(unchanged)))
		}
		switch op {
		case "put":
			c := base.clone()
			c.atLeast(h, 1)
			found("rep", c, h, true, false)
			for _, grown := range []bool{false, true} {
				c := base.clone()
				nh := h
				if grown {
					nh.o++
				} else {
					c.atLeast(h, 1)
				}
				t := mk(c, nh, 0)
				c.trees[t.id].nonzero = grown
				c.edits = append(c.edits, sedit{from: X, to: c.trees[t.id].items[0].id, kind: "ins"})
				emit(c, s.results(t, sNil{}, done(!grown)))
			}
		case "remove":
			c := base.clone()
			t := mk(c, h, 0)
			c.edits = append(c.edits, sedit{from: X, to: c.trees[t.id].items[0].id, kind: "same"})
			emit(c, s.results(t, sNil{}, done(true)))
			c = base.clone()
			c.atLeast(h, 2)
			found("del", c, h, true, false)
			c = base.clone()
			c.atLeast(h, 1)
			nh := h
			nh.o--
			found("del", c, nh, false, false)
		case "get":
			// the subtree stays where it is
			if r, isP := root.(sPtr); isP {
				t := mk(base, h, X)
				base.subst(func(v sv) (sv, bool) {
					if v == sv(r) {
						return t, true
					}
					return nil, false
				})
				root = t
			} else {
				base.trees[root.(sAbs).id].items = []sitem{segItem(X)}
			}
			c := base.clone()
			c.edits = append(c.edits, sedit{from: X, to: X, kind: "same"})
			emit(c, s.results(sNil{}, sNil{}, false))
			c = base.clone()
			p := c.newNode(x, n, x.heights)
			o := c.heap[p]
			A, B := c.id(), c.id()
			c.exp[X] = append(append([]sitem{segItem(A)}, c.seqOf(sPtr{p, ""})...), segItem(B))
			c.inherit(X)
			c.learn(tokID(o.cells[n.key]), kt.id, rEQ)
			if x.heights {
				o.h = c.hvar(1)
				for _, l := range n.links {
					c.trees[o.cells[l].(sAbs).id].h = c.hvar(0)
				}
				o.cells[n.bal] = sUnk{c.id()}
			}
			hole := []sitem{segItem(A), {kind: 'n', id: p}, segItem(B)}
			c.trees[root.(sAbs).id].items = hole
			emit(c, s.results(sPtr{p, ""}, sNil{}, false))
		}
		return outs
	}
}

// ---------------------------------------------------------------- results

// heightOf recomputes the height of a tree and checks its balance
func (x *shape) heightOf(st *sst, v sv) (ht, string) {
	switch v := v.(type) {
	case sNil:
		return ht{}, ""
	case sAbs:
		for _, it := range st.trees[v.id].items {
			if it.kind == 'n' && !st.heap[it.id].pristine {
				return ht{}, "a node inside an unexplored part of the tree was modified"
			}
		}
		return st.hval(st.trees[v.id].h), ""
	case sPtr:
		o := st.heap[v.obj]
		n := o.node
		hl, e := x.heightOf(st, st.cell(o, n.links[0]))
		if e != "" {
			return ht{}, e
		}
		hr, e := x.heightOf(st, st.cell(o, n.links[1]))
		if e != "" {
			return ht{}, e
		}
		if hl.v != hr.v {
			return ht{}, "the heights of two subtrees that become siblings are unrelated"
		}
		d := hr.o - hl.o
		if d < -1 || d > 1 {
			return ht{}, fmt.Sprintf("a node's subtrees differ in height by %d", d)
		}
		if b, ok := st.cell(o, n.bal).(sInt); !ok || b != (sInt{0, int64(d)}) {
			return ht{}, fmt.Sprintf("a node records balance %v where its subtrees' heights differ by %d", st.cell(o, n.bal), d)
		}
		m := hl
		if hr.o > hl.o {
			m = hr
		}
		m.o++
		return m, ""
	}
	return ht{}, fmt.Sprintf("not a tree: %T", v)
}

type contentRes struct {
	bad   string // what is wrong with the content
	order string // what is wrong with the order
	found bool
	k, v  sv // the entry that was there
}

// content compares what the tree holds with what it held, under an operation
func (x *shape) content(st *sst, root sv, op string, k int, val sv) (res contentRes) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecided); ok {
				res.bad, res.order = u.msg, u.msg
				return
			}
			panic(e)
		}
	}()
	x.saturate(st, []int{k})
	if st.dead {
		return
	}
	base := st.flat(st.ghost)
	got := st.seqOf(root)
	rel := x.rels(st, base, k)
	side := func(i int) string { // everything left of i is less, everything right greater
		for j := range base {
			if j < i && rel[j]&^rLT != 0 {
				return "the key was looked for right of an entry not known to be less"
			}
			if j > i && rel[j]&^rGT != 0 {
				return "the key was looked for left of an entry not known to be greater"
			}
		}
		return ""
	}
	var want []sitem
	var eds []sedit
	for _, e := range st.edits {
		eds = append(eds, e)
	}
	switch {
	case len(eds) > 1:
		return contentRes{bad: "the operation recursed twice", order: "the operation recursed twice"}
	case len(eds) == 1:
		e := eds[0]
		i := posIn(base, segItem(e.from))
		if i == len(base) {
			return contentRes{bad: "recursion outside of the tree", order: "recursion outside of the tree"}
		}
		res.bad = side(i)
		if res.bad != "" {
			res.order = res.bad
		}
		want = append(want, base[:i]...)
		want = append(want, st.flat([]sitem{segItem(e.to)})...)
		want = append(want, base[i+1:]...)
		res.found = e.kind == "rep" || e.kind == "del"
		res.k, res.v = e.k, e.v
	default:
		at := -1
		for i, it := range base {
			if it.kind == 'e' && rel[i] == rEQ {
				at = i
			}
		}
		if at >= 0 {
			res.found, res.k, res.v = true, base[at].k, base[at].v
			want = append(want, base[:at]...)
			switch op {
			case "put":
				want = append(want, sitem{kind: 'e', k: sTok{k}, v: val})
			case "get":
				want = append(want, base[at])
			}
			want = append(want, base[at+1:]...)
		} else {
			g := 0
			for g < len(base) && rel[g]&^rLT == 0 {
				g++
			}
			for j := g; j < len(base); j++ {
				if rel[j]&^rGT != 0 {
					s := "entries were not compared that may equal the key, or lie on its other side"
					return contentRes{bad: s, order: s}
				}
			}
			want = append(want, base[:g]...)
			if op == "put" {
				want = append(want, sitem{kind: 'e', k: sTok{k}, v: val})
			}
			want = append(want, base[g:]...)
		}
	}
	sameKey := func(a, b sitem) bool {
		if a.kind != b.kind {
			return false
		}
		if a.kind == 's' {
			return a.id == b.id
		}
		ka, kb := tokID(a.k), tokID(b.k)
		return ka != 0 && kb != 0 && st.fact(ka, kb) == rEQ
	}
	// order: positions must ascend
	last := -1
	for _, it := range got {
		p := -1
		for i, w := range want {
			if sameKey(it, w) {
				p = i
			}
		}
		if p < 0 { // an entry the operation should have removed is in order where it was
			res.order = orFirst(res.order, "")
			for i, w := range base {
				if sameKey(it, w) {
					p = i
				}
			}
			if p < 0 {
				res.order = orFirst(res.order, "the tree holds something that was not in it")
			}
			continue
		}
		if p <= last {
			res.order = orFirst(res.order, "the entries are out of order")
		}
		last = p
	}
	if res.bad == "" {
		switch {
		case len(got) != len(want):
			res.bad = fmt.Sprintf("the tree holds %s where it should hold %s", showItems(got), showItems(want))
		default:
			for i := range got {
				if !sameKey(got[i], want[i]) || got[i].kind == 'e' && got[i].v != want[i].v {
					res.bad = fmt.Sprintf("the tree holds %s where it should hold %s", showItems(got), showItems(want))
					break
				}
			}
		}
	}
	return res
}

func orFirst(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func showItems(its []sitem) string {
	var p []string
	for _, it := range its {
		switch it.kind {
		case 's':
			p = append(p, fmt.Sprintf("S%d", it.id))
		case 'e':
			p = append(p, fmt.Sprintf("(%v->%v)", showSv(it.k), showSv(it.v)))
		}
	}
	return "[" + strings.Join(p, " ") + "]"
}

func showSv(v sv) string {
	if t, ok := v.(sTok); ok {
		return fmt.Sprintf("t%d", t.id)
	}
	return fmt.Sprintf("%v", v)
}
