package main

// R01: operations come to an end. For every loop of the repository: is there
// a counter that moves towards its bound and cannot wrap round before it, a
// number that shrinks to where the loop is left; and is there a way round the
// loop that changes nothing of what decides whether it goes round again? The
// same for functions that call themselves. And locks that are not released.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugEnds = os.Getenv("VERIF_DEBUG") != ""

type ender struct {
	vals   []*ssa.Function
	c      *Check
	sh     *sharing
	chance map[*ssa.Function]map[string]string
	mods   map[*ssa.Function]map[string]uint64 // cells written, but of objects it makes itself: bits for those in what a parameter points to, the last one for any other
	reads  map[*ssa.Function]map[string]bool
	impl   map[*types.Func][]*ssa.Function
}

// own: the address is in memory the function itself makes
func madeHere(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch a := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.FieldAddr:
		return madeHere(a.X, depth+1)
	case *ssa.IndexAddr:
		return madeHere(a.X, depth+1)
	case *ssa.Slice:
		return madeHere(a.X, depth+1)
	case *ssa.Convert:
		return madeHere(a.X, depth+1)
	case *ssa.Call:
		f := a.Call.StaticCallee()
		return f != nil && makesNew(f, depth+1)
	case *ssa.Extract:
		if cl, ok := a.Tuple.(*ssa.Call); ok && a.Index == 0 {
			f := cl.Call.StaticCallee()
			return f != nil && makesNew(f, depth+1)
		}
	}
	return false
}

// makesNew: the (first) result is always an object made by the function
func makesNew(f *ssa.Function, depth int) bool {
	if len(f.Blocks) == 0 || depth > 8 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		if k, ok := r.Results[0].(*ssa.Const); ok && k.Value == nil {
			continue
		}
		n++
		if !madeHere(r.Results[0], depth+1) {
			return false
		}
	}
	return n > 0
}

func newEnder(c *Check) *ender {
	e := &ender{c: c, impl: map[*types.Func][]*ssa.Function{}, sh: &sharing{c: c, in: map[*ssa.Function]bool{}}, chance: c.chances(), mods: map[*ssa.Function]map[string]uint64{}, reads: map[*ssa.Function]map[string]bool{}}
	fs := c.r.everyFunc()
	for _, f := range fs {
		e.sh.in[f] = true
		e.mods[f], e.reads[f] = map[string]uint64{}, map[string]bool{}
	}
	for more := true; more; {
		more = false
		for _, f := range fs {
			add := func(m, k map[string]bool) {
				for x := range k {
					if !m[x] {
						m[x], more = true, true
					}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					m, r := e.effects(in, false)
					for k := range m {
						if root := e.root(f, in, k); root != 0 && e.mods[f][k]|root != e.mods[f][k] {
							e.mods[f][k] |= root
							more = true
						}
					}
					add(e.reads[f], r)
				}
			}
		}
	}
	if os.Getenv("VERIF_DEBUG_MODS") != "" {
		for _, f := range fs {
			if strings.Contains(fname(f), os.Getenv("VERIF_DEBUG_MODS")) {
				fmt.Println("MODS", fname(f), e.mods[f], "READS", e.reads[f], "CHANCE", e.chance[f])
			}
		}
	}
	return e
}

const elsewhere = 1 << 63

func whoseCell(f *ssa.Function, v ssa.Value) uint64 {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
			continue
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
				v = a.X
				continue
			}
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == a && i < 60 {
					return 1 << i
				}
			}
		}
		if madeHere(v, 0) {
			return 0
		}
		return elsewhere
	}
}

// root: whose cell it is that the instruction writes
func (e *ender) root(f *ssa.Function, in ssa.Instruction, k string) uint64 {
	switch v := in.(type) {
	case *ssa.Store:
		return whoseCell(f, v.Addr)
	case ssa.CallInstruction:
		cm := v.Common()
		g := cm.StaticCallee()
		if g == nil || e.mods[g] == nil {
			break
		}
		m := e.mods[g][k]
		out := m & elsewhere
		for i, a := range cm.Args {
			if i < 60 && m&(1<<i) != 0 {
				out |= whoseCell(f, a)
			}
		}
		return out
	}
	return elsewhere
}

// values: the functions used other than by calling them
func (e *ender) values() []*ssa.Function {
	if e.vals != nil {
		return e.vals
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range e.c.r.everyFunc() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var called ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					called = ci.Common().Value
				}
				for i, op := range in.Operands(nil) {
					if *op == called && i == 0 {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						e.vals = append(e.vals, g)
					}
				}
			}
		}
	}
	sort.Slice(e.vals, func(i, j int) bool { return e.vals[i].String() < e.vals[j].String() })
	return e.vals
}

// callees of a call, by the types that implement the interface if none is
// known to reach it
func (e *ender) callee(ci ssa.CallInstruction) (own []*ssa.Function, ext *ssa.Function, name, pkg string) {
	own, ext, name, pkg = e.sh.callee(ci)
	cm := ci.Common()
	if len(own) > 0 {
		return
	}
	if !cm.IsInvoke() {
		if cm.StaticCallee() != nil {
			return
		}
		// methods bound to their receivers
		fs := e.c.r.callees(ci)
		if len(fs) == 0 {
			// or any function of the type that is used as a value
			for _, g := range e.values() {
				if types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), cm.Signature()) {
					fs = append(fs, g)
				}
			}
		}
		for _, g := range fs {
			var to *ssa.Function
			if e.sh.in[g] {
				to = g
			} else if g.Synthetic != "" {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if cl, ok := in.(*ssa.Call); ok && cl.Call.StaticCallee() != nil {
							to = cl.Call.StaticCallee()
						}
					}
				}
			}
			if to == nil || !e.sh.in[to] {
				return nil, ext, name, pkg
			}
			own = append(own, to)
		}
		return
	}
	if o, ok := e.impl[cm.Method]; ok {
		return o, ext, name, pkg
	}
	it, _ := cm.Value.Type().Underlying().(*types.Interface)
	seen := map[*ssa.Function]bool{}
	for f := range e.sh.in {
		r := f.Signature.Recv()
		if r == nil || f.Name() != name || it == nil || seen[f] || !types.Implements(r.Type(), it) {
			continue
		}
		seen[f] = true
		own = append(own, f)
	}
	sort.Slice(own, func(i, j int) bool { return own[i].String() < own[j].String() })
	e.impl[cm.Method] = own
	return
}

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func placeOf(addr ssa.Value) string {
	if c := cellOf(addr); c != "" {
		return c
	}
	// a variable that only this function sees
	if a, ok := addr.(*ssa.Alloc); ok && !a.Heap {
		return "variable " + a.Name() + " " + a.Parent().String()
	}
	return "cells of " + addr.Type().String()
}

// effects: the cells an instruction writes and reads ("*": any). Inside a
// loop the function's own objects count as well.
func (e *ender) effects(in ssa.Instruction, inner bool) (mods, reads map[string]bool) {
	switch v := in.(type) {
	case *ssa.Store:
		if !inner && madeHere(v.Addr, 0) {
			return nil, nil
		}
		if g, ok := v.Addr.(*ssa.Global); ok {
			return set("global " + g.String()), nil
		}
		return set(placeOfG(v.Addr)), nil
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if !inner && madeHere(v.X, 0) {
				return nil, nil
			}
			return nil, set(placeOfG(v.X))
		}
		if v.Op == token.ARROW {
			return set("*"), set("*")
		}
	case *ssa.MapUpdate:
		return set("map " + v.Map.Type().String()), nil
	case *ssa.Lookup:
		return nil, set("map " + v.X.Type().String())
	case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Next:
		return set("*"), set("*")
	case ssa.CallInstruction:
		cm := v.Common()
		if bi, ok := cm.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append", "copy":
				if !inner && bi.Name() == "append" && madeHere(cm.Args[0], 0) {
					return nil, nil
				}
				return set("elements of " + cm.Args[0].Type().Underlying().String()), set("elements of " + cm.Args[0].Type().Underlying().String())
			case "delete", "clear":
				return set("map "+cm.Args[0].Type().String(), "*"), nil
			case "recover":
				return set("*"), set("*")
			}
			return nil, nil
		}
		own, ext, name, pkg := e.callee(v)
		m, r := map[string]bool{}, map[string]bool{}
		looks := cm.IsInvoke() && observer(own, name)
		for _, g := range own {
			for k, by := range e.mods[g] {
				if looks {
					break
				}
				// what it changes in an object made here
				if by&elsewhere == 0 && cm.StaticCallee() == g && !inner {
					mine := true
					for i, a := range cm.Args {
						mine = mine && (i >= 60 || by&(1<<i) == 0 || madeHere(a, 0))
					}
					if mine {
						continue
					}
				}
				m[k] = true
			}
			for k := range e.reads[g] {
				r[k] = true
			}
			if len(e.chance[g]) > 0 {
				r["*"] = true
			}
		}
		if len(own) > 0 {
			return m, r
		}
		if chance(in) != "" {
			return set("*"), set("*")
		}
		if ext == nil && pkg == "" {
			if cm.IsInvoke() && name == "Error" {
				return nil, nil
			}
			return set("*"), set("*")
		}
		var sig *types.Signature
		recv := cm.IsInvoke()
		if ext != nil {
			sig = ext.Signature
			recv = recv || sig.Recv() != nil
		} else {
			sig = cm.Signature()
		}
		switch pkg {
		case "fmt", "errors", "bytes", "strings", "strconv", "math", "math/bits", "unicode", "unicode/utf8", "encoding/binary", "sort", "math/big", "time", "hash/crc32", "crypto/sha256", "crypto/sha512", "crypto/elliptic", "crypto/subtle", "encoding/hex", "path/filepath", "reflect":
			if pkg == "fmt" && (strings.HasPrefix(name, "Fscan") || strings.HasPrefix(name, "Sscan") || strings.HasPrefix(name, "Fprint")) {
				return set("*"), set("*")
			}
			for _, i := range mutated(ext, name, pkg, sig, recv) {
				if !inner {
					if as := callArgs(cm); i < len(as) && madeHere(as[i], 0) {
						continue
					}
				}
				m["*"] = true
				if as := callArgs(cm); i < len(as) {
					if k := outCell(as[i]); k != "" {
						delete(m, "*")
						m[k] = true
					}
				}
			}
			for _, a := range callArgs(cm) {
				if k := outCell(a); k != "" {
					r[k] = true
				}
			}
			return m, r
		}
		return set("*"), set("*")
	}
	return nil, nil
}

// observer: asking an iterator of a collection whether there is more, or what
// comes next, leaves it standing for the same sequence (decided by M03 and M05)
func observer(own []*ssa.Function, name string) bool {
	if name != "HasNext" && name != "Peek" {
		return false
	}
	for _, g := range own {
		if !strings.HasPrefix(fname(g), "collection.") {
			return false
		}
	}
	return len(own) > 0
}

// outCell: what a library function can reach from an argument
func outCell(a ssa.Value) string {
	switch t := a.Type().Underlying().(type) {
	case *types.Slice:
		if _, ok := t.Elem().Underlying().(*types.Basic); ok {
			return "elements of " + t.String()
		}
	case *types.Pointer:
		if n, ok := t.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" {
			return "big numbers"
		}
	}
	return ""
}

func placeOfG(a ssa.Value) string {
	if g, ok := a.(*ssa.Global); ok {
		return "global " + g.String()
	}
	return placeOf(a)
}

func meet(a, b map[string]bool) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	if a["*"] || b["*"] {
		return true
	}
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- paths

type way struct {
	e      *ender
	fn     *ssa.Function
	l      *loop // nil: a path from the entry
	blocks []*ssa.BasicBlock
	pred   map[*ssa.BasicBlock]*ssa.BasicBlock
	close  *ssa.BasicBlock // where it goes back to the header
	mods   map[string]bool
}

func (w *way) resolve(v ssa.Value, depth int) ssa.Value {
	if depth > 40 {
		return v
	}
	p, ok := v.(*ssa.Phi)
	if !ok || w.l != nil && p.Block() == w.l.header {
		return v
	}
	pr, ok := w.pred[p.Block()]
	if !ok || pr == nil {
		return v
	}
	for i, b := range p.Block().Preds {
		if b == pr {
			return w.resolve(p.Edges[i], depth+1)
		}
	}
	return v
}

// stable: the value is the same the next time round
func (w *way) stable(v ssa.Value, depth int) bool {
	if depth > 40 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if w.l != nil && !w.l.blocks[in.Block()] {
		return true
	}
	all := func() bool {
		for _, op := range in.Operands(nil) {
			if *op != nil && !w.stable(*op, depth+1) {
				return false
			}
		}
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if w.l != nil && v.Block() == w.l.header {
			for i, b := range v.Block().Preds {
				if b == w.close {
					return w.resolve(v.Edges[i], 0) == ssa.Value(v)
				}
			}
			return false
		}
		r := w.resolve(v, 0)
		return r != ssa.Value(v) && w.stable(r, depth+1)
	case *ssa.UnOp:
		if v.Op == token.ARROW {
			return false
		}
		if v.Op == token.MUL {
			_, r := w.e.effects(v, true)
			if meet(r, w.mods) {
				return false
			}
		}
		return all()
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Slice, *ssa.Extract, *ssa.TypeAssert, *ssa.MakeClosure:
		return all()
	case *ssa.Lookup:
		_, r := w.e.effects(v, true)
		return !meet(r, w.mods) && all()
	case *ssa.Alloc:
		return w.l == nil
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap", "min", "max":
				return all()
			}
			return false
		}
		_, r := w.e.effects(v, true)
		if r["*"] || meet(r, w.mods) {
			return false
		}
		if own, _, _, _ := w.e.callee(v); len(own) == 0 && w.mods["*"] {
			return false
		}
		return all()
	}
	return false
}

// key names a condition, so that the same one is recognised elsewhere
func (w *way) key(v ssa.Value, depth int) string {
	if depth > 12 {
		return v.Name()
	}
	v = w.resolve(v, 0)
	switch a := v.(type) {
	case *ssa.Const:
		return a.String()
	case *ssa.BinOp:
		return "(" + w.key(a.X, depth+1) + a.Op.String() + w.key(a.Y, depth+1) + ")"
	case *ssa.UnOp:
		return a.Op.String() + w.key(a.X, depth+1)
	case *ssa.FieldAddr:
		return w.key(a.X, depth+1) + "." + fmt.Sprint(a.Field)
	case *ssa.IndexAddr:
		return w.key(a.X, depth+1) + "[" + w.key(a.Index, depth+1) + "]"
	case *ssa.Convert:
		return a.Type().String() + "(" + w.key(a.X, depth+1) + ")"
	case *ssa.Call:
		s := ""
		if a.Call.IsInvoke() {
			s = w.key(a.Call.Value, depth+1) + "." + a.Call.Method.Name()
		} else if f := a.Call.StaticCallee(); f != nil {
			s = f.String()
		} else if bi, ok := a.Call.Value.(*ssa.Builtin); ok {
			s = bi.Name()
		} else {
			return a.Name()
		}
		for _, x := range a.Call.Args {
			s += "," + w.key(x, depth+1)
		}
		return s + ")"
	}
	return v.Name()
}

// cond: a branch taken, as a condition in canonical form and its truth
func (w *way) cond(v ssa.Value, truth bool) (string, bool) {
	v = w.resolve(v, 0)
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, truth = w.resolve(u.X, 0), !truth
	}
	if b, ok := v.(*ssa.BinOp); ok {
		x, y, op := w.key(b.X, 0), w.key(b.Y, 0), b.Op
		if x > y {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		switch op {
		case token.NEQ:
			op, truth = token.EQL, !truth
		case token.GEQ:
			op, truth = token.LSS, !truth
		case token.GTR:
			op, truth = token.LEQ, !truth
		}
		return x + op.String() + y, truth
	}
	return w.key(v, 0), truth
}

func constBool(v ssa.Value) (bool, bool) {
	switch a := v.(type) {
	case *ssa.Const:
		if a.Value != nil && a.Value.Kind() == constant.Bool {
			return constant.BoolVal(a.Value), true
		}
	case *ssa.BinOp:
		x, ok1 := a.X.(*ssa.Const)
		y, ok2 := a.Y.(*ssa.Const)
		if ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.Kind() == y.Value.Kind() {
			switch a.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.Compare(x.Value, a.Op, y.Value), true
			}
		}
	}
	return false, false
}

// possible: the branches taken do not contradict each other
func (w *way) possible(next *ssa.BasicBlock) bool {
	seen := map[string]bool{}
	for i, b := range w.blocks {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		n := next
		if i+1 < len(w.blocks) {
			n = w.blocks[i+1]
		}
		if b.Succs[0] == b.Succs[1] {
			continue
		}
		truth := n == b.Succs[0]
		cv := w.resolve(t.Cond, 0)
		if bo, ok := cv.(*ssa.BinOp); ok {
			nb := &ssa.BinOp{Op: bo.Op, X: w.resolve(bo.X, 0), Y: w.resolve(bo.Y, 0)}
			if k, ok := constBool(nb); ok && k != truth {
				return false
			}
		}
		if k, ok := constBool(cv); ok && k != truth {
			return false
		}
		k, tr := w.cond(t.Cond, truth)
		if was, ok := seen[k]; ok && was != tr {
			return false
		}
		seen[k] = tr
	}
	return true
}

// idle looks for a way round the loop after which everything that decided
// where it goes is as it was
func (e *ender) idle(fn *ssa.Function, l *loop) *way {
	var found *way
	n := 0
	var walk func(path []*ssa.BasicBlock)
	on := map[*ssa.BasicBlock]bool{}
	walk = func(path []*ssa.BasicBlock) {
		if found != nil || n > 4000 {
			return
		}
		b := path[len(path)-1]
		for _, s := range b.Succs {
			if s == l.header {
				n++
				w := &way{e: e, fn: fn, l: l, blocks: append([]*ssa.BasicBlock{}, path...), pred: map[*ssa.BasicBlock]*ssa.BasicBlock{}, close: b, mods: map[string]bool{}}
				for i := 1; i < len(path); i++ {
					w.pred[path[i]] = path[i-1]
				}
				if found == nil && w.still(s) {
					found = w
				}
				continue
			}
			if !l.blocks[s] || on[s] || s.Dominates(b) {
				continue
			}
			on[s] = true
			walk(append(path, s))
			on[s] = false
		}
	}
	on[l.header] = true
	walk([]*ssa.BasicBlock{l.header})
	return found
}

func (w *way) still(next *ssa.BasicBlock) bool {
	for _, b := range w.blocks {
		for _, in := range b.Instrs {
			if chance(in) != "" {
				return false
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				own, _, _, _ := w.e.callee(ci)
				for _, g := range own {
					if len(w.e.chance[g]) > 0 {
						return false
					}
				}
			}
			m, _ := w.e.effects(in, true)
			for k := range m {
				w.mods[k] = true
			}
		}
	}
	for _, b := range w.blocks {
		if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !w.stable(t.Cond, 0) {
			return false
		}
	}
	return w.possible(next)
}

func (w *way) String() string {
	var s []string
	for _, b := range w.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				p := w.e.c.r.pos(in.Pos())
				p = p[strings.LastIndex(p, ":")+1:]
				if len(s) == 0 || s[len(s)-1] != p {
					s = append(s, p)
				}
				break
			}
		}
	}
	return "lines " + strings.Join(s, ", ")
}

// ---------------------------------------------------------------- counters

type step struct {
	op token.Token // ADD (of any sign), MUL, QUO
	k  *big.Int
}

func intConst(v ssa.Value) *big.Int {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return nil
	}
	i := constant.ToInt(k.Value)
	if i.Kind() != constant.Int {
		return nil
	}
	b, ok := new(big.Int).SetString(i.ExactString(), 10)
	if !ok {
		return nil
	}
	return b
}

// steps: what one turn does to the variable p of the header
func steps(v ssa.Value, p *ssa.Phi, l *loop, seen map[ssa.Value]bool) ([]step, bool) {
	if v == ssa.Value(p) {
		return []step{{token.ADD, new(big.Int)}}, true
	}
	if seen[v] {
		return nil, false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return nil, false
	}
	seen[v] = true
	defer delete(seen, v)
	switch a := v.(type) {
	case *ssa.Phi:
		if a.Block() == l.header {
			return nil, false
		}
		var out []step
		for _, x := range a.Edges {
			s, ok := steps(x, p, l, seen)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.BinOp:
		x, k := a.X, intConst(a.Y)
		if k == nil && (a.Op == token.ADD || a.Op == token.MUL) {
			x, k = a.Y, intConst(a.X)
		}
		if k == nil {
			return nil, false
		}
		s, ok := steps(x, p, l, seen)
		if !ok {
			return nil, false
		}
		var out []step
		for _, t := range s {
			zero := t.op == token.ADD && t.k.Sign() == 0
			switch a.Op {
			case token.ADD, token.SUB:
				if t.op != token.ADD {
					return nil, false
				}
				d := new(big.Int).Set(k)
				if a.Op == token.SUB {
					d.Neg(d)
				}
				out = append(out, step{token.ADD, d.Add(d, t.k)})
			case token.MUL, token.QUO:
				if !zero {
					return nil, false
				}
				out = append(out, step{a.Op, k})
			case token.SHL, token.SHR:
				if !zero || !k.IsInt64() || k.Int64() > 64 {
					return nil, false
				}
				op := token.MUL
				if a.Op == token.SHR {
					op = token.QUO
				}
				out = append(out, step{op, new(big.Int).Lsh(big1, uint(k.Int64()))})
			default:
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

func basicRange(t types.Type) (lo, hi *big.Int, bits int, uns bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	default:
		return
	}
	uns = b.Info()&types.IsUnsigned != 0
	if uns {
		return new(big.Int), new(big.Int).Sub(pow2(bits), big1), bits, uns
	}
	return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big1), bits, uns
}

// ---------------------------------------------------------------- bounds

type bounds struct {
	w  *way // names values
	fn *ssa.Function
}

// most: the largest value of v at block b, nil if not bounded
func (q *bounds) most(v ssa.Value, b *ssa.BasicBlock, depth int) *big.Int {
	_, hi, _, _ := basicRange(v.Type())
	if hi == nil {
		return nil
	}
	best := hi
	upd := func(x *big.Int) {
		if x != nil && x.Cmp(best) < 0 {
			best = x
		}
	}
	if depth > 6 {
		return best
	}
	switch a := v.(type) {
	case *ssa.Const:
		upd(intConst(a))
	case *ssa.Convert:
		if lo, _, _, _ := basicRange(a.X.Type()); lo != nil {
			m := q.most(a.X, b, depth+1)
			if lo.Sign() >= 0 || m.Cmp(hi) <= 0 {
				upd(m)
			}
		}
	case *ssa.BinOp:
		switch a.Op {
		case token.AND:
			for _, y := range []ssa.Value{a.X, a.Y} {
				if k := intConst(y); k != nil && k.Sign() >= 0 {
					upd(k)
				}
			}
		case token.REM:
			if k := intConst(a.Y); k != nil && k.Sign() > 0 {
				upd(new(big.Int).Sub(k, big1))
			}
		case token.QUO:
			if k := intConst(a.Y); k != nil && k.Sign() > 0 {
				upd(new(big.Int).Quo(q.most(a.X, b, depth+1), k))
			}
		case token.SHR:
			if k := intConst(a.Y); k != nil && k.IsInt64() && k.Int64() < 64 {
				upd(new(big.Int).Rsh(q.most(a.X, b, depth+1), uint(k.Int64())))
			}
		case token.SUB:
			if k := intConst(a.Y); k != nil && k.Sign() >= 0 {
				if lo, _, _, _ := basicRange(a.Type()); lo.Sign() < 0 {
					upd(new(big.Int).Sub(q.most(a.X, b, depth+1), k))
				}
			}
		}
	case *ssa.Phi:
		var m *big.Int
		for i, x := range a.Edges {
			y := q.most(x, a.Block().Preds[i], depth+2)
			if m == nil || y.Cmp(m) > 0 {
				m = y
			}
		}
		upd(m)
	case *ssa.Call:
		if bi, ok := a.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			t := a.Call.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			if ar, ok := t.(*types.Array); ok {
				upd(big.NewInt(ar.Len()))
			}
		}
	}
	upd(q.flow(v, b, depth))
	return best
}

// flow: what the branches on the ways to b say about v
func (q *bounds) flow(v ssa.Value, to *ssa.BasicBlock, depth int) *big.Int {
	_, top, _, _ := basicRange(v.Type())
	name := q.w.key(v, 0)
	at := map[*ssa.BasicBlock]*big.Int{q.fn.Blocks[0]: top}
	for more := true; more; {
		more = false
		for _, b := range q.fn.Blocks {
			cur := at[b]
			if cur == nil {
				continue
			}
			t, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			for i, s := range b.Succs {
				out := cur
				if t != nil && b.Succs[0] != b.Succs[1] {
					if u := q.says(t.Cond, i == 0, name, b, depth); u != nil && u.Cmp(out) < 0 {
						out = u
					}
				}
				if at[s] == nil || out.Cmp(at[s]) > 0 {
					at[s] = out
					more = true
				}
			}
		}
	}
	return at[to]
}

func (q *bounds) says(c ssa.Value, truth bool, name string, b *ssa.BasicBlock, depth int) *big.Int {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, truth = u.X, !truth
	}
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := bo.X, bo.Y, bo.Op
	strip := func(v ssa.Value) ssa.Value {
		if q.w.key(v, 0) == name {
			return v
		}
		// a wider copy of the same number
		if cv, ok := v.(*ssa.Convert); ok {
			lo1, hi1, _, _ := basicRange(cv.X.Type())
			lo2, hi2, _, _ := basicRange(cv.Type())
			if lo1 != nil && lo2 != nil && lo2.Cmp(lo1) <= 0 && hi1.Cmp(hi2) <= 0 {
				return cv.X
			}
		}
		return v
	}
	if q.w.key(strip(x), 0) != name {
		if q.w.key(strip(y), 0) != name {
			return nil
		}
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !truth {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	var m *big.Int
	if k := intConst(y); k != nil {
		m = k
	} else if depth < 4 {
		m = q.most(y, b, depth+3)
	}
	if m == nil {
		return nil
	}
	switch op {
	case token.LSS:
		return new(big.Int).Sub(m, big1)
	case token.LEQ, token.EQL:
		return m
	}
	return nil
}

// ---------------------------------------------------------------- one loop

type verdict struct {
	proved string // why the loop ends
	wrong  string // why it does not
	pos    token.Pos
}

func holds(op token.Token, c int) bool {
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	}
	return false
}

func turned(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

// fixed: the value does not change while the loop runs
func (e *ender) fixed(v ssa.Value, l *loop, mods map[string]bool, depth int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true
	}
	if depth > 12 {
		return false
	}
	switch a := v.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Slice, *ssa.Extract, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.UnOp, *ssa.TypeAssert:
		if u, ok := v.(*ssa.UnOp); ok && (u.Op == token.MUL || u.Op == token.ARROW) {
			_, r := e.effects(u, true)
			if meet(r, mods) {
				return false
			}
		}
	case *ssa.Call:
		if bi, ok := a.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() != "len" && bi.Name() != "cap" {
				return false
			}
			break
		}
		if _, r := e.effects(a, true); r["*"] || meet(r, mods) {
			return false
		}
	default:
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && !e.fixed(*op, l, mods, depth+1) {
			return false
		}
	}
	return true
}

// exit examines one way out of the loop
func (e *ender) exit(fn *ssa.Function, l *loop, t *ssa.If, stay bool, mods map[string]bool, always, only bool) (v verdict) {
	c := t.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, stay = u.X, !stay
	}
	if ex, ok := c.(*ssa.Extract); ok {
		if _, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 0 && always {
			v.proved = "the elements ranged over"
			return
		}
	}
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return
	}
	op := bo.Op
	if !stay {
		op = negate(op)
	}
	for _, side := range []int{0, 1} {
		x, y, o := bo.X, bo.Y, op
		if side == 1 {
			x, y, o = bo.Y, bo.X, turned(op)
		}
		if r := e.quotient(fn, l, x, y, o, t, always); r.proved != "" || r.wrong != "" {
			return r
		}
		if r := e.counter(fn, l, x, y, o, t, mods, always, only); r.proved != "" || r.wrong != "" {
			return r
		}
	}
	return
}

func (e *ender) counter(fn *ssa.Function, l *loop, x, y ssa.Value, op token.Token, t *ssa.If, mods map[string]bool, always, only bool) (v verdict) {
	// the counter, as it is compared
	off := new(big.Int)
	var p *ssa.Phi
	cur := x
	small := x.Type() // the narrowest type the comparison sees
	narrower := func(t types.Type) {
		_, _, b1, _ := basicRange(t)
		_, _, b2, _ := basicRange(small)
		if b1 > 0 && b1 < b2 {
			small = t
		}
	}
	for i := 0; i < 6 && p == nil; i++ {
		switch a := cur.(type) {
		case *ssa.Phi:
			if a.Block() != l.header {
				return
			}
			p = a
		case *ssa.Convert:
			cur = a.X
			narrower(a.X.Type())
		case *ssa.BinOp:
			k := intConst(a.Y)
			if k == nil || a.Op != token.ADD && a.Op != token.SUB || !l.blocks[a.Block()] {
				return
			}
			if a.Op == token.ADD {
				off.Add(off, k)
			} else {
				off.Sub(off, k)
			}
			cur = a.X
		default:
			return
		}
	}
	if p == nil {
		return
	}
	_, _, bits, _ := basicRange(p.Type())
	if bits == 0 {
		return
	}
	narrower(p.Type())
	var all []step
	var init []ssa.Value
	for i, b := range p.Block().Preds {
		if !l.blocks[b] {
			init = append(init, p.Edges[i])
			continue
		}
		s, ok := steps(p.Edges[i], p, l, map[ssa.Value]bool{})
		if !ok {
			return
		}
		all = append(all, s...)
	}
	if len(all) == 0 {
		return
	}
	kind := all[0].op
	pos, neg, zero := false, false, false
	big1step := true
	for _, s := range all {
		if s.op != kind {
			if s.op == token.ADD && s.k.Sign() == 0 || kind == token.ADD {
				zero = true
				continue
			}
			return
		}
		if kind == token.ADD {
			switch s.k.Sign() {
			case 1:
				pos = true
			case -1:
				neg = true
			default:
				zero = true
			}
			if s.k.CmpAbs(big1) != 0 {
				big1step = false
			}
		}
	}
	if zero {
		return // some way round leaves it as it is
	}
	name := p.Comment
	if name == "" || strings.Contains(name, "rangeindex") {
		name = p.Name()
	}
	lo, hi, _, uns := basicRange(small)
	if lo == nil {
		return
	}
	if !e.fixed(y, l, mods, 0) {
		// moving bound: only the direction can be told
		return
	}
	q := &bounds{w: &way{e: e, fn: fn, pred: map[*ssa.BasicBlock]*ssa.BasicBlock{}}, fn: fn}
	bail := func(f string, a ...interface{}) verdict {
		if !only {
			return verdict{}
		}
		return verdict{wrong: fmt.Sprintf(f, a...), pos: t.Cond.Pos()}
	}
	ky := intConst(y)
	switch kind {
	case token.ADD:
		if pos && neg {
			return
		}
		up := pos
		switch op {
		case token.LSS, token.LEQ:
			if !up {
				return bail("%s goes down while the loop goes on as long as it is below its bound", name)
			}
			max := q.most(y, t.Block(), 0)
			if max == nil {
				return
			}
			_, _, sb, _ := basicRange(small)
			if sb < 64 {
				// the last value still inside, and one step more, must fit
				limit := new(big.Int).Set(hi)
				if op == token.LEQ {
					limit.Sub(limit, big1)
				}
				if !big1step {
					return
				}
				if max.Cmp(limit) > 0 {
					return bail("%s is a %s and its bound can be %s: it wraps round to 0 before it reaches the bound", name, small, most(max))
				}
			} else if op == token.LEQ && ky != nil && ky.Cmp(hi) >= 0 {
				return bail("%s never exceeds its bound", name)
			}
			if always {
				v.proved = fmt.Sprintf("%s goes up to a bound", name)
			}
		case token.GTR, token.GEQ:
			if up {
				return bail("%s goes up while the loop goes on as long as it is above its bound", name)
			}
			if op == token.GEQ && ky != nil {
				k := new(big.Int).Sub(ky, off)
				if uns && ky.Sign() == 0 && off.Sign() == 0 || k.Cmp(lo) <= 0 && off.Sign() == 0 {
					return bail("%s is a %s and never below %s", name, small, ky)
				}
			}
			if always {
				v.proved = fmt.Sprintf("%s goes down to a bound", name)
			}
		case token.NEQ:
			if big1step {
				if always {
					v.proved = fmt.Sprintf("%s comes past every number", name)
				}
				return
			}
			if len(init) == 1 && len(all) == 1 {
				if a := intConst(init[0]); a != nil {
					if ky != nil {
						d := new(big.Int).Sub(ky, a)
						if new(big.Int).Rem(d, all[0].k).Sign() != 0 && all[0].k.Bit(0) == 0 {
							return bail("%s steps over the bound", name)
						}
					} else if cl, ok := y.(*ssa.Call); ok && all[0].k.Bit(0) == 0 {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							return bail("%s goes by %s and can step over the bound", name, all[0].k)
						}
					}
				}
			}
		}
	case token.MUL:
		for _, in := range init {
			if k := intConst(in); k != nil && k.Sign() == 0 && op != token.EQL {
				if ky == nil || holds(op, new(big.Int).Sub(k, ky).Sign()) {
					return bail("%s is multiplied but starts at 0", name)
				}
			}
		}
		if all[0].k.Cmp(big1) == 0 {
			return bail("%s is multiplied by 1", name)
		}
		if op == token.LSS || op == token.LEQ {
			max := q.most(y, t.Block(), 0)
			_, _, sb, _ := basicRange(small)
			if sb < 64 && max != nil {
				limit := new(big.Int).Quo(hi, all[0].k)
				if max.Cmp(limit) > 0 {
					return bail("%s is a %s and its bound can be %s: it wraps round before it reaches the bound", name, small, most(max))
				}
			}
			if always && (sb == 64 || max != nil) {
				v.proved = fmt.Sprintf("%s grows up to a bound", name)
			}
		}
	case token.QUO:
		if all[0].k.Cmp(big1) == 0 {
			return bail("%s is divided by 1", name)
		}
		if ky != nil && off.Sign() == 0 {
			if holds(op, -ky.Sign()) {
				return bail("%s shrinks to 0, where the loop still goes on", name)
			}
			if always {
				v.proved = fmt.Sprintf("%s shrinks to 0", name)
			}
		}
	}
	return
}

func most(x *big.Int) string {
	if x.BitLen() > 32 {
		return "any number"
	}
	return x.String()
}

// quotient: a big number divided at each turn
func (e *ender) quotient(fn *ssa.Function, l *loop, x, y ssa.Value, op token.Token, t *ssa.If, always bool) (v verdict) {
	cl, ok := x.(*ssa.Call)
	if !ok || cl.Call.StaticCallee() == nil || !l.blocks[cl.Block()] {
		return
	}
	f := cl.Call.StaticCallee()
	ky := intConst(y)
	if f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "math/big" || ky == nil {
		return
	}
	at := 0 // the sign of the comparison once the number is 0
	n := cl.Call.Args[0]
	switch f.Name() {
	case "Sign", "BitLen":
	case "Cmp", "CmpAbs":
		o := cl.Call.Args[1]
		if !zeroBig(o) {
			n, o = o, n
			if !zeroBig(o) {
				return
			}
		}
	default:
		return
	}
	if in, ok := n.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return
	}
	shrinks := false
	for b := range l.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			g := c.Call.StaticCallee()
			if g.Object() == nil || g.Object().Pkg() == nil || g.Object().Pkg().Path() != "math/big" || g.Signature.Recv() == nil || len(c.Call.Args) < 2 || c.Call.Args[0] != n {
				continue
			}
			switch g.Name() {
			case "DivMod", "QuoRem", "Quo", "Div", "Rsh":
				if c.Call.Args[1] == n {
					shrinks = shrinks || len(loopExits(l)) > 0 && dominatesBack(b, l)
					continue
				}
			}
			for _, i := range mutated(g, g.Name(), "math/big", g.Signature, true) {
				if i == 0 {
					return
				}
			}
		}
	}
	if !shrinks {
		return
	}
	if holds(op, at-ky.Sign()) {
		return verdict{wrong: "the number divided at each turn comes to 0, where the loop still goes on", pos: t.Cond.Pos()}
	}
	if always {
		v.proved = "a number divided until it is 0"
	}
	return
}

// zeroBig: new(big.Int), big.NewInt(0), or a variable that holds one of them
func zeroBig(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Call:
		if f := a.Call.StaticCallee(); f != nil && f.Name() == "NewInt" && len(a.Call.Args) == 1 {
			k := intConst(a.Call.Args[0])
			return k != nil && k.Sign() == 0
		}
	case *ssa.UnOp:
		g, ok := a.X.(*ssa.Global)
		if !ok || g.Pkg == nil {
			return false
		}
		zero, n := false, 0
		for _, m := range g.Pkg.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
						n++
						zero = zeroBig(s.Val)
					}
				}
			}
		}
		return n == 1 && zero
	}
	return false
}

func loopExits(l *loop) (out []*ssa.BasicBlock) {
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] {
				out = append(out, b)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return
}

func dominatesBack(b *ssa.BasicBlock, l *loop) bool {
	for _, p := range l.header.Preds {
		if l.blocks[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

func (e *ender) loop(fn *ssa.Function, l *loop) (v verdict, how string) {
	mods := map[string]bool{}
	pos := token.NoPos
	ends := false
	for b := range l.blocks {
		for _, in := range b.Instrs {
			m, _ := e.effects(in, true)
			for k := range m {
				mods[k] = true
			}
			if !pos.IsValid() || in.Pos().IsValid() && in.Pos() < pos {
				pos = in.Pos()
			}
			switch in.(type) {
			case *ssa.Panic:
				ends = true
			}
			if chance(in) == "the end of the program" || chance(in) == "the log" {
				ends = true
			}
		}
	}
	exits := loopExits(l)
	if len(exits) == 0 {
		if ends {
			return v, "left by ending the program"
		}
		return verdict{wrong: "there is no way out of the loop", pos: pos}, ""
	}
	var bad verdict
	only := true
	for _, b := range exits {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		stay := l.blocks[b.Succs[0]]
		r := e.exit(fn, l, t, stay, mods, dominatesBack(b, l), only)
		if r.proved != "" {
			return r, r.proved
		}
		if r.wrong != "" && bad.wrong == "" {
			bad = r
		}
	}
	if bad.wrong != "" {
		return bad, ""
	}
	if w := e.idle(fn, l); w != nil {
		return verdict{wrong: "a turn along " + w.String() + " changes nothing that decides whether there is another", pos: pos}, ""
	}
	return v, "every way round changes what decides whether there is another"
}

// ---------------------------------------------------------------- recursion

type selfCall struct {
	to   *ssa.Function
	site ssa.CallInstruction
	args []int // the caller's parameter passed, -1 anything else, -2 a constant
}

// passes: calls that can be reached with nothing changed since the entry,
// and pass on the caller's own arguments
func (e *ender) passes(f *ssa.Function) (out []selfCall) {
	if len(f.Blocks) == 0 {
		return
	}
	idx := map[ssa.Value]int{}
	for i, p := range f.Params {
		idx[p] = i
	}
	var strip func(v ssa.Value, d int) ssa.Value
	strip = func(v ssa.Value, d int) ssa.Value {
		for i := 0; i < 8; i++ {
			switch a := v.(type) {
			case *ssa.MakeInterface:
				v = a.X
			case *ssa.ChangeInterface:
				v = a.X
			case *ssa.ChangeType:
				v = a.X
			case *ssa.TypeAssert:
				if a.CommaOk {
					return v
				}
				v = a.X
			}
		}
		return v
	}
	n := 0
	on := map[*ssa.BasicBlock]bool{}
	var walk func(path []*ssa.BasicBlock)
	walk = func(path []*ssa.BasicBlock) {
		if n > 500 {
			return
		}
		b := path[len(path)-1]
		w := &way{e: e, fn: f, blocks: append([]*ssa.BasicBlock{}, path...), pred: map[*ssa.BasicBlock]*ssa.BasicBlock{}, mods: map[string]bool{}}
		for i := 1; i < len(path); i++ {
			w.pred[path[i]] = path[i-1]
		}
		for _, pb := range path[:len(path)-1] {
			for _, in := range pb.Instrs {
				m, _ := e.effects(in, true)
				for k := range m {
					if !strings.HasPrefix(k, "variable ") {
						return
					}
				}
				if chance(in) != "" {
					return
				}
			}
			if t, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && !w.stable(t.Cond, 0) {
				return
			}
		}
		if len(path) > 1 && !w.possible(b) {
			return
		}
		n++
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				own, _, _, _ := e.callee(ci)
				for _, g := range own {
					as := callArgs(&ci.Call)
					if len(as) != len(g.Params) {
						continue
					}
					s := selfCall{to: g, site: ci}
					for _, a := range as {
						a = strip(w.resolve(strip(a, 0), 0), 0)
						if i, ok := idx[a]; ok {
							s.args = append(s.args, i)
						} else if _, ok := a.(*ssa.Const); ok {
							s.args = append(s.args, -2)
						} else {
							s.args = append(s.args, -1)
						}
					}
					out = append(out, s)
				}
			}
			m, _ := e.effects(in, true)
			for k := range m {
				if !strings.HasPrefix(k, "variable ") {
					return
				}
			}
			if chance(in) != "" {
				return
			}
		}
		for _, s := range b.Succs {
			if !on[s] {
				on[s] = true
				walk(append(path, s))
				on[s] = false
			}
		}
	}
	on[f.Blocks[0]] = true
	walk([]*ssa.BasicBlock{f.Blocks[0]})
	return
}

func (e *ender) recursion(fs []*ssa.Function) {
	calls := map[*ssa.Function][]selfCall{}
	n := 0
	for _, f := range fs {
		calls[f] = e.passes(f)
		n += len(calls[f])
	}
	e.c.items["calls_on_unchanged_state"] = n
	for _, f := range fs {
		// from f back to f with its own arguments, in at most three calls
		bad := ""
		var walk func(g *ssa.Function, m []int, trail string, depth int)
		walk = func(g *ssa.Function, m []int, trail string, depth int) {
			if bad != "" || depth > 3 {
				return
			}
			for _, s := range calls[g] {
				a := make([]int, len(s.args))
				for i, x := range s.args {
					a[i] = x
					if x >= 0 {
						a[i] = m[x]
					}
				}
				t := trail + " -> " + fname(s.to) + " at " + e.c.r.pos(s.site.Pos())
				if s.to == f {
					same := len(f.Params) > 0
					for i, x := range a {
						same = same && (x == i || x == -2 && i > 0)
					}
					if len(f.Params) == 0 {
						same = true
					}
					if same {
						bad = t
						return
					}
					continue
				}
				walk(s.to, a, t, depth+1)
			}
		}
		id := make([]int, len(f.Params))
		for i := range id {
			id[i] = i
		}
		walk(f, id, fname(f), 1)
		e.c.oblige("recursion-moves", fname(f), bad == "", func() string {
			return e.c.r.pos(f.Pos()) + ": calls itself again with the same arguments, nothing having changed: " + bad
		})
	}
}

// ---------------------------------------------------------------- locks

func (e *ender) locks(f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := cl.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" || g.Name() != "Lock" && g.Name() != "RLock" || len(cl.Call.Args) == 0 {
				continue
			}
			w := &way{e: e, fn: f, pred: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
			mu := w.key(cl.Call.Args[0], 0)
			un := "Unlock"
			if g.Name() == "RLock" {
				un = "RUnlock"
			}
			releases := func(x ssa.Instruction) bool {
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					return false
				}
				if h := ci.Common().StaticCallee(); h != nil && h.Name() == un && len(ci.Common().Args) > 0 {
					return w.key(ci.Common().Args[0], 0) == mu
				}
				if d, ok := x.(*ssa.Defer); ok {
					if h := d.Call.StaticCallee(); h != nil && h.Parent() == f {
						for _, hb := range h.Blocks {
							for _, hi := range hb.Instrs {
								if hc, ok := hi.(*ssa.Call); ok && hc.Call.StaticCallee() != nil && hc.Call.StaticCallee().Name() == un {
									return true
								}
							}
						}
					}
				}
				return false
			}
			leak := ""
			deferred := false
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, from int)
			walk = func(b *ssa.BasicBlock, from int) {
				for j := from; j < len(b.Instrs); j++ {
					x := b.Instrs[j]
					if releases(x) {
						if _, ok := x.(*ssa.Defer); !ok {
							return
						}
						deferred = true
						return
					}
					switch y := x.(type) {
					case *ssa.Return:
						leak = "it is still held at the return at " + e.c.r.pos(y.Pos())
					case *ssa.Call:
						if h := y.Call.StaticCallee(); h != nil && h == g && w.key(y.Call.Args[0], 0) == mu && g.Name() == "Lock" {
							leak = "it is taken again at " + e.c.r.pos(y.Pos())
						}
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						walk(s, 0)
					}
				}
			}
			// a release deferred before the lock was taken
			for _, x := range b.Instrs[:i] {
				if _, ok := x.(*ssa.Defer); ok && releases(x) {
					deferred = true
				}
			}
			if !deferred {
				walk(b, i+1)
			}
			e.c.oblige("lock-released", fname(f)+" "+g.Name(), leak == "", func() string {
				return e.c.r.pos(cl.Pos()) + ": the lock taken here is not released on every way: " + leak
			})
		}
	}
}

func init() {
	register("R01", "termination analysis of every loop and every recursive call: counters that move to a bound they cannot wrap round before, numbers that shrink to where the loop ends, and a search for ways round a loop, or back to a function, that leave everything the branches depend on as it was (effects of calls by fields, over the call graph); locks released on every way", func(c *Check) {
		c.guard("analysed", "the repository", func() {
			e := newEnder(c)
			fs := c.r.everyFunc()
			for _, f := range fs {
				c.fns[f] = true
				ls := loopsOf(f)
				var hs []*ssa.BasicBlock
				for h := range ls {
					hs = append(hs, h)
				}
				sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
				for i, h := range hs {
					c.loops[h] = true
					v, how := e.loop(f, ls[h])
					if v.wrong == "" {
						kind := how
						for _, p := range []string{"goes up to a bound", "goes down to a bound", "grows up to", "shrinks to 0", "comes past every number"} {
							if strings.Contains(how, p) {
								kind = "a counter " + p
							}
						}
						c.items["loops: "+kind]++
						if debugEnds {
							fmt.Println(fname(f), i+1, how)
						}
					}
					c.oblige("loop-ends", fmt.Sprintf("%s loop %d", fname(f), i+1), v.wrong == "", func() string {
						return c.r.pos(v.pos) + ": " + v.wrong
					})
				}
				e.locks(f)
			}
			e.recursion(fs)
		})
		c.min["loop-ends"] = 20
		c.min["recursion-moves"] = 300
	})
}
