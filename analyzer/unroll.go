package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 40

// tripCount is an upper bound for the number of iterations of a counting loop
// with constant limits
func (x *Exec) tripCount(st *State, l *loop, from *ssa.BasicBlock) (int64, bool) {
	pi := predIndex(l.header, from)
	known := func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Call); ok {
			// the length of something made before the loop
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if s, ok := st.env[c.Call.Args[0]].(VSlice); ok {
					return sliceLen(s).int()
				}
			}
			if l.blocks[c.Block()] {
				return 0, false
			}
		}
		if ins, ok := v.(ssa.Instruction); ok && ins.Parent() == l.header.Parent() && l.blocks[ins.Block()] {
			return 0, false
		}
		switch v.(type) {
		case *ssa.Const, ssa.Instruction, *ssa.Parameter:
			i, ok := x.val(st, v).(VInt)
			if !ok {
				return 0, false
			}
			return i.L.int()
		}
		return 0, false
	}
	for _, p := range phisOf(l.header) {
		if !isInt(p.Type()) {
			continue
		}
		start, ok := known(p.Edges[pi])
		if !ok {
			continue
		}
		step := int64(0)
		var next ssa.Value
		for i, e := range p.Edges {
			if i == pi {
				continue
			}
			if !l.blocks[p.Block().Preds[i]] {
				ok = false
				break
			}
			b, isb := e.(*ssa.BinOp)
			if !isb || b.X != p || b.Op != token.ADD && b.Op != token.SUB || next != nil && next != e {
				ok = false
				break
			}
			s, okc := known(b.Y)
			if b.Op == token.SUB {
				s = -s
			}
			if !okc || s == 0 {
				ok = false
				break
			}
			step, next = s, e
		}
		if !ok || next == nil {
			continue
		}
		// a test made in every iteration
		for b := range l.blocks {
			iff, isif := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !isif || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] || !always(l, b) {
				continue
			}
			c, isb := iff.Cond.(*ssa.BinOp)
			if !isb {
				continue
			}
			lhs, rhs := c.X, c.Y
			op := c.Op
			if rhs == p || rhs == next {
				lhs, rhs = rhs, lhs
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if lhs != p && lhs != next {
				continue
			}
			lim, okl := known(rhs)
			if !okl {
				continue
			}
			if !l.blocks[b.Succs[0]] { // leaves when true
				switch op {
				case token.LSS:
					op = token.GEQ
				case token.GEQ:
					op = token.LSS
				case token.GTR:
					op = token.LEQ
				case token.LEQ:
					op = token.GTR
				case token.EQL:
					op = token.NEQ
				default:
					continue
				}
			}
			d := lim - start
			switch {
			case (op == token.LSS || op == token.LEQ) && step > 0:
			case (op == token.GTR || op == token.GEQ) && step < 0:
				d, step = -d, -step
			case op == token.NEQ && (step == 1 || step == -1) && d*step >= 0:
				d, step = d*step, 1
			default:
				continue
			}
			if d < 0 {
				d = 0
			}
			return d/step + 2, true
		}
	}
	return 0, false
}

// always: every iteration passes b before going round
func always(l *loop, b *ssa.BasicBlock) bool {
	if b == l.header {
		return true
	}
	for i, p := range l.header.Preds {
		_ = i
		if l.blocks[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// unroll runs the iterations of a loop with constant limits one by one
func (x *Exec) unroll(fn *ssa.Function, st *State, l *loop, from *ssa.BasicBlock) (exits []item, outs []Outcome, ok bool) {
	n, ok := x.tripCount(st, l, from)
	if !ok || n > maxUnroll {
		return nil, nil, false
	}
	paths := 6
	if n <= 8 {
		paths = 40 // a short table, each entry of which may apply or not
	}
	h := st.clone()
	x.phis(h, l.header, from)
	cur := []item{{h, l.header, from, firstNonPhi(l.header)}}
	for i := int64(0); len(cur) > 0; i++ {
		if i > n+1 || len(cur) > paths {
			return nil, nil, false
		}
		ex, back, os := x.run(fn, cur, l)
		exits = append(exits, ex...)
		outs = append(outs, os...)
		cur = nil
		for _, b := range back {
			x.phis(b.st, l.header, b.from)
			cur = append(cur, item{b.st, l.header, b.from, firstNonPhi(l.header)})
		}
	}
	return exits, outs, true
}

// iterate runs the iterations of a loop one by one, along every path, for
// inputs of a bounded size
func (x *Exec) iterate(fn *ssa.Function, st *State, l *loop, from *ssa.BasicBlock) (exits []item, outs []Outcome) {
	h := st.clone()
	x.phis(h, l.header, from)
	cur := []item{{h, l.header, from, firstNonPhi(l.header)}}
	for i := 0; len(cur) > 0; i++ {
		if i > x.explore || len(cur) > 100 {
			panic(undecided{fmt.Sprintf("%s: the loop at block %d is not left after %d iterations (%d paths) for inputs of a bounded size", fname(fn), l.header.Index, i, len(cur))})
		}
		ex, back, os := x.run(fn, cur, l)
		exits = append(exits, ex...)
		outs = append(outs, os...)
		cur = nil
		if debugLoop {
			for _, b := range back {
				fmt.Println("---", i, l.header.Index)
				fmt.Println(b.st.dump())
			}
		}
		for _, b := range back {
			x.phis(b.st, l.header, b.from)
			cur = append(cur, item{b.st, l.header, b.from, firstNonPhi(l.header)})
		}
	}
	return exits, outs
}
