package main

// Contracts that stand for functions which a check proves elsewhere.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// flatten lists events, those inside loops included
func flatten(es []*Event) []*Event {
	var r []*Event
	for _, e := range es {
		if e.kind == "loop" {
			for _, p := range e.sub {
				r = append(r, flatten(p)...)
			}
			continue
		}
		r = append(r, e)
	}
	return r
}

// newStruct makes an object of type T whose fields are unknown but for set
func newStruct(st *State, hint string, T types.Type, set map[string]Value) VPtr {
	o := st.newObj(hint, T)
	st.heap[o] = symVal(mkTerm("content", o), T)
	p := VPtr{Obj: o}
	for k, v := range set {
		st.setField(p, k, v)
	}
	return p
}

// decoderContract replaces a decoder (object, consumed, error) by what D02,
// D03 and D04 show of it: an error, or an object that holds a prefix of the
// input of at least min bytes and is decoded.
func decoderContract(x *Exec, name string, min int64, made map[*Term]bool) {
	fn := x.r.fn(name)
	if fn == nil {
		panic(undecided{"decoder " + name + " not found"})
	}
	pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
	if !ok || fn.Signature.Results().Len() != 3 {
		panic(undecided{"decoder " + name + " has another signature"})
	}
	x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+name]++
		buf, ok := args[0].(VSlice)
		if !ok {
			panic(undecided{"decoder " + name + " of " + valString(args[0])})
		}
		bad := st.clone()
		n := LT(setRange(st.fresh("consumed"), big.NewInt(min), maxLen))
		st.push(buf.Len.sub(n), false)
		// success is not ruled out for short inputs, so that loops over
		// elements keep the path that stores them
		pre := VSlice{Obj: buf.Obj, Path: buf.Path, Off: buf.Off, Len: n, Cap: buf.Cap}
		if buf.Obj == nil {
			pre = nilSlice
		}
		p := newStruct(st, name, pt.Elem(), map[string]Value{"buf": pre, "decoded": VBool{condTrue}})
		if made != nil {
			made[p.Obj] = true
		}
		good := []Value{p, VInt{n}, VNil{}}
		x.note(st, "call", name, args, good, site)
		e := freshErr(bad, name)
		k := LT(setRange(bad.fresh("consumed"), big0, maxLen))
		rs := []Value{VNil{}, VInt{k}, e}
		x.note(bad, "call", name, args, rs, site)
		return []Outcome{{st: st, rets: good}, {st: bad, rets: rs}}
	}
}

// copyContract: copying an opaque object gives an object of the same
// interface, or, for CopyConstruct, an error
func copyContract(x *Exec, ifaces ...string) {
	for _, i := range ifaces {
		copyContractOf(x, i, i)
	}
}

// copyContractOf: the same for one implementation
func copyContractOf(x *Exec, i, iface string) {
	{
		T := x.r.typ("util." + iface)
		if T == nil {
			panic(undecided{"interface util." + iface + " not found"})
		}
		for _, m := range []string{"Copy", "CopyConstruct"} {
			m := m
			name := "util." + i + "." + m
			x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
				x.calls["contract "+name]++
				var bad *State
				if m == "CopyConstruct" {
					bad = st.clone()
				}
				t := st.fresh("copied")
				r := symNonNil(st, mkTerm("copyof", termOf(args[0]), LT(t)), T)
				if bad == nil {
					x.note(st, "call", name, args, []Value{r}, site)
					return []Outcome{{st: st, rets: []Value{r}}}
				}
				e := freshErr(bad, name)
				x.note(st, "call", name, args, []Value{r, VNil{}}, site)
				x.note(bad, "call", name, args, []Value{VNil{}, e}, site)
				return []Outcome{{st: st, rets: []Value{r, VNil{}}}, {st: bad, rets: []Value{VNil{}, e}}}
			}
		}
	}
}

// copyRule is the obligation behind copyContract for one implementation
func (c *Check) copyRule(name string, iface string, o Outcome, constructs bool) {
	v := o.rets[0]
	if constructs {
		switch o.st.isNil(o.rets[1]) {
		case -1:
			c.ok("copy-result", name)
			return
		}
	}
	I := c.r.typ("util." + iface)
	good := false
	switch a := v.(type) {
	case VIface:
		good = implements(a.T, I) && o.st.isNil(a.V) == -1
	case VSym:
		good = implements(a.T, I) && o.st.isNil(a) == -1
	}
	if constructs {
		good = good && o.st.isNil(o.rets[1]) == 1
	}
	c.oblige("copy-result", name, good, func() string {
		return "the copy is " + valString(v) + ", which is not a " + iface + "\n" + c.path(o.st)
	})
}

// elementContract: an element access gives an error or an element
func elementContract(x *Exec, name, iface string) {
	T := x.r.typ(iface)
	if x.r.fn(name) == nil || T == nil {
		panic(undecided{name + " or " + iface + " not found"})
	}
	x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+name]++
		bad := st.clone()
		v := symNonNil(st, mkTerm("element", args[0].vkey(), args[1], T.String(), LT(st.fresh("v"))), T)
		e := freshErr(bad, name)
		x.note(st, "call", name, args, []Value{v, VNil{}}, site)
		x.note(bad, "call", name, args, []Value{VNil{}, e}, site)
		return []Outcome{{st: st, rets: []Value{v, VNil{}}}, {st: bad, rets: []Value{VNil{}, e}}}
	}
}

// randomContract: a random number generator returns any number of its type;
// its panic when the system has no randomness is not an input's doing (S03)
func randomContract(x *Exec, name string) {
	fn := x.r.fn(name)
	if fn == nil {
		panic(undecided{name + " not found"})
	}
	T := fn.Signature.Results().At(0).Type()
	x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+name]++
		r := symVal(st.fresh("random"), T)
		x.note(st, "call", name, args, []Value{r}, site)
		return []Outcome{{st: st, rets: []Value{r}}}
	}
}
