package main

// S09: signatures, restored keys and digests are those of the named
// algorithms, over exactly what was given.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S09", "abstract interpretation of signature verification, signing, restoring a private key and the digest functions on arbitrary arguments, with the library's primitives uninterpreted: what is returned is what the primitive gave for exactly the arguments", checkSignatures)
}

func checkSignatures(c *Check) {
	x := newExec(c.r)
	num := types.NewPointer(c.r.typ("big.Int"))
	if c.r.typ("big.Int") == nil {
		panic(undecided{"big.Int not found"})
	}
	// a number is the same if it has the same value, bytes if they are equal
	arg := func(x *Exec, st *State, v Value) Arg {
		switch a := v.(type) {
		case VPtr:
			if st.isNil(a) == -1 {
				if n, ok := st.get(a.Obj).(VInt); ok {
					return n.L
				}
			}
		case VSlice:
			return st.norm(st.bytesOf(a))
		}
		return termOf(v)
	}
	verdict := func(x *Exec, st *State, args []Value) *Cond {
		var as []Arg
		for _, v := range args {
			as = append(as, arg(x, st, v))
		}
		return condOp(mkTerm("signature-is-valid", as...))
	}
	x.hooks["ecdsa.Verify"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["ecdsa.Verify"]++
		return ret(st, VBool{verdict(x, st, args)})
	}
	c.guard("verdict", "util.ECDSAVerify", func() {
		const name = "util.ECDSAVerify"
		fn := c.need(name)
		st := newState()
		args := c.argsOf(fn)
		for i, p := range fn.Params {
			if types.Identical(p.Type(), num) {
				o := mkTerm("in:number:" + p.Name())
				objType[o] = c.r.typ("big.Int")
				st.heap[o] = VInt{LT(mkTerm("in:value:" + p.Name()))}
				args[i] = VPtr{Obj: o}
			} else if pt, ok := p.Type().(*types.Pointer); ok {
				o := mkTerm("in:" + p.Name())
				objType[o] = pt.Elem()
				args[i] = VPtr{Obj: o}
			}
		}
		want := verdict(x, st, args)
		n := 0
		for _, o := range c.call(x, st, name, args...) {
			for _, k := range []bool{true, false} {
				cd := want
				if !k {
					cd = cd.not()
				}
				for _, g := range given(o.st.clone(), cd) {
					n++
					c.oblige("verdict", name, c.isTrue(g, o.rets[0], k), func() string {
						return "reports " + valString(o.rets[0]) + "\n" + c.path(g)
					})
				}
			}
		}
		c.oblige("verdict", name, n >= 2, nil)
	})
	c.guard("signs", "util.ECDSASign", func() {
		const name = "util.ECDSASign"
		fn := c.need(name)
		args := c.argsOf(fn)
		for _, o := range x.callFn(newState(), fn, args, nil, nil) {
			if o.panic != nil || o.st.infeasible() {
				continue
			}
			var ev *Event
			for _, e := range flatten(o.st.events(nil)) {
				if e.kind == "call" && e.fn == "ecdsa.Sign" {
					ev = e
				}
			}
			why := func() string { return valStrings(o.rets) + "\n" + c.path(o.st) }
			if !c.oblige("signs", name, ev != nil, why) || o.st.isNil(o.rets[2]) == -1 {
				continue
			}
			c.oblige("signs", name, c.sameThing(o.st, ev.args[1], args[0]) && c.sameThing(o.st, ev.args[2], args[1]), why)
			for i := 0; i < 2; i++ {
				c.oblige("signs", name, argKey(arg(x, o.st, o.rets[i])) == argKey(arg(x, o.st, ev.rets[i])) || c.sameThing(o.st, o.rets[i], ev.rets[i]), why)
			}
		}
	})
	c.guard("restores", "util.ECDSAGetPrivateKey", func() {
		const name = "util.ECDSAGetPrivateKey"
		b := c.symBytes("secret")
		for _, o := range c.call(x, newState(), name, b) {
			p, ok := o.rets[0].(VPtr)
			why := func() string { return valStrings(o.rets) + "\n" + c.path(o.st) }
			if !c.oblige("restores", name, ok && o.st.isNil(p) == -1, why) {
				continue
			}
			d := bigFrom(o.st, o.st.bytesOf(b))
			field := func(p VPtr, path ...string) Value {
				for i, f := range path {
					k := fieldIndex(typeAt(p.Obj, p.Path), f)
					if k < 0 {
						panic(undecided{"a private key has no " + f})
					}
					p = VPtr{Obj: p.Obj, Path: append(append([]PE{}, p.Path...), PE{F: k})}
					if i == len(path)-1 {
						return o.st.load(p)
					}
				}
				return VNil{}
			}
			val := func(v Value) (Lin, bool) {
				q, ok := v.(VPtr)
				if !ok || o.st.isNil(q) != -1 {
					return Lin{}, false
				}
				return x.bigInt(o.st, q, nil), true
			}
			got, ok := val(field(p, "D"))
			c.oblige("restores", name+" secret", ok && o.st.eqL(got, d), why)
			c.oblige("restores", name+" curve", curveName(field(p, "PublicKey", "Curve")) == "curve:P256", why)
			for i, f := range []string{"X", "Y"} {
				v, ok := val(field(p, "PublicKey", f))
				t := oneTerm(v)
				good := ok && t != nil && t.op == "elliptic.Curve.ScalarBaseMult."+string(rune('0'+i)) && len(t.args) == 2
				if good {
					cv, ok1 := t.args[0].(*Term)
					k, ok2 := t.args[1].(Lin)
					good = ok1 && ok2 && cv.op == "curve:P256" && o.st.eqL(k, d)
				}
				c.oblige("restores", name+" "+f, good, func() string { return f + " is " + v.String() + "\n" + c.path(o.st) })
			}
		}
	})
	// digests
	sha := func(d *Content) *Content { return blob(mkTerm("sha256.Sum256", d), LC(32)) }
	for _, k := range []struct {
		fn   string
		want func(d *Content) *Content
	}{
		{"util.SumSHA256", sha},
		{"util.SumSHA256d", func(d *Content) *Content { return sha(sha(d)) }},
		{"util.SumMD5", func(d *Content) *Content { return blob(mkTerm("md5.Sum", d), LC(16)) }},
	} {
		k := k
		c.guard("digest", k.fn, func() {
			b := c.symBytes("data")
			for _, o := range c.call(x, newState(), k.fn, b) {
				v, ok := o.rets[0].(VSlice)
				want := k.want(o.st.norm(o.st.bytesOf(b)))
				c.oblige("digest", k.fn, ok && o.st.eqL(sliceLen(v), want.length()) && o.st.eqContent(o.st.bytesOf(v), want), func() string {
					return o.st.bytesOf(v).String() + ", not " + want.String() + "\n" + c.path(o.st)
				})
			}
		})
	}
	c.min["verdict"] = 1
	c.min["signs"] = 1
	c.min["restores"] = 5
	c.min["digest"] = 3
	c.absorb(x)
}
