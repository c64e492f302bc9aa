package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// randomSource: a call that draws from a random source
func randomSource(ci ssa.CallInstruction) bool {
	cm := ci.Common()
	if f := cm.StaticCallee(); f != nil && f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "crypto/rand":
			return true
		case "math/rand", "math/rand/v2":
			return true
		}
	}
	for _, a := range cm.Args {
		if u, ok := a.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
				return true
			}
		}
	}
	if u, ok := cm.Value.(*ssa.UnOp); ok && cm.IsInvoke() {
		if g, ok := u.X.(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
			return true
		}
	}
	return false
}

// randomFailed: a draw that did not succeed on the path
func randomFailed(st *State) *Event {
	for _, e := range flatten(st.events(nil)) {
		if e.kind != "call" || len(e.rets) == 0 {
			continue
		}
		switch e.fn {
		case "binary.Read":
			if readerName(e.args[0]) == "crypto" && st.isNil(e.rets[len(e.rets)-1]) != 1 {
				return e
			}
		case "rand.Read", "io.ReadFull", "ecdsa.GenerateKey", "ecdsa.Sign", "rand.Int", "rand.Prime":
			if st.isNil(e.rets[len(e.rets)-1]) != 1 {
				return e
			}
		}
	}
	return nil
}

// drawn: the bytes of the random source that l is made of, one weight for each
func drawn(l Lin) (src *Term, n int, why string) {
	pow := map[string]bool{}
	for _, m := range l.ts {
		if m.t.op != "elem" {
			return nil, 0, "it depends on " + m.t.String()
		}
		o, ok := m.t.args[0].(*Term)
		if !ok || !strings.HasPrefix(o.op, "random:crypto") {
			return nil, 0, "it depends on " + m.t.String() + ", which is not drawn from the system's random source"
		}
		if src != nil && src != o {
			return nil, 0, "it is made of bytes of different draws"
		}
		src = o
		c := new(big.Int).Abs(m.c)
		if pow[c.String()] {
			return nil, 0, "two random bytes have the same weight"
		}
		pow[c.String()] = true
		n++
	}
	w := big.NewInt(1)
	for i := 0; i < n; i++ {
		if !pow[w.String()] {
			return nil, 0, fmt.Sprintf("no random byte has the weight %s", w)
		}
		w = new(big.Int).Lsh(w, 8)
	}
	return src, n, ""
}

func intSize(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return types.SizesFor("gc", "amd64").Sizeof(b)
	}
	return 0
}

func init() {
	register("S03", "abstract interpretation of every function that draws from the system's random source: random integers are a permutation of all the bytes of one whole successful draw of their size, keys and signatures are made by the library from that source, and no path returns a result after a failed draw; nothing else in the repository is a source of randomness", func(c *Check) {
		x := newExec(c.r)
		done := map[*ssa.Function]bool{}
		// random integers
		for _, fn := range c.r.funcs {
			n := fname(fn)
			rs := fn.Signature.Results()
			base := n[strings.LastIndex(n, ".")+1:]
			if !strings.HasPrefix(strings.ToLower(base), "rand") || fn.Signature.Recv() != nil || rs.Len() != 1 || intSize(rs.At(0).Type()) == 0 {
				continue
			}
			size := int(intSize(rs.At(0).Type()))
			args := c.argsOf(fn)
			ranged := len(args) == 2
			c.guard("random-integer", n, func() {
				st := newState()
				if ranged {
					if ss := st.assume(condGE(intOf(args[1]).sub(intOf(args[0])).addc(-1)), true); len(ss) == 1 {
						st = ss[0]
					}
				}
				for _, o := range x.callFn(st, fn, args, nil, nil) {
					if o.panic != nil {
						continue
					}
					c.oblige("failure-not-used", n, randomFailed(o.st) == nil, func() string { return "it returns although drawing failed\n" + c.path(o.st) })
					l := intOf(o.rets[0])
					if !ranged {
						_, k, why := drawn(l)
						if why == "" && k != size {
							why = fmt.Sprintf("%d random bytes make a number of %d", k, size)
						}
						c.oblige("all-bytes-drawn", n, why == "", func() string { return why + ": " + l.String() + "\n" + c.path(o.st) })
						continue
					}
					// a whole random number takes part
					whole := false
					why := "no whole random number takes part"
					for _, sub := range quotients(l) {
						if _, k, w := drawn(sub); w == "" && k == size {
							whole = true
						} else if w != "" {
							why = w
						}
					}
					c.oblige("all-bytes-drawn", n, whole, func() string { return why + ": " + l.String() + "\n" + c.path(o.st) })
				}
			})
			done[fn] = true
		}
		// keys and signatures
		c.guard("key", "util.ECDSAGenerateKey", func() {
			for _, o := range x.callFn(newState(), c.need("util.ECDSAGenerateKey"), nil, nil, nil) {
				if o.panic != nil {
					continue
				}
				if randomFailed(o.st) != nil {
					c.oblige("failure-not-used", "util.ECDSAGenerateKey", o.st.isNil(o.rets[0]) == 1, func() string { return "a key is returned although generating failed\n" + c.path(o.st) })
					continue
				}
				_, _, why := c.keyFault(o.st, o.rets[0])
				c.oblige("key", "util.ECDSAGenerateKey", why == "", func() string {
					return "not a key the library made from the system's random source: " + why + ": " + valString(o.rets[0]) + "\n" + c.path(o.st)
				})
			}
		})
		c.guard("signature", "util.ECDSASign", func() {
			fn := c.need("util.ECDSASign")
			args := c.argsOf(fn)
			for _, o := range x.callFn(newState(), fn, args, nil, nil) {
				if o.panic != nil {
					continue
				}
				var ev *Event
				for _, e := range flatten(o.st.events(nil)) {
					if e.kind == "call" && e.fn == "ecdsa.Sign" {
						ev = e
					}
				}
				if randomFailed(o.st) != nil {
					c.oblige("failure-not-used", "util.ECDSASign", o.st.isNil(o.rets[2]) == -1, func() string { return "no error although signing failed\n" + c.path(o.st) })
					continue
				}
				ok := ev != nil && readerName(ev.args[0]) == "crypto" && ev.args[1].vkey() == args[0].vkey() && c.sameThing(o.st, ev.args[2], args[1]) &&
					o.rets[0].vkey() == ev.rets[0].vkey() && o.rets[1].vkey() == ev.rets[1].vkey()
				c.oblige("signature", "util.ECDSASign", ok, func() string {
					return "not the signature the library made from the system's random source\n" + c.path(o.st)
				})
			}
		})
		// the nonce of a saved key
		c.eachSave(x, func(name string, o Outcome, in saveInput) {
			bad := randomFailed(o.st)
			c.oblige("failure-not-used", name, bad == nil || o.st.isNil(o.rets[0]) == -1, func() string { return "no error although drawing the nonce failed\n" + c.path(o.st) })
			for _, e := range flatten(o.st.events(nil)) {
				if e.fn == "cipher.AEAD.Seal" {
					why := in.nonceFault(o.st, e)
					c.oblige("nonce-drawn", name, why == "", func() string { return why + "\n" + c.path(o.st) })
				}
			}
		})
		// every other use
		sites := 0
		for _, fn := range c.r.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							c.oblige("source", fname(fn), g.String() != "crypto/rand.Reader", func() string { return c.r.pos(in.Pos()) + ": the system's random source is replaced" })
						}
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok || !randomSource(ci) {
						continue
					}
					sites++
					name := fname(fn) + " -> " + calleeName(ci.Common())
					c.oblige("source", name, !strings.Contains(calleeName(ci.Common()), "math/rand"), func() string {
						return c.r.pos(in.Pos()) + ": not a cryptographic random source"
					})
					if x.fns[fn] {
						c.ok("analysed-draw", name)
						continue
					}
					c.guard("analysed-draw", name, func() {
						c.ok("analysed-draw", name)
						for _, o := range x.callFn(newState(), fn, c.argsOf(fn), nil, nil) {
							if o.panic != nil || randomFailed(o.st) == nil {
								continue
							}
							ok := len(o.rets) > 0 && o.st.isNil(o.rets[len(o.rets)-1]) == -1
							c.oblige("failure-not-used", fname(fn), ok, func() string { return "it returns although drawing failed\n" + c.path(o.st) })
						}
					})
				}
			}
		}
		c.items["draws"] = sites
		c.min["all-bytes-drawn"] = 17
		c.min["failure-not-used"] = 18
		c.min["key"] = 1
		c.min["signature"] = 1
		c.min["nonce-drawn"] = 1
		c.min["source"] = 8
		c.absorb(x)
	})

	register("S04", "abstract interpretation of every ranged random function for arbitrary bounds with minimum below maximum and an arbitrary random number: the result is entailed to be at least the minimum and below the maximum", func(c *Check) {
		x := newExec(c.r)
		for _, fn := range c.r.funcs {
			n := fname(fn)
			if !strings.HasPrefix(n, "util.Rand") || fn.Signature.Params().Len() != 2 {
				continue
			}
			args := c.argsOf(fn)
			lo, hi := intOf(args[0]), intOf(args[1])
			for _, st := range given(newState(), condGE(hi.sub(lo).addc(-1))) {
				for _, o := range x.callFn(st, fn, args, nil, nil) {
					if o.panic != nil {
						if o.panic.kind != "explicit" {
							c.fail("no-crash", n, "%s\n%s", o.panic.kind, c.path(o.st))
						}
						continue
					}
					r := intOf(o.rets[0])
					c.oblige("not-below-minimum", n, o.st.ge(r.sub(lo)), func() string { return r.String() + "\n" + c.path(o.st) + o.st.dump() })
					c.oblige("below-maximum", n, o.st.ge(hi.sub(r).addc(-1)), func() string { return r.String() + "\n" + c.path(o.st) + o.st.dump() })
				}
			}
		}
		c.min["not-below-minimum"] = 8
		c.min["below-maximum"] = 8
		c.absorb(x)
	})
}

// quotients are the numbers that are divided in a term of l
func quotients(l Lin) []Lin {
	var r []Lin
	seen := map[*Term]bool{}
	var walk func(t *Term)
	lin := func(m Lin) {
		r = append(r, m)
		for _, q := range m.ts {
			walk(q.t)
		}
	}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			switch v := a.(type) {
			case Lin:
				lin(v)
			case *Term:
				walk(v)
			}
		}
	}
	for _, m := range l.ts {
		walk(m.t)
	}
	return r
}
