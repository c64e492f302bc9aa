package main

// S11: the public key that is loaded from the file of a generated key pair
// is the public key of the pair.

import (
	"go/types"
	"strings"
)

// secretOf: the generated key whose secret number d is, or is the negative of
func secretOf(st *State, d Lin) (key *Term, neg bool) {
	for _, m := range d.ts {
		t := m.t
		if t.op != "keyval" || t.args[1] != Arg("D") {
			continue
		}
		k, _ := t.args[0].(*Term)
		if k == nil {
			continue
		}
		switch {
		case st.eqL(d, LT(t)):
			return k, false
		case st.eqL(d, LB(p256["N"]).sub(LT(t))):
			return k, true
		}
	}
	return nil, false
}

// baseMult: the coordinate of d times the base point
func baseMult(st *State, l Lin, i byte, d Lin) bool {
	t := oneTerm(l)
	if t == nil || t.op != "elliptic.Curve.ScalarBaseMult."+string('0'+i) || len(t.args) != 2 {
		return false
	}
	cv, ok1 := t.args[0].(*Term)
	k, ok2 := t.args[1].(Lin)
	return ok1 && ok2 && cv.op == "curve:P256" && st.eqL(k, d)
}

// pairOf: the generated key that d is the secret and X the public number of;
// the negative of a point has the same X
func pairOf(st *State, X, d Lin) (key *Term, neg bool) {
	key, neg = secretOf(st, d)
	if key == nil || key.op != "ecdsakey" {
		return nil, false
	}
	if st.eqL(X, keyval(key, "X")) || baseMult(st, X, 0, d) {
		return key, neg
	}
	return nil, false
}

// keyFault: why a private key is not one that the library generated from the
// system's random source, or the negative of one
func (c *Check) keyFault(st *State, v Value) (key *Term, neg bool, why string) {
	p, ok := v.(VPtr)
	if !ok || p.Obj == nil || st.isNil(p) != -1 {
		return nil, false, "no key but " + valString(v)
	}
	D, ok := c.keyNumber(st, p, "D")
	if !ok {
		return nil, false, "it has no secret number"
	}
	pub := VPtr{Obj: p.Obj, Path: append(append([]PE{}, p.Path...), PE{F: fieldIndex(typeAt(p.Obj, p.Path), "PublicKey")})}
	X, ok1 := c.keyNumber(st, pub, "X")
	Y, ok2 := c.keyNumber(st, pub, "Y")
	if !ok1 || !ok2 {
		return nil, false, "it has no public point"
	}
	if cv := st.field(pub, "Curve"); curveName(cv) != "curve:P256" {
		return nil, false, "its curve is " + valString(cv)
	}
	key, neg = pairOf(st, X, D)
	if key == nil {
		return nil, false, "secret " + D.String() + " and X " + X.String() + " are not of one generated key"
	}
	if src, ok := key.args[0].(*Term); !ok || !strings.HasPrefix(src.op, "random:crypto") {
		return nil, false, "it was not generated from the system's random source"
	}
	if cv, ok := key.args[1].(*Term); !ok || cv.op != "curve:P256" {
		return nil, false, "it was generated on another curve"
	}
	gy := keyval(key, "Y")
	okY := !neg && st.eqL(Y, gy) || neg && st.eqL(Y, LB(p256["P"]).sub(gy)) || baseMult(st, Y, 1, D) ||
		st.eqL(Y, curveRoot(keyval(key, "X"))) && matched(st, key, neg)
	if !okY {
		return nil, false, "its Y is " + Y.String()
	}
	return key, neg, ""
}

// matched: the root that is calculated from X when the public key is loaded
// is the Y of the pair. The Y of a generated key is one of the two roots, the
// other is that of the negative secret.
func matched(st *State, key *Term, neg bool) bool {
	root, gy := curveRoot(keyval(key, "X")), keyval(key, "Y")
	other := LB(p256["P"]).sub(root)
	if neg {
		return st.eqL(gy, other) || st.decide(condEQ(gy.sub(root))) == -1
	}
	return st.eqL(gy, root) || st.decide(condEQ(gy.sub(other))) == -1
}

func init() {
	register("S11", "abstract interpretation of generating a key, of the whole key generation tool and of loading public keys: the Y of a loaded key is normalised as the modular square root of the curve's polynomial in X, and for every key that is generated or saved it is entailed that this root is the Y that belongs to its secret number", func(c *Check) {
		x := newExec(c.r)
		const gen = "util.ECDSAGenerateKey"
		n := 0
		c.guard("matches", gen, func() {
			for _, o := range x.callFn(newState(), c.need(gen), nil, nil, nil) {
				if o.panic != nil || o.st.isNil(o.rets[0]) == 1 {
					continue
				}
				key, neg, why := c.keyFault(o.st, o.rets[0])
				if !c.oblige("generated", gen, why == "", func() string { return why + "\n" + c.path(o.st) }) {
					continue
				}
				n++
				c.oblige("matches", gen, matched(o.st, key, neg), func() string {
					return "its Y need not be the root that is calculated from its X when it is loaded\n" + key.String() + c.path(o.st) + o.st.dump()
				})
			}
		})
		c.items["generated_keys_on_paths"] = n
		// what the tool saves
		cls := c.classes()
		for _, k := range sortedKeys(cls) {
			x := newExec(c.r)
			c.toolHooks(x)
			name := "main.main " + classNames[k]
			_, outs := c.tool(x, VStr{lit(classNames[k])})
			for _, o := range outs {
				for _, e := range calls(o.st) {
					if e.fn != "util.LCSaveKeyPair" {
						continue
					}
					sn := e.snap
					key, neg := pairOf(sn, x.bigInt(sn, e.args[2], nil), x.bigInt(sn, e.args[3], nil))
					c.oblige("matches", name, key != nil && matched(sn, key, neg), func() string {
						return "the Y calculated from the X that is saved need not belong to the secret that is saved\n" + c.path(o.st)
					})
				}
			}
			c.absorb(x)
		}
		// what is loaded
		root := func(name string, s *State, v Value) {
			p, ok := v.(VPtr)
			if !ok || p.Obj == nil {
				c.fail("loaded-root", name, "no key but %s\n%s", valString(v), c.path(s))
				return
			}
			X, ok1 := c.keyNumber(s, p, "X")
			Y, ok2 := c.keyNumber(s, p, "Y")
			// S08 is about keys without Y
			if !ok2 && s.isNil(s.field(p, "Y")) != -1 {
				return
			}
			c.oblige("loaded-root", name, ok1 && ok2 && s.eqL(Y, curveRoot(X)), func() string {
				return "the Y of the loaded key is " + Y.String() + " for X " + X.String() + "\n" + c.path(s)
			})
			c.oblige("loaded-curve", name, curveName(s.field(p, "Curve")) == "curve:P256", func() string { return "not a key of P-256\n" + c.path(s) })
		}
		const get = "util.ECDSAGetPublicKey"
		c.guard("loaded-root", get, func() {
			b := c.symBytes("pub_bytes")
			for _, o := range c.call(x, newState(), get, b) {
				if o.panic == nil {
					root(get, o.st, o.rets[0])
				}
			}
		})
		id := c.sym("id", types.Typ[types.String])
		for _, k := range sortedKeys(cls) {
			name := "util.LCLoadPubKey " + k
			for _, o := range c.call(x, newState(), "util.LCLoadPubKey", VInt{cls[k]}, id) {
				if o.panic == nil && o.st.isNil(o.rets[1]) == 1 {
					root(name, o.st, o.rets[0])
				}
			}
		}
		c.min["generated"] = 1
		c.min["matches"] = 6
		c.min["loaded-root"] = 6
		c.min["loaded-curve"] = 6
		c.absorb(x)
	})
}
