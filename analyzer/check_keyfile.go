package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

var keyClasses = []string{"CLS_NODE", "CLS_CLUSTER", "CLS_UNIVERSE", "CLS_SERVICE", "CLS_FEDERATION"}

// classes gives the documented key classes and their numbers
func (c *Check) classes() map[string]Lin {
	r := map[string]Lin{}
	for _, n := range keyClasses {
		o, ok := c.r.tpkgs["util"].Scope().Lookup(n).(*types.Const)
		if !ok {
			c.fail("anchor", "util."+n, "constant not found")
			continue
		}
		i, _ := constant.Int64Val(o.Val())
		r[n] = LC(i)
		c.ok("anchor", "util."+n)
	}
	return r
}

func sortedKeys(m map[string]Lin) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	register("D08", "abstract interpretation of key file loading over arbitrary file content, for every key class", func(c *Check) {
		x := newExec(c.r)
		cls := c.classes()
		id := c.sym("id", types.Typ[types.String])
		secret := c.symBytes("secret")
		for _, k := range sortedKeys(cls) {
			for _, f := range []string{"util.LCLoadPubKey", "util.LCLoadPrivKey"} {
				args := []Value{VInt{cls[k]}, id}
				if strings.HasSuffix(f, "PrivKey") {
					args = append(args, secret)
				}
				for _, o := range c.call(x, newState(), f, args...) {
					s := o.st
					if s.isNil(o.rets[1]) == -1 {
						c.ok("error-result", f+" "+k)
						continue
					}
					p, ok := o.rets[0].(VPtr)
					c.oblige("key-or-error", f+" "+k, ok && s.isNil(p) == -1 && s.isNil(o.rets[1]) == 1, func() string { return valString(o.rets[0]) + "\n" + c.path(s) })
				}
			}
		}
		c.min["key-or-error"] = 10
		c.absorb(x)
	})
}
