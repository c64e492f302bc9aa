package main

// S10: the key generation tool makes the key and alias it was asked for.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// toolRun is an abstract execution of the tool with given options
type toolRun struct {
	class, alias Value
	force        Value
}

// options models the command line: each option holds its default until the
// command line is parsed, and what the user gave afterwards
func (c *Check) options(x *Exec, t toolRun) {
	if x.ext == nil {
		x.ext = map[string]Hook{}
	}
	where := map[string]VPtr{}
	given := func(name string) Value {
		switch name {
		case "class":
			return t.class
		case "alias":
			return t.alias
		case "force":
			return t.force
		}
		return nil
	}
	declare := func(st *State, name Value, T types.Type, p *VPtr, def Value) Value {
		n, ok := litOf(contentOf(st, name))
		if !ok {
			panic(undecided{"an option whose name is computed"})
		}
		if p == nil {
			o := mkTerm("option", n)
			objType[o] = T
			p = &VPtr{Obj: o}
		}
		st.heap[p.Obj] = def
		where[n] = *p
		return *p
	}
	for _, k := range []struct {
		n string
		T types.Type
	}{{"String", types.Typ[types.String]}, {"Bool", types.Typ[types.Bool]}} {
		k := k
		x.ext["flag."+k.n] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			return ret(st, declare(st, args[0], k.T, nil, args[1]))
		}
		x.ext["flag."+k.n+"Var"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			p, ok := args[0].(VPtr)
			if !ok || len(p.Path) > 0 {
				return nil
			}
			declare(st, args[1], k.T, &p, args[2])
			return ret(st)
		}
	}
	x.ext["flag.Parse"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		for n, p := range where {
			if v := given(n); v != nil {
				st.heap[p.Obj] = v
			} else {
				st.heap[p.Obj] = symVal(mkTerm("in:option", n), objType[p.Obj])
			}
		}
		return ret(st)
	}
}

func litOf(k *Content) (string, bool) {
	if k == nil {
		return "", false
	}
	var b strings.Builder
	for _, s := range k.segs {
		if s.K != 'l' {
			return "", false
		}
		b.WriteString(s.Str)
	}
	return b.String(), true
}

func lit(s string) *Content {
	if s == "" {
		return content()
	}
	return content(Seg{K: 'l', Str: s})
}

// classNames: what the user calls the classes
var classNames = map[string]string{"CLS_NODE": "node", "CLS_CLUSTER": "cluster", "CLS_UNIVERSE": "universe", "CLS_SERVICE": "service", "CLS_FEDERATION": "federation"}

func (c *Check) tool(x *Exec, class Value) (toolRun, []Outcome) {
	fn := c.need("main.main")
	if fn == nil {
		return toolRun{}, nil
	}
	t := toolRun{class: class, alias: c.sym("alias", types.Typ[types.String]), force: c.sym("force", types.Typ[types.Bool])}
	c.options(x, t)
	var outs []Outcome
	c.guard("analysed", "main.main", func() {
		outs = x.callFn(newState(), fn, nil, nil, nil)
		c.ok("analysed", "main.main")
	})
	return t, outs
}

// exitCode of a path that ended by os.Exit
func exitCode(o Outcome) (Lin, bool) {
	evs := calls(o.st)
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].fn == "os.Exit" {
			return intOf(evs[i].args[0]), true
		}
	}
	return Lin{}, false
}

// toolHooks: what other checks decide of the functions the tool uses
func (c *Check) toolHooks(x *Exec) {
	x.snapEv = func(*Event) bool { return true }
	for _, n := range []string{"util.LCSaveKeyPair", "util.LCLoadPubKey", "util.LCLoadPrivKey"} {
		c.orErrorHook(x, n)
	}
	x.hooks["util.PromptText"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		r := symVal(st.fresh("answer"), types.Typ[types.String])
		x.note(st, "call", "util.PromptText", args, []Value{r}, site)
		return ret(st, r)
	}
	// what S06 decides
	if f := c.need("util.PromptPassphrase"); f != nil {
		x.hooks["util.PromptPassphrase"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			x.calls["contract util.PromptPassphrase"]++
			mc := &mcall{x: x, st: st, name: "util.PromptPassphrase", sig: f.Signature, args: args, site: site}
			return mc.orError(st, nilSlice, func(st *State) []Value {
				t := st.fresh("typed")
				st.push(LT(lenTerm(t)).addc(-8), false)
				return []Value{newBytes(st, "passphrase", blob(t, LT(lenTerm(t))))}
			})
		}
	}
}

func init() {
	register("S10", "abstract interpretation of the whole key generation tool for each class name, with every alias, option, answer and failure: what is saved, under which name and class, what the alias is linked to, and with which status each path ends", func(c *Check) {
		cls := c.classes()
		saved := 0
		for _, k := range sortedKeys(cls) {
			if classNames[k] == "" {
				c.fail("class-name", k, "no class name is known for it")
				continue
			}
			x := newExec(c.r)
			c.toolHooks(x)
			name := "main.main " + classNames[k]
			t, outs := c.tool(x, VStr{lit(classNames[k])})
			done := 0
			for _, o := range outs {
				s := o.st
				path := func() string { return c.path(s) }
				var made, pub, priv, link, prompt *Event
				for _, e := range calls(s) {
					switch e.fn {
					case "util.LCSaveKeyPair":
						saved++
						made, pub, priv, link = nil, nil, nil, nil
						sn := e.snap
						c.oblige("class", name, sn.eqL(intOf(e.args[0]), cls[k]), func() string {
							return "a key of class " + valString(e.args[0]) + " is saved\n" + path()
						})
						X, okX := e.args[2].(VPtr)
						D, okD := e.args[3].(VPtr)
						var key *Term
						if okX && okD {
							key, _ = pairOf(sn, x.bigInt(sn, X, nil), x.bigInt(sn, D, nil))
						}
						c.oblige("generated-pair", name, key != nil, func() string {
							return "what is saved is not the two parts of a generated key: " + valString(e.args[2]) + ", " + valString(e.args[3]) + "\n" + path()
						})
						if okX {
							n := x.bigInt(sn, X, nil)
							c.oblige("named-by-key", name, sn.eqContent(contentOf(sn, e.args[1]), hexIn("%x", bigBytes(sn, n))), func() string {
								return "the key with coordinate " + n.String() + " is saved as " + valString(e.args[1]) + "\n" + path()
							})
						}
						c.oblige("passphrase-used", name, prompt != nil && sn.isNil(prompt.rets[1]) == 1 && startsAsTyped(sn, prompt, e.args[4]), func() string {
							return "the secret is not the passphrase that was typed: " + valString(e.args[4]) + "\n" + path()
						})
						if !e.failed(s) {
							made = e
						}
					case "util.PromptPassphrase":
						prompt = e
					case "util.LCLoadPubKey":
						if made != nil && !e.failed(s) && sameKey(s, made, e) {
							pub = e
						}
					case "util.LCLoadPrivKey":
						if made != nil && !e.failed(s) && sameKey(s, made, e) && s.eqContent(contentOf(made.snap, made.args[4]), contentOf(e.snap, e.args[2])) {
							priv = e
						}
					case "os.Symlink", "os.Link", "os.Rename":
						if made == nil {
							continue
						}
						sn := e.snap
						ok := false
						for _, d := range c.call(x, sn.clone(), "util.LCGetEtcDir", VInt{cls[k]}) {
							dir := contentOf(d.st, d.rets[0])
							if dir == nil {
								continue
							}
							at := func(n *Content) *Content {
								return content(append(append(append([]Seg{}, dir.segs...), lit("/").segs...), n.segs...)...)
							}
							ok = sn.eqContent(contentOf(sn, e.args[0]), at(contentOf(made.snap, made.args[1]))) &&
								sn.eqContent(contentOf(sn, e.args[1]), at(contentOf(sn, t.alias)))
						}
						c.oblige("alias", name, ok && e.fn == "os.Symlink", func() string {
							return c.r.pos(e.site.Pos()) + ": " + e.fn + " of " + valString(e.args[0]) + " as " + valString(e.args[1]) + "\n" + path()
						})
						if ok && !e.failed(s) {
							link = e
						}
					}
				}
				code, exits := exitCode(o)
				switch {
				case o.panic != nil && !exits:
					// it crashes: not a success, and X01 and S03 are about that
				case o.panic == nil || s.eqL(code, LC(0)):
					done++
					c.oblige("success-means-done", name+" key", made != nil && pub != nil && priv != nil, func() string {
						return "it ends well although no key pair was generated, saved and loaded back\n" + path()
					})
					noAlias := s.decide(x.contentEq(s, contentOf(s, t.alias), content())) == 1
					c.oblige("success-means-done", name+" alias", noAlias || link != nil, func() string { return "it ends well although the alias was not made\n" + path() })
				default:
					c.oblige("failure-shows", name, s.ge(code.addc(-1)) && s.ge(LC(255).sub(code)), func() string {
						return "it fails with status " + code.String() + "\n" + path()
					})
				}
			}
			c.oblige("can-succeed", name, done > 0, nil)
			c.absorb(x)
		}
		// any other class
		x := newExec(c.r)
		c.toolHooks(x)
		class := c.sym("class", types.Typ[types.String])
		_, outs := c.tool(x, class)
		others := 0
		for _, o := range outs {
			known := false
			for _, n := range classNames {
				if o.st.decide(x.contentEq(o.st, contentOf(o.st, class), lit(n))) == 1 {
					known = true
				}
			}
			if known {
				continue
			}
			others++
			for _, e := range calls(o.st) {
				if e.fn == "util.LCSaveKeyPair" || changesFile(e.fn) || strings.HasPrefix(e.fn, "ecdsa.") {
					c.fail("unknown-class", "main.main", "%s for an unknown class\n%s", e.fn, c.path(o.st))
				}
			}
			code, exits := exitCode(o)
			c.oblige("unknown-class", "main.main", o.panic != nil && (!exits || o.st.ge(code.addc(-1))), func() string {
				return "an unknown class is no error\n" + c.path(o.st)
			})
		}
		c.oblige("unknown-class", "main.main", others > 0, nil)
		c.items["saves_on_paths"] = saved
		c.items["paths_with_unknown_class"] = others
		for _, r := range []string{"class", "generated-pair", "named-by-key", "passphrase-used", "alias", "failure-shows"} {
			c.min[r] = 5
		}
		c.min["success-means-done"] = 10
		c.absorb(x)
	})
}

// startsAsTyped: the secret is what was typed, padded or cut
func startsAsTyped(st *State, prompt *Event, secret Value) bool {
	typed := contentOf(prompt.snap, prompt.rets[0])
	sec := contentOf(st, secret)
	if typed == nil || sec == nil {
		return false
	}
	for _, n := range []Lin{typed.length(), sec.length()} {
		if st.ge(typed.length().sub(n)) && st.ge(sec.length().sub(n)) && st.ge(n.addc(-1)) {
			return st.eqContent(st.sub(sec, LC(0), n), st.sub(typed, LC(0), n)) ||
				st.eqContent(st.sub(sec, LC(0), n), st.sub(typed, typed.length().sub(n), n))
		}
	}
	return false
}
