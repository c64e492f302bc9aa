package main

// Key files: secrecy, verification before use, paths, passphrases, the key
// generation tool, and saving and loading as inverses.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type saveInput struct {
	class     string
	cls       Lin
	id        Value
	pub, priv Lin
	secret    VSlice
}

// saveArgs are arbitrary arguments for saving a key pair of a class
func (c *Check) saveArgs(st *State, class string, cls Lin) (saveInput, []Value) {
	in := saveInput{class: class, cls: cls, id: c.sym("id", types.Typ[types.String]), secret: c.symBytes("secret")}
	T := c.need("util.LCSaveKeyPair").Signature.Params().At(2).Type().(*types.Pointer).Elem()
	num := func(name string) (VPtr, Lin) {
		o := mkTerm("in:" + name)
		objType[o] = T
		l := LT(setRange(mkTerm("in:"+name+":value"), big0, new(big.Int).Sub(pow2(256), big1)))
		st.heap[o] = VInt{l}
		return VPtr{Obj: o}, l
	}
	pub, pl := num("pub")
	priv, vl := num("priv")
	in.pub, in.priv = pl, vl
	return in, []Value{VInt{cls}, in.id, pub, priv, in.secret}
}

// eachSave analyses the saving of a key pair for every class
func (c *Check) eachSave(x *Exec, f func(name string, o Outcome, in saveInput)) {
	if x.snapEv == nil {
		x.snapEv = func(e *Event) bool { return true }
	}
	cls := c.classes()
	for _, k := range sortedKeys(cls) {
		st := newState()
		in, args := c.saveArgs(st, k, cls[k])
		name := "util.LCSaveKeyPair " + k
		for _, o := range c.call(x, st, "util.LCSaveKeyPair", args...) {
			f(name, o, in)
		}
	}
}

// calls are the calls of a path, in order, those of loops included
func calls(st *State) []*Event {
	var r []*Event
	for _, e := range flatten(st.events(nil)) {
		if e.kind == "call" {
			r = append(r, e)
		}
	}
	return r
}

func (e *Event) failed(st *State) bool {
	if len(e.rets) == 0 {
		return false
	}
	switch e.rets[len(e.rets)-1].(type) {
	case VStr, VInt:
		return false // not an error
	}
	return st.isNil(e.rets[len(e.rets)-1]) != 1
}

func contentOf(st *State, v Value) *Content {
	switch a := v.(type) {
	case VSlice:
		if a.Obj == nil {
			return content()
		}
		return st.norm(st.bytesOf(a))
	case VStr:
		return a.C
	case VIface:
		return contentOf(st, a.V)
	}
	return nil
}

// nonceFault: why the nonce of an encryption is not a new random one
func (in saveInput) nonceFault(st *State, e *Event) string {
	s := e.snap
	if s == nil {
		return "the encryption was not seen"
	}
	n := contentOf(s, e.args[2])
	if n == nil || len(n.segs) != 1 || n.segs[0].K != 'b' || n.segs[0].Src.op == "" ||
		!strings.HasPrefix(n.segs[0].Src.op, "random:crypto") || !n.segs[0].Off.isInt(0) {
		return "the nonce is not what was drawn from the system's random source: " + fmt.Sprint(n)
	}
	src := n.segs[0].Src
	used := 0
	for _, o := range calls(st) {
		if o.fn == "cipher.AEAD.Seal" && o.snap != nil {
			if m := contentOf(o.snap, o.args[2]); m != nil {
				for _, g := range m.segs {
					if g.K == 'b' && g.Src == src {
						used++
					}
				}
			}
		}
	}
	if used > 1 {
		return "two encryptions use the same nonce"
	}
	return ""
}

// ---------------------------------------------------------------- taint

type taint struct {
	st   *State
	hot  func(t *Term) bool
	open func(t *Term) bool // an encryption that does not protect
	seen map[interface{}]bool
	why  string
}

func (w *taint) arg(a Arg) bool {
	switch v := a.(type) {
	case Lin:
		for _, m := range v.ts {
			if w.arg(m.t) {
				return true
			}
		}
	case *Term:
		if v == nil || w.seen[v] {
			return false
		}
		w.seen[v] = true
		switch {
		case v.op == "len" || v.op == "cap" || v.op == "biglen":
			return false
		case strings.HasPrefix(v.op, "elliptic.Curve.ScalarBaseMult"), strings.HasPrefix(v.op, "signature."):
			return false // public
		case v.op == "keyval" && v.args[1] != Arg("D"), v.op == "curveparam":
			return false
		case v.op == "gcmseal":
			return w.open(v)
		}
		if w.hot(v) {
			w.why = v.String()
			return true
		}
		if val, ok := w.st.heap[v]; ok && w.value(val) {
			return true
		}
		for _, b := range v.args {
			if w.arg(b) {
				return true
			}
		}
	case *Content:
		if v == nil || w.seen[v] {
			return false
		}
		w.seen[v] = true
		for _, g := range v.segs {
			if g.V != nil && w.value(g.V) || g.Src != nil && w.arg(g.Src) || (g.K == 'u' || g.K == 's') && w.arg(g.X) || g.Body != nil && w.arg(g.Body) {
				return true
			}
		}
	case Value:
		return w.value(v)
	}
	return false
}

func (w *taint) value(v Value) bool {
	switch a := v.(type) {
	case VInt:
		return w.arg(a.L)
	case VStr:
		return w.arg(a.C)
	case VArr:
		return w.arg(a.C)
	case VSlice:
		if a.Obj == nil {
			return false
		}
		return w.arg(w.st.norm(w.st.bytesOf(a)))
	case VPtr:
		if a.Obj == nil {
			return false
		}
		if len(a.Path) > 0 {
			if _, ok := w.st.heap[a.Obj]; ok {
				return w.value(w.st.load(a))
			}
		}
		return w.arg(a.Obj)
	case VIface:
		return w.value(a.V)
	case VRVal:
		return w.value(a.V)
	case VSym:
		return w.arg(a.Tm)
	case VStruct:
		for _, f := range a.F {
			if w.value(f) {
				return true
			}
		}
	case VTuple:
		for _, f := range a.Vs {
			if f != nil && w.value(f) {
				return true
			}
		}
	case VFunc:
		for _, f := range a.Bind {
			if w.value(f) {
				return true
			}
		}
	}
	return false
}

// sink: a call that makes its arguments visible outside the process
func sink(fn string) bool {
	i := strings.Index(fn, ".")
	if i < 0 {
		return fn == "print" || fn == "println"
	}
	switch fn[:i] {
	case "os", "ioutil", "log", "syscall", "net", "exec", "http", "rpc", "unix", "bufio", "io", "slog", "tls", "smtp":
		switch fn {
		case "io.ReadFull", "io.ReadAll", "io.ReadAtLeast", "ioutil.ReadAll", "bufio.NewReader", "bufio.NewScanner":
			return false
		}
		return true
	case "fmt":
		return strings.HasPrefix(fn, "fmt.Print") || strings.HasPrefix(fn, "fmt.Fprint")
	}
	return false
}

func mentions(a Arg, st *State, op string) bool {
	w := &taint{st: st, seen: map[interface{}]bool{}, hot: func(t *Term) bool { return false }, open: func(*Term) bool { return op == "gcmseal" }}
	if op != "gcmseal" {
		w.open = func(*Term) bool { return false }
		w.hot = func(t *Term) bool { return t.op == op }
	}
	return w.arg(a)
}

// constOf: the value of an integer that is a constant
func constOf(v Value) (int64, bool) {
	if i, ok := v.(VInt); ok {
		return i.L.int()
	}
	return 0, false
}

// secrecy checks one path: what is hot reaches a sink only sealed
func (c *Check) secrecy(name string, o Outcome, hot func(t *Term) bool, key func(st *State, k *Content) bool) {
	extra := map[*Term]bool{}
	spilled := false
	isHot := func(t *Term) bool {
		return !strings.HasPrefix(t.op, "err:") && hot(t) || extra[t] || spilled && strings.HasPrefix(t.op, "havoc")
	}
	evs := calls(o.st)
	for _, e := range evs {
		st := e.snap
		if st == nil {
			st = o.st
		}
		walk := func() *taint {
			return &taint{st: st, hot: isHot, seen: map[interface{}]bool{}, open: func(t *Term) bool {
				a, ok := t.args[0].(*Term)
				if !ok || a.op != "gcm" {
					return true
				}
				b, ok := a.args[0].(*Term)
				if !ok || b.op != "aes" {
					return true
				}
				k, ok := b.args[0].(*Content)
				return !ok || !key(st, k)
			}}
		}
		if e.fn == "util.LCSaveKeyPair" {
			// as decided of the function itself, for any arguments
			where := name + " -> " + e.fn
			if e.in != nil {
				where = fname(e.in) + " -> " + e.fn
			}
			for i, what := range []string{"class", "id", "public key"} {
				w := walk()
				a := e.args[i]
				if p, ok := a.(VPtr); ok && p.Obj != nil {
					a = st.load(p) // the number itself
				}
				c.oblige("not-disclosed", where, !w.value(a), func() string {
					return c.r.pos(e.site.Pos()) + ": the " + what + " depends on " + w.why + "\n" + c.path(o.st)
				})
			}
			c.oblige("not-disclosed", where, key(st, contentOf(st, e.args[4])), func() string {
				return c.r.pos(e.site.Pos()) + ": the key is not encrypted with the passphrase\n" + c.path(o.st)
			})
			continue
		}
		hit := ""
		for _, a := range e.args {
			w := walk()
			if w.value(a) {
				hit = w.why
				if hit == "" {
					hit = "an encryption under another key"
				}
			}
		}
		if sink(e.fn) {
			where := name + " -> " + e.fn
			if e.in != nil {
				where = fname(e.in) + " -> " + e.fn
			}
			c.oblige("not-disclosed", where, hit == "", func() string {
				return c.r.pos(e.site.Pos()) + ": " + e.fn + " is given what depends on " + hit + "\n" + c.path(o.st)
			})
			// files with sealed contents
			sealed := false
			for _, a := range e.args {
				if mentions(a, st, "gcmseal") {
					sealed = true
				}
			}
			if sealed {
				perm := c.filePerm(evs, e)
				c.oblige("owner-only", where, perm == "", func() string { return c.r.pos(e.site.Pos()) + ": " + perm + "\n" + c.path(o.st) })
			}
			continue
		}
		if i := strings.Index(e.fn, "."); i > 0 && c.r.tpkgs[e.fn[:i]] != nil {
			continue // of the repository
		}
		if models[e.fn] == nil && hit != "" {
			// what an unknown call makes of it is as secret
			spilled = true
			for _, r := range e.rets {
				walkValue(r, func(a Arg) {
					switch t := a.(type) {
					case *Term:
						extra[t] = true
					case Lin:
						for _, m := range t.ts {
							extra[m.t] = true
						}
					}
				})
			}
		}
		if e.fn == "cipher.AEAD.Seal" {
			why := saveInput{}.nonceFault(o.st, e)
			c.oblige("fresh-nonce", name, why == "", func() string { return why + "\n" + c.path(o.st) })
		}
	}
	if o.panic != nil {
		return
	}
	for _, r := range o.rets {
		if s, ok := r.(VSym); ok && isErrType(s.T) {
			w := &taint{st: o.st, hot: isHot, seen: map[interface{}]bool{}, open: func(*Term) bool { return false }}
			bad := w.value(s)
			c.oblige("not-disclosed", name+" error", !bad, func() string { return "the error tells " + w.why + "\n" + c.path(o.st) })
		}
	}
}

// filePerm: why the file that e writes to may be read by others
func (c *Check) filePerm(evs []*Event, e *Event) string {
	bad := func(v Value) string {
		p, ok := constOf(v)
		if !ok {
			return "the mode of the file is not known"
		}
		if p&077 != 0 {
			return fmt.Sprintf("the file is created with mode %#o", p)
		}
		return ""
	}
	switch e.fn {
	case "ioutil.WriteFile", "os.WriteFile":
		return bad(e.args[2])
	}
	for _, v := range e.args {
		for _, o := range evs {
			if len(o.rets) == 2 && sameObject(o.rets[0], v) {
				switch o.fn {
				case "os.OpenFile":
					return bad(o.args[2])
				case "os.Create":
					return "the file is created with mode 0666"
				case "os.CreateTemp", "ioutil.TempFile":
					return ""
				}
			}
		}
	}
	return "the encrypted key goes to " + e.fn
}

func sameObject(a, b Value) bool {
	strip := func(v Value) Value {
		if f, ok := v.(VIface); ok {
			return f.V
		}
		return v
	}
	p, ok := strip(a).(VPtr)
	q, ok2 := strip(b).(VPtr)
	return ok && ok2 && p.Obj != nil && p.Obj == q.Obj
}

func init() {
	register("S01", "taint analysis on abstract executions of saving key pairs, for every class and from every entry: what depends on the private number or the secret reaches no call that writes, prints or logs, but as the plaintext of authenticated encryption under the secret with a nonce newly and wholly drawn from the system's random source; such data goes only to files created for their owner", func(c *Check) {
		x := newExec(c.r)
		snap := func(*Event) bool { return true }
		x.snapEv = snap
		hot := func(t *Term) bool {
			return strings.HasPrefix(t.op, "in:secret") || strings.HasPrefix(t.op, "in:priv") || strings.Contains(t.op, "gopass.GetPasswd") ||
				strings.HasPrefix(t.op, "havoc") && len(t.args) > 0 && strings.HasPrefix(fmt.Sprint(t.args[0]), "in:secret") ||
				t.op == "keyval" && t.args[1] == Arg("D")
		}
		sealed := 0
		c.eachSave(x, func(name string, o Outcome, in saveInput) {
			c.secrecy(name, o, hot, func(st *State, k *Content) bool { return st.eqContent(k, st.bytesOf(in.secret)) })
			for _, e := range calls(o.st) {
				if e.fn == "cipher.AEAD.Seal" {
					sealed++
				}
			}
		})
		// under a typed passphrase
		prompted := func(st *State, k *Content) bool { return mentionsPrefix(k, st, "gopass.GetPasswd") }
		cls := c.classes()
		for _, k := range sortedKeys(cls) {
			st := newState()
			_, args := c.saveArgs(st, k, cls[k])
			for _, o := range c.call(x, st, "util.LCSaveKeyPairPrompt", args[:4]...) {
				c.secrecy("util.LCSaveKeyPairPrompt "+k, o, hot, prompted)
			}
		}
		// the key generation tool
		for _, k := range []string{"CLS_NODE", "CLS_FEDERATION"} {
			y := newExec(c.r)
			y.snapEv = snap
			// saving and loading are decided above
			for _, n := range []string{"util.LCSaveKeyPair", "util.LCLoadPubKey", "util.LCLoadPrivKey"} {
				c.orErrorHook(y, n)
			}
			_, outs := c.tool(y, VStr{lit(classNames[k])})
			f := "main.main " + classNames[k]
			c.oblige("analysed", f, len(outs) > 0, nil)
			for _, o := range outs {
				c.secrecy(f, o, hot, prompted)
			}
			c.absorb(y)
		}
		// what else is given a key or a secret
		c.items["encryptions"] = sealed
		c.min["fresh-nonce"] = 10
		c.min["owner-only"] = 1
		c.min["not-disclosed"] = 10
		c.min["analysed"] = 2
		c.absorb(x)
	})

	register("S02", "abstract interpretation of loading keys from files of arbitrary content: on every path that returns a key, the last four bytes of the decoded content are entailed to be the checksum of all the others, the public coordinate is the number made of those others, and the private number that of the plaintext of an authenticated decryption that succeeded", func(c *Check) {
		x := newExec(c.r)
		cls := c.classes()
		id := c.sym("id", types.Typ[types.String])
		secret := c.symBytes("secret")
		for _, k := range sortedKeys(cls) {
			for _, f := range []string{"util.LCLoadPubKey", "util.LCLoadPrivKey"} {
				args := []Value{VInt{cls[k]}, id}
				priv := strings.HasSuffix(f, "PrivKey")
				if priv {
					args = append(args, secret)
				}
				name := f + " " + k
				c.guard("checksum-verified", name, func() {
					for _, o := range c.call(x, newState(), f, args...) {
						s := o.st
						if s.isNil(o.rets[1]) == -1 {
							continue
						}
						data, why := c.verified(x, s)
						c.oblige("checksum-verified", name, why == "", func() string { return why + "\n" + c.path(s) })
						if data == nil {
							continue
						}
						if !priv {
							l, ok := c.keyNumber(s, o.rets[0], "X")
							c.oblige("only-verified-content", name, ok && s.eqL(l, bigFrom(s, data)), func() string {
								return "the coordinate is " + l.String() + ", the verified content " + data.String() + "\n" + c.path(s)
							})
							continue
						}
						l, ok := c.keyNumber(s, o.rets[0], "D")
						n := data.length()
						good := false
						for _, e := range calls(s) {
							if e.fn != "cipher.AEAD.Open" || e.failed(s) {
								continue
							}
							aead, _ := e.args[0].(VSym)
							g := mkTerm("gcm", mkTerm("aes", s.norm(s.bytesOf(secret))), LC(12))
							pt := contentOf(s, e.rets[0])
							if ok && aead.Tm == g && s.eqContent(contentOf(s, e.args[2]), s.sub(data, LC(0), LC(12))) &&
								s.eqContent(contentOf(s, e.args[3]), s.sub(data, LC(12), n.addc(-12))) && s.eqL(l, bigFrom(s, pt)) {
								good = true
							}
						}
						c.oblige("only-verified-content", name, good, func() string {
							return "the private number " + l.String() + " is not the plaintext of an authenticated decryption of the verified content under the secret\n" + c.path(s)
						})
					}
				})
			}
		}
		c.min["checksum-verified"] = 10
		c.min["only-verified-content"] = 10
		c.absorb(x)
	})

	register("S05", "abstract interpretation of every function that uses key files, for every class and an arbitrary id: the paths given to the file system calls are compared as symbolic strings", func(c *Check) {
		x := newExec(c.r)
		x.snapEv = func(*Event) bool { return true }
		cls := c.classes()
		id := c.sym("id", types.Typ[types.String])
		idC := id.(VStr).C
		paths := map[string]*Content{}
		from := map[string]string{}
		same := func(st *State, kind, name string, p *Content) {
			if q := paths[kind]; q != nil {
				c.oblige("same-path", name, st.eqContent(q, p), func() string { return "uses " + p.String() + ", but " + from[kind] + " uses " + q.String() })
				return
			}
			paths[kind] = p
			from[kind] = name
			c.ok("same-path", name)
		}
		ks := sortedKeys(cls)
		for _, k := range ks {
			pubK, privK := k+" public", k+" private"
			// saving
			st := newState()
			_, args := c.saveArgs(st, k, cls[k])
			saved := func(name string, os []Outcome, pubOnly bool) {
				for _, o := range os {
					for _, e := range calls(o.st) {
						if !fileWrite(e.fn) || e.snap == nil {
							continue
						}
						p := contentOf(e.snap, e.args[0])
						sealed := false
						for _, a := range e.args[1:] {
							sealed = sealed || mentions(a, e.snap, "gcmseal")
						}
						if sealed {
							same(o.st, privK, name+" private", p)
						} else {
							same(o.st, pubK, name+" public", p)
						}
					}
				}
			}
			saved("util.LCSaveKeyPair "+k, c.call(x, st, "util.LCSaveKeyPair", args...), false)
			if c.r.fn("util.lc_save_pub_key") != nil {
				st := newState()
				_, args := c.saveArgs(st, k, cls[k])
				saved("util.lc_save_pub_key "+k, c.call(x, st, "util.lc_save_pub_key", args[:3]...), true)
			}
			for _, f := range []string{"util.LCExistPubKey", "util.LCExistPrivKey", "util.LCLoadPubKey", "util.LCLoadPrivKey"} {
				args := []Value{VInt{cls[k]}, id}
				kind := pubK
				if strings.Contains(f, "Priv") {
					kind = privK
				}
				if f == "util.LCLoadPrivKey" {
					args = append(args, c.symBytes("secret"))
				}
				used := 0
				for _, o := range c.call(x, newState(), f, args...) {
					if strings.Contains(f, "Exist") && o.panic == nil && c.isTrue(o.st, o.rets[0], true) {
						missing := ""
						for _, e := range calls(o.st) {
							if e.failed(o.st) {
								missing = e.fn
							}
						}
						c.oblige("exists", f+" "+k, missing == "", func() string { return "said to exist although " + missing + " failed\n" + c.path(o.st) })
					}
					for _, e := range calls(o.st) {
						if e.snap == nil || !strings.HasPrefix(e.fn, "os.") && !strings.HasPrefix(e.fn, "ioutil.") || len(e.args) == 0 {
							continue
						}
						if _, ok := e.args[0].(VStr); ok {
							used++
							same(o.st, kind, f+" "+k, contentOf(e.snap, e.args[0]))
						}
					}
				}
				c.oblige("uses-file", f+" "+k, used > 0, func() string { return "no file is looked at" })
			}
		}
		// a path is literal text, the id, literal text
		type shape struct{ pre, post string }
		shapes := map[string]shape{}
		var kinds []string
		for _, k := range ks {
			for _, kind := range []string{k + " public", k + " private"} {
				kinds = append(kinds, kind)
				p := paths[kind]
				var s shape
				n := 0
				ok := p != nil && len(idC.segs) == 1
				if ok {
					for i, g := range p.segs {
						switch {
						case g.K == 'l' && n == 0:
							s.pre += g.Str
						case g.K == 'l':
							s.post += g.Str
						case segKey(&p.segs[i]) == segKey(&idC.segs[0]):
							n++
						default:
							ok = false
						}
					}
				}
				c.oblige("contains-id", kind, ok && n == 1, func() string { return "the path is " + fmt.Sprint(p) })
				shapes[kind] = s
			}
		}
		for i, a := range kinds {
			for _, b := range kinds[:i] {
				sa, sb := shapes[a], shapes[b]
				c.oblige("distinct", b+" / "+a, literalsDiffer(sa.pre, sb.pre, false) || literalsDiffer(sa.post, sb.post, true), func() string {
					return fmt.Sprintf("%v and %v may be the same", paths[a], paths[b])
				})
			}
		}
		// an unknown class
		other := c.sym("cls", types.Typ[types.Int])
		var cs []*Cond
		for _, k := range ks {
			cs = append(cs, condEQ(intOf(other).sub(cls[k])).not())
		}
		for _, f := range []string{"util.LCSaveKeyPair", "util.LCExistPubKey", "util.LCExistPrivKey", "util.LCLoadPubKey", "util.LCLoadPrivKey"} {
			fn := c.need(f)
			if fn == nil {
				continue
			}
			for _, st := range given(newState(), cs...) {
				var args []Value
				if f == "util.LCSaveKeyPair" {
					_, args = c.saveArgs(st, "", LC(0))
				} else {
					args = c.argsOf(fn)
				}
				args[0] = other
				args[1] = id
				c.guard("unknown-class", f, func() {
					for _, o := range x.callFn(st, fn, args, nil, nil) {
						used := ""
						for _, e := range calls(o.st) {
							if strings.HasPrefix(e.fn, "os.") || strings.HasPrefix(e.fn, "ioutil.") {
								used = e.fn
							}
						}
						ok := used == "" && (o.panic != nil || refused(c, o))
						c.oblige("unknown-class", f, ok, func() string { return "a class that does not exist is not refused " + used + "\n" + c.path(o.st) })
					}
				})
			}
		}
		c.min["same-path"] = 30
		c.min["contains-id"] = 10
		c.min["distinct"] = 45
		c.min["unknown-class"] = 5
		c.min["exists"] = 10
		c.absorb(x)
	})

	register("S06", "abstract interpretation of prompting for passphrases with every answer of the terminal: a passphrase is returned only on paths on which the conditions hold; the callers use nothing after a refused prompt", func(c *Check) {
		x := newExec(c.r)
		fn := c.need("util.PromptPassphrase")
		if fn == nil {
			return
		}
		for _, repeat := range []bool{false, true} {
			name := fmt.Sprintf("util.PromptPassphrase repeat=%v", repeat)
			for _, o := range c.call(x, newState(), "util.PromptPassphrase", VBool{condBool(repeat)}) {
				s := o.st
				if s.isNil(o.rets[1]) == -1 {
					c.oblige("nothing-with-error", name, s.isNil(o.rets[0]) == 1, func() string { return "a passphrase and an error\n" + c.path(s) })
					continue
				}
				var typed []*Event
				for _, e := range calls(s) {
					if strings.Contains(e.fn, "gopass.GetPasswd") || strings.Contains(e.fn, "terminal.ReadPassword") {
						typed = append(typed, e)
					}
				}
				got := contentOf(s, o.rets[0])
				ok := len(typed) > 0 && got != nil
				for _, e := range typed {
					ok = ok && !e.failed(s)
				}
				c.oblige("read-without-error", name, ok, func() string { return "a passphrase is returned that was not read without error\n" + c.path(s) })
				if !ok {
					continue
				}
				c.oblige("what-was-typed", name, s.eqContent(got, contentOf(s, typed[0].rets[0])), func() string {
					return "the passphrase is not what was typed: " + got.String() + "\n" + c.path(s)
				})
				c.oblige("long-enough", name, s.ge(got.length().addc(-8)), func() string { return "the passphrase may have less than 8 bytes\n" + c.path(s) })
				if repeat {
					eq := len(typed) > 1 && s.decide(x.contentEq(s, contentOf(s, typed[0].rets[0]), contentOf(s, typed[1].rets[0]))) == 1
					c.oblige("repeated", name, eq, func() string { return "the repetition may be different\n" + c.path(s) })
				}
			}
		}
		// the callers
		for _, f := range []string{"util.LCSaveKeyPairPrompt", "util.LCLoadPrivKeyPrompt", "main.generate_key_pair"} {
			y := newExec(c.r)
			y.snapEv = func(*Event) bool { return true }
			y.hooks["util.PromptPassphrase"] = func(y *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
				bad := st.clone()
				o := st.fresh("passphrase")
				p := symVal(o, byteSlice).(VSlice)
				nonNilSlice(st, p)
				st.push(p.Len.addc(-8), false)
				e := freshErr(bad, "PromptPassphrase")
				y.note(st, "call", "util.PromptPassphrase", args, []Value{p, VNil{}}, site)
				y.note(bad, "call", "util.PromptPassphrase", args, []Value{nilSlice, e}, site)
				return []Outcome{{st: st, rets: []Value{p, VNil{}}}, {st: bad, rets: []Value{nilSlice, e}}}
			}
			fn := c.need(f)
			if fn == nil {
				continue
			}
			st := newState()
			args := c.argsOf(fn)
			if strings.HasPrefix(f, "util.LCSave") {
				_, args = c.saveArgs(st, "CLS_NODE", LC(0))
				args = args[:4]
			}
			args[0] = VInt{c.classes()["CLS_NODE"]}
			c.guard("refusal-respected", f, func() {
				for _, o := range y.callFn(st, fn, args, nil, nil) {
					s := o.st
					var prompt *Event
					for _, e := range calls(s) {
						if e.fn == "util.PromptPassphrase" {
							prompt = e
							if f == "main.generate_key_pair" {
								c.oblige("repetition-requested", f, c.isTrue(s, e.args[0], true), func() string { return "a new passphrase is not repeated\n" + c.path(s) })
							}
						} else if prompt != nil && prompt.failed(s) && (fileWrite(e.fn) || strings.HasPrefix(e.fn, "ioutil.") || e.fn == "aes.NewCipher") {
							c.fail("refusal-respected", f, "%s after the passphrase was refused\n%s", e.fn, c.path(s))
						}
					}
					if prompt == nil || !prompt.failed(s) {
						continue
					}
					n := len(o.rets) - 1
					c.oblige("refusal-respected", f, o.panic != nil || s.isNil(o.rets[n]) == -1, func() string { return "no error although the passphrase was refused\n" + c.path(s) })
				}
			})
			c.absorb(y)
		}
		c.min["read-without-error"] = 2
		c.min["long-enough"] = 2
		c.min["repeated"] = 1
		c.min["refusal-respected"] = 3
		c.min["repetition-requested"] = 1
		c.absorb(x)
	})

	register("S07", "typestate analysis on abstract executions of the key generation tool with every combination of options, answers and failures: before each call that removes, renames or links a file, the key pair was generated, saved and loaded back without error, and a removal has the user's consent", func(c *Check) {
		x := newExec(c.r)
		x.snapEv = func(*Event) bool { return true }
		for _, n := range []string{"util.LCSaveKeyPair", "util.LCLoadPubKey", "util.LCLoadPrivKey"} {
			c.orErrorHook(x, n)
		}
		x.hooks["util.PromptText"] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
			r := symVal(st.fresh("answer"), types.Typ[types.String])
			x.note(st, "call", "util.PromptText", args, []Value{r}, site)
			return ret(st, r)
		}
		cls := c.classes()
		removed := 0
		for _, k := range sortedKeys(cls) {
			name := "main.main " + classNames[k]
			tool, outs := c.tool(x, VStr{lit(classNames[k])})
			force := tool.force
			c.guard("analysed", name, func() {
				for _, o := range outs {
					c.ok("analysed", name)
					var made, pub, priv *Event
					consent := false
					for _, e := range calls(o.st) {
						switch e.fn {
						case "util.LCSaveKeyPair":
							made, pub, priv = nil, nil, nil
							if !e.failed(o.st) {
								made = e
							}
						case "util.LCLoadPubKey":
							if made != nil && !e.failed(o.st) && sameKey(o.st, made, e) {
								pub = e
							}
						case "util.LCLoadPrivKey":
							if made != nil && !e.failed(o.st) && sameKey(o.st, made, e) && o.st.eqContent(contentOf(made.snap, made.args[4]), contentOf(e.snap, e.args[2])) {
								priv = e
							}
						case "util.PromptText":
							a := contentOf(e.snap, e.rets[0])
							for _, y := range []string{"y", "Y"} {
								lit := content(Seg{K: 'l', Str: y})
								if o.st.decide(x.contentEq(o.st, a, lit)) == 1 {
									consent = true
								}
								for _, f := range []string{"strings.ToLower.0", "strings.ToUpper.0", "strings.TrimSpace.0"} {
									t := symVal(mkTerm(f, a), types.Typ[types.String])
									if o.st.decide(x.contentEq(o.st, contentOf(o.st, t), lit)) == 1 {
										consent = true
									}
								}
							}
						}
						if !changesFile(e.fn) {
							continue
						}
						removed++
						where := fname(e.in) + " -> " + e.fn + " " + k
						c.oblige("after-success", where, made != nil && pub != nil && priv != nil, func() string {
							return c.r.pos(e.site.Pos()) + ": " + e.fn + " although the new key pair was not generated, saved and loaded back\n" + c.path(o.st)
						})
						if e.fn != "os.Symlink" && e.fn != "os.Link" {
							ok := consent || force != nil && c.isTrue(o.st, force, true)
							c.oblige("with-consent", where, ok, func() string {
								return c.r.pos(e.site.Pos()) + ": " + e.fn + " without force and without the user's consent\n" + c.path(o.st)
							})
						}
					}
				}
			})
		}
		c.items["file_changes_on_paths"] = removed
		c.min["after-success"] = 10
		c.min["with-consent"] = 5
		c.absorb(x)
	})

	register("S08", "abstract interpretation of loading public keys from files of arbitrary content: on every path that returns a key both coordinates are present and the curve's own test was answered with yes for exactly them", func(c *Check) {
		x := newExec(c.r)
		cls := c.classes()
		id := c.sym("id", types.Typ[types.String])
		for _, k := range sortedKeys(cls) {
			name := "util.LCLoadPubKey " + k
			for _, o := range c.call(x, newState(), "util.LCLoadPubKey", VInt{cls[k]}, id) {
				s := o.st
				if s.isNil(o.rets[1]) == -1 {
					c.oblige("error-without-key", name, s.isNil(o.rets[0]) == 1, func() string { return "an error and a key\n" + c.path(s) })
					continue
				}
				p, ok := o.rets[0].(VPtr)
				if !ok || s.isNil(p) != -1 {
					c.fail("key-returned", name, "no error and %s\n%s", valString(o.rets[0]), c.path(s))
					continue
				}
				X, okX := c.keyNumber(s, p, "X")
				Y, okY := c.keyNumber(s, p, "Y")
				c.oblige("coordinates-present", name, okX && okY, func() string { return "a coordinate may be missing\n" + c.path(s) })
				cv := s.field(p, "Curve")
				c.oblige("curve", name, curveName(cv) == "curve:P256", func() string { return "the curve is " + valString(cv) + "\n" + c.path(s) })
				if okX && okY {
					c.oblige("on-curve", name, s.decide(condOp(mkTerm("oncurve", termOf(cv), X, Y))) == 1, func() string {
						return "the point (" + X.String() + ", " + Y.String() + ") was not found to be on the curve\n" + c.path(s)
					})
				}
			}
		}
		c.min["on-curve"] = 5
		c.min["coordinates-present"] = 5
		c.absorb(x)
	})

	register("W07", "abstract interpretation of saving an arbitrary key pair followed by loading it, the files being what was written to the same paths: on every path the private number and the public coordinate are entailed to be those that were saved", func(c *Check) {
		x := newExec(c.r)
		x.snapEv = func(*Event) bool { return true }
		type file struct{ path, data *Content }
		cls := c.classes()
		// a prompt that is answered with the secret of the pair
		answer := func(secret Value) Hook {
			return func(y *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
				y.note(st, "call", "util.PromptPassphrase", args, []Value{secret, VNil{}}, site)
				return []Outcome{{st: st, rets: []Value{secret, VNil{}}}}
			}
		}
		for _, ks := range product(sortedKeys(cls), []string{"util.LCSaveKeyPair", "util.LCSaveKeyPairPrompt"}) {
			k, saving := ks[0], ks[1]
			if c.r.fn(saving) == nil {
				continue
			}
			st := newState()
			in, args := c.saveArgs(st, k, cls[k])
			x.hooks["util.PromptPassphrase"] = answer(in.secret)
			how := ""
			if saving != "util.LCSaveKeyPair" {
				args = args[:4]
				how = " after " + saving
			}
			for _, o := range c.call(x, st, saving, args...) {
				if o.st.isNil(o.rets[0]) == -1 {
					continue
				}
				var files []file
				for _, e := range calls(o.st) {
					if (e.fn == "ioutil.WriteFile" || e.fn == "os.WriteFile") && !e.failed(o.st) {
						files = append(files, file{contentOf(e.snap, e.args[0]), contentOf(e.snap, e.args[1])})
					}
				}
				find := func(st *State, p *Content) *Content {
					for i := len(files) - 1; i >= 0; i-- {
						if st.eqContent(files[i].path, p) {
							return files[i].data
						}
					}
					return nil
				}
				y := newExec(c.r)
				y.ext = map[string]Hook{}
				rd := func(y *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
					d := find(st, contentOf(st, args[0]))
					if d == nil {
						return nil
					}
					y.calls["the file saved"]++
					return []Outcome{{st: st, rets: []Value{newBytes(st, "filebuf", d), VNil{}}}}
				}
				y.ext["ioutil.ReadFile"] = rd
				y.ext["os.ReadFile"] = rd
				y.ext["os.Stat"] = func(y *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
					if find(st, contentOf(st, args[0])) == nil {
						return nil
					}
					T := c.r.imported("os").Scope().Lookup("FileInfo").Type()
					return []Outcome{{st: st, rets: []Value{symNonNil(st, st.fresh("stat"), T), VNil{}}}}
				}
				y.hooks["util.PromptPassphrase"] = answer(in.secret)
				for _, f := range []string{"util.LCExistPubKey", "util.LCExistPrivKey"} {
					for _, l := range c.call(y, o.st.clone(), f, VInt{cls[k]}, in.id) {
						c.oblige("exists", f+" "+k+how, l.panic == nil && len(l.rets) == 1 && c.isTrue(l.st, l.rets[0], true), func() string {
							return "a key that was saved is said not to exist\n" + c.path(l.st)
						})
					}
				}
				for _, f := range []string{"util.LCLoadPubKey", "util.LCLoadPrivKey", "util.LCLoadPrivKeyPrompt"} {
					if c.r.fn(f) == nil && strings.HasSuffix(f, "Prompt") {
						continue
					}
					args := []Value{VInt{cls[k]}, in.id}
					want, fld := in.pub, "X"
					if f == "util.LCLoadPrivKey" {
						args = append(args, in.secret)
					}
					if f != "util.LCLoadPubKey" {
						want, fld = in.priv, "D"
					}
					name := f + " " + k + how
					for _, l := range c.call(y, o.st.clone(), f, args...) {
						s := l.st
						if s.isNil(l.rets[1]) != 1 {
							// a coordinate that is not one of the curve is refused
							if f == "util.LCLoadPubKey" && notOnCurve(s, in.pub) {
								c.ok("refused", name)
								continue
							}
							if f != "util.LCLoadPubKey" && authFailed(s) {
								c.fail("loads", name, "what is decrypted is not what was encrypted, with the same nonce and key\n%s", c.path(s))
								continue
							}
							c.fail("loads", name, "loading what was saved gives the error %s\n%s", valString(l.rets[1]), c.path(s))
							continue
						}
						got, ok := c.keyNumber(s, l.rets[0], fld)
						c.oblige("loads", name, ok && s.eqL(got, want), func() string {
							return "saved was " + want.String() + ", loaded is " + got.String() + "\n" + c.path(s)
						})
					}
				}
				c.absorb(y)
			}
		}
		c.min["loads"] = 30
		c.min["exists"] = 20
		c.absorb(x)
	})
}

// notOnCurve: the path found that there is no point with the coordinate
func notOnCurve(st *State, X Lin) bool {
	for _, f := range st.facts {
		if f.c.op == "op" && !f.val && (f.c.T.op == "issquare" || f.c.T.op == "oncurve") {
			return true
		}
	}
	return false
}

// authFailed: the decryption was refused
func authFailed(st *State) bool {
	for _, e := range calls(st) {
		if e.fn == "cipher.AEAD.Open" && e.failed(st) {
			return true
		}
	}
	return false
}

func sameKey(st *State, a, b *Event) bool {
	return st.eqL(intOf(a.args[0]), intOf(b.args[0])) && st.eqContent(contentOf(a.snap, a.args[1]), contentOf(b.snap, b.args[1]))
}

func fileWrite(fn string) bool {
	switch fn {
	case "ioutil.WriteFile", "os.WriteFile", "os.Create", "os.OpenFile":
		return true
	}
	return false
}

// changesFile: a call that removes, replaces or makes a directory entry
func changesFile(fn string) bool {
	switch fn {
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Symlink", "os.Link", "os.Truncate", "os.Create", "os.OpenFile", "os.WriteFile", "ioutil.WriteFile",
		"syscall.Unlink", "syscall.Rename", "syscall.Rmdir":
		return true
	}
	return false
}

// refused: an error, or no
func refused(c *Check, o Outcome) bool {
	n := len(o.rets) - 1
	if b, ok := o.rets[n].(VBool); ok {
		return c.isTrue(o.st, b, false)
	}
	return o.st.isNil(o.rets[n]) == -1
}

// literalsDiffer: strings that begin (end) with a and b cannot be the same
func literalsDiffer(a, b string, fromEnd bool) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		if fromEnd {
			x, y = a[len(a)-1-i], b[len(b)-1-i]
		}
		if x != y {
			return true
		}
	}
	return false
}

func mentionsPrefix(a Arg, st *State, prefix string) bool {
	w := &taint{st: st, seen: map[interface{}]bool{}, hot: func(t *Term) bool { return strings.HasPrefix(t.op, prefix) }, open: func(*Term) bool { return false }}
	return w.arg(a)
}

// verified gives the part of the file's decoded content that the checksum at
// its end was found to belong to
func (c *Check) verified(x *Exec, st *State) (*Content, string) {
	var data *Content
	for _, e := range calls(st) {
		if (e.fn == "ioutil.ReadFile" || e.fn == "os.ReadFile") && !e.failed(st) {
			if data != nil {
				return nil, "the file is read twice"
			}
			data = contentOf(st, e.rets[0])
		}
	}
	if data == nil {
		return nil, "the file is not read"
	}
	d := unhex(data)
	n := d.length()
	if !st.ge(n.addc(-4)) {
		return nil, "the content may be too short for a checksum"
	}
	body, sum := st.sub(d, LC(0), n.addc(-4)), st.sub(d, n.addc(-4), LC(4))
	crc := LT(mkTerm("crc32", st.norm(body)))
	// bytes
	v := LC(0)
	for i := int64(0); i < 4; i++ {
		b, ok := st.at(d, n.addc(-4+i), types.Typ[types.Uint8]).(VInt)
		if !ok {
			return body, "the checksum is not read"
		}
		v = v.mulc(256).add(b.L)
	}
	if st.eqL(v, crc) {
		return body, ""
	}
	// contents
	arr := beBytes(crc, 4)
	if st.eqContent(arr, sum) || st.decide(x.contentEq(st, arr, sum)) == 1 || st.decide(x.contentEq(st, sum, arr)) == 1 {
		return body, ""
	}
	return body, "the checksum was not found equal to that of the rest of the content"
}

// beBytes are the bytes of a number, the most significant first
func beBytes(l Lin, n int) *Content {
	var segs []Seg
	for i := n - 1; i >= 0; i-- {
		segs = append(segs, Seg{K: 'e', V: VInt{lowBits(divLin(l, pow2(8*i)), 8)}})
	}
	return content(segs...)
}

// keyNumber: the value of a number of a key
func (c *Check) keyNumber(st *State, key Value, field string) (Lin, bool) {
	p, ok := key.(VPtr)
	if !ok || p.Obj == nil {
		return LC(-1), false
	}
	v := st.field(p, field)
	if v == nil {
		return LC(-1), false
	}
	q, ok := v.(VPtr)
	if !ok || st.isNil(q) != -1 {
		return LC(-1), false
	}
	n, ok := st.load(q).(VInt)
	if !ok {
		return LC(-1), false
	}
	return n.L, true
}

func nonNilSlice(st *State, s VSlice) {
	if s.Nil != nil {
		nonNil(st, s.Nil)
	}
}

// orErrorHook: the function fails, or it does what it is for
func (c *Check) orErrorHook(x *Exec, name string) {
	f := c.need(name)
	if f == nil {
		return
	}
	x.hooks[name] = func(x *Exec, st *State, args []Value, site ssa.CallInstruction) []Outcome {
		x.calls["contract "+name]++
		mc := &mcall{x: x, st: st, name: name, sig: f.Signature, args: args, site: site}
		n := f.Signature.Results().Len()
		if n == 1 {
			bad := st.clone()
			e := freshErr(bad, name)
			mc.note(st, VNil{})
			mc.note(bad, e)
			return []Outcome{{st: st, rets: []Value{VNil{}}}, {st: bad, rets: []Value{e}}}
		}
		return mc.orError(st, VNil{}, func(st *State) []Value {
			T := f.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			o := st.fresh("loaded:" + name)
			objType[o] = T
			st.heap[o] = mc.keyStruct(st, T, o, symNonNil(st, mkTerm("curve:P256"), c.r.imported("crypto/elliptic").Scope().Lookup("Curve").Type()))
			return []Value{VPtr{Obj: o}}
		})
	}
}

// product: all the pairs
func product(a, b []string) [][2]string {
	var r [][2]string
	for _, x := range a {
		for _, y := range b {
			r = append(r, [2]string{x, y})
		}
	}
	return r
}
