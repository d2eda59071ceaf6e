package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is one call in the context of an abstract state.
type Call struct {
	e      *Engine
	fr     *frame
	st     *State
	Name   string
	Method string
	Fn     *ssa.Function // static callee, nil for interface methods and function values
	Recv   *Term
	Args   []*Term // without the receiver
	All    []*Term
	Sig    *types.Signature
	Instr  ssa.Instruction
	Pos    token.Pos
	Defer  bool
}

// Model gives the effect of a call; false means that the model does not apply.
type Model func(c *Call) ([]Outcome, bool)

func (c *Call) ret(vals ...*Term) ([]Outcome, bool) {
	return []Outcome{{St: c.st, Vals: vals}}, true
}

// resT is the type of a result.
func (c *Call) resT(i int) types.Type { return c.Sig.Results().At(i).Type() }

func (c *Call) callTerm() *Term {
	h := c.st.step(c.Instr, len(c.Name)*64+7)
	t := mk("call", fmt.Sprintf("%s#%d", c.Name, h), c.Sig.Results(), c.All...)
	t.Obj = c.Name
	return t
}

func (c *Call) results(ct *Term) []*Term {
	var vals []*Term
	for i := 0; i < c.Sig.Results().Len(); i++ {
		vals = append(vals, mk("res", fmt.Sprint(i), c.resT(i), ct))
	}
	return vals
}

func (c *Call) event(ct *Term) *Event {
	var data []*Term
	for i, a := range c.Args {
		if a == nil || a.Typ == nil || a.Op == "nil" {
			continue
		}
		if sl, ok := under(a.Typ).(*types.Slice); ok && isByteT(sl.Elem()) {
			for len(data) <= i {
				data = append(data, nil)
			}
			data[i] = c.st.sliceBytes(a)
		}
	}
	return &Event{Data: data, Kind: "call", Name: c.Name, Method: c.Method, Recv: c.Recv, Args: c.Args, Res: ct, NRes: c.Sig.Results().Len(), Sig: c.Sig, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr, Defer: c.Defer}
}

// callName of a result term.
func callName(t *Term) string {
	if t == nil {
		return ""
	}
	if t.Op == "res" {
		t = t.Args[0]
	}
	if t.Op == "call" {
		s, _ := t.Obj.(string)
		return s
	}
	if t.Op == "pure" {
		return t.Aux
	}
	return ""
}

// errOf lists the error results of an event.
func errOf(ev *Event) []*Term {
	var out []*Term
	if ev.Sig == nil || ev.Res == nil {
		return nil
	}
	for i := 0; i < ev.Sig.Results().Len(); i++ {
		if t := ev.Sig.Results().At(i).Type(); isError(t) {
			out = append(out, mk("res", fmt.Sprint(i), t, ev.Res))
		}
	}
	return out
}

// result i of an event.
func (ev *Event) result(i int) *Term {
	return mk("res", fmt.Sprint(i), ev.Sig.Results().At(i).Type(), ev.Res)
}

func (e *Engine) doCall(fr *frame, ps *PS, res ssa.Value, cc *ssa.CallCommon, in ssa.Instruction, deferred bool) []Outcome {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(ps, a))
	}
	var fn *Term
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			fn = e.val(ps, cc.Value)
		}
	} else if mcl, ok := cc.Value.(*ssa.MakeClosure); ok {
		fn = e.val(ps, mcl)
	}
	return e.callWith(fr, ps, in, cc, fn, args, deferred)
}

func (e *Engine) callWith(fr *frame, ps *PS, in ssa.Instruction, cc *ssa.CallCommon, fnT *Term, args []*Term, deferred bool) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, ps, in, b.Name(), cc, args)
	}
	c := &Call{e: e, fr: fr, st: ps.st, Sig: cc.Signature(), Instr: in, Pos: in.Pos(), Defer: deferred}
	if !c.Pos.IsValid() {
		c.Pos = cc.Pos()
	}
	if cc.IsInvoke() {
		recv := fnT
		if recv.Op == "nil" {
			if e.obl() {
				e.OnOblige(&Oblig{Kind: "nil", Fn: fr.fn, Pos: in.Pos(), St: ps.st, T: recv, Desc: "method of nil interface"})
			}
		}
		if recv.Op == "makeiface" {
			ct := recv.Obj.(types.Type)
			if m := e.P.SSA.LookupMethod(ct, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				return e.static(c, m, append([]*Term{recv.Args[0]}, args...), nil)
			}
		}
		c.Name = shortMod.Replace(cc.Method.FullName())
		c.Method = cc.Method.Name()
		c.Recv, c.Args = recv, args
		c.All = append([]*Term{recv}, args...)
		return e.external(c)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []*Term
		if fnT != nil && fnT.Op == "closure" {
			binds = fnT.Args
		}
		return e.static(c, fn, args, binds)
	}
	return e.callValue(c, fnT, args)
}

// callValue calls a function value.
func (e *Engine) callValue(c *Call, fnT *Term, args []*Term) []Outcome {
	switch fnT.Op {
	case "closure":
		return e.static(c, fnT.Obj.(*ssa.Function), args, fnT.Args)
	case "func":
		return e.static(c, fnT.Obj.(*ssa.Function), args, nil)
	case "nil":
		if e.obl() {
			e.OnOblige(&Oblig{Kind: "nil", Fn: c.fr.fn, Pos: c.Pos, St: c.st, T: fnT, Desc: "call of nil function"})
		}
	}
	c.Name, c.Method = "func value", "func value"
	c.Recv, c.Args = fnT, args
	c.All = append([]*Term{fnT}, args...)
	return e.external(c)
}

func (e *Engine) static(c *Call, fn *ssa.Function, args, binds []*Term) []Outcome {
	c.Fn = fn
	c.Name = cname(fn)
	c.Method = fn.Name()
	c.Sig = fn.Signature
	c.All = args
	c.Args = args
	if fn.Signature.Recv() != nil && len(args) > 0 {
		c.Recv, c.Args = args[0], args[1:]
	}
	if m := e.Models[c.Name]; m != nil {
		if os, ok := m(c); ok {
			return e.after(c, os)
		}
	}
	if !e.NoDefault[c.Name] {
		if m := defaultModels[c.Name]; m != nil {
			if os, ok := m(c); ok {
				return e.after(c, os)
			}
		}
	}
	if fn.Blocks != nil && (e.P.InRepo(fn) || fn.Synthetic != "") && (e.Inline == nil || e.Inline(fn)) {
		e.Stat["inlined"]++
		return e.invoke(fn, args, binds, c.st, c.fr)
	}
	return e.external(c)
}

// external is a call of code whose source is not analysed.
func (e *Engine) external(c *Call) []Outcome {
	if c.Fn == nil {
		if m := e.Models[c.Name]; m != nil {
			if os, ok := m(c); ok {
				return e.after(c, os)
			}
		}
		if !e.NoDefault[c.Name] {
			if m := defaultModels[c.Name]; m != nil {
				if os, ok := m(c); ok {
					return e.after(c, os)
				}
			}
		}
	}
	return e.after(c, e.plain(c))
}

// plain is what is known of a call without a model.
func (e *Engine) plain(c *Call) []Outcome {
	if isPure(c.Name) {
		return e.pureCall(c)
	}
	return e.opaque(c)
}

func (e *Engine) after(c *Call, outs []Outcome) []Outcome {
	if e.AfterCall != nil {
		return e.AfterCall(c, outs)
	}
	return outs
}

// TrackFailures keeps paths apart by the first fallible call that failed on them:
// the state's tag "failed" names the call. skip leaves calls out.
// soft gives the names of sentinel errors with which a call answers instead of failing.
func (e *Engine) TrackFailures(skip func(c *Call) bool, soft func(c *Call) []string) {
	e.Ghost = map[string]bool{"failed": true}
	e.AfterCall = func(c *Call, outs []Outcome) []Outcome {
		if c.Sig == nil || neverFails[c.Name] || skip != nil && skip(c) {
			return outs
		}
		k := -1
		for i := 0; i < c.Sig.Results().Len(); i++ {
			if isError(c.resT(i)) {
				k = i
			}
		}
		if k < 0 {
			return outs
		}
		var res []Outcome
		for _, o := range outs {
			if o.Panic || k >= len(o.Vals) {
				res = append(res, o)
				continue
			}
			bad := o
			bad.St = o.St.clone()
			bad.Vals = append([]*Term{}, o.Vals...)
			if soft != nil {
				for _, n := range soft(c) {
					g := o.St.load(globalT(n), o.Vals[k].Typ)
					s := o.St.clone()
					if o.Vals[k].Op != "nil" && s.facts.Assume(eqT(o.Vals[k], tNil), false) && s.facts.Assume(eqT(o.Vals[k], g), true) {
						s.facts.Assume(foldPure(mk("pure", "errors.Is", tyBool, o.Vals[k], g)), true)
						res = append(res, Outcome{St: s, Vals: o.Vals})
						bad.St.facts.Assume(eqT(o.Vals[k], g), false)
						bad.St.facts.Assume(foldPure(mk("pure", "errors.Is", tyBool, o.Vals[k], g)), false)
					}
				}
			}
			if o.Vals[k].Op != "nil" && bad.St.facts.Assume(eqT(o.Vals[k], tNil), false) {
				if bad.St.tags["failed"] == nil {
					bad.St.tags["failed"] = mk("failed", c.Name+" @"+e.P.Pos(c.Pos), nil, o.Vals[k])
				}
				res = append(res, bad)
			}
			if o.St.facts.Assume(eqT(o.Vals[k], tNil), true) {
				res = append(res, o)
			}
		}
		return res
	}
}

// globalT is the address of a package level variable holding an error.
func globalT(name string) *Term { return mk("global", name, types.NewPointer(errTyp)) }

// neverFails lists calls whose error result merely makes an error or is documented to be nil.
var neverFails = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "errors.Join": true, "errors.Unwrap": true, "(error).Error": true,
	"(*bytes.Buffer).Write": true, "(*strings.Builder).Write": true, "(*strings.Builder).WriteString": true, "(*strings.Builder).WriteByte": true,
	"(*bytes.Buffer).WriteString": true, "(*bytes.Buffer).WriteByte": true, "(hash.Hash).Write": true, "(hash.Hash32).Write": true, "(hash.Hash64).Write": true,
	"(context.Context).Err": true,
}

func (e *Engine) pureCall(c *Call) []Outcome {
	var all []*Term
	for _, a := range c.All {
		all = append(all, c.st.frozen(a))
	}
	var vals []*Term
	n := c.Sig.Results().Len()
	if n == 1 {
		vals = []*Term{foldPure(mk("pure", c.Name, c.resT(0), all...))}
	} else {
		p := mk("pure", c.Name, c.Sig.Results(), all...)
		vals = c.results(p)
	}
	for i := 0; i < n; i++ {
		if isError(c.resT(i)) {
			ev := c.event(mk("pure", c.Name, c.Sig.Results(), all...))
			if n == 1 {
				ev.Res = mk("pure1", c.Name, c.Sig.Results(), vals[0])
			}
			c.st.add(ev)
			break
		}
	}
	return []Outcome{{St: c.st, Vals: vals}}
}

// frozen replaces a byte slice by its present content, so that a pure function of it is a function of the content.
func (s *State) frozen(a *Term) *Term {
	if a.Op == "slice" || a.Op == "alloc" || a.Op == "makeslice" || a.Op == "uslice" {
		if sl, ok := under(a.Typ).(*types.Slice); ok && isByteT(sl.Elem()) {
			return mk("bytesof", "", a.Typ, s.sliceBytes(a), lenT(a))
		}
		if sl, ok := under(a.Typ).(*types.Slice); ok && a.Op == "slice" && a.Args[0].Op == "alloc" {
			// variadic arguments: the elements
			if n, ok := lenT(a).intVal(); ok && n <= 32 {
				var es []*Term
				for i := int64(0); i < n; i++ {
					es = append(es, s.load(mk("iaddr", "", types.NewPointer(sl.Elem()), a.Args[0], addT(a.Args[1], intConst(i, tyInt), tyInt)), sl.Elem()))
				}
				return mk("elems", "", a.Typ, es...)
			}
		}
	}
	return a
}

// opaque calls have unknown results and may change what they are given.
func (e *Engine) opaque(c *Call) []Outcome {
	st := c.st
	ct := c.callTerm()
	ev := c.event(ct)
	c.havoc(ct)
	st.add(ev)
	if noReturn[c.Name] {
		st.tags["stopped"] = strConst(c.Name)
		return []Outcome{{St: st, Panic: true, Why: ev}}
	}
	return []Outcome{{St: st, Vals: c.results(ct)}}
}

// havoc forgets the contents of arguments which the callee may write to.
func (c *Call) havoc(ct *Term) {
	st := c.st
	if readOnly(c.Name, c.Method) {
		return
	}
	for i, a := range c.All {
		a := a
		for a.Op == "makeiface" {
			a = a.Args[0]
		}
		if sl, ok := under(a.Typ).(*types.Slice); ok {
			if isByteT(sl.Elem()) {
				if isReader(c.Name, c.Method) {
					st.setSliceBytes(a, mk("rd", fmt.Sprint(i), nil, ct))
				} else if a.Op != "nil" {
					r, _ := byteBase(a)
					st.dropUnder(r)
				}
				continue
			}
			if a.Op == "slice" && a.Args[0].Op == "alloc" {
				// elements: pointers inside of varargs
				for b, v := range st.mem {
					if underAddr(b, a.Args[0]) {
						for v.Op == "makeiface" {
							v = v.Args[0]
						}
						if _, ok := under(v.Typ).(*types.Pointer); ok && addrRoot(v).Op == "alloc" {
							st.dropUnder(v)
						}
					}
				}
				continue
			}
			continue
		}
		switch a.Op {
		case "closure":
			if keepsClosure[c.Name] {
				continue
			}
			for _, b := range a.Args {
				if _, ok := under(b.Typ).(*types.Pointer); ok && addrRoot(b).Op == "alloc" {
					st.dropUnder(b)
				}
			}
			c.e.undecided(c.Pos, "function value is passed to %s", c.Name)
		default:
			if _, ok := under(a.Typ).(*types.Pointer); ok && a.Op != "nil" {
				if r := addrRoot(a); r.Op == "alloc" || a.Op == "faddr" || a.Op == "cast" {
					st.dropUnder(a)
				}
			}
		}
	}
}

// ---- builtins ------------------------------------------------------------------

func (e *Engine) builtin(fr *frame, ps *PS, in ssa.Instruction, name string, cc *ssa.CallCommon, args []*Term) []Outcome {
	st := ps.st
	one := func(t *Term) []Outcome { return []Outcome{{St: st, Vals: []*Term{t}}} }
	rt := func() types.Type {
		if v, ok := in.(ssa.Value); ok {
			return v.Type()
		}
		return cc.Signature().Results().At(0).Type()
	}
	switch name {
	case "len":
		switch under(args[0].Typ).(type) {
		case *types.Map, *types.Chan:
			if args[0].Op == "nil" {
				return one(intConst(0, tyInt))
			}
			return one(mk("maplen", fmt.Sprint(st.bver[args[0]]), tyInt, args[0]))
		}
		return one(lenT(args[0]))
	case "cap":
		return one(capT(args[0]))
	case "append":
		return one(e.appendT(fr, st, in, args, rt()))
	case "copy":
		dst, src := args[0], args[1]
		n := minT(st, lenT(dst), lenT(src))
		if isString(src.Typ) || isByteT(under(src.Typ).(*types.Slice).Elem()) {
			d := sliceT(dst, intConst(0, tyInt), n, nil, dst.Typ)
			var content *Term
			if isString(src.Typ) {
				content = subBytes(src, intConst(0, tyInt), n)
			} else {
				content = st.sliceBytes(sliceT(src, intConst(0, tyInt), n, nil, src.Typ))
			}
			if e.Access != nil && e.Access(dst) {
				st.add(&Event{Kind: "store", Name: "copy", Args: []*Term{dst, src}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
			}
			if dst.Op != "nil" {
				st.setSliceBytes(d, content)
			}
		} else {
			st.add(&Event{Kind: "copy", Name: "copy", Method: "copy", Args: []*Term{dst, src}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
			r, _ := byteBase(dst)
			st.dropUnder(r)
			st.mem[cellT("copyof", r)] = mk("copied", fmt.Sprint(st.bver[addrRoot(src)]), dst.Typ, src, n, dst)
		}
		return one(n)
	case "delete":
		m, k := args[0], args[1]
		if e.Access == nil || e.Access(m) {
			st.add(&Event{Kind: "mapdelete", Args: []*Term{m, k}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
		}
		c := st.bytes[m]
		st.bytes[m] = append(c[:len(c):len(c)], rng{k, nil, tNilMapDel})
		st.bver[m] = st.step(in, 4)
		return []Outcome{{St: st}}
	case "min", "max":
		t := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				t = minT(st, t, a)
			} else {
				t = mk("max", "", t.Typ, t, a)
			}
		}
		return one(t)
	case "recover":
		if st.tags["panicking"] != nil {
			st.tags["recovered"] = tTrue
		}
		return one(mk("unk", fmt.Sprint(st.step(in, 0)), rt()))
	case "SliceData":
		if args[0].Op == "s2b" {
			return one(mk("strdata", "", rt(), args[0].Args[0]))
		}
		return one(mk("slicedata", "", rt(), args[0]))
	case "StringData":
		return one(mk("strdata", "", rt(), args[0]))
	case "Slice":
		p, n := args[0], args[1]
		if pt := elemOf(cc.Args[0].Type()); pt != nil && isByteT(pt) {
			e.unsafeUse(fr, ps, in, p, n)
		} else if e.obl() {
			e.OnOblige(&Oblig{Kind: "unsafe", Fn: fr.fn, Pos: in.Pos(), St: st, T: p, Desc: "slice of other than bytes is made from a pointer"})
		}
		if p.Op == "strdata" {
			b := mk("s2b", "", rt(), p.Args[0])
			return one(sliceT(b, intConst(0, tyInt), n, nil, rt()))
		}
		if p.Op == "slicedata" {
			return one(sliceT(p.Args[0], intConst(0, tyInt), n, nil, rt()))
		}
		for p.Op == "cast" {
			p = p.Args[0]
		}
		return one(mk("uslice", "", rt(), p, n))
	case "String":
		p, n := args[0], args[1]
		e.unsafeUse(fr, ps, in, p, n)
		if p.Op == "slicedata" {
			b := sliceT(p.Args[0], intConst(0, tyInt), n, nil, p.Args[0].Typ)
			return one(strOfBytes(st.sliceBytes(b), n))
		}
		if p.Op == "strdata" {
			return one(sliceT(p.Args[0], nil, n, nil, tyString))
		}
		return one(mk("ustring", fmt.Sprint(st.step(in, 0)), tyString, p, n))
	case "print", "println":
		return []Outcome{{St: st}}
	case "clear":
		r := args[0]
		if e.Access == nil || e.Access(r) {
			st.add(&Event{Kind: "mapclear", Args: []*Term{r}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
		}
		st.bytes[r] = nil
		st.bver[r] = st.step(in, 4)
		st.dropUnder(r)
		return []Outcome{{St: st}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "panic":
		ev := &Event{Kind: "panic", Name: "panic", Method: "panic", Args: args, Pos: in.Pos(), Fn: fr.fn, Instr: in}
		st.add(ev)
		return []Outcome{{St: st, Panic: true, Why: ev}}
	}
	e.undecided(in.Pos(), "builtin %s in %s", name, fr.fn)
	if cc.Signature().Results().Len() == 0 {
		return []Outcome{{St: st}}
	}
	return one(mk("unk", fmt.Sprint(st.step(in, 0)), rt()))
}

func minT(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	if st.facts.ProveGE(b, a, 0) {
		return a
	}
	if st.facts.ProveGE(a, b, 0) {
		return b
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("min", "", a.Typ, a, b)
}

// appendT is the result of append; its parts are kept as a sequence of segments.
func (e *Engine) appendT(fr *frame, st *State, in ssa.Instruction, args []*Term, typ types.Type) (t *Term) {
	base, more := args[0], args[1]
	bytes := false
	if sl, ok := under(typ).(*types.Slice); ok {
		bytes = isByteT(sl.Elem())
	}
	var seg *Term
	switch {
	case bytes && isString(more.Typ):
		seg = more
	case bytes:
		seg = mk("seg", "", typ, st.sliceBytes(more), lenT(more))
	default:
		if st.facts.ProveEq(lenT(base), capT(base)) {
			base = st.frozen(base) // the elements are copied
		}
		seg = st.frozen(more)
		if seg.Op != "elems" && seg == more {
			seg = mk("items", fmt.Sprint(st.bver[addrRoot(more)]), typ, more)
		}
	}
	st.add(&Event{Kind: "append", Name: "append", Method: "append", Args: []*Term{base, more}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
	if bytes && e.AppendClobbers {
		n, k := lenT(base), capT(base)
		b := base
		for b.Op == "append" && b.Obj != nil {
			b, _ = b.Obj.(*Term)
		}
		if r, o := byteBase(b); b.Op != "nil" && !freshRoot(addrRoot(r)) && !st.facts.ProveEq(n, k) {
			defer st.writeBytes(r, addT(o, n, tyInt), lenT(more), mk("unk", fmt.Sprint("spare", st.step(in, 3)), nil))
		}
		defer func() {
			if t != nil && t.Op == "append" && t.Obj == nil && b.Op != "nil" && !freshRoot(addrRoot(b)) {
				t.Obj = b
			}
		}()
	}
	if bytes {
		// contents at this moment; the place where it lives is the backing array of base, if it has room
		head := mk("seg", "", typ, st.sliceBytes(base), lenT(base))
		if base.Op == "append" {
			// already a sequence, if not changed since
			r := append(append([]*Term{}, base.Args...), seg)
			if len(st.bytes[base]) == 0 && !st.hav[base] {
				return mk("append", fmt.Sprint("b", st.step(in, 1)), typ, r...)
			}
		}
		if lenT(base).isInt(0) {
			return mk("append", fmt.Sprint("b", st.step(in, 1)), typ, seg)
		}
		t := mk("append", fmt.Sprint("b", st.step(in, 1)), typ, head, seg)
		t.Obj = base
		return t
	}
	if lenT(base).isInt(0) && base.Op == "nil" {
		return mk("append", "", typ, seg)
	}
	return mk("append", "", typ, base, seg)
}

// ---- tables -----------------------------------------------------------------

var noReturn = map[string]bool{
	"(*github.com/yuin/gopher-lua.LState).RaiseError": true,
	"(*github.com/yuin/gopher-lua.LState).ArgError":   true,
	"(*github.com/yuin/gopher-lua.LState).TypeError":  true,
	"(*github.com/yuin/gopher-lua.LState).Error":      true,
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "os.Exit": true,
}

var keepsClosure = map[string]bool{
	"(*github.com/yuin/gopher-lua.LState).NewFunction": true,
	"sort.Slice": true, "sort.SliceStable": true, "sort.Search": true,
	"crypto/hmac.New": true,
}

// functions whose result depends on the arguments only and which change nothing
var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "errors": true, "bytes": true, "html": true, "net/url": true, "slices": true, "maps": true, "cmp": true}

var notPure = map[string]bool{
	"path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Abs": true, "path/filepath.EvalSymlinks": true,
	"slices.Delete": true, "slices.DeleteFunc": true, "slices.Insert": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Replace": true,
	"maps.Copy": true, "maps.DeleteFunc": true,
	"strings.NewReader": true, "bytes.NewReader": true,
	"errors.As": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "slices.SortStableFunc": true,
}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"time.Unix": true, "time.UnixMilli": true, "time.Parse": true,
	"encoding/hex.EncodeToString": true, "encoding/hex.DecodeString": true, "encoding/hex.DecodedLen": true, "encoding/hex.EncodedLen": true,
	"mime.TypeByExtension": true, "net/http.DetectContentType": true,
	"os.IsPathSeparator": true, "os.TempDir": true, "os.IsNotExist": true, "os.IsExist": true,
	"hash/crc32.MakeTable": true, "hash/crc64.MakeTable": true,
	"gopkg.in/djherbis/times.v1.Get": true,
	"io.NewSectionReader":            true, "io.NewOffsetWriter": true, "io.LimitReader": true, "io.TeeReader": true, "io.MultiWriter": true,
	"os.DirFS": true, "io/fs.ValidPath": true,
}

func isPure(name string) bool {
	if notPure[name] {
		return false
	}
	if pureFns[name] {
		return true
	}
	if i := strings.LastIndexByte(name, '.'); i > 0 && !strings.HasPrefix(name, "(") {
		if purePkgs[name[:i]] {
			return true
		}
	}
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(gopkg.in/djherbis/times.v1.Timespec).") ||
		strings.HasPrefix(name, "(time.Duration).") {
		return true
	}
	for _, p := range []string{"(*github.com/yuin/gopher-lua.LState).Check", "(*github.com/yuin/gopher-lua.LState).Opt", "(*github.com/yuin/gopher-lua.LState).Get", "(*github.com/yuin/gopher-lua.LState).To"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	switch name {
	case "(github.com/yuin/gopher-lua.LNumber).String", "(github.com/yuin/gopher-lua.LString).String", "(github.com/yuin/gopher-lua.LBool).String",
		"(github.com/yuin/gopher-lua.LValue).String", "(github.com/yuin/gopher-lua.LValue).Type", "github.com/yuin/gopher-lua.LVAsBool", "github.com/yuin/gopher-lua.LVAsString",
		"(io/fs.FileInfo).Size", "(io/fs.FileInfo).ModTime", "(io/fs.FileInfo).IsDir", "(io/fs.FileInfo).Name", "(io/fs.FileInfo).Mode",
		"(io/fs.DirEntry).IsDir", "(io/fs.DirEntry).Name", "(io/fs.DirEntry).Type", "(error).Error",
		"(io/fs.FileMode).IsDir", "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).Perm", "(io/fs.FileMode).Type":
		return true
	}
	return false
}

func isReader(name, method string) bool {
	switch method {
	case "Read", "ReadAt", "ReadFull", "ReadAtLeast":
		return true
	}
	return false
}

// readOnly tells that a callee does not write through its arguments.
func readOnly(name, method string) bool {
	switch method {
	case "Write", "WriteAt", "WriteString", "Seek", "Close", "Stat", "Sync", "Truncate", "Fd", "Name", "Readdirnames", "Lock", "Unlock", "RLock", "RUnlock",
		"MapRegion", "Sum", "NewUserData", "Push", "SetField", "SetGlobal", "SetMetatable", "RawSet", "RawSetInt", "RawSetString", "NewFunction", "OpenTagset", "NewTypeMetatable",
		"RaiseError", "ArgError", "Match", "MatchReader", "Printf", "Println", "Print", "Chtimes", "MkdirAll", "OpenFile", "Open", "Unmap", "Copy", "CopyN":
		return true
	}
	switch name {
	case "crypto/hmac.New", "hash/crc32.New", "hash/crc64.New", "hash/crc32.Checksum", "errors.Is", "bytes.NewReader":
		return true
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "fmt.") {
		return true
	}
	return false
}

var nonNilResult = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "bytes.NewReader": true, "strings.NewReader": true, "io.NewSectionReader": true,
	"crypto/hmac.New": true, "hash/crc32.New": true, "hash/crc64.New": true, "crypto/sha256.New": true,
	"hash/crc32.MakeTable": true, "hash/crc64.MakeTable": true, "io.LimitReader": true, "os.DirFS": true,
	"github.com/yuin/gopher-lua.NewState": true, "bytes.NewBuffer": true, "bufio.NewReader": true, "bufio.NewWriter": true,
	"(*github.com/yuin/gopher-lua.LState).NewUserData": true, "(*github.com/yuin/gopher-lua.LState).CreateTable": true, "(*github.com/yuin/gopher-lua.LState).NewFunction": true,
	"(*github.com/yuin/gopher-lua.LState).CheckTable": true, "(*github.com/yuin/gopher-lua.LState).CheckUserData": true,
}

// fallible constructors: the first result is nil exactly if the error is not
var openers = map[string]bool{"os.Open": true, "os.OpenFile": true, "os.Create": true, "os.Stat": true, "(*os.File).Stat": true, "os.CreateTemp": true, "(io/fs.File).Stat": true}

func init() {
	nilRule = func(f *Facts, t *Term) (bool, bool) {
		if t.Op == "res" && t.Args[0].Op == "call" && openers[callName(t)] && t.Aux == "0" {
			if v, ok := f.Decide(eqT(mk("res", "1", types.Universe.Lookup("error").Type(), t.Args[0]), tNil)); ok {
				return !v, true
			}
		}
		if t.Op == "pure" && t.Aux == "errors.Join" && len(t.Args) == 1 {
			return noErrors(f, t.Args[0])
		}
		return false, false
	}
}

// joined is what errors.Join gives for a list.
func joined(list *Term) *Term { return foldPure(mk("pure", "errors.Join", errTyp, list)) }

// noErrors tells whether all elements of a list of errors are nil.
func noErrors(f *Facts, list *Term) (bool, bool) {
	parts := []*Term{list}
	if list.Op == "append" {
		parts = list.Args
	}
	all := true
	for _, p := range parts {
		v, ok := false, false
		switch {
		case p.Op == "nil" || lenT(p).isInt(0):
			v, ok = true, true
		case p.Op == "elems":
			v, ok = true, true
			for _, x := range p.Args {
				n, known := f.Decide(eqT(x, tNil))
				if known && !n {
					return false, true
				}
				ok = ok && known
			}
		case p != list:
			v, ok = f.Decide(eqT(joined(p), tNil))
		}
		if ok && !v {
			return false, true
		}
		all = all && ok
	}
	return all, all
}

// foldPure evaluates pure functions of constants where it matters.
func foldPure(t *Term) *Term {
	s := func(i int) (string, bool) {
		if i < len(t.Args) {
			return t.Args[i].strVal()
		}
		return "", false
	}
	switch t.Aux {
	case "strings.HasPrefix":
		if a, ok := s(0); ok {
			if b, ok := s(1); ok {
				return boolTerm(strings.HasPrefix(a, b))
			}
		}
		if t.Args[1].isStr("") || t.Args[0] == t.Args[1] {
			return tTrue
		}
		if t.Args[0].Op == "concat" && t.Args[0].Args[0] == t.Args[1] {
			return tTrue
		}
	case "strings.ToLower":
		if a, ok := s(0); ok {
			return strConst(strings.ToLower(a))
		}
	case "errors.Join":
		if len(t.Args) == 1 && t.Args[0].Op == "elems" && len(t.Args[0].Args) == 0 {
			return tNil
		}
	case "strings.TrimPrefix":
		// s without prefix
	}
	return t
}
