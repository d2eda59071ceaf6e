package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets functions over the abstract domain: all control flow paths
// are covered, loops by a fixpoint over what changes in them, calls of
// repository functions by analysing their bodies in the context of the call.
type Engine struct {
	P      *Prog
	hists  map[histKey]int
	traces map[string]*Trace

	Models         map[string]Model            // by canonical name, before the default ones
	Inline         func(fn *ssa.Function) bool // nil: all of the repository
	NoDefault      map[string]bool             // default models which are switched off
	Record         func(ev *Event) bool        // events kept in traces; nil: all
	KeepPre        func(ev *Event) bool        // events whose preceding state is kept
	Access         func(addr *Term) bool       // loads and stores reported as events
	OnOblige       func(o *Oblig)              // safety obligations (bounds and the like)
	NoInv          bool                        // no search of loop invariants
	DropEmptyStars bool
	Threshold      int
	Immut          map[*ssa.Global]bool
	AfterCall      func(c *Call, outs []Outcome) []Outcome // after every call which is not followed into its body
	OnLock         func(c *Call, mode string)              // when a lock is taken
	Part           func(st *State) string                  // states that differ in this are never merged
	Ghost          map[string]bool                         // tags that keep loop states apart
	NoUnroll       bool                                    // no loop is followed iteration by iteration
	Preds          []func(st *State) *Term                 // facts to be tried as loop invariants
	AppendClobbers bool                                    // append may write behind the end of a slice it did not make
	GlobalVal      func(g *ssa.Global, t types.Type) *Term

	Undecided []string
	undSeen   map[string]bool
	Stat      map[string]int
	loopsOf   map[*ssa.Function]*loopInfo
	steps     int
	quiet     int
	MaxSteps  int
	FnSeen    map[*ssa.Function]bool
}

// Oblig is a condition which must hold for an operation not to panic.
type Oblig struct {
	Kind string
	OK   bool
	Fn   *ssa.Function
	Pos  token.Pos
	Desc string
	St   *State
	T    *Term
}

func NewEngine(p *Prog) *Engine {
	return &Engine{P: p, hists: map[histKey]int{}, traces: map[string]*Trace{}, Models: map[string]Model{}, NoDefault: map[string]bool{},
		undSeen: map[string]bool{}, Stat: map[string]int{}, loopsOf: map[*ssa.Function]*loopInfo{}, Threshold: 40, MaxSteps: 4000000,
		FnSeen: map[*ssa.Function]bool{}, Immut: p.immutableGlobals()}
}

func (e *Engine) undecided(pos token.Pos, format string, a ...any) {
	if e.quiet > 0 {
		return
	}
	m := fmt.Sprintf("%s: %s", e.P.Pos(pos), fmt.Sprintf(format, a...))
	if !e.undSeen[m] {
		e.undSeen[m] = true
		e.Undecided = append(e.Undecided, m)
	}
}

// Outcome is one way a call can end.
type Outcome struct {
	St    *State
	Vals  []*Term
	Panic bool
	Why   *Event // event that ended the function by panic
	Pos   token.Pos
}

type deferred struct {
	instr  *ssa.Defer
	fn     *Term // closure term, or nil
	callee *ssa.Function
	args   []*Term
}

type frame struct {
	fn     *ssa.Function
	ctx    int
	depth  int
	parent *frame
}

// PS is a state inside of a function.
type PS struct {
	st   *State
	env  map[ssa.Value]*Term
	defs []deferred
}

func (p *PS) clone() *PS {
	return &PS{st: p.st.clone(), env: cpm(p.env), defs: p.defs[:len(p.defs):len(p.defs)]}
}

type edge struct {
	from, to *ssa.BasicBlock
	ps       *PS
	phis     bool // phis of the target are already evaluated
	tag      string
	vals     []*Term
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loop
	irred bool
}

func (e *Engine) info(fn *ssa.Function) *loopInfo {
	if li, ok := e.loopsOf[fn]; ok {
		return li
	}
	li := &loopInfo{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			} else if li.num[s] <= li.num[b] {
				li.irred = true
			}
		}
	}
	e.loopsOf[fn] = li
	return li
}

// Run analyses a function from an initial state; nil arguments become parameters.
func (e *Engine) Run(fn *ssa.Function, args []*Term, st *State) []Outcome {
	if st == nil {
		st = newState(e)
	}
	if args == nil {
		args = e.Params(fn)
	}
	return e.invoke(fn, args, nil, st, &frame{})
}

// Params makes parameter terms for a function.
func (e *Engine) Params(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, mk("param", n+"@"+cname(fn), p.Type()))
	}
	return args
}

var shortMod = strings.NewReplacer(ModPath, "wpk")

// cname is the canonical name of a function, independent of type arguments.
func cname(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := shortMod.Replace(fn.String())
	// type parameters are dropped
	for {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			break
		}
		d, j := 0, i
		for ; j < len(s); j++ {
			if s[j] == '[' {
				d++
			} else if s[j] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j >= len(s) {
			break
		}
		s = s[:i] + s[j+1:]
	}
	return s
}

func (e *Engine) invoke(fn *ssa.Function, args, binds []*Term, st *State, caller *frame) []Outcome {
	e.FnSeen[fn] = true
	fr := &frame{fn: fn, depth: caller.depth + 1, parent: caller, ctx: st.hist}
	n := 0
	for f := caller; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	if n > 0 || fr.depth > 40 {
		e.undecided(fn.Pos(), "recursion through %s", fn)
		return []Outcome{{St: st, Vals: e.unknownResults(fn.Signature, st, fn)}}
	}
	if e.info(fn).irred {
		e.undecided(fn.Pos(), "irreducible control flow in %s", fn)
	}
	ps := &PS{st: st, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		ps.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			ps.env[v] = binds[i]
		} else {
			ps.env[v] = mk("freevar", v.Name()+"@"+cname(fn), v.Type())
		}
	}
	_, exits, outs := e.region(fr, fn.Blocks[0], []edge{{to: fn.Blocks[0], ps: ps, phis: true}}, nil)
	_ = exits
	return e.mergeOutcomes(outs, fn)
}

func (e *Engine) unknownResults(sig *types.Signature, st *State, tag any) []*Term {
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, mk("unk", fmt.Sprint(st.step(tag, i+100)), sig.Results().At(i).Type()))
	}
	return vals
}

// region processes the blocks of a function (or of a loop body) in reverse postorder.
func (e *Engine) region(fr *frame, start *ssa.BasicBlock, in []edge, scope *loop) (backs, exits []edge, outs []Outcome) {
	li := e.info(fr.fn)
	pend := map[*ssa.BasicBlock][]edge{start: in}
	skip := map[*ssa.BasicBlock]bool{}
	put := func(g edge) {
		if scope != nil {
			if g.to == scope.header {
				backs = append(backs, g)
				return
			}
			if !scope.blocks[g.to] {
				exits = append(exits, g)
				return
			}
		}
		pend[g.to] = append(pend[g.to], g)
	}
	for _, b := range li.rpo {
		if scope != nil && !scope.blocks[b] || skip[b] {
			continue
		}
		ins := pend[b]
		if len(ins) == 0 {
			continue
		}
		var pss []*PS
		for _, g := range ins {
			if !g.phis {
				e.evalPhis(g)
			}
			pss = append(pss, g.ps)
		}
		pss = e.mergeStates(pss, b)
		if l := li.loops[b]; l != nil && (scope == nil || scope.header != b) {
			for x := range l.blocks {
				skip[x] = true
			}
			for _, ps := range pss {
				ex, os := e.doLoop(fr, l, ps)
				outs = append(outs, os...)
				for _, g := range ex {
					put(g)
				}
			}
			continue
		}
		for _, ps := range pss {
			e.block(fr, b, 0, ps, put, &outs)
		}
	}
	return
}

func (e *Engine) evalPhis(g edge) {
	var phis []*ssa.Phi
	var vals []*Term
	idx := -1
	for i, p := range g.to.Preds {
		if p == g.from {
			idx = i
		}
	}
	for _, in := range g.to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(g.ps, phi.Edges[idx]))
	}
	for i, p := range phis {
		g.ps.env[p] = vals[i]
	}
}

// val evaluates an SSA operand.
func (e *Engine) val(ps *PS, v ssa.Value) *Term {
	if t, ok := ps.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		if b, ok := under(v.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return constTerm(constant.ToInt(v.Value), v.Type())
		} else if ok && b.Info()&types.IsFloat != 0 {
			return constTerm(constant.ToFloat(v.Value), v.Type())
		}
		return constTerm(v.Value, v.Type())
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil {
			n = shortMod.Replace(v.Pkg.Pkg.Path()) + "." + n
		}
		t := mk("global", n, v.Type())
		t.Obj = v
		return t
	case *ssa.Function:
		t := mk("func", cname(v)+fmt.Sprintf("@%p", v), v.Type())
		t.Obj = v
		return t
	case *ssa.Builtin:
		return mk("builtin", v.Name(), v.Type())
	}
	e.undecided(v.Pos(), "no value for %s (%T) in %s", v.Name(), v, v.Parent())
	return mk("unk", fmt.Sprintf("%p", v), v.Type())
}

// block executes one block from instruction i on; edges out of it are handed to put.
func (e *Engine) block(fr *frame, b *ssa.BasicBlock, i int, ps *PS, put func(edge), outs *[]Outcome) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.MaxSteps {
			if e.steps == e.MaxSteps+1 {
				e.undecided(b.Instrs[i].Pos(), "work limit exceeded in %s", fr.fn)
			}
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(ps, in.Cond)
			if v, ok := ps.st.facts.Decide(c); ok {
				k := 1
				if v {
					k = 0
				}
				put(edge{from: b, to: b.Succs[k], ps: ps})
				return
			}
			p2 := ps.clone()
			if ps.st.facts.Assume(c, true) {
				put(edge{from: b, to: b.Succs[0], ps: ps})
			}
			if p2.st.facts.Assume(c, false) {
				put(edge{from: b, to: b.Succs[1], ps: p2})
			}
			return
		case *ssa.Jump:
			put(edge{from: b, to: b.Succs[0], ps: ps})
			return
		case *ssa.Return:
			var vals []*Term
			for _, r := range in.Results {
				vals = append(vals, e.val(ps, r))
			}
			*outs = append(*outs, Outcome{St: ps.st, Vals: vals, Pos: in.Pos()})
			return
		case *ssa.Panic:
			ev := &Event{Kind: "panic", Name: "panic", Method: "panic", Args: []*Term{e.val(ps, in.X)}, Pos: in.Pos(), Fn: fr.fn, Instr: in}
			ps.st.add(ev)
			if e.obl() {
				e.OnOblige(&Oblig{Kind: "panic", Fn: fr.fn, Pos: in.Pos(), St: ps.st, T: e.val(ps, in.X), Desc: "explicit panic is reachable"})
			}
			e.unwind(fr, ps, ev, outs)
			return
		case *ssa.RunDefers:
			alive := e.runDefers(fr, ps, outs)
			if len(alive) == 0 {
				return
			}
			for _, q := range alive[1:] {
				e.block(fr, b, i+1, q, put, outs)
			}
			ps = alive[0]
		case *ssa.Call:
			os := e.doCall(fr, ps, in, &in.Call, in, false)
			var live []Outcome
			for _, o := range os {
				if o.Panic {
					q := &PS{st: o.St, env: ps.env, defs: ps.defs}
					e.unwind(fr, q, o.Why, outs)
					continue
				}
				live = append(live, o)
			}
			if len(live) == 0 {
				return
			}
			for k := 1; k < len(live); k++ {
				q := &PS{st: live[k].St, env: cpm(ps.env), defs: ps.defs[:len(ps.defs):len(ps.defs)]}
				setRes(q, in, live[k].Vals)
				e.block(fr, b, i+1, q, put, outs)
			}
			ps.st = live[0].St
			setRes(ps, in, live[0].Vals)
		case *ssa.Lookup:
			rest, found := e.tableLookup(ps, in)
			if rest == nil && found == nil {
				e.instr(fr, ps, in)
				break
			}
			live := found
			if rest != nil {
				live = append(live, rest)
			}
			for _, q := range live[1:] {
				e.block(fr, b, i+1, q, put, outs)
			}
			ps = live[0]
		case *ssa.Defer:
			d := deferred{instr: in}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(ps, a))
			}
			if in.Call.IsInvoke() || in.Call.StaticCallee() == nil {
				d.fn = e.val(ps, in.Call.Value)
			} else if mcl, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				d.fn = e.val(ps, mcl)
			}
			ps.defs = append(ps.defs[:len(ps.defs):len(ps.defs)], d)
		case *ssa.Go:
			e.undecided(in.Pos(), "go statement in %s", fr.fn)
		case *ssa.Send, *ssa.Select:
			e.undecided(in.Pos(), "channel operation in %s", fr.fn)
		default:
			e.instr(fr, ps, in)
		}
	}
}

func setRes(ps *PS, in ssa.Value, vals []*Term) {
	switch len(vals) {
	case 0:
	case 1:
		if _, ok := in.Type().(*types.Tuple); !ok {
			ps.env[in] = vals[0]
			return
		}
		fallthrough
	default:
		ps.env[in] = mk("tuple", "", in.Type(), vals...)
	}
}

// unwind runs the deferred calls of a panicking frame.
func (e *Engine) unwind(fr *frame, ps *PS, why *Event, outs *[]Outcome) {
	q := &PS{st: ps.st.clone(), env: ps.env, defs: ps.defs}
	q.st.tags["panicking"] = tTrue
	for _, p := range e.runDefers(fr, q, outs) {
		if p.st.tags["recovered"] != nil {
			e.undecided(fr.fn.Pos(), "recover is used in %s", fr.fn)
		}
		*outs = append(*outs, Outcome{St: p.st, Panic: true, Why: why})
	}
}

func (e *Engine) runDefers(fr *frame, ps *PS, outs *[]Outcome) []*PS {
	cur := []*PS{ps}
	for {
		var next []*PS
		more := false
		for _, p := range cur {
			if len(p.defs) == 0 {
				next = append(next, p)
				continue
			}
			more = true
			d := p.defs[len(p.defs)-1]
			p.defs = p.defs[: len(p.defs)-1 : len(p.defs)-1]
			var os []Outcome
			cc := &d.instr.Call
			os = e.callWith(fr, p, d.instr, cc, d.fn, d.args, true)
			for _, o := range os {
				if o.Panic {
					// the rest of the deferred calls still run
					q := &PS{st: o.St, env: p.env, defs: p.defs}
					e.unwind(fr, q, o.Why, outs)
					continue
				}
				next = append(next, &PS{st: o.St, env: p.env, defs: p.defs[:len(p.defs):len(p.defs)]})
			}
		}
		cur = next
		if !more {
			return cur
		}
	}
}

func (e *Engine) oblige(fr *frame, ps *PS, kind string, in ssa.Instruction, conds ...*Term) {
	f := ps.st.facts
	for _, c := range conds {
		if e.obl() {
			v, ok := f.Decide(c)
			e.OnOblige(&Oblig{Kind: kind, OK: ok && v, Fn: fr.fn, Pos: in.Pos(), St: ps.st, T: c, Desc: c.String()})
		}
		if c != tTrue && c != tFalse {
			f.Assume(c, true)
		}
	}
}

// room is the number of bytes of the object from an address on.
func room(p *Term) *Term {
	for p.Op == "cast" {
		p = p.Args[0]
	}
	switch p.Op {
	case "slicedata":
		sl, ok := under(p.Args[0].Typ).(*types.Slice)
		if ok && isByteT(sl.Elem()) {
			return lenT(p.Args[0])
		}
	case "strdata":
		return lenT(p.Args[0])
	case "iaddr":
		if isByteT(elemOf(p.Typ)) {
			return subT(lenT(p.Args[0]), p.Args[1], tyInt)
		}
	case "alloc", "faddr", "global":
		if t := elemOf(p.Typ); t != nil {
			return intConst(sizes.Sizeof(t), tyInt)
		}
	}
	return nil
}

// unsafeUse is an obligation that n bytes from an address on lie inside of the object.
func (e *Engine) unsafeUse(fr *frame, ps *PS, in ssa.Instruction, p, n *Term) {
	if !e.obl() {
		return
	}
	r := room(p)
	ok := false
	if r != nil {
		v, k := ps.st.facts.Decide(leT(n, r))
		ok = v && k
	}
	e.OnOblige(&Oblig{Kind: "unsafe", OK: ok, Fn: fr.fn, Pos: in.Pos(), St: ps.st, T: p, Desc: fmt.Sprintf("%v bytes are accessed at %v without a bounds check, %v are known to be there", n, p, r)})
}

func unsafePtr(p *Term) bool { return p.Op == "cast" || p.Op == "slicedata" || p.Op == "strdata" }

func (e *Engine) obl() bool { return e.OnOblige != nil && e.quiet == 0 }

func leT(a, b *Term) *Term { return notT(ltT(b, a)) }

func toIntTerm(t *Term) *Term { return t }

// instr executes an instruction without control flow.
func (e *Engine) instr(fr *frame, ps *PS, in ssa.Instruction) {
	st := ps.st
	switch in := in.(type) {
	case *ssa.Alloc:
		t := mk("alloc", fmt.Sprintf("%s:%s#%d", in.Comment, e.P.Pos(in.Pos()), st.step(in, 0)), in.Type())
		st.alloc[t] = true
		for b := range st.mem {
			if underAddr(b, t) {
				delete(st.mem, b)
			}
		}
		for b := range st.bytes {
			if underAddr(b, t) {
				delete(st.bytes, b)
			}
		}
		delete(st.hav, t)
		delete(st.bver, t)
		ps.env[in] = t
	case *ssa.UnOp:
		x := e.val(ps, in.X)
		switch in.Op {
		case token.MUL:
			if e.obl() && x.Op == "nil" {
				e.OnOblige(&Oblig{Kind: "nil", Fn: fr.fn, Pos: in.Pos(), St: st, T: x, Desc: "nil dereference"})
			}
			if e.Access != nil && e.Access(x) {
				st.add(&Event{Kind: "load", Name: aliasClass(x), Args: []*Term{x}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
			}
			if unsafePtr(x) {
				e.unsafeUse(fr, ps, in, x, intConst(sizes.Sizeof(in.Type()), tyInt))
			}
			ps.env[in] = st.load(x, in.Type())
		case token.NOT:
			ps.env[in] = notT(x)
		case token.SUB:
			if isInt(in.Type()) {
				ps.env[in] = subT(intConst(0, in.Type()), x, in.Type())
			} else if v, ok := x.constVal(); ok {
				ps.env[in] = constTerm(constant.UnaryOp(token.SUB, v, 0), in.Type())
			} else {
				ps.env[in] = mk("neg", "", in.Type(), x)
			}
		case token.XOR:
			ps.env[in] = mk("compl", tstr(under(in.Type())), in.Type(), x)
		default:
			e.undecided(in.Pos(), "channel receive in %s", fr.fn)
			ps.env[in] = mk("unk", fmt.Sprint(st.step(in, 0)), in.Type())
		}
	case *ssa.BinOp:
		a, b := e.val(ps, in.X), e.val(ps, in.Y)
		if (in.Op == token.QUO || in.Op == token.REM) && isInt(in.Type()) {
			e.oblige(fr, ps, "div", in, notT(eqT(b, intConst(0, b.Typ))))
		}
		ps.env[in] = binOp(in.Op, a, b, in.Type(), in.X.Type())
	case *ssa.Store:
		a, v := e.val(ps, in.Addr), e.val(ps, in.Val)
		if e.Access != nil && e.Access(a) {
			st.add(&Event{Kind: "store", Name: aliasClass(a), Args: []*Term{a, v}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
		}
		if unsafePtr(a) {
			e.unsafeUse(fr, ps, in, a, intConst(sizes.Sizeof(in.Val.Type()), tyInt))
		}
		st.store(a, v, in.Val.Type())
	case *ssa.FieldAddr:
		x := e.val(ps, in.X)
		pt := elemOf(in.X.Type())
		stt := under(pt).(*types.Struct)
		ps.env[in] = faddr(x, stt, in.Field, pt)
		if e.obl() && x.Op == "nil" {
			e.OnOblige(&Oblig{Kind: "nil", Fn: fr.fn, Pos: in.Pos(), St: st, T: x, Desc: "nil dereference"})
		}
	case *ssa.Field:
		x := e.val(ps, in.X)
		ps.env[in] = fieldOf(x, under(in.X.Type()).(*types.Struct), in.Field)
	case *ssa.IndexAddr:
		x, i := e.val(ps, in.X), e.val(ps, in.Index)
		n := lenT(x)
		e.oblige(fr, ps, "index", in, notT(ltT(i, intConst(0, i.Typ))), ltT(i, n))
		for x.Op == "slice" {
			i = addT(x.Args[1], i, tyInt)
			x = x.Args[0]
		}
		ps.env[in] = mk("iaddr", "", in.Type(), x, i)
	case *ssa.Index:
		x, i := e.val(ps, in.X), e.val(ps, in.Index)
		n := lenT(x)
		e.oblige(fr, ps, "index", in, notT(ltT(i, intConst(0, i.Typ))), ltT(i, n))
		ps.env[in] = indexVal(st, x, i, in.Type())
	case *ssa.Slice:
		x := e.val(ps, in.X)
		var lo, hi, max *Term
		if in.Low != nil {
			lo = e.val(ps, in.Low)
		}
		if in.High != nil {
			hi = e.val(ps, in.High)
		}
		if in.Max != nil {
			max = e.val(ps, in.Max)
		}
		l, h, m := lo, hi, max
		if l == nil {
			l = intConst(0, tyInt)
		}
		if h == nil {
			h = lenT(x)
		}
		limit := capT(x)
		if isString(in.X.Type()) {
			limit = lenT(x)
		}
		if m != nil {
			e.oblige(fr, ps, "slice", in, notT(ltT(l, intConst(0, l.Typ))), leT(l, h), leT(h, m), leT(m, limit))
		} else {
			e.oblige(fr, ps, "slice", in, notT(ltT(l, intConst(0, l.Typ))), leT(l, h), leT(h, limit))
		}
		ps.env[in] = sliceT(x, lo, hi, max, in.Type())
	case *ssa.ChangeType:
		ps.env[in] = e.val(ps, in.X)
	case *ssa.ChangeInterface:
		ps.env[in] = e.val(ps, in.X)
	case *ssa.Convert:
		ps.env[in] = e.convert(fr, ps, in, e.val(ps, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		ps.env[in] = mk("conv", tstr(in.Type()), in.Type(), e.val(ps, in.X))
	case *ssa.SliceToArrayPointer:
		x := e.val(ps, in.X)
		n := under(elemOf(in.Type())).(*types.Array).Len()
		e.oblige(fr, ps, "slice", in, leT(intConst(n, tyInt), lenT(x)))
		ps.env[in] = mk("arrptr", "", in.Type(), x)
	case *ssa.MakeInterface:
		x := e.val(ps, in.X)
		t := mk("makeiface", tstr(in.X.Type()), in.Type(), x)
		t.Obj = in.X.Type()
		ps.env[in] = t
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(ps, b))
		}
		fn := in.Fn.(*ssa.Function)
		t := mk("closure", fmt.Sprintf("%s@%p", fn.Name(), fn), in.Type(), bs...)
		t.Obj = fn
		ps.env[in] = t
	case *ssa.MakeMap:
		if e.obl() && in.Reserve != nil {
			n := e.val(ps, in.Reserve)
			e.OnOblige(&Oblig{Kind: "alloc", Fn: fr.fn, Pos: in.Pos(), St: st, T: n, Desc: "allocation of " + n.String() + " elements", OK: true})
		}
		ps.env[in] = mk("makemap", fmt.Sprint(st.step(in, 0)), in.Type())
		st.alloc[ps.env[in]] = true
	case *ssa.MakeChan:
		ps.env[in] = mk("makechan", fmt.Sprint(st.step(in, 0)), in.Type())
	case *ssa.MakeSlice:
		n, c := e.val(ps, in.Len), e.val(ps, in.Cap)
		e.oblige(fr, ps, "makeslice", in, notT(ltT(n, intConst(0, n.Typ))), leT(n, c))
		if e.obl() {
			e.OnOblige(&Oblig{Kind: "alloc", Fn: fr.fn, Pos: in.Pos(), St: st, T: c, Desc: "allocation of " + c.String() + " elements", OK: true})
		}
		t := mk("makeslice", fmt.Sprintf("%s#%d", e.P.Pos(in.Pos()), st.step(in, 0)), in.Type(), n, c)
		st.alloc[t] = true
		delete(st.bytes, t)
		delete(st.hav, t)
		delete(st.bver, t)
		ps.env[in] = t
	case *ssa.TypeAssert:
		e.typeAssert(fr, ps, in)
	case *ssa.Extract:
		t := e.val(ps, in.Tuple)
		if t.Op == "tuple" {
			ps.env[in] = t.Args[in.Index]
		} else {
			ps.env[in] = mk("res", fmt.Sprint(in.Index), in.Type(), t)
		}
	case *ssa.Lookup:
		x, k := e.val(ps, in.X), e.val(ps, in.Index)
		if isString(in.X.Type()) {
			e.oblige(fr, ps, "index", in, notT(ltT(k, intConst(0, k.Typ))), ltT(k, lenT(x)))
			ps.env[in] = indexVal(st, x, k, in.Type())
			break
		}
		if e.Access != nil && e.Access(x) {
			st.add(&Event{Kind: "maplookup", Args: []*Term{x, k}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
		}
		vt := under(in.X.Type()).(*types.Map).Elem()
		v, ok := e.mapLookup(st, x, k, vt)
		if in.CommaOk {
			ps.env[in] = mk("tuple", "", in.Type(), v, ok)
		} else {
			ps.env[in] = v
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(ps, in.Map), e.val(ps, in.Key), e.val(ps, in.Value)
		e.mapUpdate(fr, st, m, k, v, in)
	case *ssa.Range:
		ps.env[in] = mk("rangeiter", fmt.Sprint(st.step(in, 0)), in.Type(), e.val(ps, in.X))
		if e.Access != nil && e.Access(ps.env[in].Args[0]) {
			st.add(&Event{Kind: "maprange", Args: []*Term{ps.env[in].Args[0]}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
		}
	case *ssa.Next:
		it := e.val(ps, in.Iter)
		tok := fmt.Sprint(st.step(in, 0))
		tp := in.Type().(*types.Tuple)
		ok := mk("nextok", tok, tyBool, it)
		k := mk("nextkey", tok, tp.At(1).Type(), it)
		v := mk("nextval", tok, tp.At(2).Type(), it)
		if !in.IsString && len(it.Args) > 0 {
			mt, _ := under(it.Args[0].Typ).(*types.Map)
			if mt != nil {
				k = mk("nextkey", tok, mt.Key(), it)
				v = mk("nextval", tok, mt.Elem(), it)
			}
		}
		ps.env[in] = mk("tuple", "", in.Type(), ok, k, v)
	default:
		e.undecided(in.Pos(), "instruction %T is not supported in %s", in, fr.fn)
		if v, ok := in.(ssa.Value); ok {
			ps.env[v] = mk("unk", fmt.Sprint(st.step(in, 0)), v.Type())
		}
	}
}

func indexVal(st *State, x, i *Term, t types.Type) *Term {
	if x.Op == "arrv" {
		if n, ok := i.intVal(); ok && n < int64(len(x.Args)) {
			return x.Args[n]
		}
	}
	if isByteT(t) {
		if isString(x.Typ) {
			return decode(subBytes(x, i, intConst(1, tyInt)), 1, t)
		}
		if x.Op == "arr" {
			return decode(subBytes(x.Args[0], i, intConst(1, tyInt)), 1, t)
		}
	}
	return mk("index", "", t, x, i)
}

func (e *Engine) mapKeyVer(st *State, m *Term) string { return fmt.Sprint(st.bver[m]) }

func (e *Engine) mapLookup(st *State, m, k *Term, vt types.Type) (v, ok *Term) {
	if m.Op == "nil" {
		return zeroTerm(vt), tFalse
	}
	// known updates, newest first
	cells := st.bytes[m]
	for i := len(cells) - 1; i >= 0; i-- {
		c := cells[i]
		d, known := st.facts.Decide(eqT(c.off, k))
		if known && d {
			if c.val == tNilMapDel {
				return zeroTerm(vt), tFalse
			}
			return c.val, tTrue
		}
		if !known {
			aux := fmt.Sprint("m", st.bver[m], ":", i, ":", tstr(vt))
			return mk("mapget", aux, vt, m, k), mk("maphas", fmt.Sprint("m", st.bver[m], ":", i), tyBool, m, k)
		}
	}
	if m.Op == "makemap" && !st.hav[m] {
		return zeroTerm(vt), tFalse
	}
	ver := e.mapKeyVer(st, m)
	return mk("mapget", ver, vt, m, k), mk("maphas", ver, tyBool, m, k)
}

// tableLookup looks a key of an unknown value up in a table with few entries:
// a map literal of the function, or of an unexported variable that is nowhere
// changed. One path is taken per entry, and one for other keys.
func (e *Engine) tableLookup(ps *PS, in *ssa.Lookup) (rest *PS, found []*PS) {
	const most = 12
	mt, _ := under(in.X.Type()).(*types.Map)
	if mt == nil {
		return nil, nil
	}
	m, k := e.val(ps, in.X), e.val(ps, in.Index)
	var keys, vals []*Term
	if m.Op == "makemap" && !ps.st.hav[m] {
		cells := ps.st.bytes[m]
		for i := len(cells) - 1; i >= 0; i-- {
			c := cells[i]
			if c.off.Op != "const" || c.val == tNilMapDel {
				return nil, nil
			}
			keys, vals = append(keys, c.off), append(vals, c.val)
		}
	} else if ld, ok := in.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok {
			for _, r := range e.P.table(g) {
				keys, vals = append(keys, e.val(ps, r[0])), append(vals, e.val(ps, r[1]))
			}
		}
	}
	if len(keys) == 0 || len(keys) > most {
		return nil, nil
	}
	set := func(q *PS, v, ok *Term) {
		q.env[in] = v
		if in.CommaOk {
			q.env[in] = mk("tuple", "", in.Type(), v, ok)
		}
	}
	for i, key := range keys {
		eq := eqT(k, key)
		if v, ok := ps.st.facts.Decide(eq); ok {
			if v {
				set(ps, vals[i], tTrue)
				return nil, append(found, ps)
			}
			continue
		}
		q := ps.clone()
		if q.st.facts.Assume(eq, true) {
			set(q, vals[i], tTrue)
			found = append(found, q)
		}
		if !ps.st.facts.Assume(eq, false) {
			return nil, found
		}
	}
	set(ps, zeroTerm(mt.Elem()), tFalse)
	return ps, found
}

// table is the contents of an unexported map variable that only gets its
// initial value, made of constants and functions, and is only looked up.
func (p *Prog) table(g *ssa.Global) [][2]ssa.Value {
	if t, ok := p.tables[g]; ok {
		return t
	}
	if p.tables == nil {
		p.tables = map[*ssa.Global][][2]ssa.Value{}
	}
	p.tables[g] = nil
	if g.Object() == nil || g.Object().Exported() || g.Pkg == nil || !p.immutableGlobals()[g] {
		return nil
	}
	simple := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function:
			return true
		}
		return false
	}
	var made *ssa.MakeMap
	fns := append([]*ssa.Function{}, p.Fns...)
	if f := g.Pkg.Func("init"); f != nil {
		fns = append(fns, f)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr != g {
						continue
					}
					mm, ok := in.Val.(*ssa.MakeMap)
					if !ok || made != nil && made != mm {
						return nil
					}
					made = mm
				case *ssa.UnOp:
					if in.X != g {
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup:
							if r.X != in {
								return nil
							}
						case *ssa.DebugRef:
						default:
							return nil
						}
					}
				}
			}
		}
	}
	if made == nil {
		return nil
	}
	var rows [][2]ssa.Value
	for _, r := range *made.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map != made || !simple(r.Key) || !simple(r.Value) {
				return nil
			}
			rows = append(rows, [2]ssa.Value{r.Key, r.Value})
		case *ssa.Store:
			if r.Addr != g {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	p.tables[g] = rows
	return rows
}

var tNilMapDel = mk("deleted", "", nil)

func (e *Engine) mapUpdate(fr *frame, st *State, m, k, v *Term, in ssa.Instruction) {
	if e.Access == nil || e.Access(m) {
		st.add(&Event{Kind: "mapupdate", Args: []*Term{m, k, v}, Pos: in.Pos(), Fn: fr.fn, Instr: in})
	}
	c := st.bytes[m]
	st.bytes[m] = append(c[:len(c):len(c)], rng{k, nil, v})
	st.bver[m] = st.step(in, 3)
}

func (e *Engine) typeAssert(fr *frame, ps *PS, in *ssa.TypeAssert) {
	x := e.val(ps, in.X)
	var v, ok *Term
	_, toIface := under(in.AssertedType).(*types.Interface)
	if x.Op == "makeiface" {
		ct := x.Obj.(types.Type)
		if toIface {
			if types.Implements(ct, under(in.AssertedType).(*types.Interface)) {
				v, ok = x, tTrue
			} else {
				v, ok = tNil, tFalse
			}
		} else if types.Identical(ct, in.AssertedType) {
			v, ok = x.Args[0], tTrue
		} else {
			v, ok = zeroTerm(in.AssertedType), tFalse
		}
	} else if x.Op == "nil" {
		v, ok = zeroTerm(in.AssertedType), tFalse
	} else {
		v = mk("tassert", tstr(in.AssertedType), in.AssertedType, x)
		if toIface {
			v = x
		}
		ok = mk("tassertok", tstr(in.AssertedType), tyBool, x)
		ok.Obj = in.AssertedType
	}
	if in.CommaOk {
		ps.env[in] = mk("tuple", "", in.Type(), v, ok)
		return
	}
	e.oblige(fr, ps, "typeassert", in, ok)
	ps.env[in] = v
}

func (e *Engine) convert(fr *frame, ps *PS, in ssa.Instruction, x *Term, from, to types.Type) *Term {
	st := ps.st
	fu, tu := under(from), under(to)
	if tp, ok := tu.(*types.Pointer); ok {
		if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			_ = tp
			if types.Identical(under(x.Typ), tu) && x.Op != "cast" {
				return x
			}
			if x.Op == "cast" {
				x = x.Args[0]
			}
			return mk("cast", tstr(to), to, x)
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if isString(to) {
		if sl, ok := fu.(*types.Slice); ok && isByteT(sl.Elem()) {
			return strOfBytes(st.sliceBytes(x), lenT(x))
		}
		if isString(from) {
			return x
		}
		return mk("pure", "string(int)", to, x)
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		if isByteT(sl.Elem()) {
			if x.isStr("") {
				return mk("bytes", "empty", to)
			}
			t := mk("bytes", fmt.Sprintf("%s#%d", e.P.Pos(in.Pos()), st.step(in, 0)), to, x)
			st.alloc[t] = true
			delete(st.bytes, t)
			delete(st.hav, t)
			st.bytes[t] = []rng{{intConst(0, tyInt), lenT(x), x}}
			return t
		}
		return mk("pure", "runes", to, x)
	}
	return convT(x, to)
}

// strOfBytes is the string with given content.
func strOfBytes(b *Term, n *Term) *Term {
	if isString(b.Typ) {
		return b
	}
	if b.Op == "sub" && isString(b.Args[0].Typ) {
		return sliceT(b.Args[0], b.Args[1], addT(b.Args[1], b.Args[2], tyInt), nil, tyString)
	}
	t := mk("str", "", tyString, b, n)
	return t
}

func convT(x *Term, to types.Type) *Term {
	tu := under(to)
	if v, ok := x.constVal(); ok {
		b, isb := tu.(*types.Basic)
		if isb && b.Info()&types.IsInteger != 0 {
			if n, ok := x.bigVal(); ok {
				l := newLin()
				l.C.Set(n)
				return linTerm(l, to)
			}
			if v.Kind() == constant.Float {
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					return constTerm(i, to)
				}
			}
		}
		if isb && b.Info()&types.IsFloat != 0 {
			return constTerm(constant.ToFloat(v), to)
		}
	}
	if isInt(x.Typ) && isInt(to) {
		// undo a previous conversion
		y := x
		for y.Op == "conv" && isInt(y.Args[0].Typ) {
			w, _ := intKind(y.Typ)
			tw, _ := intKind(to)
			if tw > w {
				break
			}
			y = y.Args[0]
		}
		x = y
		lo, hi, _ := typeRange(x.Typ)
		tlo, thi, _ := typeRange(to)
		if lo.Cmp(tlo) >= 0 && hi.Cmp(thi) <= 0 {
			return x
		}
		if x.Op == "len" || x.Op == "cap" {
			if w, _ := intKind(to); w == 64 {
				return x
			}
		}
		w, s := intKind(to)
		return mk("conv", fmt.Sprintf("%d%v", w, s), to, x)
	}
	if x.Typ != nil && types.Identical(under(x.Typ), tu) {
		return x
	}
	return mk("conv", tstr(tu), to, x)
}

func binOp(op token.Token, a, b *Term, typ, xt types.Type) *Term {
	isF := false
	if bt, ok := under(xt).(*types.Basic); ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		isF = true
	}
	switch op {
	case token.EQL:
		if isF && a == b {
			return mk("feq", "", tyBool, a, b)
		}
		return eqT(a, b)
	case token.NEQ:
		if isF && a == b {
			return notT(mk("feq", "", tyBool, a, b))
		}
		return notT(eqT(a, b))
	case token.LSS:
		return ltT(a, b)
	case token.GTR:
		return ltT(b, a)
	case token.LEQ:
		if isF {
			return mk("<=", "", tyBool, a, b)
		}
		return notT(ltT(b, a))
	case token.GEQ:
		if isF {
			return mk("<=", "", tyBool, b, a)
		}
		return notT(ltT(a, b))
	}
	va, ca := a.constVal()
	vb, cb := b.constVal()
	switch op {
	case token.ADD:
		if isString(typ) {
			return concatT(a, b)
		}
		if isInt(typ) {
			return joinBytes(addT(a, b, typ), typ)
		}
	case token.SUB:
		if isInt(typ) {
			return subT(a, b, typ)
		}
	case token.MUL:
		if isInt(typ) {
			if ca {
				a, b, ca, cb = b, a, cb, ca
			}
			if cb {
				n, _ := b.bigVal()
				if a.Op == "div" && isUnsigned(typ) {
					if d, ok := a.Args[1].bigVal(); ok && d.Cmp(n) == 0 {
						return subT(a.Args[0], mk("mod", "", typ, a.Args[0], a.Args[1]), typ)
					}
				}
				l := newLin()
				l.add(ring(a, typ), n)
				return linTerm(l, typ)
			}
		}
	case token.QUO, token.REM:
		if isInt(typ) {
			if x, ok := a.bigVal(); ok && cb {
				if y, _ := b.bigVal(); y.Sign() != 0 {
					if op == token.QUO {
						return constTerm(constant.Make(new(big.Int).Quo(x, y)), typ)
					}
					return constTerm(constant.Make(new(big.Int).Rem(x, y)), typ)
				}
			}
			if op == token.QUO {
				if b.isInt(1) {
					return a
				}
				return mk("div", "", typ, a, b)
			}
			return mk("mod", "", typ, a, b)
		}
	case token.SHL:
		if n, ok := b.intVal(); ok && isInt(typ) && n < 64 && n >= 0 {
			if a.Op == "shr" && a.Aux == fmt.Sprint(n) && isUnsigned(typ) && n > 0 && n < 62 {
				return subT(a.Args[0], mk("mod", "", typ, a.Args[0], constTerm(constant.Make(new(big.Int).Lsh(bigOne, uint(n))), typ)), typ)
			}
			l := newLin()
			l.add(ring(a, typ), new(big.Int).Lsh(bigOne, uint(n)))
			return linTerm(l, typ)
		}
	case token.SHR:
		if n, ok := b.intVal(); ok && isInt(typ) && n >= 0 && n < 62 {
			if x, ok := a.bigVal(); ok {
				return constTerm(constant.Make(new(big.Int).Rsh(x, uint(n))), typ)
			}
			if isUnsigned(typ) || true {
				return mk("shr", fmt.Sprint(n), typ, a)
			}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if ca && cb && va.Kind() == constant.Int && vb.Kind() == constant.Int {
			return constTerm(constant.BinaryOp(va, op, vb), typ)
		}
		if ca && op != token.AND_NOT {
			a, b = b, a
		}
		// the low bits of an unsigned number are a remainder
		if m, ok := b.bigVal(); ok && isInt(typ) && isUnsigned(typ) && m.Sign() > 0 && (op == token.AND || op == token.AND_NOT && !ca) {
			if p := new(big.Int).Add(m, bigOne); new(big.Int).And(p, m).Sign() == 0 && p.BitLen() < 63 {
				mod := mk("mod", "", typ, a, constTerm(constant.Make(p), typ))
				if op == token.AND {
					return mod
				}
				return subT(a, mod, typ)
			}
		}
		if op == token.AND {
			return mk("and", "", typ, a, b)
		}
		if op == token.OR && b.isInt(0) {
			return a
		}
		if op != token.AND_NOT {
			if t := joinBits(a, b, typ); t != nil {
				return t
			}
		}
		return mk("bit"+op.String(), "", typ, a, b)
	}
	if isF && ca && cb {
		return constTerm(constant.BinaryOp(va, op, vb), typ)
	}
	return mk("bin"+op.String(), "", typ, a, b)
}

// ---- merging -----------------------------------------------------------------

func (s *State) shape(t *Term) string {
	switch {
	case t.Op == "const":
		return "c" + fmt.Sprint(t.ID)
	case t.Op == "nil":
		return "n"
	case isBool(t.Typ):
		if v, ok := s.facts.Decide(t); ok {
			if v {
				return "T"
			}
			return "F"
		}
		return "?"
	}
	if t.Typ != nil {
		switch under(t.Typ).(type) {
		case *types.Interface, *types.Pointer, *types.Signature:
			e := eqT(t, tNil)
			if v, ok := s.facts.Decide(e); ok {
				if v {
					return "n"
				}
				return "N"
			}
			return "?"
		}
	}
	return "v"
}

func (s *State) skeleton() string {
	var sb strings.Builder
	if s.tr != nil {
		fmt.Fprintf(&sb, "t%d", s.tr.id)
	}
	for _, l := range s.locks {
		fmt.Fprintf(&sb, "|l%d%s", l.Addr.ID, l.Mode)
	}
	var ks []string
	for k, v := range s.tags {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v.ID))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	// cells that steer control flow
	var ms []string
	for a, v := range s.mem {
		if a.Op == "alloc" {
			sh := s.shape(v)
			if sh != "v" {
				ms = append(ms, fmt.Sprintf("%d%s", a.ID, sh))
			}
		}
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ","))
	if s.e.Part != nil {
		sb.WriteString("/" + s.e.Part(s))
	}
	return sb.String()
}

func (e *Engine) mergeStates(pss []*PS, b *ssa.BasicBlock) []*PS {
	if len(pss) <= e.Threshold {
		return pss
	}
	groups := map[string][]*PS{}
	var order []string
	for _, p := range pss {
		var sb strings.Builder
		sb.WriteString(p.st.skeleton())
		for _, d := range p.defs {
			fmt.Fprintf(&sb, "|d%p", d.instr)
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			sb.WriteString(";" + p.st.shape(p.env[phi]))
		}
		// boolean and error values in the environment
		var ks []string
		for v, t := range p.env {
			if isBool(v.Type()) || isError(v.Type()) {
				if rs := v.Referrers(); rs != nil && usedAfter(rs, b, e.info(b.Parent())) {
					ks = append(ks, v.Name()+p.st.shape(t))
				}
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		k := sb.String()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	var out []*PS
	for _, k := range order {
		g := groups[k]
		p := g[0]
		for _, q := range g[1:] {
			p = e.joinPS(p, q, b)
		}
		out = append(out, p)
	}
	e.Stat["merges"] += len(pss) - len(out)
	return out
}

func usedAfter(rs *[]ssa.Instruction, b *ssa.BasicBlock, li *loopInfo) bool {
	for _, r := range *rs {
		if li.num[r.Block()] >= li.num[b] {
			return true
		}
		for _, l := range li.loops {
			if l.blocks[b] && l.blocks[r.Block()] {
				return true
			}
		}
	}
	return false
}

func joinTerm(a, b *Term, tok int) *Term {
	if a == b {
		return a
	}
	var args []*Term
	add := func(t *Term) {
		if t.Op == "join" && t.Aux == fmt.Sprint(tok) {
			args = append(args, t.Args...)
		} else {
			args = append(args, t)
		}
	}
	add(a)
	add(b)
	t := a.Typ
	if a.Op == "nil" {
		t = b.Typ
	}
	return mk("join", fmt.Sprint(tok), t, args...)
}

func (e *Engine) joinPS(p, q *PS, at any) *PS {
	tok := 0
	st := e.joinStates(p.st, q.st, at, &tok)
	r := &PS{st: st, env: map[ssa.Value]*Term{}, defs: p.defs}
	for v, t := range p.env {
		if u, ok := q.env[v]; ok {
			j := joinTerm(t, u, tok)
			r.env[v] = j
			if j.Op == "join" {
				carry(p.st, q.st, st, t, u, j)
			}
		}
	}
	return r
}

func (e *Engine) joinStates(p, q *State, at any, tok *int) *State {
	st := p.clone()
	st.step(at, q.hist)
	*tok = st.hist
	st.facts = p.facts.intersect(q.facts)
	for a, v := range p.mem {
		u, ok := q.mem[a]
		if !ok {
			u = q.peek(a)
		}
		if u == nil {
			delete(st.mem, a)
			continue
		}
		j := joinTerm(v, u, st.hist)
		st.mem[a] = j
		if j.Op == "join" {
			carry(p, q, st, v, u, j)
		}
	}
	for a, u := range q.mem {
		if _, ok := p.mem[a]; ok {
			continue
		}
		v := p.peek(a)
		if v == nil {
			continue
		}
		st.mem[a] = joinTerm(v, u, st.hist)
	}
	for a := range st.bytes {
		if !sameCells(p.bytes[a], q.bytes[a]) || p.bver[a] != q.bver[a] {
			delete(st.bytes, a)
			st.bver[a] = st.hist
			st.hav[a] = true
		}
	}
	for a := range q.bytes {
		if _, ok := p.bytes[a]; !ok {
			delete(st.bytes, a)
			st.bver[a] = st.hist
			st.hav[a] = true
		}
	}
	for k, v := range q.bver {
		if p.bver[k] != v {
			st.bver[k] = st.hist
		}
	}
	for k, v := range p.bver {
		if q.bver[k] != v {
			st.bver[k] = st.hist
		}
	}
	for k, v := range q.ver {
		if p.ver[k] != v {
			st.ver[k] = st.hist
		}
	}
	for k, v := range p.ver {
		if q.ver[k] != v {
			st.ver[k] = st.hist
		}
	}
	for k := range q.hav {
		st.hav[k] = true
	}
	for k := range q.alloc {
		st.alloc[k] = true
	}
	return st
}

// carry keeps decided nilness and truth of joined values.
func carry(p, q, st *State, v, u, j *Term) {
	if j.Typ == nil {
		return
	}
	if isBool(j.Typ) {
		a, ok1 := p.facts.Decide(v)
		b, ok2 := q.facts.Decide(u)
		if ok1 && ok2 && a == b {
			st.facts.Assume(j, a)
		}
		return
	}
	switch under(j.Typ).(type) {
	case *types.Interface, *types.Pointer:
		a, ok1 := p.facts.Decide(eqT(v, tNil))
		b, ok2 := q.facts.Decide(eqT(u, tNil))
		if ok1 && ok2 && a == b {
			st.facts.Assume(eqT(j, tNil), a)
		}
	case *types.Slice:
		if isErrors(j.Typ) {
			a, ok1 := p.facts.Decide(eqT(joined(v), tNil))
			b, ok2 := q.facts.Decide(eqT(joined(u), tNil))
			if ok1 && ok2 && a == b {
				st.facts.Assume(eqT(joined(j), tNil), a)
			}
		}
	}
}

func sameCells(a, b []rng) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// peek is load without a type, nil if unknown.
func (s *State) peek(a *Term) *Term {
	p, ok := under(a.Typ).(*types.Pointer)
	if !ok {
		return nil
	}
	switch under(p.Elem()).(type) {
	case *types.Struct, *types.Array:
		return nil
	}
	r := addrRoot(a)
	if freshRoot(r) && !s.alloc[r] {
		return nil
	}
	return s.clone().load(a, p.Elem())
}

func (e *Engine) mergeOutcomes(outs []Outcome, fn *ssa.Function) []Outcome {
	if len(outs) <= e.Threshold {
		return outs
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		k := o.St.skeleton()
		if o.Panic {
			k += "P"
			if o.Why != nil {
				k += fmt.Sprint(o.Why.Pos, o.Why.Name)
			}
		}
		for _, v := range o.Vals {
			k += ";" + o.St.shape(v)
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		o := g[0]
		for _, q := range g[1:] {
			tok := 0
			st := e.joinStates(o.St, q.St, fn, &tok)
			n := Outcome{St: st, Panic: o.Panic, Why: o.Why, Pos: o.Pos}
			for i := range o.Vals {
				j := joinTerm(o.Vals[i], q.Vals[i], tok)
				if j.Op == "join" {
					carry(o.St, q.St, st, o.Vals[i], q.Vals[i], j)
				}
				n.Vals = append(n.Vals, j)
			}
			o = n
		}
		res = append(res, o)
	}
	e.Stat["merges"] += len(outs) - len(res)
	return res
}
