package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func cellT(name string, r *Term) *Term { return mk("cell", name, types.NewPointer(tyInt), r) }

const unrollLimit = 300

// doLoop analyses a natural loop entered in state ps (phis of the header are evaluated).
func (e *Engine) doLoop(fr *frame, l *loop, ps *PS) (exits []edge, outs []Outcome) {
	// a loop whose condition is decided by constants is followed exactly
	cur := []*PS{ps}
	for n := 0; n < unrollLimit && len(cur) > 0 && !e.NoUnroll; n++ {
		all := true
		for _, p := range cur {
			if !e.headerConst(fr, l, p) {
				all = false
			}
		}
		if !all {
			break
		}
		var next []*PS
		for _, p := range cur {
			backs, ex, os := e.region(fr, l.header, []edge{{to: l.header, ps: p, phis: true}}, l)
			exits = append(exits, ex...)
			outs = append(outs, os...)
			for _, g := range backs {
				if !g.phis {
					e.evalPhis(g)
				}
				next = append(next, g.ps)
			}
		}
		cur = e.mergeStates(next, l.header)
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	pos := l.header.Instrs[0].Pos()
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	for _, p := range cur {
		ex, os := e.fix(fr, p, phis, l.header, pos, "loop", nil, func(h *PS) (backs []*PS, ex []edge, os []Outcome) {
			bs, ex, os := e.region(fr, l.header, []edge{{to: l.header, ps: h, phis: true}}, l)
			for _, g := range bs {
				if !g.phis {
					e.evalPhis(g)
				}
				backs = append(backs, g.ps)
			}
			return backs, ex, os
		})
		exits = append(exits, ex...)
		outs = append(outs, os...)
	}
	return exits, outs
}

// headerConst tells whether the loop's header leads to one successor by constants alone.
func (e *Engine) headerConst(fr *frame, l *loop, ps *PS) bool {
	last, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[last.Block().Succs[0]] && l.blocks[last.Block().Succs[1]] {
		return false
	}
	for _, in := range l.header.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Next, *ssa.Defer:
			if c, ok := in.(*ssa.Call); ok {
				if _, ok := c.Call.Value.(*ssa.Builtin); ok {
					continue
				}
			}
			return false
		}
	}
	q := ps.clone()
	e.quiet++
	defer func() { e.quiet-- }()
	for _, in := range l.header.Instrs[:len(l.header.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			os := e.doCall(fr, q, in, &in.Call, in, false)
			if len(os) != 1 || os[0].Panic {
				return false
			}
			q.st = os[0].St
			setRes(q, in, os[0].Vals)
		default:
			e.instr(fr, q, in)
		}
	}
	c := e.val(q, last.Cond)
	return c == tTrue || c == tFalse
}

type loopVar struct {
	phi  *ssa.Phi
	addr *Term
	term *Term // value at the loop header
	init *Term
}

// fix computes a loop invariant state and the states in which the loop is left.
// body runs one iteration from the header state.
func (e *Engine) fix(fr *frame, entry *PS, phis []*ssa.Phi, key any, pos token.Pos, kind string, deco func(s *Star),
	body func(h *PS) ([]*PS, []edge, []Outcome)) ([]edge, []Outcome) {
	e.Stat["loops"]++
	E := entry
	tok := E.st.clone().step(key, 11)
	vphi := map[*ssa.Phi]bool{}
	vmem := map[*Term]bool{}
	vbytes := map[*Term]bool{}
	vbver := map[*Term]bool{}
	vver := map[string]bool{}
	vhav := map[*Term]bool{}
	vtags := map[string]bool{}
	name := func(s string) string { return fmt.Sprintf("%s:%s#%d", e.P.Pos(pos), s, tok) }
	var vars []loopVar
	var cands []*cand
	fhook := func(st *State) {}

	header := func() *PS {
		h := E.clone()
		h.st.hist = tok
		h.st.tr = nil
		vars = nil
		for _, p := range phis {
			if vphi[p] {
				n := p.Comment
				if n == "" {
					n = p.Name()
				}
				t := mk("loop", name(n+"/"+p.Name()), p.Type())
				vars = append(vars, loopVar{phi: p, term: t, init: E.env[p]})
				h.env[p] = t
			}
		}
		var addrs []*Term
		for a := range vmem {
			addrs = append(addrs, a)
		}
		sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
		for _, a := range addrs {
			typ := elemOf(a.Typ)
			t := mk("loop", name(fmt.Sprintf("%s/%d", a, a.ID)), typ)
			init := E.st.mem[a]
			if init == nil {
				init = E.st.peek(a)
			}
			vars = append(vars, loopVar{addr: a, term: t, init: init})
			h.st.mem[a] = t
		}
		for a := range vbytes {
			delete(h.st.bytes, a)
			h.st.hav[a] = true
			h.st.bver[a] = tok
			r := addrRoot(a)
			h.st.hav[r] = true
		}
		for a := range vbver {
			h.st.bver[a] = tok
		}
		for k := range vver {
			h.st.ver[k] = tok
		}
		for a := range vhav {
			h.st.hav[a] = true
		}
		for k := range vtags {
			h.st.tags[k] = mk("loop", name("tag "+k), tyInt)
		}
		linked := map[*Term]bool{}
		for _, c := range cands {
			if c.dead {
				continue
			}
			if c.ghost != nil {
				if !linked[c.ghost] {
					linked[c.ghost] = true
					for _, v := range vars {
						if v.phi == c.x.phi && v.addr == c.x.addr {
							h.st.mem[c.ghost] = addT(convT(v.term, types.Typ[types.Int64]), c.d, types.Typ[types.Int64])
						}
					}
				}
				continue
			}
			if c.pred != nil {
				if t := c.pred(h.st); t != nil {
					h.st.facts.Assume(t, true)
				}
				continue
			}
			c.assume(h.st.facts)
		}
		fhook(h.st)
		return h
	}

	ghost := func(st *State) string {
		k := ""
		for g := range e.Ghost {
			if v := st.tags[g]; v != nil {
				k += fmt.Sprint(g, v.ID, ";")
			}
		}
		return k
	}
	g0 := ghost(E.st)
	e.quiet++
	var backs []*PS
	for round := 0; ; round++ {
		if round > 40 {
			e.undecided(pos, "loop does not stabilise")
			break
		}
		h := header()
		var h0 *PS
		h0 = h.clone()
		bs, _, _ := body(h)
		backs = bs[:0:0]
		for _, b := range bs {
			if ghost(b.st) == g0 {
				backs = append(backs, b)
			}
		}
		changed := false
		mark := func(c bool) {
			if !c {
				changed = true
			}
		}
		for _, b := range backs {
			for _, p := range phis {
				if !vphi[p] && b.env[p] != h0.env[p] {
					vphi[p] = true
					mark(false)
				}
			}
			for a, v := range h0.st.mem {
				if b.st.mem[a] != v && !vmem[a] {
					vmem[a] = true
					mark(false)
				}
			}
			for a, v := range b.st.mem {
				if _, ok := h0.st.mem[a]; ok {
					continue
				}
				r := addrRoot(a)
				if freshRoot(r) && !E.st.alloc[r] {
					continue // allocated in the iteration
				}
				if v.Op == "load" && v.Args[0] == a {
					continue // only read
				}
				if _, ok := under(elemOf(a.Typ)).(*types.Array); ok {
					continue
				}
				if usesBody(a, E, h0, tok, e) {
					// element at an address computed in the iteration
					cl := aliasClass(a)
					if !vver[cl] {
						vver[cl] = true
						mark(false)
					}
					if r := addrRoot(a); !vhav[r] {
						vhav[r] = true
						mark(false)
					}
					continue
				}
				if !vmem[a] {
					vmem[a] = true
					mark(false)
				}
			}
			for a, c := range b.st.bytes {
				r := addrRoot(a)
				if freshRoot(r) && !E.st.alloc[r] {
					continue
				}
				if a.Op == "makemap" && !E.st.alloc[a] {
					continue
				}
				if !vbytes[a] && !sameCells(c, h0.st.bytes[a]) {
					vbytes[a] = true
					mark(false)
				}
			}
			for a := range h0.st.bytes {
				if _, ok := b.st.bytes[a]; !ok && !vbytes[a] {
					vbytes[a] = true
					mark(false)
				}
			}
			for a, v := range b.st.bver {
				if !vbver[a] && h0.st.bver[a] != v {
					vbver[a] = true
					mark(false)
				}
			}
			for k, v := range b.st.ver {
				if !vver[k] && h0.st.ver[k] != v {
					vver[k] = true
					mark(false)
				}
			}
			for a := range b.st.hav {
				if !h0.st.hav[a] && !vhav[a] {
					vhav[a] = true
					mark(false)
				}
			}
			for k, v := range b.st.tags {
				if !vtags[k] && h0.st.tags[k] != v {
					vtags[k] = true
					mark(false)
				}
			}
			if len(b.st.locks) != len(h0.st.locks) {
				e.undecided(pos, "locks held differ between iterations")
			}
		}
		if changed {
			continue
		}
		// all that changes is generalised; look for invariants
		if cands == nil && !e.NoInv {
			cands = e.candidates(vars, E, backs, h0)
			if len(cands) > 0 {
				continue
			}
		}
		ok := true
		linked := map[*Term]bool{}
		for _, c := range cands {
			if c.dead || c.ghost != nil && linked[c.ghost] {
				continue
			}
			linked[c.ghost] = true
			for _, b := range backs {
				if !c.holds(b, vars, e) {
					c.dead = true
					ok = false
					break
				}
			}
		}
		if ok {
			break
		}
	}
	e.quiet--
	// final pass with the invariant
	h := header()
	hs := h.st.clone()
	bs, ex, os := body(h)
	star := &Star{ID: name(""), Kind: kind, Header: hs, Init: map[*Term]*Term{}}
	for _, v := range vars {
		star.Init[v.term] = v.init
	}
	var spill []*PS // iterations after which the analysis specific state is another one
	for _, b := range bs {
		if ghost(b.st) != g0 {
			spill = append(spill, b)
			continue
		}
		next := map[*Term]*Term{}
		for _, v := range vars {
			if v.phi != nil {
				next[v.term] = b.env[v.phi]
			} else {
				next[v.term] = b.st.mem[v.addr]
			}
		}
		star.Bodies = append(star.Bodies, Body{St: b.st, Next: next})
	}
	if deco != nil {
		deco(star)
	}
	replay := func(st *State) {
		evs := st.Events()
		st.tr = E.st.tr
		if !(star.empty() && e.DropEmptyStars) {
			st.push(&Event{Kind: "star", Name: kind, Star: star, Pos: pos, Fn: fr.fn, Locks: E.st.locks})
		}
		for _, ev := range evs {
			st.push(ev)
		}
	}
	for i := range ex {
		replay(ex[i].ps.st)
	}
	for i := range os {
		replay(os[i].St)
	}
	if len(spill) > 4 {
		groups := map[string]*PS{}
		var order []string
		for _, b := range spill {
			k := b.st.skeleton()
			if p := groups[k]; p != nil {
				groups[k] = e.joinPS(p, b, key)
			} else {
				groups[k] = b
				order = append(order, k)
			}
		}
		spill = spill[:0:0]
		for _, k := range order {
			spill = append(spill, groups[k])
		}
	}
	for _, b := range spill {
		replay(b.st)
		ex2, os2 := e.fix(fr, b, phis, key, pos, kind, deco, body)
		ex = append(ex, ex2...)
		os = append(os, os2...)
	}
	return ex, os
}

// usesBody tells whether an address depends on a value which exists only inside of the iteration.
func usesBody(a *Term, E, h *PS, tok int, e *Engine) bool {
	if a.Op == "iaddr" {
		return true
	}
	return a.any(func(x *Term) bool {
		switch x.Op {
		case "alloc", "makeslice":
			return !E.st.alloc[x]
		case "call", "nextkey", "nextval", "unk", "loop":
			return true
		}
		return false
	})
}

// cand is a candidate invariant.
type cand struct {
	lin  *LinForm // lin >= 0
	b    *Term    // or a boolean term with value
	val  bool
	dead bool

	pred func(st *State) *Term // or a condition evaluated in a state

	ghost *Term // or the value of a ghost cell: that of a variable and a difference
	x     loopVar
	d     *Term
}

func (c *cand) assume(f *Facts) {
	if c.lin != nil {
		f.addLin(c.lin)
		return
	}
	f.Assume(c.b, c.val)
}

// subst replaces loop variables by the values they have at the end of the iteration.
func substLin(l *LinForm, m map[*Term]*Term, f *Facts) *LinForm {
	r := newLin()
	r.C.Set(l.C)
	for t, k := range l.M {
		if v, ok := m[t]; ok {
			r.add(f.toInt(v), k)
			continue
		}
		if t.Op == "len" || t.Op == "cap" {
			if v, ok := m[t.Args[0]]; ok {
				if t.Op == "len" {
					r.add(f.toInt(lenT(v)), k)
				} else {
					r.add(f.toInt(capT(v)), k)
				}
				continue
			}
		}
		for v := range m {
			if t.contains(v) {
				return nil
			}
		}
		r.addTerm(t, k)
	}
	return r
}

func (c *cand) holds(b *PS, vars []loopVar, e *Engine) bool {
	m := map[*Term]*Term{}
	for _, v := range vars {
		if v.phi != nil {
			m[v.term] = b.env[v.phi]
		} else if x, ok := b.st.mem[v.addr]; ok {
			m[v.term] = x
		} else {
			m[v.term] = mk("unk", "lost", v.term.Typ)
			if c.mentions(v.term) {
				return false
			}
		}
	}
	if c.pred != nil {
		t := c.pred(b.st)
		if t == nil {
			return false
		}
		v, ok := truth(b.st, t)
		return ok && v
	}
	if c.ghost != nil {
		var x *Term
		for _, v := range vars {
			if v.phi == c.x.phi && v.addr == c.x.addr {
				x = m[v.term]
			}
		}
		y := b.st.mem[c.ghost]
		return x != nil && y != nil && eq64(b.st, y, addT(convT(x, types.Typ[types.Int64]), c.d, types.Typ[types.Int64]))
	}
	if c.lin != nil {
		l := substLin(c.lin, m, b.st.facts)
		return l != nil && b.st.facts.proveGE(l)
	}
	t := c.b
	var v *Term
	if t.Op == "==" {
		if x, ok := m[t.Args[0]]; ok {
			v = eqT(x, t.Args[1])
		} else { // the elements of a list of errors
			v = eqT(joined(m[t.Args[0].Args[0]]), t.Args[1])
		}
	} else {
		v = m[t]
	}
	r, ok := b.st.facts.Decide(v)
	return ok && r == c.val
}

func (c *cand) mentions(t *Term) bool {
	if c.lin != nil {
		for a := range c.lin.M {
			if a.contains(t) {
				return true
			}
		}
		return false
	}
	return c.b.contains(t)
}

func (e *Engine) candidates(vars []loopVar, E *PS, backs []*PS, h *PS) []*cand {
	out := []*cand{}
	f := E.st.facts
	seen := map[string]bool{}
	init := map[*Term]*Term{}
	for _, v := range vars {
		if v.init != nil {
			init[v.term] = v.init
		}
	}
	for _, y := range vars {
		if y.addr == nil || y.addr.Op != "cell" || y.init == nil || (y.addr.Aux != "bytes" && y.addr.Aux != "end") {
			continue
		}
		for _, x := range vars {
			if x.term == y.term || x.init == nil || !isInt(x.term.Typ) {
				continue
			}
			if w, _ := intKind(x.term.Typ); w == 64 {
				i64t := types.Typ[types.Int64]
				out = append(out, &cand{ghost: y.addr, x: x, d: subT(convT(y.init, i64t), convT(x.init, i64t), i64t)})
			}
		}
	}
	addLin := func(l *LinForm) {
		if len(l.M) == 0 {
			return
		}
		k := l.String()
		if seen[k] {
			return
		}
		seen[k] = true
		i := substLin(l, init, f)
		if i == nil {
			return
		}
		for t := range i.M {
			for _, v := range vars {
				if t.contains(v.term) {
					return
				}
			}
		}
		if f.proveGE(i) {
			out = append(out, &cand{lin: l})
		}
	}
	ge := func(a, b *LinForm, c int64) { // a - b + c >= 0
		l := a.clone()
		l.add(b, bigMinus)
		l.C.Add(l.C, big.NewInt(c))
		addLin(l)
	}
	// integers which change: variables and lengths of slices and strings
	type iv struct{ x, x0 *Term }
	var ivs []iv
	for _, v := range vars {
		if v.init == nil {
			continue
		}
		switch {
		case isInt(v.term.Typ):
			ivs = append(ivs, iv{v.term, v.init})
		case isString(v.term.Typ):
			ivs = append(ivs, iv{lenT(v.term), lenT(v.init)})
		default:
			switch under(v.term.Typ).(type) {
			case *types.Slice:
				ivs = append(ivs, iv{lenT(v.term), lenT(v.init)})
				if isErrors(v.term.Typ) {
					if r, ok := f.Decide(eqT(joined(v.init), tNil)); ok {
						out = append(out, &cand{b: eqT(joined(v.term), tNil), val: r})
					}
				}
			case *types.Interface, *types.Pointer, *types.Map, *types.Signature:
				n := eqT(v.term, tNil)
				if r, ok := f.Decide(eqT(v.init, tNil)); ok {
					out = append(out, &cand{b: n, val: r})
				}
			case *types.Basic:
				if isBool(v.term.Typ) {
					if r, ok := f.Decide(v.init); ok {
						out = append(out, &cand{b: v.term, val: r})
					}
				}
			}
		}
	}
	lf := func(t *Term) *LinForm {
		l := newLin()
		l.M[t] = big.NewInt(1)
		return l
	}
	for _, v := range ivs {
		x := lf(v.x)
		x0 := f.toInt(v.x0)
		ge(x, x0, 0)
		ge(x0, x, 0)
		ge(x, newLin(), 0)
		for _, w := range ivs {
			if w.x == v.x {
				continue
			}
			// differences
			d := newLin()
			d.add(x, bigOne)
			d.add(lf(w.x), bigMinus)
			d.add(x0, bigMinus)
			d.add(f.toInt(w.x0), bigOne)
			addLin(d)
			ge(x, lf(w.x), 0)
		}
	}
	// bounds compared with inside of the loop
	isNew := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			if x.Op == "loop" {
				if _, ok := init[x]; !ok {
					return true
				}
			}
			switch x.Op {
			case "call", "alloc", "makeslice", "nextkey", "nextval", "nextok", "unk", "rkey", "rval", "append":
				return !f.knows(x) && !inState(E, x)
			}
			return false
		})
	}
	nBefore := len(h.st.facts.lins)
	for _, b := range backs {
		for i, l := range b.st.facts.lins {
			if i < nBefore {
				continue
			}
			ok, has := true, false
			for t := range l.M {
				if isNew(t) {
					ok = false
				}
				for _, v := range ivs {
					if t == v.x {
						has = true
					}
				}
			}
			if ok && has && len(l.M) <= 4 {
				addLin(l)
				m := l.clone()
				m.C.Add(m.C, bigOne)
				addLin(m)
			}
		}
	}
	if len(out) > 60 {
		out = out[:60]
	}
	for _, p := range e.Preds {
		if t := p(E.st); t != nil {
			if v, ok := truth(E.st, t); ok && v {
				out = append(out, &cand{pred: p})
			}
		}
	}
	return out
}

func (f *Facts) knows(t *Term) bool {
	for _, l := range f.lins {
		for a := range l.M {
			if a.contains(t) {
				return true
			}
		}
	}
	return false
}

func inState(p *PS, t *Term) bool {
	for _, v := range p.env {
		if v.contains(t) {
			return true
		}
	}
	for _, v := range p.st.mem {
		if v.contains(t) {
			return true
		}
	}
	return false
}

// iterate runs a callback any number of times; next gives its arguments in the header state,
// stop decides by the result whether the iteration is left (nil: never).
func (e *Engine) iterate(c *Call, kind string, over, fnT *Term, next func(st *State) []*Term, stop func(st *State, res []*Term) (goOn, quit []*State)) (ended, left []*State, lvals [][]*Term, outs []Outcome) {
	entry := &PS{st: c.st, env: map[ssa.Value]*Term{}}
	var key, val *Term
	exits, os := e.fix(c.fr, entry, nil, c.Instr, c.Pos, kind, func(s *Star) { s.Over, s.Key, s.Val = over, key, val }, func(h *PS) (backs []*PS, ex []edge, outs []Outcome) {
		fin := h.clone()
		ex = append(ex, edge{ps: fin, tag: "ended"})
		args := next(h.st)
		if len(args) > 0 {
			key = args[0]
		}
		if len(args) > 1 {
			val = args[1]
		}
		var all []Outcome
		sub := *c
		if e.AfterCall != nil && kind == "walk" {
			// the walk may report a failure to its callback
			k := len(args) - 1
			sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", args[k].Typ)), false)
			wc := *c
			wc.Name, wc.Method, wc.Sig = "walk error", "walk error", sig
			for _, o := range e.AfterCall(&wc, []Outcome{{St: h.st, Vals: []*Term{args[k]}}}) {
				sub.st = o.St
				all = append(all, e.callValue(&sub, fnT, args)...)
			}
		} else {
			sub.st = h.st
			all = e.callValue(&sub, fnT, args)
		}
		for _, o := range all {
			if o.Panic {
				outs = append(outs, o)
				continue
			}
			if stop == nil {
				backs = append(backs, &PS{st: o.St, env: map[ssa.Value]*Term{}})
				continue
			}
			on, quit := stop(o.St, o.Vals)
			for _, s := range on {
				backs = append(backs, &PS{st: s, env: map[ssa.Value]*Term{}})
			}
			for _, s := range quit {
				ex = append(ex, edge{ps: &PS{st: s, env: map[ssa.Value]*Term{}}, tag: "left", vals: o.Vals})
			}
		}
		return
	})
	outs = os
	for _, g := range exits {
		if g.tag == "ended" {
			ended = append(ended, g.ps.st)
		} else {
			left = append(left, g.ps.st)
			lvals = append(lvals, g.vals)
		}
	}
	return
}
