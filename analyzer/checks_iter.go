package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tsiFields are the fields of the iterator by the role they have in Next.
type tsiFields struct {
	st       *types.Struct
	n        *types.Named
	ts, tid  int
	pos, tag int
	cands    [][2]int
}

func (f *tsiFields) addr(base *Term, i int) *Term { return faddr(base, f.st, i, f.n) }

func (f *tsiFields) get(st *State, base *Term, i int) *Term {
	return st.load(f.addr(base, i), f.st.Field(i).Type())
}

const tsiNext = "(*wpk.TagsetIterator).Next"

// tsiLayout finds the fields of the iterator by their types; which of integers are
// the position and the place of the tag is found by running Next.
func (c *Check) tsiLayout() *tsiFields {
	n := c.P.Type("", "TagsetIterator")
	if n == nil {
		c.Fail(0, nil, "anchor TagsetIterator", "type TagsetIterator is not found")
		return nil
	}
	s, ok := under(n).(*types.Struct)
	if !ok {
		c.Fail(0, nil, "anchor TagsetIterator", "TagsetIterator is not a structure")
		return nil
	}
	f := &tsiFields{st: s, n: n, ts: -1, tid: -1, pos: -1, tag: -1}
	var ints []int
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch {
		case isInt(t):
			if w, _ := intKind(t); w == 16 {
				if f.tid < 0 {
					f.tid = i
				}
			} else {
				ints = append(ints, i)
			}
		default:
			if _, ok := under(t).(*types.Slice); ok && f.ts < 0 {
				f.ts = i
			}
		}
	}
	if f.ts < 0 || f.tid < 0 || len(ints) < 2 {
		c.Fail(0, nil, "anchor TagsetIterator fields", "fields of TagsetIterator are not recognised")
		return nil
	}
	for _, a := range ints {
		for _, b := range ints {
			if a != b {
				f.cands = append(f.cands, [2]int{a, b})
			}
		}
	}
	return f
}

func u16t() types.Type { return types.Typ[types.Uint16] }

// entryAt is the identifier and the length of value of the entry at a position.
func entryAt(st *State, ts, pos *Term) (tid, n *Term) {
	root, off := byteBase(ts)
	two := intConst(2, tyInt)
	pos = addT(off, pos, tyInt)
	tid = decode(st.readBytes(root, pos, two), 2, u16t())
	n = decode(st.readBytes(root, addT(pos, two, tyInt), two), 2, u16t())
	return
}

// tsiStart is a state with an iterator somewhere at the walk.
func (f *tsiFields) start(e *Engine, p *Term) *State {
	st := newState(e)
	pos, tag := f.get(st, p, f.pos), f.get(st, p, f.tag)
	zero := intConst(0, tyInt)
	st.facts.Assume(ltT(pos, zero), false)
	st.facts.Assume(ltT(tag, zero), false)
	st.facts.Assume(ltT(pos, tag), false)
	return st
}

// tsiRoles runs Next and tells which fields are the position and the start of the value.
func (c *Check) tsiRoles(next *ssa.Function) *tsiFields {
	f := c.tsiLayout()
	if f == nil {
		return nil
	}
	for _, p := range f.cands {
		f.pos, f.tag = p[0], p[1]
		e := c.Engine()
		e.NoDefault = map[string]bool{tsiNext: true}
		it := e.Params(next)[0]
		st := f.start(e, it)
		pos0 := f.get(st, it, f.pos)
		_, n := entryAt(st, f.get(st, it, f.ts), pos0)
		ok, good := 0, 0
		for _, o := range e.Run(next, []*Term{it}, st) {
			if v, k := truth(o.St, o.Vals2(0)); o.Panic || k && !v {
				continue
			}
			ok++
			start := addT(pos0, intConst(4, tyInt), tyInt)
			if o.St.facts.ProveEq(f.get(o.St, it, f.tag), start) && o.St.facts.ProveEq(f.get(o.St, it, f.pos), addT(start, convT(n, tyInt), tyInt)) {
				good++
			}
		}
		if ok > 0 && ok == good {
			return f
		}
	}
	// by names, to tell what is wrong
	f.pos, f.tag = f.cands[0][0], f.cands[0][1]
	for _, p := range f.cands {
		if f.st.Field(p[0]).Name() == "pos" && f.st.Field(p[1]).Name() == "tag" {
			f.pos, f.tag = p[0], p[1]
		}
	}
	return f
}

// Vals2 is a result, nil if there is none.
func (o *Outcome) Vals2(i int) *Term {
	if i < len(o.Vals) {
		return o.Vals[i]
	}
	return nil
}

// exportedMethods of a named type and its pointer, without promoted ones.
func (c *Check) declared(typ string) (fns []*ssa.Function) {
	n := c.P.Type("", typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if fn := c.P.SSA.FuncValue(m); fn != nil {
			fns = append(fns, fn)
		}
	}
	return
}

// returnsTagset is the index of the result which is a tagset, or -1.
func (c *Check) returnsTagset(fn *ssa.Function) int {
	n := c.P.Type("", "TagsetRaw")
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if n != nil && types.Identical(rs.At(i).Type(), n) {
			return i
		}
	}
	return -1
}

func init() {
	register("C17", "abstract interpretation of the iterator's step with symbolic position and content; method set and effect analysis",
		"The step of the iterator is interpreted abstractly from any position inside or behind any set of bytes. Every access is proved to stay inside of the set. A successful step reports the entry which starts where the previous one has ended: the identifier and the length at that place, the value directly behind them and completely inside of the set; the position grows by at least four bytes, so a walk ends. An unsuccessful step reports no identifier and either stands exactly at the end (passed) or behind it (failed), and only then. No step writes to the set. The tests of the end of the walk and the accessors of the current tag agree with that state. All methods callable on an iterator are enumerated in its method set: each operation that edits a tagset is declared on the iterator itself and can only panic, and no other one changes the set.",
		[]string{"an iterator is made by Iterator or as a zero value around a tagset and is not used by two goroutines at once"},
		func(c *Check) {
			next := c.Fn(":TagsetIterator.Next")
			if next == nil {
				return
			}
			f := c.tsiRoles(next)
			if f == nil {
				return
			}
			c.stepRule(f, next)
			c.Rule("the state of the walk is reported as it is")
			type acc struct {
				name string
				ok   func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool
			}
			inFail := func(s *State, ts, pos *Term) (bool, bool) { return truth(s, ltT(lenT(ts), pos)) }
			value := func(s *State, r *Term, ts, pos, tag *Term) bool {
				w := sliceT(ts, tag, pos, nil, ts.Typ)
				return r == w || sameSlice(s, r, w) || sameVal(s, r, w)
			}
			for _, a := range []acc{
				{"Failed", func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool {
					return boolIs(s, o.Vals[0], ltT(lenT(ts), pos))
				}},
				{"Passed", func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool {
					return boolIs(s, o.Vals[0], eqT(lenT(ts), pos))
				}},
				{"TID", func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool { return sameVal(s, o.Vals[0], tid) }},
				{"Tag", func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool {
					if fl, k := inFail(s, ts, pos); k && fl {
						return isZero(o.Vals[0])
					}
					return value(s, o.Vals[0], ts, pos, tag)
				}},
				{"TagLen", func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool {
					if fl, k := inFail(s, ts, pos); k && fl {
						return isZero(o.Vals[0])
					}
					return s.facts.ProveEq(o.Vals[0], subT(pos, tag, tyInt))
				}},
				{"Reset", func(s *State, o *Outcome, it, ts, pos, tag, tid *Term) bool {
					return isZero(f.get(s, it, f.pos)) && isZero(f.get(s, it, f.tag)) && isZero(f.get(s, it, f.tid))
				}},
			} {
				fn := c.Fn(":TagsetIterator." + a.name)
				if fn == nil {
					continue
				}
				e := c.iterEngine()
				e.OnOblige = func(o *Oblig) {
					if o.Kind == "index" || o.Kind == "slice" {
						c.Site(o.Pos)
						c.Must(o.OK, o.St, o.Pos, o.Fn, a.name+" "+o.Kind, "access is not proved to stay inside of the tagset: %s", o.Desc)
					}
				}
				it := e.Params(fn)[0]
				st := f.start(e, it)
				ts, pos, tag, tid := f.get(st, it, f.ts), f.get(st, it, f.pos), f.get(st, it, f.tag), f.get(st, it, f.tid)
				// the value read last is inside of the set, a failed walk has gone behind
				outs := c.Run(e, fn, []*Term{it}, st)
				for i := range outs {
					o := &outs[i]
					c.Must(!o.Panic && a.ok(o.St, o, it, ts, pos, tag, tid), o.St, o.Pos, fn, a.name, "%s does not report the state of the walk: %v", a.name, o.Vals)
					if a.name != "Reset" {
						same := f.get(o.St, it, f.pos) == pos && f.get(o.St, it, f.tag) == tag && f.get(o.St, it, f.tid) == tid
						c.Must(same, o.St, o.Pos, fn, a.name+" moves", "%s moves the iterator", a.name)
					}
				}
			}
			if fn := c.Fn(":TagsetRaw.Iterator"); fn != nil {
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					ok := !o.Panic
					if ok {
						v := o.Vals[0]
						for j := 0; j < f.st.NumFields(); j++ {
							x := fieldOf(v, f.st, j)
							if j == f.ts {
								ok = ok && x == e.Params(fn)[0]
							} else {
								ok = ok && isZero(x)
							}
						}
					}
					c.Must(ok, o.St, o.Pos, fn, "start", "an iterator does not start at the front of the tagset: %v", o.Vals)
				}
			}

			c.Rule("nothing callable on an iterator changes the set")
			editing := map[string]bool{}
			for _, fn := range c.declared("TagsetRaw") {
				e := c.Engine()
				e.NoDefault = map[string]bool{cname(fn): true}
				ts := e.Params(fn)[0]
				if _, ok := under(ts.Typ).(*types.Slice); !ok {
					continue // not a method of the value
				}
				b := newState(e).sliceBytes(ts)
				r := c.returnsTagset(fn)
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					if o.St.sliceBytes(ts) != b || hasEdit(o.St, ts) || writesBytes(o.St) {
						editing[fn.Name()] = true
					}
					if r >= 0 && o.Vals[r] != ts && !sameSlice(o.St, o.Vals[r], ts) {
						editing[fn.Name()] = true
					}
				}
				if editing[fn.Name()] {
					c.Inst("editing operations")
				}
			}
			c.AtLeast("editing operations", 5)
			ms := types.NewMethodSet(types.NewPointer(f.n))
			for i := 0; i < ms.Len(); i++ {
				sel := ms.At(i)
				m := sel.Obj().(*types.Func)
				own := len(sel.Index()) == 1
				c.Inst("methods callable on an iterator")
				if !own {
					c.Must(!editing[m.Name()], nil, m.Pos(), c.P.SSA.FuncValue(m), "promoted "+m.Name(), "%s edits a tagset and can be called on an iterator: it is not overridden", m.Name())
					continue
				}
				fn := c.P.SSA.FuncValue(m)
				if fn == nil || fn.Blocks == nil {
					continue
				}
				e := c.iterEngine()
				delete(e.NoDefault, tsiNext)
				e.NoDefault[cname(fn)] = true
				it := e.Params(fn)[0]
				st := newState(e)
				if p, ok := it.Typ.(*types.Pointer); !ok || p == nil {
					continue
				}
				ts := f.get(st, it, f.ts)
				b := st.sliceBytes(ts)
				outs := c.Run(e, fn, nil, st)
				for i := range outs {
					o := &outs[i]
					c.Must(f.get(o.St, it, f.ts) == ts && o.St.sliceBytes(ts) == b && !hasEdit(o.St, ts) && !writesBytes(o.St), o.St, o.Pos, fn, "changes "+m.Name(), "%s changes the tagset of the iterator", m.Name())
					if editing[m.Name()] {
						c.Must(o.Panic, o.St, o.Pos, fn, "allowed "+m.Name(), "%s edits tagsets and does not panic for an iterator", m.Name())
					}
				}
			}
			c.AtLeast("methods callable on an iterator", 15)
		})
}

// stepRule proves what a step of the iterator does.
func (c *Check) stepRule(f *tsiFields, next *ssa.Function) {
	c.Rule("a step of the iterator reads the entry at its position and stays inside of the set")
	e := c.Engine()
	e.NoDefault = map[string]bool{tsiNext: true}
	e.OnOblige = func(o *Oblig) {
		switch o.Kind {
		case "index", "slice", "div", "makeslice":
			c.Site(o.Pos)
			c.Must(o.OK, o.St, o.Pos, o.Fn, o.Kind, "access is not proved to stay inside of the tagset: %s", o.Desc)
		}
	}
	it := e.Params(next)[0]
	st := f.start(e, it)
	ts0, pos0 := f.get(st, it, f.ts), f.get(st, it, f.pos)
	tid0, n0 := entryAt(st, ts0, pos0)
	b0 := st.sliceBytes(ts0)
	outs := c.Run(e, next, []*Term{it}, st)
	yes, passed, failed := 0, 0, 0
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, next, "panics", "Next can panic") {
			continue
		}
		s := o.St
		fx := s.facts
		ts, pos, tag, tid := f.get(s, it, f.ts), f.get(s, it, f.pos), f.get(s, it, f.tag), f.get(s, it, f.tid)
		c.Must(ts == ts0 && s.sliceBytes(ts) == b0, s, o.Pos, next, "set changed", "Next changes the tagset it walks over")
		v, known := truth(s, o.Vals[0])
		if !c.Must(known, s, o.Pos, next, "result", "Next returns %v, it is not known when", o.Vals[0]) {
			continue
		}
		if v {
			yes++
			start := addT(pos0, intConst(4, tyInt), tyInt)
			c.Must(sameVal(s, tid, tid0) || fx.ProveEq(tid, tid0), s, o.Pos, next, "identifier", "the identifier reported is %v, not that of the entry", tid)
			c.Must(fx.ProveEq(tag, start), s, o.Pos, next, "start", "the value is taken at %v, not behind the header of the entry", tag)
			c.Must(fx.ProveEq(pos, addT(start, convT(n0, tyInt), tyInt)), s, o.Pos, next, "end", "the value ends at %v, not after the length stored in the entry", pos)
			c.Must(fx.ProveGE(lenT(ts), pos, 0), s, o.Pos, next, "inside", "an entry is reported that is not completely inside of the tagset")
			c.Must(fx.ProveGE(pos, pos0, 1), s, o.Pos, next, "progress", "a step does not go forward, the walk may never end")
		} else {
			c.Must(fx.ProveEq(tid, intConst(0, tid.Typ)), s, o.Pos, next, "identifier of none", "an identifier is left although there is no entry: %v", tid)
			l := lenT(ts)
			atEnd := fx.ProveEq(pos, l)
			behind := fx.ProveGE(pos, l, 1)
			stop := fx.ProveGE(pos, l, 0)
			if fx.ProveGE(pos0, lenT(ts), 0) {
				passed++
				c.Must(fx.ProveEq(pos, pos0), s, o.Pos, next, "moves after end", "Next at the end moves from %v to %v", pos0, pos)
			} else {
				failed++
				c.Must(stop && !atEnd && behind, s, o.Pos, next, "failure", "a malformed entry leaves the iterator at %v, which is not reported as failure", pos)
			}
			// only a malformed entry fails
			if fx.ProveGE(l, addT(pos0, intConst(4, tyInt), tyInt), 0) {
				c.Must(fx.ProveGE(addT(pos0, addT(convT(n0, tyInt), intConst(4, tyInt), tyInt), tyInt), l, 1), s, o.Pos, next, "refuses", "an entry that fits into the tagset is refused")
			}
		}
		c.Must(fx.ProveGE(tag, intConst(0, tyInt), 0) && fx.ProveGE(pos, tag, 0), s, o.Pos, next, "state", "the iterator is left with the value from %v to %v", tag, pos)
	}
	c.Must(yes > 0 && passed > 0 && failed > 0, nil, next.Pos(), next, "cases", "Next does not tell entries, the end and failures (%d, %d, %d paths)", yes, passed, failed)

}

// iterEngine follows the real code of iterators.
func (c *Check) iterEngine() *Engine {
	e := c.Engine()
	for _, m := range []string{"Next", "TID", "Tag", "TagLen", "Failed", "Passed", "Reset"} {
		e.NoDefault["(*wpk.TagsetIterator)."+m] = true
	}
	return e
}

// hasEdit tells that an editing operation was called on a tagset.
func hasEdit(st *State, ts *Term) bool {
	found := false
	AllEvents(st.Events(), func(ev *Event, _ *Body) {
		if ev.Kind == "tsedit" && ev.Recv == ts {
			found = true
		}
	})
	return found
}

// writesBytes tells that bytes which existed before were written on a path.
func writesBytes(st *State) bool {
	for r := range st.bver {
		if !freshRoot(addrRoot(r)) {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
var _ = strings.HasPrefix

// segsOf is the sequence of byte ranges a slice consists of.
func segsOf(st *State, a *Term) (ds, ns []*Term) {
	for a.Op == "pure" && (a.Aux == "wpk.CopyTagset" || a.Aux == "bytes.Clone" || a.Aux == "slices.Clone") {
		a = a.Args[0]
	}
	if a.Op == "nil" {
		return
	}
	d, n := flatten(st, st.sliceBytes(a), lenT(a))
	for i := range d {
		if !n[i].isInt(0) {
			ds, ns = append(ds, d[i]), append(ns, n[i])
		}
	}
	return
}

// sameSlice tells that two slices have the same bytes.
func sameSlice(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	d1, n1 := segsOf(st, a)
	d2, n2 := segsOf(st, b)
	if len(d1) != len(d2) {
		return false
	}
	for i := range d1 {
		if d1[i] != d2[i] || !st.facts.ProveEq(n1[i], n2[i]) {
			return false
		}
	}
	return true
}
