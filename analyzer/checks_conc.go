package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const seqMap = "(*wpk/util.SeqMap)."

// methodsOf are the exported methods of a named type (pointer receiver included), with bodies.
func (c *Check) methodsOf(pkg, typ string) []*ssa.Function {
	n := c.P.Type(pkg, typ)
	if n == nil {
		c.Fail(token.NoPos, nil, "anchor "+typ, "type %s is not found", typ)
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Exported() {
			if fn := c.P.SSA.FuncValue(m); fn != nil && fn.Blocks != nil {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// seqFields are the fields of the container: its sequence, its index, the key and the value of a pair.
type seqFields struct {
	owner    *types.Named
	st       *types.Struct
	seq, idx int
	kv       types.Type
	kvs      *types.Struct
	key, val int
}

func (c *Check) seqFields(fn *ssa.Function) *seqFields {
	q, ok := fn.Signature.Recv().Type().(*types.Pointer)
	if !ok {
		c.Fail(fn.Pos(), fn, "receiver", "the container is copied by its method's receiver")
		return nil
	}
	n := types.Unalias(q.Elem()).(*types.Named)
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		c.Fail(fn.Pos(), fn, "representation", "the container is not a structure any more")
		return nil
	}
	f := &seqFields{owner: n, st: st, seq: -1, idx: -1, key: -1, val: -1}
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if ks, ok := t.Elem().Underlying().(*types.Struct); ok && f.seq < 0 {
				f.seq, f.kv, f.kvs = i, t.Elem(), ks
			}
		case *types.Map:
			if f.idx < 0 {
				f.idx = i
			}
		}
	}
	if f.seq < 0 || f.idx < 0 {
		c.Fail(fn.Pos(), fn, "representation", "the container has no sequence of pairs with an index any more")
		return nil
	}
	if n.TypeArgs().Len() == 2 || n.TypeParams().Len() == 2 {
		var k, v types.Type
		if n.TypeArgs().Len() == 2 {
			k, v = n.TypeArgs().At(0), n.TypeArgs().At(1)
		} else {
			k, v = n.TypeParams().At(0), n.TypeParams().At(1)
		}
		for i := 0; i < f.kvs.NumFields(); i++ {
			if types.Identical(f.kvs.Field(i).Type(), k) && f.key < 0 {
				f.key = i
			} else if types.Identical(f.kvs.Field(i).Type(), v) {
				f.val = i
			}
		}
	}
	if f.key < 0 || f.val < 0 {
		c.Fail(fn.Pos(), fn, "representation", "the pairs of the container are not a key and a value")
		return nil
	}
	return f
}

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// stateOf tells that a value or address is part of the internal state of an object.
func stateOf(t, recv *Term) bool {
	for {
		switch t.Op {
		case "faddr":
			if t.Args[0] == recv {
				return !isMutex(elemOf(t.Typ))
			}
			t = t.Args[0]
		case "iaddr", "slice", "load", "append", "cast", "rangeiter":
			if len(t.Args) == 0 {
				return false
			}
			if t.Op == "append" && len(t.Args) == 1 { // fresh
				return false
			}
			t = t.Args[0]
		default:
			return t == recv
		}
	}
}

// lockOf tells that a lock belongs to an object.
func lockOf(a, recv *Term) bool { return addrRoot(a) == recv }

func heldMode(locks []LockRec, recv *Term) string {
	m := ""
	for _, l := range locks {
		if lockOf(l.Addr, recv) && m != "W" {
			m = l.Mode
		}
	}
	return m
}

// seqRun interprets one operation of the container. Whenever a lock is taken, whatever the
// container held before is forgotten: others may have changed it.
type seqPath struct {
	f          *seqFields
	fn         *ssa.Function
	recv       *Term
	o          *Outcome
	sections   int
	seq, idx   *Term // at the moment the last lock was taken
	has, n     *Term
	val        *Term
	key        *Term
	keyed      bool
	seqA, idxA *Term
}

func (c *Check) seqRun(fn *ssa.Function, f func(p *seqPath)) {
	ff := c.seqFields(fn)
	if ff == nil {
		return
	}
	e := c.Engine()
	for _, m := range []string{"Init", "Len", "Has", "Peek", "Poke", "Push", "Pop", "Delete", "Range"} {
		e.NoDefault[seqMap+m] = true
	}
	args := e.Params(fn)
	recv := args[0]
	seqA, idxA := faddr(recv, ff.st, ff.seq, ff.owner), faddr(recv, ff.st, ff.idx, ff.owner)
	e.Access = func(a *Term) bool { return stateOf(a, recv) }
	keyT := ff.kvs.Field(ff.key).Type()
	var key *Term
	for i, p := range fn.Params {
		if i > 0 && types.Identical(p.Type(), keyT) && key == nil {
			key = args[i]
		}
	}
	e.OnLock = func(cl *Call, mode string) {
		if !lockOf(cl.Recv, recv) {
			return
		}
		st := cl.st
		for a := range st.mem {
			if stateOf(a, recv) {
				delete(st.mem, a)
			}
		}
		n := int64(1)
		if t := st.tags["sections"]; t != nil {
			v, _ := t.intVal()
			n += v
		}
		for b := range st.bytes {
			if stateOf(b, recv) {
				delete(st.bytes, b)
			}
		}
		st.bver[recv] = int(n)*1000 + 1
		seq := st.load(seqA, elemOf(seqA.Typ))
		idx := st.load(idxA, elemOf(idxA.Typ))
		st.tags["sections"] = i64(n)
		st.tags["seq0"], st.tags["idx0"] = seq, idx
		if key != nil {
			v, ok := e.mapLookup(st, idx, key, tyInt)
			st.tags["has0"], st.tags["n0"] = ok, v
			st.tags["val0"] = st.load(faddr(mk("iaddr", "", types.NewPointer(ff.kv), seq, v), ff.kvs, ff.val, ff.kv), ff.kvs.Field(ff.val).Type())
		}
	}
	e.Ghost = map[string]bool{"sections": true}
	outs := c.Run(e, fn, args, nil)
	for i := range outs {
		o := &outs[i]
		p := &seqPath{f: ff, fn: fn, recv: recv, o: o, key: key, keyed: key != nil, seqA: seqA, idxA: idxA}
		p.seq, p.idx = o.St.tags["seq0"], o.St.tags["idx0"]
		p.has, p.n, p.val = o.St.tags["has0"], o.St.tags["n0"], o.St.tags["val0"]
		if t := o.St.tags["sections"]; t != nil {
			v, _ := t.intVal()
			p.sections = int(v)
		}
		f(p)
	}
}

// changes of the container's state on a path: elements, sequence, index.
func (p *seqPath) changes() (evs []*Event, loops []*Star) {
	var walk func(es []*Event)
	walk = func(es []*Event) {
		for _, ev := range es {
			if ev.Star != nil {
				n := 0
				for i := range ev.Star.Bodies {
					AllEvents(ev.Star.Bodies[i].St.Events(), func(e2 *Event, _ *Body) {
						if p.isChange(e2) {
							n++
						}
					})
				}
				if n > 0 {
					loops = append(loops, ev.Star)
				}
				continue
			}
			if p.isChange(ev) {
				evs = append(evs, ev)
			}
		}
	}
	walk(p.o.St.Events())
	return
}

func (p *seqPath) isChange(ev *Event) bool {
	switch ev.Kind {
	case "store", "append", "mapupdate", "mapdelete", "mapclear", "copy":
		return len(ev.Args) > 0 && stateOf(ev.Args[0], p.recv)
	}
	return false
}

// isFresh tells a newly made, empty container value.
func emptyFresh(st *State, t *Term) bool {
	return t.Op == "nil" || t.Op == "makemap" && !st.hav[t] && len(st.bytes[t]) == 0 || t.Op == "makeslice" && lenT(t).isInt(0)
}

// unchanged: nothing of the container differs from what it was when the lock was taken.
func (p *seqPath) unchanged() string {
	evs, loops := p.changes()
	for _, ev := range evs {
		if ev.Kind == "store" && (ev.Args[0] == p.seqA && ev.Args[1] == p.seq || ev.Args[0] == p.idxA && ev.Args[1] == p.idx) {
			continue
		}
		return fmt.Sprintf("the container is changed (%s)", ev.Kind)
	}
	if len(loops) > 0 {
		return "the container is changed in a loop"
	}
	return ""
}

func boolIs(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	x, ok1 := st.facts.Decide(a)
	y, ok2 := st.facts.Decide(b)
	return ok1 && ok2 && x == y
}

func (p *seqPath) elemAddr(st *State, seq, i *Term, field int) *Term {
	b := seq
	for b.Op == "slice" {
		i = addT(b.Args[1], i, tyInt)
		b = b.Args[0]
	}
	return faddr(mk("iaddr", "", types.NewPointer(p.f.kv), b, i), p.f.kvs, field, p.f.kv)
}

// semantics decides what an operation did to the container, as of the moment its last lock was taken.
func (p *seqPath) semantics() string {
	st := p.o.St
	if p.o.Panic {
		return ""
	}
	if p.seq == nil {
		return "no lock is taken on this path"
	}
	final := st.load(p.seqA, elemOf(p.seqA.Typ))
	ffin := st.load(p.idxA, elemOf(p.idxA.Typ))
	hasKnown, has := false, false
	if p.has != nil {
		has, hasKnown = st.facts.Decide(p.has)
	}
	inserted := func() string {
		if ffin != p.idx {
			return "the index is replaced"
		}
		if final.Op != "append" || len(final.Args) != 2 || final.Args[0] != p.seq || final.Args[1].Op != "elems" || len(final.Args[1].Args) != 1 {
			return "a new key does not add one pair at the end of the sequence"
		}
		el := final.Args[1].Args[0]
		if fieldOf(el, p.f.kvs, p.f.key) != p.key || fieldOf(el, p.f.kvs, p.f.val) != p.fnArg(p.f.val) {
			return "the pair added is not the given key and value"
		}
		evs, loops := p.changes()
		if len(loops) > 0 {
			return "the container is changed in a loop"
		}
		upd := 0
		for _, ev := range evs {
			switch {
			case ev.Kind == "mapupdate" && ev.Args[0] == p.idx:
				upd++
				if ev.Args[1] != p.key || !eq64(st, ev.Args[2], lenT(p.seq)) {
					return "the index does not lead the new key to the end of the sequence"
				}
			case ev.Kind == "append" && ev.Args[0] == p.seq:
			case ev.Kind == "store" && ev.Args[0] == p.seqA:
			default:
				return "something else of the container is changed: " + ev.Kind
			}
		}
		if upd == 0 {
			return "the index does not get the new key"
		}
		return ""
	}
	switch p.fn.Name() {
	case "Len":
		if u := p.unchanged(); u != "" {
			return u
		}
		if v := p.o.Vals[0]; !eq64(st, v, lenT(p.seq)) && !(v.Op == "maplen" && v.Args[0] == p.idx) {
			return "the count is not the length of the sequence"
		}
	case "Has":
		if u := p.unchanged(); u != "" {
			return u
		}
		if !boolIs(st, p.o.Vals[0], p.has) {
			return "the answer is not whether the index has the key"
		}
	case "Peek":
		if u := p.unchanged(); u != "" {
			return u
		}
		if !boolIs(st, p.o.Vals[1], p.has) {
			return "the answer is not whether the index has the key"
		}
		if !hasKnown {
			return "the value does not depend on whether the key is there"
		}
		if has && p.o.Vals[0] != p.val {
			return "the value is not that of the pair the index leads to"
		}
		if !has && p.o.Vals[0].Op != "zero" {
			return "a missing key yields a value"
		}
	case "Poke":
		if !hasKnown {
			return "replacing and adding are not told apart"
		}
		if !has {
			return inserted()
		}
		if final != p.seq || ffin != p.idx {
			return "replacing a value changes the sequence or the index"
		}
		va, ka := p.elemAddr(st, p.seq, p.n, p.f.val), p.elemAddr(st, p.seq, p.n, p.f.key)
		if st.load(va, elemOf(va.Typ)) != p.fnArg(p.f.val) {
			return "the value of the pair the index leads to is not the given one"
		}
		evs, loops := p.changes()
		if len(loops) > 0 {
			return "the container is changed in a loop"
		}
		for _, ev := range evs {
			ok := ev.Kind == "store" && (ev.Args[0] == va || ev.Args[0] == ka && ev.Args[1] == p.key || ev.Args[0] == va.Args[0] && fieldOf(ev.Args[1], p.f.kvs, p.f.key) == p.key) ||
				ev.Kind == "store" && ev.Args[0] == p.seqA || ev.Kind == "mapupdate" && ev.Args[1] == p.key && eq64(st, ev.Args[2], p.n)
			if !ok {
				return "something else of the container is changed: " + ev.Kind
			}
		}
	case "Push":
		if !hasKnown {
			return "present and missing keys are not told apart"
		}
		if !boolIs(st, p.o.Vals[0], p.has) {
			return "the answer is not whether the key was there"
		}
		if has {
			return p.unchanged()
		}
		return inserted()
	case "Init":
		if !emptyFresh(st, final) && !(final.Op == "slice" && lenT(final).isInt(0)) {
			return "the sequence is not empty after a reset"
		}
		if ffin != p.idx && !emptyFresh(st, ffin) {
			return "the index is not empty after a reset"
		}
		if ffin.Op == "nil" {
			return "there is no index after a reset"
		}
		if ffin == p.idx {
			cl := false
			for _, ev := range st.Events() {
				if ev.Kind == "mapclear" && ev.Args[0] == p.idx {
					cl = true
				} else if p.isChange(ev) && ev.Kind == "mapupdate" {
					cl = false
				}
			}
			if !cl {
				return "the index is not emptied by a reset"
			}
		}
	case "Pop":
		last := subT(lenT(p.seq), intConst(1, tyInt), tyInt)
		some, known := st.facts.Decide(notT(ltT(last, intConst(0, tyInt))))
		if !known {
			return "an empty container is not told apart"
		}
		if !some {
			if v, ok := st.facts.Decide(p.o.Vals[2]); !ok || v {
				return "an empty container yields an entry"
			}
			return p.unchanged()
		}
		ka, va := p.elemAddr(st, p.seq, last, p.f.key), p.elemAddr(st, p.seq, last, p.f.val)
		if !loadOf(p.o.Vals[0], ka) || !loadOf(p.o.Vals[1], va) {
			return "the entry taken is not the last one"
		}
		if v, ok := st.facts.Decide(p.o.Vals[2]); !ok || !v {
			return "an entry is taken and not reported"
		}
		if final.Op != "slice" || final.Args[0] != p.seq || !final.Args[1].isInt(0) || !eq64(st, final.Args[2], last) {
			return "the sequence does not lose just its last pair"
		}
		return p.deleted(func(k *Term) bool { return loadOf(k, ka) }, nil, ffin)
	case "Delete":
		if !boolIs(st, p.o.Vals[1], p.has) || !hasKnown {
			return "the answer is not whether the key was there"
		}
		if !has {
			if p.o.Vals[0].Op != "zero" {
				return "a missing key yields a value"
			}
			return p.unchanged()
		}
		if p.o.Vals[0] != p.val {
			return "the value is not that of the removed pair"
		}
		last := subT(lenT(p.seq), intConst(1, tyInt), tyInt)
		switch {
		case final.Op == "slice" && final.Args[0] == p.seq && final.Args[1].isInt(0) && eq64(st, final.Args[2], last):
			cp := st.mem[cellT("copyof", p.seq)]
			if cp == nil || cp.Op != "copied" || len(cp.Args) < 3 {
				return "the pairs behind the removed one do not move down"
			}
			src, n, dst := cp.Args[0], cp.Args[1], cp.Args[2]
			sl := func(t *Term, lo *Term) bool {
				return t.Op == "slice" && t.Args[0] == p.seq && eq64(st, t.Args[1], lo)
			}
			n1 := addT(p.n, intConst(1, tyInt), tyInt)
			if !sl(dst, p.n) || !sl(src, n1) || !eq64(st, n, subT(lenT(p.seq), n1, tyInt)) && !minOf(n, src, dst) {
				return "the pairs behind the removed one do not move down by one"
			}
		case final.Op == "append" && len(final.Args) == 2 && final.Args[1].Op == "items":
			a, b := final.Args[0], final.Args[1].Args[0]
			if !(a.Op == "slice" && a.Args[0] == p.seq && a.Args[1].isInt(0) && eq64(st, a.Args[2], p.n)) ||
				!(b.Op == "slice" && b.Args[0] == p.seq && eq64(st, b.Args[1], addT(p.n, intConst(1, tyInt), tyInt)) && eq64(st, b.Args[2], lenT(p.seq))) {
				return "the sequence is not what was before and behind the removed pair"
			}
		default:
			return "the sequence does not lose just the removed pair"
		}
		return p.deleted(func(k *Term) bool { return k == p.key }, final, ffin)
	case "Range":
		return p.ranged()
	default:
		return p.unchanged()
	}
	return ""
}

// reached tells that an index is known not to be below a bound any more, possibly by the
// same distance between other terms.
func reached(st *State, v, n *Term) bool {
	if st.facts.ProveGE(v, n, 0) {
		return true
	}
	for f, val := range st.facts.truth {
		if val || f.Op != "<" || !isInt(f.Args[0].Typ) {
			continue
		}
		if eq64(nil, subT(v, convT(f.Args[0], v.Typ), v.Typ), subT(n, convT(f.Args[1], n.Typ), n.Typ)) {
			return true
		}
	}
	return false
}

func minOf(n, a, b *Term) bool { return n == lenT(a) || n == lenT(b) }

func (p *seqPath) fnArg(field int) *Term {
	t := p.f.kvs.Field(field).Type()
	e := p.o.St.e
	args := e.Params(p.fn)
	for i, q := range p.fn.Params {
		if i > 0 && types.Identical(q.Type(), t) {
			return args[i]
		}
	}
	return nil
}

func loadOf(v, addr *Term) bool { return v.Op == "load" && v.Args[0] == addr }

// deleted: the index loses the key, and every pair that moved gets its new place.
func (p *seqPath) deleted(isKey func(*Term) bool, final, ffin *Term) string {
	st := p.o.St
	if ffin != p.idx {
		return "the index is replaced"
	}
	evs, loops := p.changes()
	del := false
	for _, ev := range evs {
		switch ev.Kind {
		case "mapdelete":
			if ev.Args[0] != p.idx || !isKey(ev.Args[1]) {
				return "another key is removed from the index"
			}
			del = true
		case "mapupdate":
			return "the index gets an entry while one is removed"
		case "mapclear":
			return "the index is emptied while one entry is removed"
		case "store":
			if ev.Args[0] == p.seqA {
				continue
			}
			// the abandoned last pair may be zeroed
			a := ev.Args[0]
			for a.Op == "faddr" {
				a = a.Args[0]
			}
			if a.Op == "iaddr" && eq64(st, a.Args[1], subT(lenT(p.seq), intConst(1, tyInt), tyInt)) && isZero(ev.Args[1]) {
				continue
			}
			return "another pair is changed while one is removed"
		}
	}
	if !del {
		return "the index keeps the removed key"
	}
	if final == nil {
		if len(loops) > 0 {
			return "the container is changed in a loop"
		}
		return ""
	}
	if len(loops) != 1 {
		return "the index does not get the new places of the pairs that moved"
	}
	l := loops[0]
	n := lenT(final)
	for i := range l.Bodies {
		b := &l.Bodies[i]
		var upd []*Event
		bad := ""
		AllEvents(b.St.Events(), func(ev *Event, _ *Body) {
			if p.isChange(ev) {
				if ev.Kind == "mapupdate" && ev.Args[0] == p.idx {
					upd = append(upd, ev)
				} else {
					bad = "something else is changed while places are renewed"
				}
			}
		})
		if bad != "" {
			return bad
		}
		if len(upd) != 1 {
			return "a pair that moved does not get exactly one new place"
		}
		k, v := upd[0].Args[1], upd[0].Args[2]
		ka := p.elemAddr(b.St, final, v, p.f.key)
		if !loadOf(k, ka) && !(k.Op == "load" && k.Args[0].Op == "faddr" && k.Args[0].Aux == ka.Aux && k.Args[0].Args[0].Op == "iaddr" &&
			k.Args[0].Args[0].Args[0] == ka.Args[0].Args[0] && eq64(b.St, k.Args[0].Args[0].Args[1], ka.Args[0].Args[1])) {
			return "the new place in the index is not the pair's place in the sequence"
		}
		// the place is a loop variable plus a constant, it advances by one
		init, next := substT(v, l.Init), substT(v, b.Next)
		if next == nil || !eq64(b.St, next, addT(v, intConst(1, tyInt), tyInt)) {
			return "the renewed places do not advance by one"
		}
		if init == nil || !st.facts.ProveGE(p.n, init, 0) {
			return "the first pair that moved does not get its new place"
		}
		if !reached(st, v, n) {
			return "the last pair that moved does not get its new place"
		}
	}
	return ""
}

func isZero(t *Term) bool {
	if t.Op == "zero" || t.Op == "nil" || t.isInt(0) || t.isStr("") || t == tFalse || t.Typ != nil && t == zeroTerm(t.Typ) {
		return true
	}
	if t.Op == "struct" {
		for _, a := range t.Args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	return false
}

// substT replaces loop values in an integer term.
func substT(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	l := ring(t, t.Typ)
	out := newLin()
	out.C.Set(l.C)
	for a, k := range l.M {
		b := a
		if r, ok := m[a]; ok {
			if r == nil {
				return nil
			}
			b = r
		}
		x := ring(b, t.Typ)
		out.add(x, k)
	}
	return linTerm(out, t.Typ)
}

// snapshot tells that a value is a private copy of the sequence.
func (p *seqPath) snapshot(st *State, t *Term) bool {
	if t.Op == "append" && len(t.Args) == 1 && t.Args[0].Op == "items" && t.Args[0].Args[0] == p.seq {
		return true
	}
	if t.Op == "append" && len(t.Args) == 2 && (freshRoot(addrRoot(t.Args[0])) || t.Args[0].Op == "elems" && len(t.Args[0].Args) == 0) && lenT(t.Args[0]).isInt(0) && t.Args[1].Op == "items" && t.Args[1].Args[0] == p.seq {
		return true
	}
	if t.Op == "makeslice" && eq64(st, lenT(t), lenT(p.seq)) {
		cp := st.mem[cellT("copyof", t)]
		return cp != nil && cp.Op == "copied" && cp.Args[0] == p.seq && eq64(st, cp.Args[1], lenT(p.seq)) && (cp.Args[2] == t || cp.Args[2].Op == "slice" && cp.Args[2].Args[0] == t && cp.Args[2].Args[1].isInt(0))
	}
	return false
}

// ranged: the callback is called for each pair of a private copy, in order, until it declines.
func (p *seqPath) ranged() string {
	st := p.o.St
	if u := p.unchanged(); u != "" {
		return u
	}
	var stars []*Star
	var last *Event
	var walk func(evs []*Event)
	calls := func(evs []*Event) (out []*Event) {
		AllEvents(evs, func(ev *Event, _ *Body) {
			if ev.Kind == "call" && ev.Name == "func value" {
				out = append(out, ev)
			}
		})
		return
	}
	walk = func(evs []*Event) {
		for _, ev := range evs {
			if ev.Star != nil {
				for i := range ev.Star.Bodies {
					if len(calls(ev.Star.Bodies[i].St.Events())) > 0 {
						stars = append(stars, ev.Star)
						break
					}
				}
			} else if ev.Kind == "call" && ev.Name == "func value" {
				last = ev
			}
		}
	}
	walk(st.Events())
	if len(stars) != 1 {
		return "the pairs are not visited by one loop"
	}
	check := func(s *State, ev *Event) (idx, base *Term, bad string) {
		if len(ev.Args) != 2 {
			return nil, nil, "the callback does not get a key and a value"
		}
		for i, f := range []int{p.f.key, p.f.val} {
			a := ev.Args[i]
			if a.Op != "load" || a.Args[0].Op != "faddr" || a.Args[0].Args[0].Op != "iaddr" || !strings.HasSuffix(a.Args[0].Aux, "."+p.f.kvs.Field(f).Name()) {
				return nil, nil, "the callback does not get the key and the value of a pair"
			}
			ia := a.Args[0].Args[0]
			if idx != nil && (ia.Args[1] != idx || ia.Args[0] != base) {
				return nil, nil, "the callback gets the key and the value of different pairs"
			}
			idx, base = ia.Args[1], ia.Args[0]
		}
		return
	}
	var base *Term
	for i := range stars[0].Bodies {
		b := &stars[0].Bodies[i]
		cs := calls(b.St.Events())
		if len(cs) != 1 {
			return "a step of the enumeration does not call the callback exactly once"
		}
		idx, bs, bad := check(b.St, cs[0])
		if bad != "" {
			return bad
		}
		base = bs
		if v, ok := b.St.facts.Decide(cs[0].result(0)); !ok || !v {
			return "the enumeration goes on after the callback declined"
		}
		init, next := substT(idx, stars[0].Init), substT(idx, b.Next)
		if init == nil || !init.isInt(0) {
			return "the enumeration does not start with the first pair"
		}
		if next == nil || !eq64(b.St, next, addT(idx, intConst(1, tyInt), tyInt)) {
			return "the enumeration does not advance by one"
		}
		if last == nil && !reached(st, idx, lenT(p.seq)) {
			return "the enumeration may end before the last pair"
		}
	}
	if base == nil {
		return "nothing is enumerated"
	}
	if last != nil {
		if _, bs, bad := check(st, last); bad != "" || bs != base {
			return "the callback does not get the key and the value of a pair"
		}
		if v, ok := st.facts.Decide(last.result(0)); !ok || v {
			return "the enumeration ends although the callback did not decline"
		}
	}
	if !p.snapshot(st, base) {
		return "what is enumerated is not a private copy of the whole sequence"
	}
	return ""
}

func init() {
	register("C01", "lockset and effect analysis by abstract interpretation of every operation of the container; forgetting at lock acquisition decides atomicity",
		"Every exported method of the container is interpreted abstractly over its generic form, helpers inlined, with every load, store, append, copy, map lookup, update, deletion and range whose operand is reachable from the container's fields reported as an access. Each access must happen with the container's lock held, exclusively for changes; when a lock is taken, everything known about the container is forgotten (other goroutines may have run), so an operation made of several critical sections must establish its effect from what the last one read: its effect is compared with the operation's meaning as of the last acquisition. Locks must be free at every exit, never be released without being held; callbacks are called with no lock held and with pairs of a private copy. No function that is not reached from these methods may touch the fields.",
		[]string{"sync.RWMutex excludes as documented", "the container is used through its methods and not copied (go vet copylocks)"},
		func(c *Check) {
			ms := c.methodsOf("/util", "SeqMap")
			seen := map[*ssa.Function]bool{}
			for _, fn := range ms {
				c.Inst("operations")
				c.seqRun(fn, func(p *seqPath) {
					p.lockRules(c)
				})
			}
			for _, e := range c.engs {
				for f := range e.FnSeen {
					seen[f] = true
					if f.Origin() != nil {
						seen[f.Origin()] = true
					}
				}
			}
			c.Rule("only the container's operations touch its state")
			for _, fn := range c.P.AllFns {
				if fn.Origin() != nil && fn.Origin() != fn || seen[fn] || fn.Synthetic != "" {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if fa, ok := in.(*ssa.FieldAddr); ok {
							if n, ok := types.Unalias(elemOf(fa.X.Type())).(*types.Named); ok && n.Obj().Name() == "SeqMap" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == ModPath+"/util" {
								c.Fail(in.Pos(), fn, "field access", "%s touches a field of the container without being one of its operations", cname(fn))
							}
						}
					}
				}
			}
			c.AtLeast("operations", 9)
			c.AtLeast("accesses under the lock", 20)
			c.AtLeast("changes under the exclusive lock", 8)
			c.AtLeast("callbacks", 1)
		})

	register("C48", "abstract interpretation of every operation of the container against its meaning; loop rule for re-indexing and enumeration",
		"Every exported method of the container is interpreted abstractly. Taking what the sequence and the index were when the lock was taken as symbols, each path's result and final state are compared with the operation's meaning: lookups answer whether the index has the key and with the value of the pair it leads to; a new key appends exactly one pair with that key and value and the index leads to its place; replacing changes only that pair's value; removing takes out just that pair, moves the rest down by one and renews exactly the places that moved (the loop's first index, step and bound are compared with the removed place and the new length); a reset leaves an empty sequence and an empty index; enumerating visits the pairs of a private copy of the whole sequence from the first, by one, until the callback declines. Together these keep the invariant that the index maps each key of the sequence to its place.",
		[]string{"the invariant between index and sequence holds before an operation (it is established by a reset and kept by every operation, which is what is decided)"},
		func(c *Check) {
			c.Rule("operation does what it means")
			for _, fn := range c.methodsOf("/util", "SeqMap") {
				c.Inst("operations")
				c.seqRun(fn, func(p *seqPath) {
					if p.o.Panic {
						return
					}
					m := p.semantics()
					c.Must(m == "", p.o.St, at(p.o.Pos, fn), fn, "meaning "+m, "%s: %s", fn.Name(), m)
				})
			}
			c.AtLeast("operations", 9)
		})
}

func (p *seqPath) lockRules(c *Check) {
	fn := p.fn
	AllEvents(p.o.St.Events(), func(ev *Event, in *Body) {
		st := p.o.St
		if in != nil {
			st = in.St
		}
		switch ev.Kind {
		case "badunlock":
			c.Rule("locks are balanced")
			c.FailT(st, ev.Pos, ev.Fn, "badunlock", "a lock is released that is not held in this mode")
			return
		case "star":
			return
		case "lock":
			c.Rule("locks are balanced")
			c.Must(heldMode(ev.Locks, p.recv) == "" || !lockOf(ev.Recv, p.recv), st, ev.Pos, ev.Fn, "relock", "the lock is taken while it is already held")
			return
		case "unlock":
			return
		}
		read, change := false, p.isChange(ev)
		switch ev.Kind {
		case "load", "maplookup", "maprange":
			read = stateOf(ev.Args[0], p.recv)
		case "append", "copy":
			for _, a := range ev.Args[1:] {
				read = read || stateOf(a, p.recv)
			}
		case "call":
			if ev.Name == "func value" {
				c.Rule("callbacks run without the lock")
				c.Inst("callbacks")
				c.Site(ev.Pos)
				c.Must(heldMode(ev.Locks, p.recv) == "", st, ev.Pos, ev.Fn, "callback", "the caller's function is called while the lock is held")
				break
			}
			for _, a := range ev.Args {
				if stateOf(a, p.recv) {
					change = true
				}
			}
			if strings.HasPrefix(ev.Name, "slices.Clone") || strings.HasPrefix(ev.Name, "maps.Clone") {
				read, change = change, false
			}
		}
		if !read && !change {
			return
		}
		c.Site(ev.Pos)
		m := heldMode(ev.Locks, p.recv)
		if change {
			c.Rule("changes hold the lock exclusively")
			c.Inst("changes under the exclusive lock")
			c.Must(m == "W", st, ev.Pos, ev.Fn, ev.Kind, "the container's state is changed (%s) %s", ev.Kind, lockWord(m))
		} else {
			c.Rule("reads hold the lock")
			c.Inst("accesses under the lock")
			c.Must(m != "", st, ev.Pos, ev.Fn, ev.Kind, "the container's state is read (%s) without its lock", ev.Kind)
		}
	})
	c.Rule("locks are balanced")
	for _, l := range p.o.St.locks {
		if lockOf(l.Addr, p.recv) {
			c.FailT(p.o.St, l.Pos, fn, "unreleased", "the lock is still held when %s ends", fn.Name())
		}
	}
	c.Holds()
	if p.sections > 1 && !p.o.Panic {
		c.Rule("one operation is one step")
		m := p.semantics()
		c.Must(m == "", p.o.St, at(p.o.Pos, fn), fn, "atomic", "%s works in %d critical sections, and seen from the last one: %s", fn.Name(), p.sections, m)
	}
	if fn.Name() == "Range" {
		c.Rule("callbacks get a private copy")
		m := p.ranged()
		if strings.Contains(m, "private copy") {
			c.FailT(p.o.St, at(p.o.Pos, fn), fn, "snapshot", "%s: %s", fn.Name(), m)
		}
	}
}

func lockWord(m string) string {
	if m == "" {
		return "without its lock"
	}
	return "with only the shared lock"
}

var _ = token.NoPos

func init() {
	register("C02", "lockset analysis by abstract interpretation of the writing operations",
		"Begin, Append, Sync, PackData and PackFile are interpreted abstractly with everything they call. Every operation on a stream given for writing and every store to the recorded data offset, data size and description is an obligation: the package's writer lock is held exclusively at that moment, and on each path all of them lie in one and the same critical section. The lock is the same field of the same table object for all operations, and free at every exit.",
		[]string{"sync.Mutex excludes as documented", "wrappers of the streams are not shared between packages"},
		func(c *Check) {
			fields := map[string]bool{}
			for _, spec := range []string{":FTT.Begin", ":FTT.Append", ":FTT.Sync", ":Package.PackData", ":Package.PackFile", ":FTT.SetInfo"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				e.NoInv = true
				args := e.Params(fn)
				st := newState(e)
				ftt := args[0]
				if n, ok := types.Unalias(elemOf(ftt.Typ)).(*types.Named); ok && n.Obj().Name() == "Package" {
					fa := c.fieldAddr(ftt, "", "Package", "FTT")
					ftt = st.load(fa, elemOf(fa.Typ))
				}
				guard := map[*Term]string{}
				for _, f := range []string{"datoffset", "datsize", "info"} {
					guard[c.fieldAddr(ftt, "", "FTT", f)] = f
				}
				wr := map[*Term]bool{}
				for i, p := range fn.Params {
					ms := types.NewMethodSet(p.Type())
					if i > 0 && types.IsInterface(p.Type()) && ms.Lookup(nil, "Write") != nil {
						wr[args[i]] = true
					}
				}
				e.Access = func(a *Term) bool { return guard[a] != "" }
				outs := c.Run(e, fn, args, st)
				for i := range outs {
					o := &outs[i]
					// sections: the lock event that opened the one an event lies in
					sections := map[token.Pos]bool{}
					AllEvents(o.St.Events(), func(ev *Event, in *Body) {
						s := o.St
						if in != nil {
							s = in.St
						}
						if ev.Kind == "badunlock" {
							c.Rule("locks are balanced")
							c.FailT(s, ev.Pos, ev.Fn, "badunlock", "a lock is released that is not held in this mode")
						}
						if ev.Kind == "lock" && ev.Recv.Op == "faddr" && ev.Recv.Args[0] == ftt {
							fields[ev.Recv.Aux] = true
						}
						what := ""
						if k := ioKind(ev); k != nil && wr[k.Stream] {
							what = k.Op + " of the output"
							c.Inst("stream operations")
						} else if ev.Kind == "store" && guard[ev.Args[0]] != "" {
							what = "change of the recorded " + guard[ev.Args[0]]
							c.Inst("changes of the record")
						}
						if what == "" {
							return
						}
						c.Rule("stream operations and accounting are one exclusive step")
						c.Site(ev.Pos)
						var held *LockRec
						for j := range ev.Locks {
							l := &ev.Locks[j]
							if l.Addr.Op == "faddr" && l.Addr.Args[0] == ftt && l.Mode == "W" {
								held = l
							}
						}
						if c.Must(held != nil, s, ev.Pos, ev.Fn, what+" unlocked", "%s happens without the package's writer lock (called from %s)", what, cname(fn)) {
							sections[held.Pos] = true
						}
					})
					c.Must(len(sections) <= 1, o.St, at(o.Pos, fn), fn, "sections", "the operation works in %d critical sections", len(sections))
					c.Rule("locks are balanced")
					c.Must(len(o.St.locks) == 0, o.St, at(o.Pos, fn), fn, "unreleased", "a lock is still held when %s ends", cname(fn))
				}
			}
			c.Rule("all operations exclude each other by one lock")
			c.Must(len(fields) == 1, nil, token.NoPos, nil, "lock", "the operations use %d different locks of the table", len(fields))
			c.AtLeast("stream operations", 15)
			c.AtLeast("changes of the record", 3)
		})

	register("C03", "lock-order analysis by abstract interpretation of every exported operation, locks followed through all calls",
		"Every exported function and method of the library is interpreted abstractly with all repository functions it calls (the container included), keeping the set of held locks along each path. Taking a lock that is already held by the same path is a violation; each pair held–taken adds an edge between lock classes (field of type), and the graph of all edges must have no cycle and no self edge. Every exit (panicking ones included) must have all locks free, nothing may be released that is not held, and no function value supplied by a caller may be called while a lock of the table container is held. Every lock operation of the repository must lie in a function that was covered.",
		[]string{"lock classes stand for all their instances", "readers and writers given by the user do not call back into the same package's writing operations"},
		func(c *Check) {
			order := map[string]map[string]token.Pos{}
			seen := map[*ssa.Function]bool{}
			fns := c.exported("", "/bulk", "/mmap", "/fsys", "/util")
			fns = append(fns, c.methodsOf("/util", "SeqMap")...)
			lockish := c.lockUsers()
			for _, fn := range fns {
				if !lockish[fn] {
					continue
				}
				c.Inst("operations")
				e := c.Engine()
				e.NoInv = true
				for _, m := range []string{"Init", "Len", "Has", "Peek", "Poke", "Push", "Pop", "Delete", "Range"} {
					e.NoDefault[seqMap+m] = true
				}
				e.Record = func(ev *Event) bool {
					switch ev.Kind {
					case "lock", "unlock", "badunlock":
						return true
					}
					return ev.Star != nil || ev.Name == "func value"
				}
				e.DropEmptyStars = true
				e.Inline = func(f *ssa.Function) bool { return lockish[f] || f.Synthetic != "" || f.Parent() != nil }
				outs := c.Run(e, fn, nil, nil)
				for f := range e.FnSeen {
					seen[f] = true
					if f.Origin() != nil {
						seen[f.Origin()] = true
					}
				}
				for i := range outs {
					o := &outs[i]
					AllEvents(o.St.Events(), func(ev *Event, in *Body) {
						s := o.St
						if in != nil {
							s = in.St
						}
						switch {
						case ev.Kind == "badunlock":
							c.Rule("locks are balanced")
							c.FailT(s, ev.Pos, ev.Fn, "badunlock", "a lock is released that is not held in this mode")
						case ev.Kind == "lock":
							c.Rule("no lock is taken twice")
							c.Site(ev.Pos)
							c.Inst("lock operations")
							for _, l := range ev.Locks {
								if !c.Must(l.Addr != ev.Recv, s, ev.Pos, ev.Fn, "relock", "the lock is taken while the same call chain (from %s) already holds it", cname(fn)) {
									continue
								}
								a, b := lockClass(l.Addr), lockClass(ev.Recv)
								if order[a] == nil {
									order[a] = map[string]token.Pos{}
								}
								if _, ok := order[a][b]; !ok {
									order[a][b] = ev.Pos
								}
							}
							c.Holds()
						case ev.Name == "func value" && ev.Kind == "call":
							c.Rule("no callback runs under the table's lock")
							c.Site(ev.Pos)
							for _, l := range ev.Locks {
								if strings.Contains(lockClass(l.Addr), "SeqMap") {
									c.FailT(s, ev.Pos, ev.Fn, "callback", "the caller's function is called while the table's lock is held")
								}
							}
							c.Holds()
						}
					})
					c.Rule("locks are balanced")
					c.Must(len(o.St.locks) == 0, o.St, at(o.Pos, fn), fn, "unreleased", "a lock is still held when %s ends", cname(fn))
				}
			}
			c.Rule("locks are taken in one order")
			var cyc func(from, at string, path []string) []string
			vis := map[string]bool{}
			cyc = func(from, at string, path []string) []string {
				for n := range order[at] {
					if n == from {
						return append(path, at, n)
					}
					if !vis[n] {
						vis[n] = true
						if r := cyc(from, n, append(path, at)); r != nil {
							return r
						}
					}
				}
				return nil
			}
			for a := range order {
				vis = map[string]bool{}
				r := cyc(a, a, nil)
				pos := token.NoPos
				for _, p := range order[a] {
					pos = p
				}
				c.Must(r == nil, nil, pos, nil, "cycle "+a, "locks are taken in a circle: %s", strings.Join(r, " then "))
			}
			c.Rule("every lock operation is covered")
			for _, fn := range c.P.AllFns {
				if fn.Origin() != nil && fn.Origin() != fn || fn.Synthetic != "" || !c.P.InRepo(fn) {
					continue
				}
				if hasLock(fn) {
					c.Inst("locking functions")
					c.Must(seen[fn], nil, fn.Pos(), fn, "uncovered", "%s takes a lock and is not reached from the operations analysed", cname(fn))
				}
			}
			c.AtLeast("operations", 30)
			c.AtLeast("lock operations", 20)
			c.AtLeast("locking functions", 4)
		})
}

func lockClass(a *Term) string {
	return strings.TrimPrefix(trimRepo(aliasClass(a)), "f:")
}

func lockCall(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	if f == nil {
		return false
	}
	switch cname(f) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock",
		"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return true
	}
	return false
}

func hasLock(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if lockCall(in) {
				return true
			}
		}
	}
	return false
}

// lockUsers are the functions from which a lock operation may be reached, function values
// and interface methods of the repository included.
func (c *Check) lockUsers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && !out[fn] {
			out[fn] = true
			work = append(work, fn)
		}
	}
	for _, fn := range c.P.AllFns {
		if c.P.InRepo(fn) && hasLock(fn) {
			add(fn)
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		add(fn.Origin())
		if fn.Parent() != nil {
			add(fn.Parent())
		}
		for f := range c.P.callers(fn) {
			add(f)
		}
		// dynamic calls of a method of this name
		if fn.Signature.Recv() != nil {
			for _, f := range c.P.AllFns {
				if !c.P.InRepo(f) || out[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == fn.Name() {
							if pk := ci.Common().Method.Pkg(); pk != nil && isRepoPkg(pk) {
								add(f)
							}
						}
					}
				}
			}
		}
	}
	return out
}
