package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of an abstract path.
type Event struct {
	Kind   string // call, lock, unlock, load, store, append, star, mapupdate, mapdelete, open...
	Name   string // canonical callee name or lock kind
	Method string // bare method or function name
	Recv   *Term  // receiver of a method
	Args   []*Term
	Data   []*Term // contents of byte slice arguments before the call
	Res    *Term   // call term, results are res(i)
	NRes   int
	Sig    *types.Signature
	Pos    token.Pos
	Fn     *ssa.Function // where it occurs
	Locks  []LockRec
	Star   *Star
	Instr  ssa.Instruction
	Pre    *State // abstract state before the event (only with Engine.KeepPre)
	Defer  bool
}

// Star stands for any number of complete iterations of a loop.
type Star struct {
	ID     string
	Kind   string // loop, range, callback
	Bodies []Body
	Over   *Term // container of a Range loop
	Key    *Term
	Val    *Term
	Header *State
	Init   map[*Term]*Term // what changes in the loop, by its value at the header: the value at entry
}

// Body is one path through a loop body which ends at its header again.
type Body struct {
	St   *State          // state at the back edge; its trace holds the events of this iteration only
	Next map[*Term]*Term // what changes in the loop: its value at the back edge
}

// Trace is a persistent sequence of events.
type Trace struct {
	Prev *Trace
	Ev   *Event
	N    int
	id   int
}

type LockRec struct {
	Addr *Term
	Mode string // W or R
	Pos  token.Pos
}

type rng struct{ off, w, val *Term }

// State is an abstract program state.
type State struct {
	e     *Engine
	mem   map[*Term]*Term
	bytes map[*Term][]rng
	bver  map[*Term]int
	ver   map[string]int
	hav   map[*Term]bool
	alloc map[*Term]bool
	facts *Facts
	tr    *Trace
	hist  int
	locks []LockRec
	tags  map[string]*Term // analysis specific state
}

func newState(e *Engine) *State {
	return &State{e: e, mem: map[*Term]*Term{}, bytes: map[*Term][]rng{}, bver: map[*Term]int{}, ver: map[string]int{}, hav: map[*Term]bool{}, alloc: map[*Term]bool{}, facts: newFacts(), tags: map[string]*Term{}}
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{e: s.e, mem: cpm(s.mem), bytes: cpm(s.bytes), bver: cpm(s.bver), ver: cpm(s.ver), hav: cpm(s.hav), alloc: cpm(s.alloc),
		facts: s.facts.clone(), tr: s.tr, hist: s.hist, locks: s.locks[:len(s.locks):len(s.locks)], tags: cpm(s.tags)}
}

// Events lists the events of the trace in order; stars stay folded.
func (s *State) Events() []*Event {
	var out []*Event
	for t := s.tr; t != nil; t = t.Prev {
		if t.Ev != nil {
			out = append(out, t.Ev)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// AllEvents visits all events including those of loop bodies.
func AllEvents(evs []*Event, f func(ev *Event, in *Body)) {
	for _, ev := range evs {
		if ev.Star != nil {
			f(ev, nil)
			for i := range ev.Star.Bodies {
				b := &ev.Star.Bodies[i]
				AllEvents(b.St.Events(), func(ev *Event, in *Body) {
					if in == nil {
						in = b
					}
					f(ev, in)
				})
			}
			continue
		}
		f(ev, nil)
	}
}

type histKey struct {
	prev int
	a    any
	b    int
}

func (s *State) step(a any, b int) int {
	k := histKey{s.hist, a, b}
	id, ok := s.e.hists[k]
	if !ok {
		id = len(s.e.hists) + 1
		s.e.hists[k] = id
	}
	s.hist = id
	return id
}

func (s *State) add(ev *Event) {
	e := s.e
	ev.Locks = s.locks
	if e.KeepPre != nil && e.KeepPre(ev) {
		ev.Pre = s.clone()
	}
	if e.Record != nil && ev.Star == nil && !e.Record(ev) {
		return
	}
	if ev.Star != nil && ev.Star.empty() && e.DropEmptyStars {
		return
	}
	s.push(ev)
}

func (st *Star) empty() bool {
	for _, b := range st.Bodies {
		if len(b.St.Events()) > 0 {
			return false
		}
	}
	return true
}

func (s *State) push(ev *Event) {
	e := s.e
	pid := 0
	n := 0
	if s.tr != nil {
		pid, n = s.tr.id, s.tr.N
	}
	var key string
	{
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d|%s|%s|%d", pid, ev.Kind, ev.Name, ev.Pos)
		if ev.Recv != nil {
			fmt.Fprintf(&sb, "|r%d", ev.Recv.ID)
		}
		for _, a := range ev.Args {
			if a != nil {
				fmt.Fprintf(&sb, ",%d", a.ID)
			}
		}
		if ev.Res != nil {
			fmt.Fprintf(&sb, "=%d", ev.Res.ID)
		}
		for _, a := range ev.Data {
			if a != nil {
				fmt.Fprintf(&sb, ";%d", a.ID)
			}
		}
		for _, l := range ev.Locks {
			fmt.Fprintf(&sb, "~%d%s", l.Addr.ID, l.Mode)
		}
		if ev.Star != nil {
			fmt.Fprintf(&sb, "*%p", ev.Star)
		}
		if ev.Pre != nil {
			fmt.Fprintf(&sb, "^%p", ev.Pre)
		}
		key = sb.String()
	}
	if t, ok := e.traces[key]; ok {
		s.tr = t
		return
	}
	t := &Trace{Prev: s.tr, Ev: ev, N: n + 1, id: len(e.traces) + 1}
	e.traces[key] = t
	s.tr = t
}

// ---- scalar memory -------------------------------------------------------

func aliasClass(a *Term) string {
	switch a.Op {
	case "faddr":
		return "f:" + a.Aux
	case "iaddr":
		return "i:" + tstr(elemOf(a.Typ))
	case "global":
		return "g:" + a.Aux
	}
	return "p:" + tstr(elemOf(a.Typ))
}

func elemOf(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isByteT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// addrRoot is the object an address lies in.
func addrRoot(a *Term) *Term {
	for {
		switch a.Op {
		case "faddr", "iaddr", "slice", "cast", "slicedata":
			a = a.Args[0]
			continue
		}
		return a
	}
}

func freshRoot(r *Term) bool {
	return r.Op == "alloc" || r.Op == "makeslice" || r.Op == "bytes" || r.Op == "append"
}

// mayAlias tells whether two different address terms may denote the same cell.
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := addrRoot(a), addrRoot(b)
	if ra != rb {
		fa, fb := freshRoot(ra) || ra.Op == "global", freshRoot(rb) || rb.Op == "global"
		if fa && fb {
			return false
		}
		if fa && (rb.Op == "param" || rb.Op == "load" || rb.Op == "field") || fb && (ra.Op == "param" || ra.Op == "load" || ra.Op == "field") {
			return false
		}
		if freshRoot(ra) && !s.escaped(ra) || freshRoot(rb) && !s.escaped(rb) {
			return false
		}
	}
	if a.Op == "faddr" || b.Op == "faddr" {
		if a.Op == "faddr" && b.Op == "faddr" {
			return a.Aux == b.Aux && s.mayAlias(a.Args[0], b.Args[0])
		}
		// a field and a pointer to its type
		if a.Op == "iaddr" || b.Op == "iaddr" {
			return false
		}
		if a.Op == "alloc" || b.Op == "alloc" || a.Op == "global" || b.Op == "global" {
			return false
		}
		return types.Identical(elemOf(a.Typ), elemOf(b.Typ))
	}
	if a.Op == "iaddr" && b.Op == "iaddr" {
		if a.Args[0] == b.Args[0] {
			if v, ok := s.facts.Decide(eqT(a.Args[1], b.Args[1])); ok && !v {
				return false
			}
			return true
		}
		return types.Identical(elemOf(a.Typ), elemOf(b.Typ))
	}
	if a.Op == "iaddr" || b.Op == "iaddr" {
		if a.Op == "alloc" || b.Op == "alloc" || a.Op == "global" || b.Op == "global" {
			return false
		}
	}
	return types.Identical(elemOf(a.Typ), elemOf(b.Typ))
}

func (s *State) escaped(r *Term) bool { return s.hav[r] }

// load reads a value of type t at address a.
// appended finds an element of a list made of known elements.
func (s *State) appended(a *Term, t types.Type) *Term {
	if a.Op != "iaddr" || a.Args[0].Op != "append" || s.hav[a.Args[0]] || s.anyAliasCell(a) {
		return nil
	}
	i, ok := a.Args[1].intVal()
	if !ok || i < 0 {
		return nil
	}
	for _, p := range a.Args[0].Args {
		switch {
		case p.Op == "nil":
			continue
		case p.Op == "elems" && i < int64(len(p.Args)):
			return p.Args[i]
		}
		n, ok := lenT(p).intVal()
		if p.Op == "elems" {
			n, ok = int64(len(p.Args)), true
		}
		if !ok || i < n {
			return nil
		}
		i -= n
	}
	return nil
}

func (s *State) load(a *Term, t types.Type) *Term {
	if st, ok := under(t).(*types.Struct); ok && a.Op != "cast" {
		fs := make([]*Term, st.NumFields())
		if _, ok := s.mem[a]; !ok {
			all := st.NumFields() > 0
			for i := range fs {
				fs[i] = s.load(faddr(a, st, i, t), st.Field(i).Type())
			}
			if all {
				// whole unchanged value of another place
				return mkStruct(t, fs)
			}
		}
	}
	if at, ok := under(t).(*types.Array); ok {
		if isByteT(at.Elem()) {
			return mk("arr", fmt.Sprint(at.Len()), t, s.arrBytes(a, at.Len()))
		}
		if at.Len() <= 64 {
			fs := make([]*Term, at.Len())
			for i := range fs {
				fs[i] = s.load(mk("iaddr", "", types.NewPointer(at.Elem()), a, intConst(int64(i), tyInt)), at.Elem())
			}
			return mk("arrv", "", t, fs...)
		}
	}
	if root, off, ok := byteAddr(a); ok {
		w := sizeOf(t)
		if w == 0 {
			return mk("unk", fmt.Sprintf("%d", s.step(a, 1)), t)
		}
		return decode(s.readBytes(root, off, intConst(w, tyInt)), w, t)
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	if _, ok := s.bytes[a]; ok && sizeOf(t) > 0 {
		w := sizeOf(t)
		return decode(s.readBytes(a, intConst(0, tyInt), intConst(w, tyInt)), w, t)
	}
	// cells through another spelling of the same element
	if a.Op == "iaddr" {
		for b, v := range s.mem {
			if b.Op == "iaddr" && b.Args[0] == a.Args[0] && b != a && s.facts.ProveEq(a.Args[1], b.Args[1]) {
				return v
			}
		}
	}
	r := addrRoot(a)
	if freshRoot(r) && !s.hav[r] && r.Op != "append" {
		if !indexed(a) || !s.anyAliasCell(a) {
			return zeroTerm(t)
		}
	}
	if v := s.e.globalInit(a, t); v != nil {
		return v
	}
	if v := s.appended(a, t); v != nil {
		return v
	}
	v := mk("load", fmt.Sprint(s.ver[aliasClass(a)], s.verRoot(r)), t, a)
	if !immutableGlobal(a) {
		s.mem[a] = v
	} else {
		v = mk("load", "", t, a)
	}
	return v
}

func (s *State) arrBytes(a *Term, n int64) *Term {
	r, o := byteBase(a)
	return s.readBytes(r, o, intConst(n, tyInt))
}

func (s *State) verRoot(r *Term) int { return s.bver[r] }

func (s *State) anyAliasCell(a *Term) bool {
	for b := range s.mem {
		if b != a && indexed(b) && s.mayAlias(a, b) {
			return true
		}
	}
	return false
}

// indexed tells that an address lies in an element of an array or a slice.
func indexed(a *Term) bool {
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	return a.Op == "iaddr"
}

func mkStruct(t types.Type, fs []*Term) *Term {
	// reassembled whole value
	if len(fs) > 0 && fs[0].Op == "field" {
		b := fs[0].Args[0]
		st := under(t).(*types.Struct)
		same := types.Identical(b.Typ, t)
		for i, f := range fs {
			if f.Op != "field" || f.Args[0] != b || f.Aux != st.Field(i).Name() {
				same = false
				break
			}
		}
		if same {
			return b
		}
	}
	return mk("struct", tstr(t), t, fs...)
}

// store writes value v of type t at address a.
func (s *State) store(a, v *Term, t types.Type) {
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			s.store(faddr(a, st, i, t), fieldOf(v, st, i), st.Field(i).Type())
		}
		if st.NumFields() > 0 {
			return
		}
	}
	if at, ok := under(t).(*types.Array); ok {
		if isByteT(at.Elem()) {
			val := mk("content", "arr", t, v)
			if v.Op == "arr" {
				val = v.Args[0]
			} else if v.Op == "zero" {
				val = mk("zeros", fmt.Sprint(at.Len()), t)
			}
			s.writeBytes(a, intConst(0, tyInt), intConst(at.Len(), tyInt), val)
			return
		}
		if at.Len() <= 64 {
			for i := int64(0); i < at.Len(); i++ {
				var x *Term
				switch v.Op {
				case "arrv":
					x = v.Args[i]
				case "zero":
					x = zeroTerm(at.Elem())
				default:
					x = mk("elem", fmt.Sprint(i), at.Elem(), v)
				}
				s.store(mk("iaddr", "", types.NewPointer(at.Elem()), a, intConst(i, tyInt)), x, at.Elem())
			}
			return
		}
		s.dropUnder(a)
		return
	}
	if root, off, ok := byteAddr(a); ok {
		w := sizeOf(t)
		s.writeBytes(root, off, intConst(w, tyInt), encode(v, w))
		return
	}
	for b := range s.mem {
		if b != a && s.mayAlias(a, b) {
			delete(s.mem, b)
		}
	}
	delete(s.bytes, a)
	if r := addrRoot(a); !freshRoot(r) {
		s.ver[aliasClass(a)] = s.step("ver", 0)
	}
	s.mem[a] = v
}

// dropUnder forgets everything stored inside of the object at address a.
func (s *State) dropUnder(a *Term) {
	for b := range s.mem {
		if underAddr(b, a) {
			delete(s.mem, b)
		}
	}
	for b := range s.bytes {
		if underAddr(b, a) {
			delete(s.bytes, b)
		}
	}
	tok := s.step("drop", 0)
	s.bver[a] = tok
	r := addrRoot(a)
	s.bver[r] = tok
	s.hav[r] = true
}

func underAddr(b, a *Term) bool {
	for {
		if b == a {
			return true
		}
		switch b.Op {
		case "faddr", "iaddr", "slice", "cast", "slicedata":
			b = b.Args[0]
		default:
			return false
		}
	}
}

// ---- byte memory ----------------------------------------------------------

// byteAddr resolves an address inside of a byte object to its root and offset.
func byteAddr(a *Term) (root, off *Term, ok bool) {
	switch a.Op {
	case "iaddr":
		if isByteT(elemOf(a.Typ)) {
			r, o := byteBase(a.Args[0])
			return r, addT(o, a.Args[1], tyInt), true
		}
	case "cast":
		r, o, ok := byteAddr(a.Args[0])
		if ok {
			return r, o, true
		}
		// a pointer to something else viewed as other type
		return a.Args[0], intConst(0, tyInt), true
	case "slicedata":
		if sl, ok := under(a.Args[0].Typ).(*types.Slice); ok && isByteT(sl.Elem()) {
			r, o := byteBase(a.Args[0])
			return r, o, true
		}
	}
	return nil, nil, false
}

// byteBase resolves a byte slice (or array pointer) to root object and start offset.
func byteBase(b *Term) (root, off *Term) {
	switch b.Op {
	case "slice":
		r, o := byteBase(b.Args[0])
		return r, addT(o, b.Args[1], tyInt)
	case "arrptr":
		return byteBase(b.Args[0])
	case "uslice":
		if r, o, ok := byteAddr(b.Args[0]); ok {
			return r, o
		}
		return b.Args[0], intConst(0, tyInt)
	}
	return b, intConst(0, tyInt)
}

var sizes = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) int64 {
	switch under(t).(type) {
	case *types.Basic:
		b := under(t).(*types.Basic)
		if b.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean) != 0 {
			return sizes.Sizeof(t)
		}
	}
	return 0
}

func encode(v *Term, w int64) *Term {
	if v.Op == "dec" && v.Aux == fmt.Sprint(w) {
		return v.Args[0]
	}
	if v.Op == "dec" && v.Aux == fmt.Sprint(w, ":", tstr(under(v.Typ))) {
		return v.Args[0]
	}
	if v.Op == "fbits" && v.Aux == fmt.Sprint(w) {
		v = v.Args[0]
	}
	if v.isInt(0) || v == tFalse {
		return mk("zeros", fmt.Sprint(w), nil)
	}
	return mk("le", fmt.Sprint(w), nil, v)
}

func uintOf(w int64) types.Type {
	return map[int64]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[w]
}

func decode(b *Term, w int64, t types.Type) *Term {
	if b.Op == "le" && b.Aux == fmt.Sprint(w) {
		v := b.Args[0]
		if types.Identical(under(v.Typ), under(t)) {
			return v
		}
		if isInt(v.Typ) && isInt(t) {
			return convT(v, t)
		}
		if isInt(t) {
			return mk("fbits", fmt.Sprint(w), t, v)
		}
	}
	if b.Op == "zeros" {
		return zeroTerm(t)
	}
	if b.Op == "sub" && b.Args[0].Op == "le" && b.Args[1].isInt(0) && isInt(t) && isInt(b.Args[0].Args[0].Typ) {
		return convT(convT(b.Args[0].Args[0], uintOf(w)), t) // the low bytes
	}
	d := mk("dec", fmt.Sprint(w, ":", tstr(under(t))), t, b)
	if bs, ok := under(t).(*types.Basic); ok && bs.Info()&types.IsInteger != 0 {
		// one identity for all integer views
		_, signed := intKind(t)
		if !signed {
			d = mk("dec", fmt.Sprint(w), t, b)
		} else {
			u := map[int64]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[w]
			return convT(mk("dec", fmt.Sprint(w), u, b), t)
		}
	}
	return d
}

// subBytes takes w bytes at off out of a byte sequence of length n.
func subBytes(b, off, w *Term) *Term {
	if b.Op == "zeros" {
		return mk("zeros", w.String(), nil)
	}
	if b.Op == "sub" {
		return subBytes(b.Args[0], addT(b.Args[1], off, tyInt), w)
	}
	if s, ok := b.strVal(); ok {
		o, ok1 := off.intVal()
		n, ok2 := w.intVal()
		if ok1 && ok2 && o >= 0 && n >= 0 && o+n <= int64(len(s)) {
			return strConst(s[o : o+n])
		}
	}
	if b.Op == "le" && off.isInt(0) {
		if w.String() == b.Aux {
			return b
		}
	}
	if isString(b.Typ) || b.Op == "concat" {
		if off.isInt(0) && w == lenT(b) {
			return b
		}
	}
	return mk("sub", "", nil, b, off, w)
}

func (s *State) readBytes(root, off, w *Term) *Term {
	if root.Op == "s2b" {
		return subBytes(root.Args[0], off, w)
	}
	return s.readCells(root, s.bytes[root], off, w, 0)
}

// catsT is a sequence of byte ranges with their lengths.
func catsT(st *State, parts ...*Term) *Term {
	var as []*Term
	for i := 0; i < len(parts); i += 2 {
		d, n := parts[i], parts[i+1]
		if n.isInt(0) || st.facts.ProveEq(n, intConst(0, tyInt)) {
			continue
		}
		if d.Op == "cats" {
			as = append(as, d.Args...)
		} else {
			as = append(as, d, n)
		}
	}
	// pieces of one integer
	var js []*Term
	for i := 0; i < len(as); {
		j := i
		var ws []int64
		var vs []*Term
		for ; j < len(as); j += 2 {
			n, ok := as[j+1].intVal()
			if !ok || as[j].Op != "le" {
				break
			}
			ws, vs = append(ws, n), append(vs, as[j])
		}
		if j == i {
			js = append(js, as[i], as[i+1])
			i += 2
			continue
		}
		ws, vs = joinCells(ws, vs)
		for k := range ws {
			js = append(js, vs[k], intConst(ws[k], tyInt))
		}
		i = j
	}
	as = js
	if len(as) == 0 {
		return strConst("")
	}
	if len(as) == 2 {
		return as[0]
	}
	return mk("cats", "", nil, as...)
}

func (s *State) readCells(root *Term, cells []rng, off, w *Term, depth int) *Term {
	f := s.facts
	// several adjacent cells which make up the range exactly
	for i := len(cells) - 1; i >= 0; i-- {
		c := cells[i]
		if c.off == off && c.w == w {
			return c.val
		}
		d := subT(off, c.off, tyInt)
		if f.ProveEq(off, c.off) && f.ProveEq(w, c.w) {
			return c.val
		}
		end, cend := addT(off, w, tyInt), addT(c.off, c.w, tyInt)
		if f.ProveGE(off, c.off, 0) && f.ProveGE(cend, end, 0) {
			return subBytes(c.val, d, w)
		}
		if f.ProveGE(off, cend, 0) || f.ProveGE(c.off, end, 0) {
			continue
		}
		// try to put together
		if parts, ok := s.pieces(root, cells[:i+1], off, w); ok {
			return parts
		}
		if depth < 4 {
			// the cell is in the middle, or at one end
			l, r := f.ProveGE(c.off, off, 0), f.ProveGE(end, cend, 0)
			switch {
			case l && r:
				ln, rn := subT(c.off, off, tyInt), subT(end, cend, tyInt)
				return catsT(s, s.readCells(root, cells[:i], off, ln, depth+1), ln, c.val, c.w, s.readCells(root, cells[:i], cend, rn, depth+1), rn)
			case l && f.ProveGE(end, c.off, 0) && f.ProveGE(cend, end, 0):
				ln, rn := subT(c.off, off, tyInt), subT(end, c.off, tyInt)
				return catsT(s, s.readCells(root, cells[:i], off, ln, depth+1), ln, subBytes(c.val, intConst(0, tyInt), rn), rn)
			case r && f.ProveGE(off, c.off, 0) && f.ProveGE(cend, off, 0):
				ln, rn := subT(cend, off, tyInt), subT(end, cend, tyInt)
				return catsT(s, subBytes(c.val, d, ln), ln, s.readCells(root, cells[:i], cend, rn, depth+1), rn)
			}
		}
		return mk("content", fmt.Sprint("mix", s.hist, ":", i), nil, root, off, w)
	}
	if v, ok := s.mem[root]; ok && len(cells) == 0 && off.isInt(0) {
		if n, ok := w.intVal(); ok && n == sizeOf(elemOf(root.Typ)) {
			return encode(v, n)
		}
	}
	if freshRoot(root) && !s.hav[root] && root.Op != "append" || root.Op == "faddr" && freshRoot(addrRoot(root)) && !s.hav[addrRoot(root)] {
		return mk("zeros", w.String(), nil)
	}
	return mk("content", fmt.Sprint(s.bver[root]), nil, root, off, w)
}

// pieces assembles a constant range out of several constant cells.
func (s *State) pieces(root *Term, cells []rng, off, w *Term) (*Term, bool) {
	n, ok := w.intVal()
	if !ok || n > 4096 {
		return nil, false
	}
	o := int64(0) // offsets are relative to off if this one is not known
	rel := func(t *Term) (int64, bool) { return subT(t, off, tyInt).intVal() }
	abs := func(o int64) *Term { return addT(off, intConst(o, tyInt), tyInt) }
	if v, ok := off.intVal(); ok {
		o, rel = v, (*Term).intVal
		abs = func(o int64) *Term { return intConst(o, tyInt) }
	}
	type seg struct {
		o, n int64
		v    *Term
	}
	var segs []seg
	type gap struct{ o, n int64 }
	gaps := []gap{{o, n}}
	for i := len(cells) - 1; i >= 0 && len(gaps) > 0; i-- {
		co, ok1 := rel(cells[i].off)
		cn, ok2 := cells[i].w.intVal()
		if !ok1 || !ok2 {
			c := cells[i]
			if s.facts.ProveGE(off, addT(c.off, c.w, tyInt), 0) || s.facts.ProveGE(c.off, addT(off, w, tyInt), 0) {
				continue // elsewhere
			}
			return nil, false
		}
		var ng []gap
		for _, g := range gaps {
			lo, hi := max(g.o, co), min(g.o+g.n, co+cn)
			if lo >= hi {
				ng = append(ng, g)
				continue
			}
			segs = append(segs, seg{lo, hi - lo, subBytes2(cells[i].val, lo-co, hi-lo, cn)})
			if g.o < lo {
				ng = append(ng, gap{g.o, lo - g.o})
			}
			if hi < g.o+g.n {
				ng = append(ng, gap{hi, g.o + g.n - hi})
			}
		}
		gaps = ng
	}
	for _, g := range gaps {
		if freshRoot(root) && !s.hav[root] && root.Op != "append" {
			segs = append(segs, seg{g.o, g.n, mk("zeros", fmt.Sprint(g.n), nil)})
		} else {
			segs = append(segs, seg{g.o, g.n, mk("content", fmt.Sprint("gap", s.hist), nil, root, abs(g.o), intConst(g.n, tyInt))})
		}
	}
	sort.Slice(segs, func(i, j int) bool { return segs[i].o < segs[j].o })
	var args []*Term
	var ws []int64
	for _, g := range segs {
		ws = append(ws, g.n)
		args = append(args, g.v)
	}
	ws, args = joinCells(ws, args)
	if len(args) == 1 {
		return args[0], true
	}
	var sb strings.Builder
	for _, n := range ws {
		fmt.Fprintf(&sb, "%d,", n)
	}
	return mk("cat", sb.String(), nil, args...), true
}

func subBytes2(v *Term, o, n, total int64) *Term {
	if o == 0 && n == total {
		return v
	}
	return subBytes(v, intConst(o, tyInt), intConst(n, tyInt))
}

func (s *State) writeBytes(root, off, w, val *Term) {
	delete(s.mem, root)
	c := s.bytes[root]
	s.bytes[root] = append(c[:len(c):len(c)], rng{off, w, val})
	if !freshRoot(addrRoot(root)) {
		s.bver[root] = s.step("bw", 0)
	}
}

// sliceBytes is the content of a byte slice value at this moment.
func (s *State) sliceBytes(b *Term) *Term {
	if b.Op == "nil" {
		return strConst("")
	}
	if isString(b.Typ) {
		return b
	}
	r, o := byteBase(b)
	return s.readBytes(r, o, lenT(b))
}

// havocBytes makes the content of a slice unknown.
func (s *State) setSliceBytes(b, val *Term) {
	if b.Op == "nil" {
		return
	}
	r, o := byteBase(b)
	s.writeBytes(r, o, lenT(b), val)
}

func immutableGlobal(a *Term) bool {
	return a.Op == "global" && isError(elemOf(a.Typ))
}
