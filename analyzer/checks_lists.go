package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- lists built while walking over tables -----------------------------------

// appended gives what a list has more than another one it was made of.
func appended(t, base *Term) (elems []*Term, ok bool) {
	if t == nil || base == nil {
		return nil, t == base
	}
	if t == base {
		return nil, true
	}
	if t.Op == "append" && len(t.Args) > 0 && len(t.Args) <= 2 {
		seg := t.Args[len(t.Args)-1]
		var head []*Term
		switch {
		case len(t.Args) == 1 && lenT(base).isInt(0):
		case len(t.Args) == 2:
			head, ok = appended(t.Args[0], base)
			if !ok {
				return nil, false
			}
		default:
			return nil, false
		}
		if seg.Op == "elems" {
			return append(head, seg.Args...), true
		}
		return append(head, seg), true
	}
	return nil, t.Op == "nil" && lenT(base).isInt(0) || base.Op == "nil" && lenT(t).isInt(0)
}

// leaf is a stretch of a path on which a list gets no more than the given elements.
type leaf struct {
	st      *State
	table   *Star // the walk over a table this is an iteration of
	stopped bool  // it is the last iteration
	elems   []*Term
	evs     []*Event
	after   bool // code behind all walks
	list    *Term
	outer   []*Star // loops around it
	broken  *Event  // an earlier walk of the stretch was left early
}

// listWalk follows a list through nested loops.
type listWalk struct {
	typ   types.Type
	leaf  func(l *leaf)
	inv   func(s *Star, v *Term, b *Body) // called for each iteration that changes the list
	loop  func(s *Star, stacked []*Star)
	fail  func(st *State, why string)
	final *Term
}

func isTableWalk(s *Star) bool {
	return s.Kind == "range" && s.Over != nil && strings.HasSuffix(s.Over.Aux, ".tsm")
}

// walk follows a path from the value base of the list to the value final.
func (w *listWalk) walk(st *State, evs []*Event, base, final *Term, outer []*Star, in *Star) {
	cur := base
	var since []*Event
	var open *Star // the walk before
	var stop, broken *Event
	started := base != nil
	flush := func(to *Term) {
		elems, ok := appended(to, cur)
		if !ok && cur != nil && to != nil && st.facts.ProveEq(lenT(to), intConst(0, types.Typ[types.Int])) && st.facts.ProveEq(lenT(cur), intConst(0, types.Typ[types.Int])) {
			ok = true // another empty list
		}
		if !ok {
			w.fail(st, "the list is replaced by "+shortT(to))
			return
		}
		l := &leaf{st: st, elems: elems, evs: since, list: to, outer: outer, broken: broken}
		if open != nil && stop != nil {
			l.table, l.stopped = open, true
		} else if in != nil {
			l.table = in
		} else {
			l.after = true
		}
		w.leaf(l)
		cur = to
	}
	for _, ev := range evs {
		switch {
		case ev.Kind == "rangestop":
			stop, broken = ev, ev
		case ev.Kind == "rangeend":
			stop = nil
		case ev.Star != nil:
			s := ev.Star
			var v *Term
			for x, init := range s.Init {
				if x.Typ == nil || init == nil || !types.Identical(under(x.Typ), under(w.typ)) {
					continue
				}
				if !started && lenT(init).isInt(0) {
					v, cur, started = x, init, true
					break
				}
				if _, ok := appended(init, cur); ok && started {
					v = x
					break
				}
			}
			if v != nil {
				flush(s.Init[v])
			}
			since = nil
			if w.loop != nil {
				w.loop(s, outer)
			}
			out2 := outer
			var in2 *Star
			if isTableWalk(s) {
				in2 = s
			} else {
				out2 = append(append([]*Star{}, outer...), s)
			}
			for k := range s.Bodies {
				b := &s.Bodies[k]
				from, to := v, (*Term)(nil)
				if v != nil {
					to = b.Next[v]
					if w.inv != nil {
						w.inv(s, v, b)
					}
				} else {
					from, to = cur, cur
				}
				w.walk(b.St, b.St.Events(), from, to, out2, in2)
			}
			if v != nil {
				cur = v
			}
			open, stop = s, nil
		default:
			since = append(since, ev)
		}
	}
	if !started {
		cur = final
	}
	flush(final)
}

// listIndex tells which element of a list of packages a package is.
func listIndex(pkg, list *Term) *Term {
	for pkg != nil && pkg.Op == "load" && pkg.Args[0].Op == "iaddr" {
		a := pkg.Args[0]
		if a.Args[0] == list {
			return a.Args[1]
		}
		return nil
	}
	return nil
}

// packages is the list of a union.
func (c *Check) packages(st *State, u *Term) *Term {
	a := c.fieldAddr(u, "", "Union", "List")
	return st.load(a, under(a.Typ).(*types.Pointer).Elem())
}

// inOrder proves that a loop takes the packages of a list one after another from the first to the last.
func (c *Check) inOrder(fn *ssa.Function, s *Star, idx *Term) {
	first := substT(idx, s.Init)
	c.Inst("loops over packages")
	hs := s.Header
	zero := intConst(0, tyInt)
	c.Must(first != nil && hs.facts.ProveEq(first, zero), hs, fn.Pos(), fn, "first package", "the loop over packages does not begin at the first one, but at %v", first)
	for k := range s.Bodies {
		b := &s.Bodies[k]
		next := substT(idx, b.Next)
		c.Must(next != nil && b.St.facts.ProveEq(next, addT(idx, intConst(1, tyInt), tyInt)), b.St, fn.Pos(), fn, "next package", "the loop over packages goes on with %v", next)
	}
}

// tableIn is the package whose table is walked over or asked in the given events, as an element of a list.
func (c *Check) tableIn(evs []*Event, list *Term) (idx, pkg *Term) {
	AllEvents(evs, func(ev *Event, b *Body) {
		var t *Term
		if ev.Star != nil && isTableWalk(ev.Star) {
			t = ev.Star.Over
		} else if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*wpk/util.SeqMap).") {
			t = ev.Recv
		}
		if t != nil && idx == nil {
			if p := holderOf(t); p != nil {
				if i := listIndex(p, list); i != nil {
					idx, pkg = i, p
				}
			}
		}
	})
	return
}

// marked tells what is known of the presence of a name in a set that was made before any of the loops.
func marked(st *State, name *Term, outer []*Star, table *Star) (set *Term, has, known bool) {
	for t, v := range st.facts.truth {
		if t.Op != "maphas" || len(t.Args) != 2 || t.Args[0].Op != "makemap" || !sameString(st, t.Args[1], name) {
			continue
		}
		n, err := strconv.Atoi(t.Args[0].Aux)
		first := table
		if len(outer) > 0 {
			first = outer[0]
		}
		if err != nil || first == nil || first.Header == nil || n > first.Header.hist {
			continue
		}
		return t.Args[0], v, true
	}
	return
}

// marks tells that a name is put into a set.
func marks(st *State, evs []*Event, set, name *Term) bool {
	for _, ev := range evs {
		if ev.Kind == "mapupdate" && len(ev.Args) > 1 && ev.Args[0] == set && sameString(st, ev.Args[1], name) {
			return true
		}
	}
	return false
}

// firstPart splits a relative name at its first slash.
func firstPart(st *State, rest *Term) (name *Term, dir, known bool) {
	zero, slash := intConst(0, tyInt), '/'
	f := st.facts
	for t := range f.truth {
		ok := false
		t.any(func(x *Term) bool {
			if x.Op == "pure" && strings.HasPrefix(x.Aux, "strings.Index") && sameString(st, x.Args[0], rest) {
				n, isN := x.Args[1].intVal()
				if isN && n == int64(slash) || x.Args[1].isStr("/") {
					if f.ProveGE(x, zero, 0) {
						name, dir, ok = sliceT(rest, zero, x, nil, tyString), true, true
						return true
					}
					if f.ProveGE(zero, x, 1) {
						name, dir, ok = rest, false, true
						return true
					}
				}
			}
			if x.Op == "pure" && (x.Aux == "strings.Contains" || x.Aux == "strings.ContainsRune") && sameString(st, x.Args[0], rest) && x.Args[1].isStr("/") {
				if v, k := f.Decide(x); k && !v {
					name, dir, ok = rest, false, true
					return true
				}
			}
			return false
		})
		if ok {
			return name, dir, true
		}
	}
	return
}

// endOfPart is where the first part of a relative name ends.
func childPaths(st *State, key, rest, name *Term, dirs []*Term) func(p *Term) bool {
	slash := strConst("/")
	return func(p *Term) bool {
		if kr, ko := strBase(rest); kr == key { // the part of the key up to the end of the name
			r, o := strBase(p)
			if r == key && st.facts.ProveEq(o, intConst(0, tyInt)) && st.facts.ProveEq(lenT(p), addT(ko, lenT(name), tyInt)) {
				return true
			}
		}
		for _, d := range dirs {
			for _, x := range []*Term{joinPath(d, name), concatT(d, slash, name), joinPath(concatT(d, slash), name)} {
				if sameString(st, p, x) {
					return true
				}
			}
		}
		return false
	}
}

// tagPath is the path stored in a tagset value.
func (c *Check) tagPath(st *State, ts *Term) *Term {
	v, ok := tsGet(ts, tidT(3), "TagStr", tyString)
	if ok != tTrue {
		if k, known := st.facts.Decide(ok); !known || !k {
			return nil
		}
	}
	return v
}

// newObj tells the allocated object of given type an interface value points to.
func newObj(t *Term, typ string) *Term {
	p := unwrap(t)
	if p != nil && p.Op == "alloc" && ptrTo(p.Typ) == typ {
		return p
	}
	return nil
}

// lister is a function that lists a directory.
type lister struct {
	spec  string
	dirs  func(st *State, ps []*Term, ws *Term) [][]*Term // ways to name the directory
	limit func(ps []*Term) *Term
	table func(st *State, ps []*Term) *Term // its table
	union func(st *State, ps []*Term) *Term // or its union
	fails func(st *State, ps []*Term, err *Term, left *Term) bool
}

func (c *Check) listers() []lister {
	at := func(i int) func(ps []*Term) *Term { return func(ps []*Term) *Term { return ps[i] } }
	none := func(ps []*Term) *Term { return intConst(-1, tyInt) }
	self := func(st *State, ps []*Term) *Term { return ps[0] }
	full := func(d *Term) [][]*Term { return [][]*Term{{toSlash(d)}, {d}} }
	below := func(ws, d *Term) (out [][]*Term) {
		for _, x := range []*Term{toSlash(d), d} {
			j := joinPath(ws, x)
			out = append(out, []*Term{ws, x}, []*Term{j}, []*Term{toSlash(j)})
		}
		return
	}
	empty := func(st *State, ps []*Term, err, left *Term) bool {
		_, inner, ok := pathError(st, err)
		return ok && isNotExist(inner) && left != nil && st.facts.ProveEq(lenT(left), intConst(0, tyInt))
	}
	field := func(typ, f string) func(st *State, ps []*Term) *Term {
		return func(st *State, ps []*Term) *Term {
			a := c.fieldAddr(ps[0], "", typ, f)
			return st.load(a, under(a.Typ).(*types.Pointer).Elem())
		}
	}
	path := func(st *State, ps []*Term, typ string) *Term {
		v, _ := tsGet(field(typ, "TagsetRaw")(st, ps), tidT(3), "TagStr", tyString)
		return v
	}
	// trimmed is the path of a union's directory without the workspace of the first package
	trimmed := func(st *State, ps []*Term) (p, rest *Term) {
		p = path(st, ps, "UnionDir")
		list := c.packages(st, field("UnionDir", "Union")(st, ps))
		if st.facts.ProveEq(lenT(list), intConst(0, tyInt)) {
			return p, p
		}
		first := st.load(mk("iaddr", "", types.NewPointer(under(list.Typ).(*types.Slice).Elem()), list, intConst(0, tyInt)), under(list.Typ).(*types.Slice).Elem())
		return p, mk("pure", "trimmed", tyString, first, p)
	}
	return []lister{
		{spec: ":FTT.ReadDirN", limit: at(2), table: self, dirs: func(st *State, ps []*Term, ws *Term) [][]*Term { return full(ps[1]) }},
		{spec: ":Union.ReadDirN", limit: at(2), union: self, dirs: func(st *State, ps []*Term, ws *Term) [][]*Term { return below(ws, ps[1]) }},
		{spec: ":Package.ReadDir", limit: none, table: field("Package", "FTT"), fails: empty, dirs: func(st *State, ps []*Term, ws *Term) [][]*Term { return below(ws, ps[1]) }},
		{spec: ":Union.ReadDir", limit: none, union: self, fails: empty, dirs: func(st *State, ps []*Term, ws *Term) [][]*Term { return below(ws, ps[1]) }},
		{spec: ":PackDirFile.ReadDir", limit: at(1), table: field("PackDirFile", "ftt"), dirs: func(st *State, ps []*Term, ws *Term) [][]*Term { return full(path(st, ps, "PackDirFile")) }},
		{spec: ":UnionDir.ReadDir", limit: at(1), union: field("UnionDir", "Union"), dirs: func(st *State, ps []*Term, ws *Term) [][]*Term {
			_, rest := trimmed(st, ps)
			return below(ws, rest)
		}, fails: func(st *State, ps []*Term, err, left *Term) bool {
			// the path is outside of the workspace
			p, rest := trimmed(st, ps)
			v, k := st.facts.Decide(eqT(rest, strConst("")))
			u, k2 := st.facts.Decide(eqT(p, strConst("")))
			return k && v && k2 && !u
		}},
	}
}

// trimModel leaves the trimming of a workspace as it is; C26 decides what it does.
func trimModel(c *Call) ([]Outcome, bool) {
	return []Outcome{{St: c.st, Vals: []*Term{mk("pure", "trimmed", tyString, c.Recv, c.Args[0])}}}, true
}

// listing checks the listing of a directory.
func (c *Check) listing(s lister) {
	fn := c.Fn(s.spec)
	if fn == nil {
		return
	}
	e := c.Engine()
	e.Models["(*wpk.Package).TrimPath"] = trimModel
	ps := e.Params(fn)
	n := s.limit(ps)
	union := s.union != nil
	zero := intConst(0, tyInt)
	st0 := newState(e)
	c.unread(st0, fn, ps[0])
	outs := c.Run(e, fn, nil, st0)
	typ := fn.Signature.Results().At(0).Type()
	seen := map[*Star]bool{}
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
			continue
		}
		res := o.Vals[0]
		if mustNil(o.St, res) && mustNotNil(o.St, errVal(o)) && !equalsEOF(errVal(o)) {
			var left *Term // the list that was made
			for _, ev := range o.St.Events() {
				if ev.Star != nil {
					for v := range ev.Star.Init {
						if v.Typ != nil && types.Identical(under(v.Typ), under(typ)) {
							left = v
						}
					}
				}
			}
			c.Must(s.fails != nil && s.fails(o.St, ps, errVal(o), left), o.St, o.Pos, fn, "refused", "the listing is refused though there may be entries: %v", errVal(o))
			continue
		}
		var list, table *Term
		if union {
			list = c.packages(o.St, s.union(o.St, ps))
		} else {
			table = s.table(o.St, ps)
		}
		// a limit may be applied to the complete list
		full := res
		if res.Op == "slice" && res.Args[1].isInt(0) {
			full = res.Args[0]
		}
		var vars []*Term
		ordered := map[*Star]bool{}
		w := &listWalk{typ: typ}
		w.fail = func(st *State, why string) { c.Must(false, st, o.Pos, fn, "list", "%s", why) }
		type turn struct {
			v *Term
			s *Star
			b *Body
		}
		var turns []turn
		// withLimit are the facts of a state for a positive limit, as far as they are possible
		withLimit := func(st *State, inv bool) (*Facts, bool) {
			f := st.facts.clone()
			ok := f.Assume(ltT(zero, n), true)
			if inv {
				for _, v := range vars {
					ok = ok && f.Assume(ltT(lenT(v), n), true)
				}
			}
			return f, ok && f.Consistent() && f.feasible(nil)
		}
		w.inv = func(st *Star, v *Term, b *Body) {
			has := false
			for _, x := range vars {
				has = has || x == v
			}
			if !has {
				vars = append(vars, v)
			}
			turns = append(turns, turn{v, st, b})
		}
		w.loop = func(st *Star, outer []*Star) {
			if union && !isTableWalk(st) && !ordered[st] {
				for k := range st.Bodies {
					if idx, _ := c.tableIn(st.Bodies[k].St.Events(), list); idx != nil {
						ordered[st] = true
						if !seen[st] {
							seen[st] = true
							c.inOrder(fn, st, idx)
						}
						break
					}
				}
			}
		}
		w.leaf = func(l *leaf) {
			st := l.st
			if l.table == nil {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "extra", "the list gets entries that belong to no file")
				return
			}
			if union {
				c.Must(listIndex(holderOf(l.table.Over), list) != nil, st, o.Pos, fn, "table", "the table of something else than the packages is listed")
			} else {
				c.Must(l.table.Over.Op == "faddr" && sameVal(st, l.table.Over.Args[0], table), st, o.Pos, fn, "table", "another table is listed")
			}
			key := l.table.Key
			var rest *Term
			var in, known bool
			var forms []*Term
			for _, ds := range s.dirs(st, ps, c.workspaceOf(st, l.table.Over)) {
				if !known {
					rest, in, known = inDirs(st, key, ds...)
				}
				if len(ds) == 1 {
					forms = append(forms, ds[0])
				}
			}
			if !known || !in { // membership itself is a matter of C26
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "outside", "a file is listed that is not known to be in the directory")
				return
			}
			c.Inst("entries")
			name, dir, ok := firstPart(st, rest)
			if !c.Must(ok, st, o.Pos, fn, "child", "it is not decided whether the file itself or a directory is the child") {
				return
			}
			set, has, ok := marked(st, name, l.outer, l.table)
			if !c.Must(ok, st, o.Pos, fn, "known", "it is not decided whether the child has been met before (in this call, in all packages)") {
				return
			}
			if has {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "twice", "a child that has been met before is listed again")
				return
			}
			if !c.Must(len(l.elems) == 1, st, o.Pos, fn, "missing", "a new child gets %d entries", len(l.elems)) {
				return
			}
			c.Must(marks(st, l.evs, set, name), st, o.Pos, fn, "mark", "a listed child is not remembered")
			el := l.elems[0]
			if !dir {
				c.Must(unwrap(el) == l.table.Val, st, o.Pos, fn, "entry", "the entry of a file is %v, not its tagset", el)
				return
			}
			obj := newObj(el, "PackDirFile")
			if !c.Must(obj != nil, st, o.Pos, fn, "entry", "the entry of a directory is %v", el) {
				return
			}
			ts := st.load(c.fieldAddr(obj, "", "PackDirFile", "TagsetRaw"), nil)
			path := c.tagPath(st, ts)
			c.Must(path != nil && childPaths(st, key, rest, name, forms)(path), st, o.Pos, fn, "path", "the path of the entry of a directory is %v", path)
			ft := st.load(c.fieldAddr(obj, "", "PackDirFile", "ftt"), nil)
			want := l.table.Over.Args[0]
			c.Must(sameVal(st, ft, want), st, o.Pos, fn, "owner", "the entry of a directory belongs to the table %v", ft)
		}
		w.walk(o.St, o.St.Events(), nil, full, nil, nil)

		// sorting comes last
		sorted := false
		for _, ev := range o.St.Events() {
			if ev.Star != nil {
				sorted = false
			}
			if ev.Kind == "call" && c.sorts(e, o.St, fn, ev, full) {
				sorted = true
			}
		}
		if full.Op == "slice" || lenT(full).isInt(0) { // nothing to sort
			sorted = true
		}
		c.Must(sorted, o.St, o.Pos, fn, "sorted", "the list is returned without being sorted by name after the last entry was added")

		// the limit
		limited := true // a list is shorter than a positive limit at each header
		for _, t := range turns {
			if f, ok := withLimit(t.b.St, true); ok && !f.ProveGE(n, lenT(t.b.Next[t.v]), 1) {
				limited = false
			}
			if f, ok := withLimit(t.s.Header, true); ok && !f.ProveGE(n, lenT(t.s.Init[t.v]), 1) {
				limited = false
			}
		}
		f, possible := withLimit(o.St, limited)
		if possible {
			c.Must(f.ProveGE(n, lenT(res), 0), o.St, o.Pos, fn, "limit", "with a positive limit there can be more entries than that")
		}
		// an early end needs a reached limit
		early := false
		for _, ev := range o.St.Events() {
			if ev.Kind == "rangestop" {
				early = true
			}
			if ev.Star != nil && ordered[ev.Star] {
				ended := false
				for k := range ev.Star.Bodies {
					if idx, _ := c.tableIn(ev.Star.Bodies[k].St.Events(), list); idx != nil && o.St.facts.ProveGE(idx, lenT(list), 0) {
						ended = true
					}
				}
				if !ended {
					early = true
				}
			}
		}
		reached := func(st *State, l *Term) bool {
			if f, ok := withLimit(st, limited); !ok {
				v, k := st.facts.Decide(ltT(zero, n)) // no such path
				return k && v
			} else if !f.ProveGE(lenT(l), n, 0) {
				return false
			}
			return st.facts.ProveGE(n, zero, 1)
		}
		if early {
			c.Must(reached(o.St, full), o.St, o.Pos, fn, "early", "the walk over files ends early though the limit is not reached")
		}
		for _, t := range turns { // also within an iteration over packages
			for _, ev := range t.b.St.Events() {
				if ev.Kind == "rangestop" {
					c.Must(reached(t.b.St, t.b.Next[t.v]), t.b.St, o.Pos, fn, "early", "the walk over files ends early though the limit is not reached")
				}
			}
		}
		// the end of the directory
		err := errVal(o)
		switch {
		case mustNil(o.St, err):
			c.Must(o.St.facts.ProveGE(lenT(res), n, 0), o.St, o.Pos, fn, "no end", "no end of the directory is reported though there may be less entries than requested")
		case equalsEOF(err):
			c.Must(o.St.facts.ProveGE(n, lenT(res), 1), o.St, o.Pos, fn, "end", "the end of the directory is reported though as many entries as requested may have been found")
		default:
			c.Must(false, o.St, o.Pos, fn, "error", "the listing fails with %v", err)
		}
		c.Inst("listings")
	}
}

// unread makes a file of a directory one that nothing was read from: everything
// but its information and its table or union is zero. C56 decides that opened
// directories are such, and what follows after the first reading.
func (c *Check) unread(st *State, fn *ssa.Function, dir *Term) {
	typ := ptrTo(dir.Typ)
	if typ != "PackDirFile" && typ != "UnionDir" {
		return
	}
	s := structOf(dir.Typ)
	for i := 0; i < s.NumFields(); i++ {
		switch f := s.Field(i); f.Name() {
		case "TagsetRaw", "ftt", "Union":
		default:
			st.store(c.fieldAddr(dir, "", typ, f.Name()), zeroTerm(f.Type()), f.Type())
		}
	}
}

// openedDirs checks that a directory file remembers where it lies.
func (c *Check) openedDirs() {
	for _, spec := range []string{":FTT.OpenDir", ":Package.Open", ":Union.Open"} {
		fn := c.Fn(spec)
		if fn == nil {
			continue
		}
		e := c.Engine()
		ps := e.Params(fn)
		outs := c.Run(e, fn, nil, nil)
		for i := range outs {
			o := &outs[i]
			if o.Panic || len(o.Vals) == 0 {
				continue
			}
			st := o.St
			for _, typ := range []string{"PackDirFile", "UnionDir"} {
				obj := newObj(o.Vals[0], typ)
				if obj == nil {
					continue
				}
				c.Inst("opened directories")
				path := c.tagPath(st, st.load(c.fieldAddr(obj, "", typ, "TagsetRaw"), nil))
				if !c.Must(path != nil, st, o.Pos, fn, "path", "an opened directory has no path") {
					continue
				}
				var forms []*Term
				d := ps[1]
				ws := func(p *Term) *Term { return st.load(c.fieldAddr(p, "", "Package", "Workspace"), tyString) }
				switch {
				case typ == "UnionDir": // its listing trims the workspace of the first package
					list := c.packages(st, ps[0])
					et := under(list.Typ).(*types.Slice).Elem()
					first := st.load(mk("iaddr", "", types.NewPointer(et), list, intConst(0, tyInt)), et)
					forms = append(forms, joinPath(ws(first), toSlash(d)), toSlash(joinPath(ws(first), d)), toSlash(joinPath(ws(first), toSlash(d))))
					un := st.load(c.fieldAddr(obj, "", typ, "Union"), nil)
					c.Must(sameVal(st, un, ps[0]), st, o.Pos, fn, "owner", "an opened directory belongs to another union: %v", un)
				case spec == ":FTT.OpenDir":
					forms = append(forms, toSlash(d), d)
					ft := st.load(c.fieldAddr(obj, "", typ, "ftt"), nil)
					c.Must(sameVal(st, ft, ps[0]), st, o.Pos, fn, "owner", "an opened directory belongs to another table: %v", ft)
				case spec == ":Package.Open":
					j := joinPath(ws(ps[0]), d)
					forms = append(forms, toSlash(j), j, joinPath(ws(ps[0]), toSlash(d)), toSlash(joinPath(ws(ps[0]), toSlash(d))))
					ft := st.load(c.fieldAddr(obj, "", typ, "ftt"), nil)
					a := c.fieldAddr(ps[0], "", "Package", "FTT")
					want := st.load(a, under(a.Typ).(*types.Pointer).Elem())
					c.Must(sameVal(st, ft, want), st, o.Pos, fn, "owner", "an opened directory belongs to another table: %v", ft)
				default:
					continue
				}
				ok := false
				for _, f := range forms {
					ok = ok || sameString(st, path, f) || isSlashed(path) && sameString(st, toSlash(path), f)
				}
				c.Must(ok, st, o.Pos, fn, "place", "the directory is opened as %v", path)
			}
		}
	}
}

func equalsEOF(t *Term) bool { return t != nil && isGlobal(t, "io.EOF") }

// sorts tells that a call sorts a list of entries by name.
func (c *Check) sorts(e *Engine, st *State, fn *ssa.Function, ev *Event, list *Term) bool {
	switch ev.Name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
	default:
		return false
	}
	if len(ev.Args) != 2 || unwrap(ev.Args[0]) != list || ev.Args[1].Op != "closure" && ev.Args[1].Op != "func" {
		return false
	}
	less := ev.Args[1].Obj.(*ssa.Function)
	args := e.Params(less)
	outs := e.invoke(less, args, ev.Args[1].Args, st.clone(), &frame{})
	c.Analysed(less, outs)
	item := func(st *State, t *Term, arg *Term) bool { // the name of an entry
		var of *Term
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Method == "Name" && ev.NRes == 1 && ev.result(0) == t {
				of = ev.Recv
			}
		}
		if t.Op == "pure" && strings.HasSuffix(t.Aux, ").Name") {
			of = t.Args[0]
		}
		if of == nil {
			return false
		}
		if strings.HasPrefix(ev.Name, "slices.") {
			return of == arg
		}
		return of.Op == "load" && of.Args[0].Op == "iaddr" && of.Args[0].Args[0] == list && of.Args[0].Args[1] == arg
	}
	if len(outs) == 0 {
		return false
	}
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			return false
		}
		t := o.Vals[0]
		ok := false
		if strings.HasPrefix(ev.Name, "slices.") {
			if t.Op == "pure" && (t.Aux == "strings.Compare" || strings.HasPrefix(t.Aux, "cmp.Compare")) {
				ok = item(o.St, t.Args[0], args[0]) && item(o.St, t.Args[1], args[1])
			}
		} else {
			cmpLess := func(t *Term) bool {
				return (t.Op == "<" || t.Op == "strlt") && len(t.Args) == 2 && item(o.St, t.Args[0], args[0]) && item(o.St, t.Args[1], args[1])
			}
			ok = cmpLess(t)
			if v, k := o.St.facts.Decide(t); k { // decided on the path
				for x, xv := range o.St.facts.truth {
					if xv == v && cmpLess(x) {
						ok = true
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	c.Inst("orders")
	return true
}

func shortT(t *Term) string {
	if t == nil {
		return "nothing"
	}
	return t.String()
}

func init() {
	register("C28", "abstract interpretation: relation between keys met and entries listed, inductive bound, order of the comparison function",
		"The listing of a directory of a table and of a union is interpreted abstractly over arbitrary tables and lists of packages. In every iteration over a file in the directory the direct child is its relative name up to the first slash; on each path it is decided whether a set made by this call has the child; if it has, nothing is listed, if not, exactly one entry is added and the child is remembered. The entry of a file is its own tagset, that of a directory has the path of the child and the table it was found in. No entry is added elsewhere, and nothing is kept from one call to the next. The list is sorted after the last addition by a function that is proved to compare the names of the entries. For a positive limit an inductive bound on the list is proved, the walk ends early only if the limit is positive and reached, and the end of the directory is reported exactly if the list is shorter than the limit. The methods that list directories are proved to hand on the directory, the limit (none for whole listings) and the resulting list.",
		[]string{"keys of the table are normalised (C27) and unique (C48)", "Name() of an entry is the last part of its path"},
		func(c *Check) {
			c.Rule("every child once, sorted, up to the limit")
			for _, s := range c.listers() {
				c.listing(s)
			}
			c.Rule("an opened directory lists the directory it was opened by")
			c.openedDirs()
			c.AtLeast("opened directories", 6)
			c.AtLeast("listings", 12)
			c.AtLeast("entries", 24)
			c.AtLeast("orders", 12)
		})
}
