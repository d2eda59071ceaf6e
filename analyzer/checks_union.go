package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileUse is a place where a path hands out the file of a package.
type fileUse struct {
	ts  *Term // the tagset
	pos int
	ev  *Event // the opening
}

// foundIn gives table and key a tagset was looked up by.
func foundIn(ts *Term) (table, key *Term) {
	ts = unwrap(ts)
	for ts != nil && ts.Op == "pure" && strings.Contains(ts.Aux, "CopyTagset") {
		ts = ts.Args[0]
	}
	if ts != nil && ts.Op == "mapget" && len(ts.Args) == 2 {
		return ts.Args[0], ts.Args[1]
	}
	return nil, nil
}

// firstWins checks a function that takes a file from the first package that has it.
func (c *Check) firstWins(spec string) {
	fn := c.Fn(spec)
	if fn == nil {
		return
	}
	e := c.Engine()
	ps := e.Params(fn)
	outs := c.Run(e, fn, nil, nil)
	seen := map[*Star]bool{}
	uses := 0
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
			continue
		}
		st := o.St
		list := c.packages(st, ps[0])
		// loops that look a name up
		type search struct {
			star *Star
			idx  *Term
			key  *Term
			at   int
		}
		var searches []search
		evs := st.Events()
		for k, ev := range evs {
			if ev.Star == nil || isTableWalk(ev.Star) {
				continue
			}
			s := search{star: ev.Star, at: k}
			for b := range ev.Star.Bodies {
				bs := ev.Star.Bodies[b].St
				for _, x := range bs.Events() {
					if x.Kind != "call" || x.Name != "(*wpk/util.SeqMap).Peek" && x.Name != "(*wpk/util.SeqMap).Has" {
						continue
					}
					idx := listIndex(holderOf(x.Recv), list)
					if idx == nil {
						continue
					}
					// an iteration goes on only if the package does not have the name
					_, has := e.mapLookup(bs, x.Recv, x.Args[0], nil)
					v, known := bs.facts.Decide(has)
					c.Must(known && !v, bs, at(x.Pos, fn), fn, "passed", "a package that has the name is passed over")
					s.idx, s.key = idx, x.Args[0]
				}
			}
			if s.idx == nil {
				continue
			}
			if !seen[ev.Star] {
				seen[ev.Star] = true
				c.inOrder(fn, ev.Star, s.idx)
			}
			searches = append(searches, s)
		}
		// what is handed out
		var used []fileUse
		if t, _ := foundIn(o.Vals[0]); t != nil {
			used = append(used, fileUse{ts: o.Vals[0]})
		}
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Method == "OpenTagset" && len(ev.Args) > 0 {
				if t, _ := foundIn(ev.Args[0]); t != nil {
					used = append(used, fileUse{ts: ev.Args[0], ev: ev})
				}
			}
		}
		if len(used) == 0 {
			// nothing was found: all packages have been asked
			if err := errVal(o); err != nil && mustNotNil(st, err) {
				for _, s := range searches {
					c.Inst("searches")
					c.Must(st.facts.ProveGE(s.idx, lenT(list), 0), st, o.Pos, fn, "exhausted", "the search ends before the last package was asked")
				}
			}
			continue
		}
		for _, u := range used {
			uses++
			c.Inst("files of a union")
			table, key := foundIn(u.ts)
			pkg := holderOf(table)
			idx := listIndex(pkg, list)
			if !c.Must(idx != nil, st, o.Pos, fn, "stranger", "the file comes from %v, not from a package of the union", table) {
				continue
			}
			if idx.any(func(x *Term) bool {
				return x.Op == "pure" && strings.HasPrefix(x.Aux, "strconv.") || resOf(x, "strconv.ParseUint") != nil
			}) {
				continue // the name itself says which package is meant
			}
			_, has := e.mapLookup(st, table, key, nil)
			v, known := st.facts.Decide(has)
			c.Must(known && v, st, o.Pos, fn, "absent", "the file of a package is used that is not known to have it")
			ok := false
			for _, s := range searches {
				ok = ok || s.idx == idx && s.key == key
			}
			if !ok && st.facts.ProveEq(idx, intConst(0, tyInt)) { // the first package was asked in advance
				ok = true
			}
			c.Must(ok, st, o.Pos, fn, "first", "the file comes from a package that is not known to be the first one with that name")
			if u.ev != nil {
				a := c.fieldAddr(pkg, "", "Package", "Tagger")
				tg := st.load(a, under(a.Typ).(*types.Pointer).Elem())
				c.Must(u.ev.Recv == tg, st, at(u.ev.Pos, fn), fn, "tagger", "the data of the file are taken from another package")
			}
		}
	}
	c.Must(uses > 0, nil, fn.Pos(), fn, "uses", "no file of a package is ever handed out")
}

// keyListing checks a function that lists the names of all files of all packages.
func (c *Check) keyListing(spec string, match bool) {
	fn := c.Fn(spec)
	if fn == nil {
		return
	}
	e := c.Engine()
	ps := e.Params(fn)
	if match { // the list of all names may be filtered, it is checked itself
		e.Models["(*wpk.Union).AllKeys"] = func(cl *Call) ([]Outcome, bool) {
			if cl.All[0] != ps[0] {
				return nil, false
			}
			return cl.ret(mk("pure", "(*wpk.Union).AllKeys", cl.resT(0), cl.All...))
		}
	}
	outs := c.Run(e, fn, nil, nil)
	typ := fn.Signature.Results().At(0).Type()
	seen := map[*Star]bool{}
	wants := func(st *State, name *Term) (bool, bool) { return wantedName(st, ps[1], name) }
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
			continue
		}
		if err := errVal(o); err != nil && mustNotNil(o.St, err) {
			c.Must(mustNil(o.St, o.Vals[0]), o.St, o.Pos, fn, "error", "names are returned with an error")
			continue
		}
		list := c.packages(o.St, ps[0])
		loops := map[*Star]*Term{}
		total := lenT(list)
		names := map[*Star]*Term{} // loops over the list of all names
		w := &listWalk{typ: typ}
		w.fail = func(st *State, why string) { c.Must(false, st, o.Pos, fn, "list", "%s", why) }
		w.loop = func(s *Star, outer []*Star) {
			if isTableWalk(s) {
				return
			}
			if keys, idx := keysLoop(s); idx != nil && len(outer) == 0 {
				loops[s], names[s], total = idx, keys, lenT(keys)
				if !seen[s] {
					seen[s] = true
					c.inOrder(fn, s, idx)
				}
				return
			}
			for k := range s.Bodies {
				if idx, _ := c.tableIn(s.Bodies[k].St.Events(), list); idx != nil {
					loops[s] = idx
					if !seen[s] {
						seen[s] = true
						c.inOrder(fn, s, idx)
					}
					return
				}
			}
		}
		w.leaf = func(l *leaf) {
			st := l.st
			c.Must(l.broken == nil, st, o.Pos, fn, "stops", "the walk over the files of a package ends early")
			if n := len(l.outer); l.table == nil && n > 0 && names[l.outer[n-1]] != nil {
				s := l.outer[n-1]
				name := st.load(mk("iaddr", "", types.NewPointer(tyString), names[s], loops[s]), tyString)
				wanted, decided := wants(st, name)
				c.Inst("names")
				switch {
				case decided && !wanted:
					c.Must(len(l.elems) == 0, st, o.Pos, fn, "twice", "a name is listed that does not match")
				case !c.Must(decided, st, o.Pos, fn, "known", "it is not decided whether the name is wanted"):
				case c.Must(len(l.elems) == 1, st, o.Pos, fn, "missing", "a name is listed %d times", len(l.elems)):
					c.Must(sameString(st, l.elems[0], name), st, o.Pos, fn, "name", "the listed name is %v", l.elems[0])
				}
				return
			}
			if l.table == nil {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "extra", "names are listed that belong to no file")
				return
			}
			pkg := holderOf(l.table.Over)
			c.Must(listIndex(pkg, list) != nil, st, o.Pos, fn, "table", "the table of something else than the packages is listed")
			ws := c.workspaceOf(st, l.table.Over)
			rest, in, known := inDir(st, l.table.Key, ws)
			if !known || !in {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "outside", "a file is listed that is not known to be in the workspace")
				return
			}
			c.Inst("names")
			set, has, ok := marked(st, rest, l.outer, l.table)
			wanted, decided := true, true
			if match {
				wanted, decided = wants(st, rest)
			}
			if ok && has || decided && !wanted {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "twice", "a name is listed that was met before or does not match")
				return
			}
			if !c.Must(ok && decided, st, o.Pos, fn, "known", "it is not decided whether the name has been met before in one of the packages and is wanted") {
				return
			}
			if !c.Must(len(l.elems) == 1, st, o.Pos, fn, "missing", "a new name is listed %d times", len(l.elems)) {
				return
			}
			c.Must(sameString(st, l.elems[0], rest), st, o.Pos, fn, "name", "the listed name is %v", l.elems[0])
			c.Must(marks(st, l.evs, set, rest), st, o.Pos, fn, "mark", "a listed name is not remembered")
		}
		evs := o.St.Events()
		w.walk(o.St, evs, nil, o.Vals[0], nil, nil)
		// the order of the list is the order of the walks, and all packages are walked over
		for k, ev := range evs {
			if ev.Star == nil || loops[ev.Star] == nil {
				continue
			}
			c.Must(o.St.facts.ProveGE(loops[ev.Star], total, 0), o.St, o.Pos, fn, "all packages", "the loop over packages ends before the last one")
			for _, later := range evs[k+1:] {
				if later.Kind == "call" && len(later.Args) > 0 && unwrap(later.Args[0]) == unwrap(o.Vals[0]) {
					c.Must(false, o.St, at(later.Pos, fn), fn, "reordered", "the list of names is changed by %s", later.Name)
				}
			}
		}
		c.Inst("key listings")
	}
}

// wantedName tells whether a name is known to match the pattern, and whether that is known.
func wantedName(st *State, pattern, name *Term) (wanted, decided bool) {
	for t, v := range st.facts.truth {
		if t.Op == "res" && t.Aux == "0" && len(t.Args) == 1 && t.Args[0].Op == "pure" && t.Args[0].Aux == "path.Match" {
			m := t.Args[0]
			if len(m.Args) == 2 && sameString(st, m.Args[1], name) && (m.Args[0] == toSlash(pattern) || m.Args[0] == pattern) {
				wanted, decided = v, true
			}
		}
	}
	return
}

// keysLoop tells that a loop goes over the list of all names.
func keysLoop(s *Star) (keys, idx *Term) {
	for k := range s.Bodies {
		b := &s.Bodies[k]
		seek := func(t *Term) {
			t.any(func(x *Term) bool {
				if x.Op == "load" && x.Args[0].Op == "iaddr" {
					if l := x.Args[0].Args[0]; l.Op == "pure" && l.Aux == "(*wpk.Union).AllKeys" {
						keys, idx = l, x.Args[0].Args[1]
					}
				}
				return false
			})
		}
		for t := range b.St.facts.truth {
			seek(t)
		}
	}
	return
}

// viewFields checks that a package value is a view of another package narrowed to a directory.
func (c *Check) viewOfDir(st *State, fn *ssa.Function, o *Outcome, obj, pkg *Term, dir *Term) {
	get := func(p *Term, f string) *Term {
		a := c.fieldAddr(p, "", "Package", f)
		return st.load(a, under(a.Typ).(*types.Pointer).Elem())
	}
	c.Must(sameVal(st, get(obj, "FTT"), get(pkg, "FTT")), st, o.Pos, fn, "table", "the view has the table %v", get(obj, "FTT"))
	c.Must(get(obj, "Tagger") == get(pkg, "Tagger"), st, o.Pos, fn, "tagger", "the view accesses data by %v", get(obj, "Tagger"))
	ws := get(obj, "Workspace")
	base := get(pkg, "Workspace")
	ok := false
	for _, d := range []*Term{toSlash(dir), dir} {
		j := joinPath(base, d)
		ok = ok || sameString(st, ws, j) || sameString(st, ws, toSlash(j))
		for _, r := range []string{".", ""} { // the directory is the root of the workspace
			if v, k := st.facts.Decide(eqT(dir, strConst(r))); k && v && sameString(st, ws, base) {
				ok = true
			}
			if v, k := st.facts.Decide(eqT(base, strConst(r))); k && v && (sameString(st, ws, d) || sameString(st, ws, toSlash(dir))) {
				ok = true
			}
		}
	}
	c.Must(ok, st, o.Pos, fn, "workspace", "the workspace of the view is %v", ws)
	// nothing else of the value is set
	c.Inst("views")
}

func init() {
	register("C29", "abstract interpretation: order of loops over packages, path conditions on passing a package over, provenance of results",
		"Opening, reading and information of a file of a union are interpreted abstractly over arbitrary lists of packages. Each loop that asks packages for a name is proved to begin at the first package and to go to the next one each time, an iteration goes on only if the package is known not to have the name, the tagset handed out (and the accessor used to open it) belong to the package at which the loop ended and which is known to have the name under that very key, and 'not found' is reported only after the last package. The listings of names walk over the packages in the same order; each iteration over a file of the workspace decides whether a set made by the call has the relative name; exactly the new (and matching) names are added, once, and remembered, nothing reorders the list, and no walk ends early. The same is checked for directory listings, whose entries are each made from the table at hand.",
		[]string{"tables enumerate in the order of insertion (C48)"},
		func(c *Check) {
			c.Rule("the first package that has the name wins")
			for _, s := range []string{":Union.Stat", ":Union.ReadFile", ":Union.Open"} {
				c.firstWins(s)
			}
			c.AtLeast("files of a union", 3)
			c.AtLeast("searches", 3)
			c.Rule("names are listed once, in list order")
			c.keyListing(":Union.AllKeys", false)
			c.keyListing(":Union.Glob", true)
			c.AtLeast("key listings", 2)
			c.AtLeast("names", 8)
			c.Rule("an entry of a directory comes from the first package that has it")
			for _, s := range c.listers() {
				if s.spec == ":Union.ReadDirN" || s.spec == ":Union.ReadDir" {
					c.listing(s)
				}
			}
			c.AtLeast("listings", 2)
			c.AtLeast("loops over packages", 6)
		})

	register("C30", "abstract interpretation: provenance of the fields of views, path conditions on callbacks and on the packages taken over",
		"Selecting a sub-directory of a package is interpreted abstractly: every path that succeeds has met a file in it and returns a new package value with the very table and data access of the original one and the workspace joined with the directory. Enumeration is interpreted with an unknown callback: every iteration over a file of the workspace calls it exactly once, with the relative name and the entry's tagset, goes on only if it returned true and stops only if it returned false. Selecting a sub-directory of a union is proved to walk over the packages from the first to the last one and to take over for each package exactly the view of that package if a file was found in the directory, in that order, and to report 'not exist' exactly if no package has one.",
		[]string{"membership of files in directories is C26"},
		func(c *Check) {
			c.Rule("a view shares table and data access")
			if fn := c.Fn(":Package.Sub"); fn != nil {
				e := c.Engine()
				ps := e.Params(fn)
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
						continue
					}
					met := false
					for _, ev := range o.St.Events() {
						met = met || ev.Kind == "rangestop"
					}
					if mustNil(o.St, o.Vals[0]) {
						c.Must(!met, o.St, o.Pos, fn, "refused", "no view is returned though a file was found")
						continue
					}
					obj := newObj(o.Vals[0], "Package")
					if !c.Must(obj != nil && met, o.St, o.Pos, fn, "view", "it returns %v", o.Vals[0]) {
						continue
					}
					c.viewOfDir(o.St, fn, o, obj, ps[0], ps[1])
				}
				c.AtLeast("views", 3)
			}

			c.Rule("enumeration calls back for every file of the workspace until told to stop")
			if fn := c.Fn(":Package.Enum"); fn != nil {
				e := c.Engine()
				ps := e.Params(fn)
				outs := c.Run(e, fn, nil, nil)
				a := c.fieldAddr(ps[0], "", "Package", "FTT")
				iteration := func(o *Outcome, st *State, evs []*Event, s *Star, stopped bool) {
					want := st.load(a, under(a.Typ).(*types.Pointer).Elem())
					c.Must(s.Over.Op == "faddr" && sameVal(st, s.Over.Args[0], want), st, o.Pos, fn, "table", "another table is enumerated")
					rest, in, known := inDir(st, s.Key, c.workspaceOf(st, s.Over))
					var calls []*Event
					for _, ev := range evs {
						if ev.Kind == "call" && ev.Recv == ps[1] {
							calls = append(calls, ev)
						}
					}
					if !known || !in {
						c.Must(len(calls) == 0 && (!stopped || known && !in && false), st, o.Pos, fn, "outside", "enumeration calls back for or ends at a file that is not known to be in the workspace")
						return
					}
					c.Inst("callbacks")
					if !c.Must(len(calls) == 1, st, o.Pos, fn, "once", "the callback is called %d times for a file", len(calls)) {
						return
					}
					cl := calls[0]
					c.Must(sameString(st, cl.Args[0], rest), st, at(cl.Pos, fn), fn, "name", "the callback gets the name %v", cl.Args[0])
					c.Must(sameVal(st, cl.Args[1], s.Val), st, at(cl.Pos, fn), fn, "tagset", "the callback gets %v, not the tagset of the file", cl.Args[1])
					v, k := st.facts.Decide(cl.result(0))
					if stopped {
						c.Must(k && !v, st, o.Pos, fn, "stops", "enumeration ends though the callback did not ask for it")
					} else {
						c.Must(k && v, st, o.Pos, fn, "goes on", "enumeration goes on though the callback asked to stop")
					}
				}
				for i := range outs {
					o := &outs[i]
					if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
						continue
					}
					var table *Star
					var since []*Event
					for _, ev := range o.St.Events() {
						switch {
						case ev.Star != nil:
							if isTableWalk(ev.Star) {
								table = ev.Star
								for k := range ev.Star.Bodies {
									b := &ev.Star.Bodies[k]
									iteration(o, b.St, b.St.Events(), table, false)
								}
							}
							since = nil
						case ev.Kind == "rangestop" && table != nil:
							iteration(o, o.St, since, table, true)
							since = nil
						default:
							since = append(since, ev)
						}
					}
					c.Must(table != nil, o.St, o.Pos, fn, "walk", "no walk over the table")
				}
				c.AtLeast("callbacks", 4)
			}

			c.Rule("a directory of a union is made of the views of the packages that have it")
			if fn := c.Fn(":Union.Sub"); fn != nil {
				c.unionSub(fn)
			}
			c.AtLeast("packages taken over", 2)
			c.AtLeast("packages left out", 2)
		})
}

func (c *Check) unionSub(fn *ssa.Function) {
	e := c.Engine()
	ps := e.Params(fn)
	outs := c.Run(e, fn, nil, nil)
	seen := map[*Star]bool{}
	for i := range outs {
		o := &outs[i]
		st := o.St
		if !c.Must(!o.Panic, st, o.Pos, fn, "panics", "it panics") {
			continue
		}
		list := c.packages(st, ps[0])
		var final *Term
		obj := newObj(o.Vals[0], "Union")
		if obj != nil {
			final = c.packages(st, obj)
		} else if !c.Must(mustNil(st, o.Vals[0]), st, o.Pos, fn, "result", "it returns %v", o.Vals[0]) {
			continue
		}
		w := &listWalk{typ: list.Typ}
		w.fail = func(st *State, why string) { c.Must(false, st, o.Pos, fn, "list", "%s", why) }
		var idx *Term
		w.loop = func(s *Star, outer []*Star) {
			if isTableWalk(s) {
				return
			}
			for k := range s.Bodies {
				if x, _ := c.tableIn(s.Bodies[k].St.Events(), list); x != nil {
					idx = x
					if !seen[s] {
						seen[s] = true
						c.inOrder(fn, s, x)
					}
					return
				}
			}
		}
		if final == nil { // the list that turned out to be empty
			for _, ev := range st.Events() {
				if ev.Star != nil {
					for v, init := range ev.Star.Init {
						if v.Typ != nil && types.Identical(under(v.Typ), under(list.Typ)) && lenT(init).isInt(0) {
							final = v
						}
					}
				}
			}
			if final == nil {
				final = tNil
			}
			c.Must(lenT(final).isInt(0) || st.facts.ProveEq(lenT(final), intConst(0, tyInt)), st, o.Pos, fn, "refused", "no directory is returned though a package has it")
		} else {
			c.Must(st.facts.ProveGE(lenT(final), intConst(0, tyInt), 1), st, o.Pos, fn, "empty", "a directory is returned that may have no packages")
		}
		w.leaf = func(l *leaf) {
			if len(l.outer) == 0 && l.table == nil {
				c.Must(len(l.elems) == 0, l.st, o.Pos, fn, "extra", "packages are added outside of the loop over packages")
				return
			}
			if l.table != nil && !l.stopped {
				c.Must(len(l.elems) == 0, l.st, o.Pos, fn, "extra", "packages are added for each file")
				return
			}
			// what was found out of the package at hand
			var pkg *Term
			met := l.broken != nil
			_, pkg = c.tableIn(l.st.Events(), list)
			if !met {
				c.Inst("packages left out")
				c.Must(len(l.elems) == 0, l.st, o.Pos, fn, "absent", "a package is taken over that is not known to have the directory")
				return
			}
			c.Inst("packages taken over")
			if !c.Must(len(l.elems) == 1 && pkg != nil, l.st, o.Pos, fn, "left out", "a package that has the directory is taken over %d times", len(l.elems)) {
				return
			}
			view := newObj(l.elems[0], "Package")
			if !c.Must(view != nil, l.st, o.Pos, fn, "view", "instead of a view %v is taken over", l.elems[0]) {
				return
			}
			c.viewOfDir(l.st, fn, o, view, pkg, ps[1])
		}
		w.walk(st, st.Events(), nil, final, nil, nil)
		c.Must(idx == nil || st.facts.ProveGE(idx, lenT(list), 0), st, o.Pos, fn, "all packages", "the loop over packages ends before the last one")
	}
}
