package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// utility is a command line utility whose work is checked.
type utility struct {
	c    *Check
	cmd  string
	main *ssa.Function
}

// flagValue tells that a value is what the user has given for a command line option.
func (u *utility) flagValue(t *Term, option string) bool {
	g := u.c.flagVar(u.cmd, option)
	return g != nil && t != nil && isGlobal(t, shortMod.Replace(g.Pkg.Pkg.Path())+"."+g.Name())
}

func (u *utility) flagIn(st *State, option string, typ types.Type) *Term {
	g := u.c.flagVar(u.cmd, option)
	if g == nil {
		return nil
	}
	return st.load(mk("global", shortMod.Replace(g.Pkg.Pkg.Path())+"."+g.Name(), g.Type()), typ)
}

// expanded tells that a path is one a user has given, with references to the environment resolved.
func expanded(t *Term, is func(x *Term) bool) bool {
	env := false
	for t != nil && len(t.Args) > 0 {
		switch callName(t) {
		case "wpk/util.ToSlash", "path/filepath.ToSlash", "path.Clean", "path/filepath.Clean":
		case "wpk/util.Envfmt":
			if !isZero(t.Args[1]) {
				return false
			}
			env = true
		default:
			return env && is(t)
		}
		if c := callOf(t); c != nil {
			t = c
		}
		t = t.Args[0]
	}
	return env && t != nil && is(t)
}

func init() {
	register("C59", "abstract interpretation of the utilities over arbitrary arguments and directory trees: loop effect analysis per argument and per walked entry",
		"The main functions of the utilities and the functions below them that do the work are interpreted abstractly over arbitrary command lines and arbitrary trees of files. For the loops over arguments, over lists of sources and over walked entries each iteration is judged by what it does: an iteration that goes on has added its argument to the list of sources or counted an error that is proved to prevent the work, has packed its entry once, with the content of the file of this path and under this name, or has run its script. The loops are proved to begin with the first element, to take the next one each time and to end after the last. The files opened for the package are compared with the options in their roles.",
		[]string{"walking a directory tree gives every entry once", "C05, C32 and C33 are about what packing of one file does"},
		func(c *Check) {
			u := &utility{c: c, cmd: "cmd/pack", main: c.Fn("cmd/pack:main")}
			pack := c.Fn(":Package.PackFile")
			if u.main == nil || pack == nil {
				return
			}
			c.Rule("the pack utility packs every file of its sources once and under its path")
			var by []*ssa.Function
			for f := range c.P.callers(pack) {
				if fnPkg(f) == fnPkg(u.main) {
					by = append(by, f)
				}
			}
			roots := c.errRoots(u.cmd, by)
			for _, r := range roots {
				u.packs(r)
			}
			c.AtLeast("walks", 1)
			c.AtLeast("files packed", 1)
			c.Rule("every source given to a utility is worked on, or the work does not begin")
			for _, r := range roots {
				u.arguments(r, "/")
			}
			x := &utility{c: c, cmd: "cmd/extract", main: c.Fn("cmd/extract:main")}
			for _, r := range c.errRoots(x.cmd, c.copiers(x.cmd)) {
				x.unpacks(r)
				x.arguments(r, "")
			}
			c.AtLeast("packages extracted", 1)
			c.AtLeast("beginnings of the work", 2)
			c.AtLeast("arguments", 4)
			c.Rule("the build utility runs every script given to it")
			c.builds()
		})
}

// packs checks the function of the pack utility that makes the package.
func (u *utility) packs(r *ssa.Function) {
	c := u.c
	e := c.cmdEngine(u.main)
	outs := c.Run(e, r, nil, nil)
	c.Analysed(r, outs)
	judged := map[*Star]bool{}
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue
		}
		err := errVal(o)
		evs := o.St.Events()
		u.destinations(r, o, evs)
		if err != nil && !mustNil(o.St, err) {
			continue
		}
		walks, synced := 0, false
		for _, ev := range evs {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, ").Sync") && len(ev.Args) == 2 {
				synced = true
			}
			if ev.Kind == "walkskip" {
				c.FailT(o.St, at(ev.Pos, r), r, "skipped", "the walk over a source leaves out what comes after an entry, and it is no failure")
			}
			s := ev.Star
			if s == nil {
				continue
			}
			some := false
			for k := range s.Bodies {
				some = some || walked(&s.Bodies[k])
			}
			for k := range s.Bodies {
				b := &s.Bodies[k]
				c.Must(!some || walked(b), b.St, at(ev.Pos, r), r, "passed over", "the next source is taken, and this one is not walked over")
				for _, we := range b.St.Events() {
					if we.Kind == "walkskip" {
						c.FailT(b.St, at(we.Pos, r), r, "skipped", "the walk over a source leaves out what comes after an entry, and it is no failure")
					}
					if !isWalk(we) {
						continue
					}
					walks++
					c.Must(!synced, o.St, at(we.Pos, r), r, "published before", "the package is published before the walk over a source")
					if !judged[s] {
						u.source(r, o, s, b, we)
					}
				}
			}
			judged[s] = true
		}
		c.Must(walks > 0, o.St, o.Pos, r, "no walk", "the work ends without a failure, but the sources are not walked over")
		c.Must(synced, o.St, o.Pos, r, "not published", "the work ends without a failure, but the package is not published")
	}
}

func isWalk(ev *Event) bool {
	return ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".WalkDir") || strings.HasSuffix(ev.Name, ".Walk"))
}

func walked(b *Body) bool {
	for _, ev := range b.St.Events() {
		if isWalk(ev) {
			return true
		}
	}
	return false
}

// source checks one iteration of the loop over sources: it walks over the whole of it.
func (u *utility) source(r *ssa.Function, o *Outcome, s *Star, b *Body, we *Event) {
	c := u.c
	c.Inst("walks")
	c.Site(we.Pos)
	var src *Term
	if strings.HasPrefix(we.Name, "io/fs.") && len(we.Args) == 3 && we.Args[1].isStr(".") {
		src, _ = within(we.Args[0], "os.DirFS")
		if src != nil && only(we.Args[0], func(x *Term) bool { return x == src }) {
			src = src.Args[0]
		}
	}
	if !c.Must(src != nil, b.St, at(we.Pos, r), r, "root", "it is not shown that the walk begins with the root of a source") {
		return
	}
	ok := src.Op == "load" && src.Args[0].Op == "iaddr"
	if ok {
		list, idx := src.Args[0].Args[0], src.Args[0].Args[1]
		ok = (list.Op == "load" && list.Args[0].Op == "global" || list.Op == "param") && everyIndex(o.St, s, b, idx, lenT(list))
	}
	c.Must(ok, b.St, at(we.Pos, r), r, "sources", "it is not shown that each source is walked over, from the first to the last: %v", shortT(src))
	walk := false
	for _, ev := range b.St.Events() {
		if ev.Star == nil || ev.Star.Kind != "walk" || ev.Instr != nil && ev.Instr != we.Instr {
			continue
		}
		walk = true
		for k := range ev.Star.Bodies {
			u.entry(r, we, ev.Star, &ev.Star.Bodies[k], src)
		}
	}
	c.Must(walk, b.St, at(we.Pos, r), r, "walk", "the walk has no effect")
}

// unpacks checks that the extracting utility goes over all packages given.
func (u *utility) unpacks(r *ssa.Function) {
	c := u.c
	e := c.cmdEngine(u.main)
	outs := c.Run(e, r, nil, nil)
	c.Analysed(r, outs)
	for i := range outs {
		o := &outs[i]
		if err := errVal(o); o.Panic || err != nil && !mustNil(o.St, err) {
			continue
		}
		all := false
		for _, ev := range o.St.Events() {
			s := ev.Star
			if s == nil {
				continue
			}
			some := false
			for k := range s.Bodies {
				src, _ := u.opened(&s.Bodies[k])
				some = some || src != nil
			}
			for k := range s.Bodies {
				b := &s.Bodies[k]
				src, copied := u.opened(b)
				if !some || !c.Must(src != nil, b.St, at(ev.Pos, r), r, "passed over", "the next package is taken, and this one is not opened") {
					continue
				}
				c.Inst("packages extracted")
				list, idx := src.Args[0].Args[0], src.Args[0].Args[1]
				ok := (list.Op == "load" && list.Args[0].Op == "global" || list.Op == "param") && everyIndex(o.St, s, b, idx, lenT(list))
				all = all || ok
				c.Must(ok, b.St, at(ev.Pos, r), r, "packages", "it is not shown that each package is opened, from the first to the last: %v", shortT(src))
				c.Must(copied, b.St, at(ev.Pos, r), r, "files of a package", "the next package is taken, and the files of this one are not gone over")
			}
		}
		c.Must(all, o.St, o.Pos, r, "no packages", "the work ends without a failure, but the packages are not gone over")
	}
}

// opened is the element of a list that is opened in an iteration, and whether a loop follows.
func (u *utility) opened(b *Body) (src *Term, loop bool) {
	for _, x := range b.St.Events() {
		if x.Kind != "call" {
			loop = loop || x.Star != nil && src != nil
			continue
		}
		if x.Method != "OpenFile" && x.Name != "os.Open" && x.Name != "os.OpenFile" {
			continue
		}
		for _, a := range x.Args {
			if src == nil && a.Op == "load" && a.Args[0].Op == "iaddr" {
				src = a
			}
		}
	}
	return
}

// entry checks what is done for one entry of the walk, when the walk goes on.
func (u *utility) entry(r *ssa.Function, we *Event, s *Star, b *Body, src *Term) {
	c, st := u.c, b.St
	c.Inst("entries walked")
	var packs, sets []*Event
	opened := map[*Term]*Term{}
	for _, ev := range st.Events() {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case ev.Name == "(*wpk.Package).PackFile":
			packs = append(packs, ev)
		case ev.Name == "(*wpk.Package).SetTagset" || ev.Name == "(*wpk.FTT).SetTagset":
			sets = append(sets, ev)
		case (ev.Name == "os.Open" || ev.Name == "os.OpenFile") && len(ev.Args) > 0:
			opened[ev.result(0)] = ev.Args[0]
		case ev.Method == "Open" && len(ev.Args) == 1:
			if d, _ := within(ev.Recv, "os.DirFS"); d != nil && d.Args[0] == src {
				opened[ev.result(0)] = nil // by the name in the source
				if ev.Args[0] == s.Key {
					opened[ev.result(0)] = s.Key
				}
			}
		}
	}
	if len(packs) == 0 {
		dir, known := false, false
		anyFact(st, func(x *Term) {
			n := callName(x)
			own := n == "(io/fs.DirEntry).IsDir" && x.Args[0] == s.Val
			if n == "(io/fs.FileMode).IsDir" {
				m := x.Args[0]
				own = callName(m) == "(io/fs.DirEntry).Type" && m.Args[0] == s.Val
			}
			if own {
				if v, ok := st.facts.Decide(x); ok {
					dir, known = v, true
				}
			}
		})
		c.Must(known && dir, st, at(we.Pos, r), r, "passed over", "the walk goes on after an entry that is not known to be a directory and was not packed")
		return
	}
	c.Inst("files packed")
	if !c.Must(len(packs) == 1, st, at(packs[0].Pos, r), r, "packed once", "an entry is packed %d times", len(packs)) {
		return
	}
	p := packs[0]
	c.Site(p.Pos)
	c.Must(p.Args[2] == s.Key, st, at(p.Pos, r), r, "name", "an entry is packed under the name %v, not under its path in the source", shortT(p.Args[2]))
	file := unboxed(p.Args[1])
	name, ok := opened[file]
	good := ok && (name == s.Key || u.below(name, src, s.Key))
	c.Must(good, st, at(p.Pos, r), r, "content", "what is packed is not the file of the entry's path below the source: %v", shortT(name))
	// options
	link := c.constInt("", "TIDlink")
	last := p.result(0)
	for _, ev := range sets {
		c.Must(ev.Args[0] == s.Key, st, at(ev.Pos, r), r, "tags of another", "tags are stored under the name %v, not that of the entry", shortT(ev.Args[0]))
		last = ev.Args[1]
	}
	if on, known := st.facts.Decide(u.flagIn(st, "link", tyBool)); known {
		v := putTag(last, tidT(link))
		if on {
			c.Must(v != nil && callName(v) == "wpk.StrTag" && (u.below(v.Args[0], src, s.Key)), st, at(p.Pos, r), r, "link", "the path of the original file is asked for, and not stored: %v", shortT(v))
		}
	} else {
		c.FailT(st, at(p.Pos, r), r, "link option", "it does not matter whether the path of the original file is asked for")
	}
}

// below tells that a path is the join of a source and a path in it.
func (u *utility) below(t, src, key *Term) bool {
	if t == nil {
		return false
	}
	switch callName(t) {
	case "wpk/util.JoinPath":
		return t.Args[0] == src && t.Args[1] == key
	case "path.Join", "path/filepath.Join":
		return len(t.Args) == 1 && len(t.Args[0].Args) == 2 && t.Args[0].Args[0] == src && t.Args[0].Args[1] == key
	}
	return t.Op == "concat" && len(t.Args) == 2 && t.Args[0] == src && t.Args[1] == key
}

// destinations checks the files in which the package is made.
func (u *utility) destinations(r *ssa.Function, o *Outcome, evs []*Event) {
	c, st := u.c, o.St
	dst := u.flagIn(st, "dst", tyString)
	split, known := st.facts.Decide(u.flagIn(st, "split", tyBool))
	names := map[*Term]*Term{}
	var begin *Event
	is := func(t *Term, maker string) bool {
		n := names[unboxed(t)]
		if n == nil {
			return false
		}
		if !known || !split {
			return known && n == dst
		}
		call, _ := within(n, maker)
		return call != nil && only(n, func(x *Term) bool { return x == call || callOf(x) == call }) && call.Args[0] == dst
	}
	data := func(t *Term) bool { return is(t, "wpk.MakeDataPath") }
	AllEvents(evs, func(ev *Event, _ *Body) {
		if ev.Kind != "call" {
			return
		}
		switch {
		case (ev.Name == "os.OpenFile" || ev.Name == "os.Create") && len(ev.Args) > 0:
			names[ev.result(0)] = ev.Args[0]
		case (strings.HasSuffix(ev.Name, ").Begin") || strings.HasSuffix(ev.Name, ").Sync")) && len(ev.Args) == 2:
			ok := is(ev.Args[0], "wpk.MakeTagsPath")
			if known && split {
				ok = ok && data(ev.Args[1])
			} else {
				ok = ok && (isZero(ev.Args[1]) || ev.Args[1] == tNil || mustNil(st, ev.Args[1]))
			}
			c.Must(ok, st, at(ev.Pos, r), r, ev.Method+" files", "the package is not made in the files of the given destination: %v, %v", shortT(ev.Args[0]), shortT(ev.Args[1]))
			if ev.Method == "Begin" {
				begin = ev
			} else {
				c.Must(begin != nil && samePackage(begin.Recv, ev.Recv), st, at(ev.Pos, r), r, "another package", "the package published is not the one begun")
			}
		case ev.Name == "(*wpk.Package).PackFile":
			c.Must(data(ev.Args[0]), st, at(ev.Pos, r), r, "written to", "files are not written to the data file of the destination, but to %v", shortT(ev.Args[0]))
			c.Must(begin != nil && samePackage(begin.Recv, ev.Recv), st, at(ev.Pos, r), r, "another package", "a file is packed to a package that was not begun")
		}
	})
}

// arguments checks how the list of sources is made before the work begins.
func (u *utility) arguments(r *ssa.Function, tail string) {
	c := u.c
	if r == nil || u.main == nil || r == u.main {
		c.Must(false, nil, 0, u.main, "work", "no function that does the work is found")
		return
	}
	e := c.cmdEngine(u.main)
	inl := e.Inline
	e.Inline = func(f *ssa.Function) bool { return f != r && inl(f) }
	e.NoInv = false
	e.KeepPre = func(ev *Event) bool { return ev.Name == cname(r) }
	outs := c.Run(e, u.main, nil, nil)
	c.Analysed(u.main, outs)
	seen := map[*Star]bool{}
	for i := range outs {
		evs := outs[i].St.Events()
		for k, ev := range evs {
			if ev.Kind != "call" || ev.Name != cname(r) || ev.Pre == nil {
				continue
			}
			st := ev.Pre.clone()
			if !counters(st, evs[:k]) {
				continue // counted errors prevent the work
			}
			c.Inst("beginnings of the work")
			c.Site(ev.Pos)
			d := u.flagIn(st, "dst", tyString)
			c.Must(expanded(d, func(x *Term) bool { return u.flagValue(x, "dst") }), st, at(ev.Pos, u.main), u.main, "destination", "the destination is %v, not the one that was given", shortT(d))
			var s *Star
			var list *Term
			for _, before := range evs[:k] {
				if before.Star == nil {
					continue
				}
				for v := range before.Star.Init {
					if sl, ok := under(v.Typ).(*types.Slice); ok && isString(sl.Elem()) && u.handed(r, ev, st, v) {
						s, list = before.Star, v
					}
				}
			}
			if !c.Must(s != nil, st, at(ev.Pos, u.main), u.main, "sources", "the sources are not gathered from what was given") {
				continue
			}
			c.Must(st.facts.ProveGE(lenT(list), intConst(1, tyInt), 0), st, at(ev.Pos, u.main), u.main, "no source", "the work begins though there may be no source")
			u.gathering(st, s, list, tail, ev, !seen[s])
			seen[s] = true
		}
	}
}

// handed tells that a list is the one the work is done on.
func (u *utility) handed(r *ssa.Function, ev *Event, st *State, list *Term) bool {
	for _, a := range ev.Args {
		if a == list {
			return true
		}
	}
	for a, v := range st.mem {
		if a.Op == "global" && v == list {
			return true
		}
	}
	return false
}

// gathering checks the loop that gathers the sources.
func (u *utility) gathering(st *State, s *Star, list *Term, tail string, ev *Event, first bool) {
	c, pos := u.c, at(ev.Pos, u.main)
	init := s.Init[list]
	c.Must(init != nil && s.Header.facts.ProveEq(lenT(init), intConst(0, tyInt)) || init != nil && init.Op == "load" && init.Args[0].Op == "global", s.Header, pos, u.main, "list at first", "the list of sources does not begin empty: %v", shortT(init))
	covered := false
	for k := range s.Bodies {
		b := &s.Bodies[k]
		if first {
			c.Inst("arguments")
		}
		var part, idx *Term
		find := func(x *Term) {
			if x.Op == "load" && x.Args[0].Op == "iaddr" {
				sp := x.Args[0].Args[0]
				if call, _ := within(sp, "strings.Split"); call != nil && only(sp, func(y *Term) bool { return y == call }) && u.flagValue(call.Args[0], "src") && call.Args[1].isStr(";") {
					part, idx = x, x.Args[0].Args[1]
				}
			}
		}
		anyFact(b.St, find)
		if !c.Must(part != nil, b.St, pos, u.main, "argument", "an iteration does not look at its argument") {
			continue
		}
		c.Must(everyIndex(st, s, b, idx, lenT(part.Args[0].Args[0])), b.St, pos, u.main, "arguments", "it is not shown that all arguments are looked at, from the first to the last")
		covered = true
		els, ok := appended(b.Next[list], list)
		if !c.Must(ok && len(els) <= 1, b.St, pos, u.main, "list", "the list of sources is not extended by one at most: %v", shortT(b.Next[list])) {
			continue
		}
		if len(els) == 1 {
			x := els[0]
			if x.Op == "concat" && len(x.Args) == 2 && tail != "" && x.Args[1].isStr(tail) {
				x = x.Args[0]
			}
			c.Must(expanded(x, func(y *Term) bool { return y == part }), b.St, pos, u.main, "source", "the source listed is %v, not the argument", shortT(els[0]))
			continue
		}
		if b.St.facts.ProveEq(lenT(part), intConst(0, tyInt)) || isTrue(b.St, eqT(part, strConst(""))) {
			continue // nothing between separators
		}
		counted := false
		for v, v0 := range s.Init {
			if !isInt(v.Typ) || b.Next[v] == nil || v0 == nil {
				continue
			}
			grows := s.Header.facts.ProveGE(v0, intConst(0, v0.Typ), 0) && growing(s, v, 0) && b.Next[v] != v
			counted = counted || grows && st.facts.ProveGE(intConst(0, v.Typ), v, 0)
		}
		c.Must(counted, b.St, pos, u.main, "left out", "an argument can be left out, and the work begins all the same")
	}
	c.Must(covered, st, pos, u.main, "arguments", "the arguments are not looked at")
}

// builds checks that all scripts are run.
func (c *Check) builds() {
	main, run := c.Fn("cmd/build:main"), c.Fn("luawpk:RunLuaVM")
	if main == nil || run == nil {
		return
	}
	e := c.cmdEngine(main)
	outs := c.Run(e, main, nil, nil)
	c.Analysed(main, outs)
	over := false
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue
		}
		failed := false
		var runs []*Event
		for _, ev := range o.St.Events() {
			if ev.Kind == "call" && ev.Name == cname(run) {
				runs = append(runs, ev)
				failed = failed || mustNotNil(o.St, ev.result(0))
			}
		}
		for _, ev := range o.St.Events() {
			if ev.Star == nil {
				continue
			}
			some := false
			AllEvents(o.St.Events(), func(x *Event, in *Body) {
				some = some || in != nil && x.Kind == "call" && x.Name == cname(run)
			})
			for k := range ev.Star.Bodies {
				if !some {
					break
				}
				b := &ev.Star.Bodies[k]
				var in []*Event
				for _, x := range b.St.Events() {
					if x.Kind == "call" && x.Name == cname(run) {
						in = append(in, x)
					}
				}
				c.Inst("scripts run")
				if !c.Must(len(in) == 1, b.St, at(ev.Pos, main), main, "script", "an iteration runs %d scripts, not its one", len(in)) {
					continue
				}
				over = true
				c.Must(mustNil(b.St, in[0].result(0)), b.St, at(in[0].Pos, main), main, "failed", "the next script is run after one that may have failed")
				var idx, all *Term
				ok := expanded(in[0].Args[0], func(x *Term) bool {
					if x.Op == "load" && x.Args[0].Op == "iaddr" {
						base, off := span(x.Args[0].Args[0])
						if isGlobal(base, "os.Args") {
							all = base
							idx = addT(x.Args[0].Args[1], off, tyInt)
							return true
						}
					}
					return false
				})
				if !c.Must(ok, b.St, at(in[0].Pos, main), main, "script path", "the script run is %v, not the argument", shortT(in[0].Args[0])) {
					continue
				}
				first, next := substT(idx, ev.Star.Init), substT(idx, b.Next)
				one := intConst(1, tyInt)
				c.Must(first != nil && next != nil && ev.Star.Header.facts.ProveEq(first, one) && b.St.facts.ProveEq(next, addT(idx, one, tyInt)),
					b.St, at(in[0].Pos, main), main, "order", "scripts are not run one after another, beginning with the first")
				if !failed && len(runs) == 0 {
					// the count of the rest from the script next in line
					last := o.St.facts.ProveGE(idx, lenT(all), 0) || o.St.facts.ProveGE(addT(idx, intConst(-1, tyInt), tyInt), lenT(all), -1)
					c.Must(last, o.St, o.Pos, main, "all", "the utility can end before the last script has run, without a failure")
				}
			}
		}
	}
	c.Must(over, nil, main.Pos(), main, "scripts", "the arguments are not gone over")
}

// anyFact visits everything the facts of a path are about.
func anyFact(st *State, f func(x *Term)) {
	for t := range st.facts.truth {
		t.any(func(x *Term) bool {
			f(x)
			return false
		})
	}
}

// putTag is the value of a tag that a chain of edits of a tagset puts.
func putTag(ts, tid *Term) *Term {
	for ts.Op == "res" && ts.Aux == "0" && ts.Args[0].Op == "pure" && strings.HasPrefix(ts.Args[0].Aux, tsPfx) {
		p := ts.Args[0]
		switch p.Aux[len(tsPfx):] {
		case "Put", "SetOk", "AddOk":
			if p.Args[1] == tid {
				return p.Args[2]
			}
		case "DelOk":
			if p.Args[1] == tid {
				return nil
			}
		}
		ts = p.Args[0]
	}
	return nil
}

// samePackage tells that two receivers are the same package, or its table.
func samePackage(a, b *Term) bool {
	root := func(t *Term) *Term {
		for {
			t = addrRoot(t)
			if t.Op != "load" {
				return t
			}
			t = t.Args[0]
		}
	}
	return root(a) == root(b)
}

// counters adds to a state that what only grows in a loop is not less than at first, and
// tells whether the state is still possible.
func counters(st *State, evs []*Event) bool {
	for _, ev := range evs {
		if ev.Star == nil {
			continue
		}
		for v, init := range ev.Star.Init {
			if init == nil || !isInt(v.Typ) || !growing(ev.Star, v, 0) {
				continue
			}
			// by less than the number of elements in memory each
			if !st.facts.Assume(ltT(v, init), false) || !st.facts.Assume(ltT(v, intConst(1<<40, v.Typ)), true) {
				return false
			}
			for t, is := range st.facts.truth {
				if t.contains(v) && !is && t.Op == "<" && st.facts.ProveGE(t.Args[1], t.Args[0], 1) {
					return false
				}
				if t.contains(v) && is && t.Op == "==" && isInt(t.Args[0].Typ) && (st.facts.ProveGE(t.Args[0], t.Args[1], 1) || st.facts.ProveGE(t.Args[1], t.Args[0], 1)) {
					return false
				}
			}
		}
	}
	return st.facts.Consistent()
}

// growing tells that each iteration adds at least d to a variable.
func growing(s *Star, v *Term, d int64) bool {
	for k := range s.Bodies {
		n := s.Bodies[k].Next[v]
		if n == nil {
			return false
		}
		if by, ok := subT(n, v, v.Typ).intVal(); !ok || by < d || by > 1000 {
			return false
		}
	}
	return true
}
