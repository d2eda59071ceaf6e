package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// search tells what is known of the search for a name in the tables asked by a piece of a path.
type search struct {
	absent bool // a table was asked for the name and does not have it
	walked bool // a table was walked over to the end
	found  bool // a walk was ended by a hit
	table  *Term
}

// searched looks at the events of a path, without those of loops over packages.
func searched(e *Engine, st *State, evs []*Event, of func(table *Term) bool) (s search) {
	for _, ev := range evs {
		switch {
		case ev.Kind == "call" && (ev.Name == "(*wpk/util.SeqMap).Peek" || ev.Name == "(*wpk/util.SeqMap).Has"):
			if of(ev.Recv) {
				_, has := e.mapLookup(st, ev.Recv, ev.Args[0], nil)
				s.absent = s.absent || isFalse(st, has)
			}
		case ev.Kind == "rangeend":
			s.walked = s.walked || ev.Recv != nil && of(ev.Recv)
		case ev.Kind == "rangestop":
			if ev.Recv != nil && of(ev.Recv) {
				s.found, s.table = true, ev.Recv
			}
		}
	}
	return
}

// lookup checks a function that finds files and directories by name.
func (c *Check) lookup(fn *ssa.Function, union bool) {
	e := c.Engine()
	ps := e.Params(fn)
	outs := c.Run(e, fn, nil, nil)
	pseudo := c.constStr("", "PackName")
	for i := range outs {
		o := &outs[i]
		if o.Panic || len(o.Vals) != 2 {
			continue
		}
		st := o.St
		special := false // the file of the package itself
		for f, v := range st.facts.truth {
			special = special || v && f.any(func(x *Term) bool {
				s, ok := x.strVal()
				return ok && strings.HasPrefix(s, pseudo)
			})
		}
		if special {
			continue
		}
		var whole search // what is known of every package
		top := searched(e, st, st.Events(), func(t *Term) bool {
			p := holderOf(t)
			return union || p == ps[0]
		})
		if !union {
			whole = top
		} else {
			list := c.packages(st, ps[0])
			if st.facts.ProveEq(lenT(list), intConst(0, tyInt)) {
				whole.absent, whole.walked = true, true
			}
			for _, ev := range st.Events() {
				if ev.Star == nil || isTableWalk(ev.Star) || len(ev.Star.Bodies) == 0 {
					continue
				}
				all := search{absent: true, walked: true}
				for k := range ev.Star.Bodies {
					bs := ev.Star.Bodies[k].St
					idx, pkg := c.tableIn(bs.Events(), list)
					if idx == nil || !st.facts.ProveGE(idx, lenT(list), 0) {
						all = search{}
						break
					}
					s := searched(e, bs, bs.Events(), func(t *Term) bool { return holderOf(t) == pkg })
					all.absent = all.absent && s.absent
					all.walked = all.walked && s.walked
				}
				whole.absent = whole.absent || all.absent
				whole.walked = whole.walked || all.walked
			}
		}
		var dir *Term
		for _, typ := range []string{"PackDirFile", "UnionDir"} {
			if obj := newObj(o.Vals[0], typ); obj != nil {
				dir = obj
			}
		}
		_, inner, isPath := pathError(st, errVal(o))
		switch {
		case mustNil(st, o.Vals[0]) && mustNotNil(st, errVal(o)) && isPath && isNotExist(inner):
			c.Inst("missing names")
			c.Site(o.Pos)
			c.Must(whole.absent, st, o.Pos, fn, "file", "a name is reported missing and not every table was asked for a file of this name")
			c.Must(whole.walked, st, o.Pos, fn, "directory", "a name is reported missing though it may be a directory: not every table was walked over for files inside of it")
		case dir != nil && mustNil(st, errVal(o)):
			c.Inst("directories")
			c.Site(o.Pos)
			c.Must(whole.absent, st, o.Pos, fn, "file first", "a directory is given though there may be a file of this name")
			if !c.Must(top.found, st, o.Pos, fn, "hit", "a directory is given and no file was met inside of it") {
				continue
			}
			path := c.tagPath(st, st.load(c.fieldAddr(dir, "", ptrTo(dir.Typ), "TagsetRaw"), nil))
			if !c.Must(path != nil, st, o.Pos, fn, "path", "a directory has no path") {
				continue
			}
			d := ps[1]
			var wss []*Term
			wss = append(wss, c.workspaceOf(st, top.table))
			if union {
				for f := range st.mem {
					if f.Op == "faddr" && strings.HasSuffix(f.Aux, "Workspace") {
						if idx := listIndex(holderOf(f), c.packages(st, ps[0])); idx != nil && idx.isInt(0) {
							wss = append(wss, c.workspaceOf(st, f))
						}
					}
				}
			}
			ok := false
			for _, ws := range wss {
				if ws == nil {
					continue
				}
				for _, f := range []*Term{joinPath(ws, d), joinPath(ws, toSlash(d))} {
					ok = ok || sameString(st, path, f) || sameString(st, path, toSlash(f)) || isSlashed(path) && sameString(st, toSlash(path), toSlash(f))
				}
			}
			c.Must(ok, st, o.Pos, fn, "place", "the directory is given as %v", shortT(path))
		}
	}
}

func init() {
	register("C57", "abstract interpretation: typestate of searching (every table asked for the file, every table walked for the directory) at each result, provenance of the directory's path",
		"Opening and information by name of a package and of a union are interpreted abstractly over arbitrary tables and lists of packages. A path may report a name as missing only if the table of the package, of each package for a union, was asked for a file of this name and was walked over to the end without meeting a file inside of a directory of this name. A path may give a directory only if each of them has no file of this name, after a file inside of it was met, and with the path the name stands for. The rules are the same for opening and for information, so both find the same names.",
		[]string{"what lies inside of a directory is decided by C26; which package wins by C29; the special names of whole packages are C34"},
		func(c *Check) {
			c.Rule("a name is missing only if it is neither a file nor a directory, and files come first")
			for _, s := range []struct {
				spec  string
				union bool
			}{{":Package.Open", false}, {":Package.Stat", false}, {":Union.Open", true}, {":Union.Stat", true}} {
				if fn := c.Fn(s.spec); fn != nil {
					c.lookup(fn, s.union)
				}
			}
			c.AtLeast("missing names", 6)
			c.AtLeast("directories", 6)
		})
}
