package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hasPrefix tells whether a string is known to start or not to start with another one.
func hasPrefix(st *State, s, p *Term) (val, known bool) {
	if p.isStr("") || st.facts.ProveEq(lenT(p), intConst(0, tyInt)) {
		return true, true
	}
	if v, k := st.facts.Decide(foldPure(mk("pure", "strings.HasPrefix", tyBool, s, p))); k {
		return v, true
	}
	if ps, ok := p.strVal(); ok && len(ps) == 1 {
		if v, k := byteIs(st, s, intConst(0, tyInt), ps[0]); k {
			return v, true
		}
	}
	if st.facts.ProveGE(lenT(p), lenT(s), 1) {
		return false, true
	}
	for t, v := range st.facts.truth {
		if t.Op != "==" || len(t.Args) != 2 {
			continue
		}
		for i := range t.Args {
			if t.Args[i] == p && isHead(st, t.Args[1-i], s, lenT(p)) {
				return v, true
			}
			if v && t.Args[i] == s { // the string itself is known
				if a, ok := t.Args[1-i].strVal(); ok {
					if b, ok := p.strVal(); ok {
						return strings.HasPrefix(a, b), true
					}
				}
				if t.Args[1-i] == p {
					return true, true
				}
			}
		}
	}
	return false, false
}

// isHead tells that t is s[:n].
func isHead(st *State, t, s, n *Term) bool {
	root, off := strBase(t)
	sr, so := strBase(s)
	return root == sr && st.facts.ProveEq(off, so) && st.facts.ProveEq(lenT(t), n)
}

// byteIs tells whether a byte of a string is known to be or not to be b.
func byteIs(st *State, s, pos *Term, b byte) (val, known bool) {
	sr, so := strBase(s)
	at := addT(so, pos, tyInt)
	for t, v := range st.facts.truth {
		if t.Op != "==" || len(t.Args) != 2 {
			continue
		}
		for i := range t.Args {
			if n, ok := t.Args[i].intVal(); ok {
				if n != int64(b) && !v {
					continue
				}
				if r, o := byteOf(t.Args[1-i]); r == sr && o != nil && st.facts.ProveEq(o, at) {
					return v == (n == int64(b)), true
				}
			}
			if str, ok := t.Args[i].strVal(); ok && v && len(str) > 0 { // a rest of the string is known
				r, o := strBase(t.Args[1-i])
				if r == sr && st.facts.ProveEq(o, at) {
					return str[0] == b, true
				}
			}
		}
	}
	return false, false
}

// endsWith tells that the last byte of a string is known to be b.
func endsWith(st *State, s *Term, b byte) bool {
	if v, k := st.facts.Decide(foldPure(mk("pure", "strings.HasSuffix", tyBool, s, strConst(string(b))))); k && v {
		return true
	}
	v, k := byteIs(st, s, subT(lenT(s), intConst(1, tyInt), tyInt), b)
	return k && v
}

// byteOf gives string and position of a term that is a byte of a string.
func byteOf(t *Term) (root, off *Term) {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op == "dec" && t.Args[0].Op == "sub" {
		r, o := strBase(t.Args[0].Args[0])
		return r, addT(o, t.Args[0].Args[1], tyInt)
	}
	if t.Op == "index" || t.Op == "strindex" {
		r, o := strBase(t.Args[0])
		return r, addT(o, t.Args[1], tyInt)
	}
	return nil, nil
}

// inDir tells whether a name is known to be or not to be inside of a directory,
// and what the name relative to the directory is.
func inDir(st *State, key, dir *Term) (rest *Term, in, known bool) {
	for _, root := range []string{".", ""} {
		if dir.isStr(root) {
			return key, true, true
		}
		if v, k := st.facts.Decide(eqT(dir, strConst(root))); k && v {
			return key, true, true
		}
	}
	slash := strConst("/")
	p := concatT(dir, slash)
	if v, k := hasPrefix(st, key, p); k {
		return sliceT(key, addT(lenT(dir), intConst(1, tyInt), tyInt), nil, nil, tyString), v, true
	}
	if v, k := hasPrefix(st, key, dir); k {
		if !v {
			return nil, false, true
		}
		if endsWith(st, dir, '/') { // the directory has its slash already
			return sliceT(key, lenT(dir), nil, nil, tyString), true, true
		}
		rest := sliceT(key, lenT(dir), nil, nil, tyString)
		if v, k := hasPrefix(st, rest, slash); k {
			return sliceT(key, addT(lenT(dir), intConst(1, tyInt), tyInt), nil, nil, tyString), v, true
		}
		if st.facts.ProveGE(lenT(dir), lenT(key), 0) { // nothing behind the name
			return nil, false, true
		}
	}
	if st.facts.ProveGE(lenT(dir), lenT(key), 0) {
		return nil, false, true
	}
	return nil, false, false
}

// inDirs follows a chain of directories: dirs[i+1] is relative to dirs[i].
func inDirs(st *State, key *Term, dirs ...*Term) (rest *Term, in, known bool) {
	rest = key
	for _, d := range dirs {
		r, in, known := inDir(st, rest, d)
		if !known || !in {
			return nil, in, known
		}
		rest = r
	}
	return rest, true, true
}

// dirSite is a function that works on the files of a directory.
type dirSite struct {
	spec   string
	search bool // it looks for any file there
	// the ways to name the directory: chains of names
	dirs func(e *Engine, fn *ssa.Function, st *State, ws *Term) [][]*Term
}

// effects are what an iteration over files may do to the result.
func isEffect(ev *Event) bool {
	switch ev.Kind {
	case "append", "mapupdate", "mapdelete", "tsedit":
		return true
	case "call":
		if ev.Name == "func value" || isStore(ev) || ev.Method == "Delete" {
			return true
		}
	}
	return false
}

// workspaceOf gives the workspace of the package a table belongs to.
func (c *Check) workspaceOf(st *State, table *Term) *Term {
	p := holderOf(table)
	if p == nil {
		return nil
	}
	return st.load(c.fieldAddr(p, "", "Package", "Workspace"), tyString)
}

func (c *Check) dirSites() []dirSite {
	param := func(e *Engine, fn *ssa.Function) *Term { return e.Params(fn)[1] }
	full := func(e *Engine, fn *ssa.Function, st *State, ws *Term) [][]*Term {
		d := param(e, fn)
		return [][]*Term{{toSlash(d)}, {d}}
	}
	below := func(e *Engine, fn *ssa.Function, st *State, ws *Term) (out [][]*Term) {
		d := param(e, fn)
		if ws == nil {
			return nil
		}
		bare := mk("pure", "strings.TrimSuffix", tyString, toSlash(d), strConst("/"))
		for _, x := range []*Term{toSlash(d), d, bare} {
			j := joinPath(ws, x)
			out = append(out, []*Term{ws, x}, []*Term{j}, []*Term{toSlash(j)})
		}
		pack := strConst(c.constStr("", "PackName"))
		return append(out, []*Term{ws, pack}, []*Term{joinPath(ws, pack)}, []*Term{toSlash(joinPath(ws, pack))})
	}
	return []dirSite{
		{":Package.Enum", false, func(e *Engine, fn *ssa.Function, st *State, ws *Term) [][]*Term { return [][]*Term{{ws}} }},
		{":Package.Sub", true, below},
		{":Package.ReadDir", false, below},
		{":Package.Open", true, below},
		{":FTT.ReadDirN", false, full},
		{":FTT.OpenDir", true, full},
		{":Union.ReadDirN", false, below},
		{":Union.Open", true, below},
		{":Package.RenameDir", false, below},
	}
}

func init() {
	register("C26", "abstract interpretation: path conditions on the keys of every enumeration, small theory of string prefixes",
		"Every function that works on the files of a directory (enumeration, sub-directory selection, directory listing of tables, packages and unions, opening of directories, directory renaming) is interpreted abstractly over an arbitrary table. In every iteration over table entries the path conditions are proved to decide whether the key is inside of the directory, in the sense of 'root, or the name followed by a slash is a prefix of the key', or that it is not; iterations over keys outside must have no effect, a search stops only at a key inside and goes on only past keys outside. The relative names handed to callbacks are the remainder behind that slash. Trimming of the workspace is decided path by path with the same theory.",
		[]string{"keys of the table are normalised (C27)"},
		func(c *Check) {
			c.Rule("a file belongs to a directory exactly if its name goes on with a slash")
			for _, s := range c.dirSites() {
				fn := c.Fn(s.spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				iters := 0
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						c.Must(false, o.St, o.Pos, fn, "panics", "it panics")
						continue
					}
					decide := func(st *State, over, key *Term) (rest *Term, in, known bool) {
						for _, ds := range s.dirs(e, fn, st, c.workspaceOf(st, over)) {
							if r, in, k := inDirs(st, key, ds...); k {
								return r, in, k
							}
						}
						return
					}
					var visit func(st *State, evs []*Event)
					visit = func(st *State, evs []*Event) {
						var table *Star
						var since []*Event
						for _, ev := range evs {
							if ev.Kind == "rangestop" && table != nil {
								_, in, known := decide(st, table.Over, table.Key)
								eff := false
								for _, x := range since {
									eff = eff || isEffect(x)
								}
								if s.search {
									c.Must(known && in, st, o.Pos, fn, "stops", "the search ends at a file that is not known to be in the directory")
								} else if eff {
									c.Must(known && in, st, o.Pos, fn, "uses", "a file is used that is not known to be in the directory")
									c.callbacks(fn, st, since, table, decide)
								}
								table = nil
							}
							if ev.Star == nil {
								since = append(since, ev)
								continue
							}
							since = nil
							isTable := ev.Star.Kind == "range" && ev.Star.Over != nil && strings.HasSuffix(ev.Star.Over.Aux, ".tsm")
							for k := range ev.Star.Bodies {
								b := &ev.Star.Bodies[k]
								if !isTable {
									visit(b.St, b.St.Events())
									continue
								}
								iters++
								c.Inst("iterations over files")
								_, in, known := decide(b.St, ev.Star.Over, ev.Star.Key)
								if !c.Must(known, b.St, at(ev.Pos, fn), fn, "decides", "an iteration over files does not decide whether the file is in the directory") {
									continue
								}
								var eff *Event
								for _, x := range b.St.Events() {
									if isEffect(x) {
										eff = x
									}
								}
								if !in {
									c.Must(eff == nil, b.St, at(ev.Pos, fn), fn, "uses", "a file that is not in the directory is used")
									continue
								}
								if s.search {
									c.Must(false, b.St, at(ev.Pos, fn), fn, "passes", "the search passes by a file in the directory")
									continue
								}
								c.callbacks(fn, b.St, b.St.Events(), ev.Star, decide)
							}
							if isTable {
								table = ev.Star
							}
						}
					}
					visit(o.St, o.St.Events())
				}
				c.Must(iters > 0, nil, at(0, fn), fn, "iterates", "no iteration over files is found")
				c.Inst("directory functions")
			}
			c.AtLeast("directory functions", 9)
			c.AtLeast("iterations over files", 40)

			c.Rule("a workspace is trimmed at a slash")
			fn := c.Fn(":Package.TrimPath")
			if fn == nil {
				return
			}
			e := c.Engine()
			ps := e.Params(fn)
			outs := c.Run(e, fn, nil, nil)
			for i := range outs {
				o := &outs[i]
				st := o.St
				if !c.Must(!o.Panic, st, o.Pos, fn, "panics", "trimming panics") {
					continue
				}
				c.Inst("paths of trimming")
				ws := st.load(c.fieldAddr(ps[0], "", "Package", "Workspace"), tyString)
				rest, in, known := inDir(st, ps[1], ws)
				res := o.Vals[0]
				switch {
				case res.isStr("."): // the workspace itself
					same := st.facts.ProveEq(lenT(ps[1]), lenT(ws))
					v, k := hasPrefix(st, ps[1], ws)
					if known && in {
						c.Must(sameString(st, rest, strConst("")) || sameString(st, rest, strConst(".")), st, o.Pos, fn, "itself", "the name of a file is trimmed to a dot")
						continue
					}
					eq, ke := st.facts.Decide(eqT(ps[1], ws))
					c.Must(same && k && v || ke && eq, st, o.Pos, fn, "itself", "a name is trimmed to a dot that is not known to be the workspace")
				case res.isStr(""):
					if known && in {
						c.Must(sameString(st, rest, res), st, o.Pos, fn, "member", "the name of a file in the workspace is trimmed to nothing")
						continue
					}
					c.Must(known, st, o.Pos, fn, "outside", "a name is trimmed to nothing that is not known to be outside of the workspace")
				default:
					c.Must(known && in && sameString(st, res, rest), st, o.Pos, fn, "rest", "the trimmed name is %v", res)
				}
			}
			c.AtLeast("paths of trimming", 4)
		})
}

func sameString(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if v, k := st.facts.Decide(eqT(a, b)); k && v {
		return true
	}
	ra, oa := strBase(a)
	rb, ob := strBase(b)
	return ra == rb && st.facts.ProveEq(oa, ob) && st.facts.ProveEq(lenT(a), lenT(b)) || b.isStr("") && st.facts.ProveEq(lenT(a), intConst(0, tyInt))
}

// callbacks checks what is handed to a function called for each file.
func (c *Check) callbacks(fn *ssa.Function, st *State, evs []*Event, s *Star, decide func(st *State, over, key *Term) (*Term, bool, bool)) {
	rest, in, known := decide(st, s.Over, s.Key)
	if !in || !known {
		return
	}
	for _, ev := range evs {
		if ev.Kind != "call" || ev.Name != "func value" || len(ev.Args) != 2 {
			continue
		}
		c.Inst("callbacks")
		c.Must(sameString(st, ev.Args[0], rest), st, at(ev.Pos, fn), fn, "relative", "the callback gets the name %v, not the remainder behind the directory", ev.Args[0])
	}
}

// strBase gives the string another one is a part of, and where the part begins.
func strBase(t *Term) (root, off *Term) {
	if t.Op == "substr" {
		r, o := strBase(t.Args[0])
		return r, addT(o, t.Args[1], tyInt)
	}
	return byteBase(t)
}
