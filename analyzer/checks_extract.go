package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flagVar is the variable of a command line option.
func (c *Check) flagVar(cmd, option string) *ssa.Global {
	for _, fn := range c.P.Fns {
		if p := fnPkg(fn); p == nil || p.Path() != ModPath+"/"+cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != "flag" || !strings.HasSuffix(f.Name(), "Var") {
					continue
				}
				as := call.Common().Args
				if len(as) < 2 {
					continue
				}
				k, ok := as[1].(*ssa.Const)
				if !ok || k.Value == nil || strings.Trim(k.Value.ExactString(), "\"") != option {
					continue
				}
				if g, ok := as[0].(*ssa.Global); ok {
					return g
				}
			}
		}
	}
	return nil
}

var diskWriters = map[string][]int{
	"os.Mkdir": {0}, "os.MkdirAll": {0}, "os.MkdirTemp": {0}, "os.Create": {0}, "os.CreateTemp": {0}, "os.OpenFile": {0},
	"os.WriteFile": {0}, "os.Chtimes": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Lchown": {0}, "os.Truncate": {0},
	"os.Rename": {0, 1}, "os.Link": {1}, "os.Symlink": {1}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.CopyFS": {0},
}

func isDiskWrite(ev *Event) bool {
	if ev.Kind != "call" || diskWriters[ev.Name] == nil {
		return false
	}
	if ev.Name == "os.OpenFile" {
		if fl, ok := ev.Args[1].intVal(); ok && fl&3 == 0 && fl&0x240 == 0 {
			return false
		}
	}
	return true
}

type extraction struct {
	c   *Check
	dst *ssa.Global
}

// plainPath strips what keeps a path the same place.
func plainPath(t *Term) *Term {
	for t.Op == "pure" && len(t.Args) == 1 && (t.Aux == "wpk/util.ToSlash" || t.Aux == "path.Clean" || t.Aux == "path/filepath.Clean") {
		t = t.Args[0]
	}
	return t
}

// isDest tells that a value is the destination directory.
func (x *extraction) isDest(st *State, t *Term) bool {
	a := mk("global", shortMod.Replace(x.dst.Pkg.Pkg.Path())+"."+x.dst.Name(), x.dst.Type())
	return plainPath(t) == plainPath(st.load(a, x.dst.Type().Underlying().(*types.Pointer).Elem()))
}

// inDest splits a path into the destination and a name within it.
func (x *extraction) inDest(st *State, t *Term) (name *Term, ok bool) {
	t = plainPath(t)
	switch {
	case t.Op == "pure" && len(t.Args) == 2 && (t.Aux == "wpk/util.JoinPath" || t.Aux == "wpk/util.JoinFilePath") && x.isDest(st, t.Args[0]):
		return t.Args[1], true
	case t.Op == "pure" && (t.Aux == "path.Join" || t.Aux == "path/filepath.Join"):
		as := t.Args
		if len(as) == 1 && as[0].Op == "append" || len(as) == 1 && as[0].Op == "elems" {
			as = as[0].Args
		}
		if len(as) == 2 && x.isDest(st, as[0]) {
			return as[1], true
		}
	case t.Op == "concat" && len(t.Args) == 3 && x.isDest(st, t.Args[0]) && t.Args[1].isStr("/"):
		return t.Args[2], true
	}
	return nil, false
}

func isLocalTest(t *Term) bool {
	return t.Op == "pure" && len(t.Args) == 1 && (t.Aux == "path/filepath.IsLocal" || t.Aux == "io/fs.ValidPath")
}

// writes tells that iterations of a loop change the file system.
func (x *extraction) writes(ev *Event) (yes bool) {
	AllEvents([]*Event{ev}, func(ev *Event, _ *Body) { yes = yes || isDiskWrite(ev) })
	return yes
}

// refused tells that a name failed the test.
func (x *extraction) refused(st *State, name *Term) bool {
	for t, v := range st.facts.truth {
		if !v && isLocalTest(t) && t.contains(name) {
			return true
		}
	}
	return false
}

// local tells that a name is known not to lead outside.
func (x *extraction) local(st *State, name *Term) bool {
	for t, v := range st.facts.truth {
		if !v || !isLocalTest(t) {
			continue
		}
		a, b := plainName(t.Args[0]), plainName(name)
		if a == b || toSlash(a) == b || toSlash(b) == a {
			return true
		}
	}
	return false
}

// contained tells that a path is known to be that of the destination or inside of it.
func (x *extraction) contained(st *State, p *Term) bool {
	if x.isDest(st, p) {
		return true
	}
	if p.Op == "pure" && (p.Aux == "path.Dir" || p.Aux == "path/filepath.Dir") {
		if name, ok := x.inDest(st, p.Args[0]); ok {
			return x.local(st, name)
		}
	}
	name, ok := x.inDest(st, p)
	return ok && x.local(st, name)
}

func init() {
	register("C35", "abstract interpretation: path conditions before every call that changes the file system",
		"All functions of the extract utility are interpreted abstractly from its main function, over arbitrary packages. For every call that creates or changes something in the file system (discovered by a complete list of such calls of the standard library) the conditions of the path at this moment are proved to imply that the path is the destination directory, the destination joined with a name that has passed the test for local names, or the directory of such. On every path of the loop over entries where the test has failed nothing is created and the loop ends with an error.",
		[]string{"the test for local names of the standard library is right", "the destination has no symbolic links that lead outside"},
		func(c *Check) {
			c.Rule("the extract utility writes only inside of the destination")
			x := &extraction{c: c, dst: c.flagVar("cmd/extract", "dst")}
			main := c.Fn("cmd/extract:main")
			if !c.Must(x.dst != nil && main != nil, nil, 0, main, "destination", "the variable of the destination is not found") {
				return
			}
			for _, fn := range c.writers("cmd/extract") {
				e := c.cmdEngine(fn)
				e.Record = func(ev *Event) bool { return ev.Star != nil || isDiskWrite(ev) }
				e.KeepPre = isDiskWrite
				outs := c.Run(e, fn, nil, nil)
				seen := map[*Event]bool{}
				for i := range outs {
					if err := errVal(&outs[i]); err != nil && !outs[i].Panic {
						for t, v := range outs[i].St.facts.truth {
							if !v && isLocalTest(t) {
								c.Must(mustNotNil(outs[i].St, err), outs[i].St, at(fn.Pos(), fn), fn, "rejected", "an entry whose name is not local is not reported as an error")
							}
						}
					}
					AllEvents(outs[i].St.Events(), func(ev *Event, b *Body) {
						if ev.Star != nil && ev.Star.Kind == "range" && !seen[ev] && x.writes(ev) {
							seen[ev] = true
							for _, b := range ev.Star.Bodies {
								c.Inst("iterations")
								c.Must(!x.refused(b.St, ev.Star.Key), b.St, at(ev.Pos, fn), fn, "passed over", "the loop goes on after an entry whose name is not local")
							}
						}
						if seen[ev] || !isDiskWrite(ev) {
							return
						}
						seen[ev] = true
						c.Inst("changes of the file system")
						c.Site(ev.Pos)
						for _, k := range diskWriters[ev.Name] {
							c.Must(ev.Pre != nil && x.contained(ev.Pre, ev.Args[k]), ev.Pre, at(ev.Pos, fn), fn, ev.Name, "%s gets the path %v, which is not known to be inside of the destination", ev.Name, shortT(ev.Args[k]))
						}
					})
				}
			}
			c.AtLeast("changes of the file system", 3)
		})
}

// writers are the topmost functions of a utility from which the file system is changed.
func (c *Check) writers(cmd string) []*ssa.Function {
	var ts []*ssa.Function
	for _, fn := range c.P.Fns {
		if p := fnPkg(fn); p == nil || p.Path() != ModPath+"/"+cmd || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && diskWriters[cname(f)] != nil {
						ts = append(ts, fn)
					}
				}
			}
		}
	}
	return c.errRoots(cmd, ts)
}

func isCopy(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "io.Copy" || ev.Name == "io.CopyBuffer")
}

func isClose(ev *Event) bool {
	return ev.Kind == "call" && ev.Method == "Close"
}

// nameOf tells that a value is the name under which the walk gives an entry.
func nameOf(star *Star, t *Term) bool {
	t = plainName(t)
	if t == star.Key {
		return true
	}
	// name within the workspace
	return t.Op == "substr" && t.Args[0] == star.Key && t.Args[2] == lenT(star.Key)
}

// extracted checks one iteration over the entries of a package.
func (x *extraction) extracted(ev *Event, b *Body, org *ssa.Global, done bool) {
	c, st, star := x.c, b.St, ev.Star
	key, fn := star.Key, ev.Fn
	var copies, times, opens []*Event
	AllEvents(b.St.Events(), func(e *Event, in *Body) {
		switch {
		case isCopy(e):
			copies = append(copies, e)
		case e.Kind == "call" && e.Name == "os.Chtimes":
			times = append(times, e)
		case e.Kind == "call" && (e.Name == "os.OpenFile" || e.Name == "os.Create"):
			opens = append(opens, e)
		}
	})
	if done {
		// entries of other workspaces are not of this package object
		for t, v := range st.facts.truth {
			if !v && t.Op == "pure" && t.Aux == "strings.HasPrefix" && t.Args[0] == key && t.Args[1].any(func(s *Term) bool { return s.Op == "global" || s.Op == "fieldval" || s.Op == "load" }) {
				return
			}
		}
		c.Inst("extracted entries")
		c.Must(len(copies) == 1, st, ev.Pos, fn, "copied once", "extraction goes on to the next entry and the nested file was copied %d times", len(copies))
	}
	for _, cp := range copies {
		c.Site(cp.Pos)
		w, r := unwrap(cp.Args[0]), unwrap(cp.Args[1])
		var dst *Event
		for _, o := range opens {
			if w == o.result(0) {
				dst = o
			}
		}
		if !c.Must(dst != nil, st, cp.Pos, fn, "into a file", "the nested file is copied into %v, not into a file opened for this entry", shortT(w)) {
			continue
		}
		name, ok := x.inDest(dst.Pre, dst.Args[0])
		c.Must(ok && nameOf(star, name), st, dst.Pos, fn, "name", "the nested file is copied into the file %v, its name is %v", shortT(dst.Args[0]), shortT(key))
		if dst.Name == "os.OpenFile" {
			fl, ok := dst.Args[1].intVal()
			has := func(n string) bool { return fl&c.osConst("os", n, 0) != 0 }
			c.Must(ok && (has("O_WRONLY") || has("O_RDWR")) && has("O_CREATE") && has("O_TRUNC") && !has("O_APPEND") && !has("O_EXCL"), st, dst.Pos, fn, "flags", "the destination file is not created or truncated for writing: flags %v", dst.Args[1])
		}
		src := isEntry(r, star.Val)
		c.Must(src, st, cp.Pos, fn, "from the entry", "the source of the copy is %v, not the nested file of the walked entry", shortT(r))
		if done {
			err := cp.result(1)
			c.Must(mustNil(st, err), st, cp.Pos, fn, "failed copy", "extraction goes on after a failed copy")
		}
		if done || mustNil(st, cp.result(1)) {
			x.times(star, st, dst, times, org)
		}
	}
	for _, t := range times {
		var dst *Event
		for _, o := range opens {
			if o.Args[0] == t.Args[0] {
				dst = o
			}
		}
		if c.Must(dst != nil, st, t.Pos, fn, "times of the file", "times are changed for %v, which is not the destination file", shortT(t.Args[0])) {
			closed := false
			AllEvents(b.St.Events(), func(e *Event, in *Body) {
				if isClose(e) && unwrap(e.Recv) == dst.result(0) && !closed {
					closed = true
				}
				if e == t {
					c.Must(closed, st, t.Pos, fn, "after closing", "times are changed before the destination file is closed")
				}
			})
		}
	}
}

// times checks the changes of times of an extracted file.
func (x *extraction) times(star *Star, st *State, dst *Event, times []*Event, org *ssa.Global) {
	c := x.c
	load := mk("global", shortMod.Replace(org.Pkg.Pkg.Path())+"."+org.Name(), org.Type())
	want, known := truth(st, st.load(load, tyBool))
	var tt types.Type
	if f := c.Fn(":TagsetRaw.TagTime"); f != nil {
		tt = f.Signature.Results().At(0).Type()
	}
	at, aok := tsGet(star.Val, tidT(c.constInt("", "TIDatime")), "TagTime", tt)
	mt, mok := tsGet(star.Val, tidT(c.constInt("", "TIDmtime")), "TagTime", tt)
	both := isTrue(st, aok) && isTrue(st, mok)
	for _, t := range times {
		c.Inst("changed times")
		c.Must(known && want, st, t.Pos, t.Fn, "not requested", "times are changed though it is not known to be requested")
		c.Must(both, st, t.Pos, t.Fn, "both present", "times are changed and it is not known that both tags are present")
		c.Must(t.Args[1] == at, st, t.Pos, t.Fn, "access time", "the access time becomes %v", shortT(t.Args[1]))
		c.Must(t.Args[2] == mt, st, t.Pos, t.Fn, "modification time", "the modification time becomes %v", shortT(t.Args[2]))
	}
	if len(times) == 0 {
		c.Inst("unchanged times")
		c.Must(known && !want || isFalse(st, aok) || isFalse(st, mok), st, dst.Pos, dst.Fn, "left", "times of the extracted file are not restored")
	}
}

// isEntry tells that a value is the nested file opened for a tagset.
func isEntry(r, ts *Term) bool {
	if r.Op != "res" || r.Aux != "0" || r.Args[0].Op != "call" {
		return false
	}
	n := callName(r)
	if !strings.HasSuffix(n, ".OpenTagset") {
		return false
	}
	as := r.Args[0].Args
	return len(as) > 0 && as[len(as)-1] == ts
}

func init() {
	register("C36", "abstract interpretation of the extract utility: per-iteration data flow from entry to file, order of effects, path conditions of time changes",
		"The extract utility is interpreted abstractly over arbitrary packages and options. In every iteration over the entries that goes on to the next one the nested file opened for the tagset of this very entry is copied once, without error, into the file opened with the flags of creation and truncation under the path made of the destination and the entry's name. Every change of times concerns the same path, comes after the close of the file, on paths where the option is set and both tags are known to be present, with the values of the access and modification time tags in this order; a copied entry without it is proved not to need it. Each way to make the data accessor gets the path of the opened package, or the data path derived from it exactly if the package is split.",
		[]string{"io.Copy copies up to the end of the nested file or reports an error", "the data accessors are those of C20-C22"},
		func(c *Check) {
			c.Rule("the extract utility copies every entry and then restores times")
			x := &extraction{c: c, dst: c.flagVar("cmd/extract", "dst")}
			org := c.flagVar("cmd/extract", "ft")
			if !c.Must(x.dst != nil && org != nil, nil, 0, c.Fn("cmd/extract:main"), "options", "the variables of the options are not found") {
				return
			}
			for _, fn := range c.errRoots("cmd/extract", c.copiers("cmd/extract")) {
				e := c.cmdEngine(fn)
				own := e.Inline
				e.Inline = func(f *ssa.Function) bool {
					return own(f) || fnPkg(f) != nil && fnPkg(f).Path() == ModPath && cname(f) == "(*wpk.FTT).IsSplitted"
				}
				isMaker := func(ev *Event) bool {
					return ev.Kind == "call" && strings.HasPrefix(ev.Name, "wpk/") && strings.HasSuffix(ev.Name, ".MakeTagger")
				}
				e.Record = func(ev *Event) bool {
					return ev.Star != nil || isDiskWrite(ev) || isCopy(ev) || isClose(ev) || isMaker(ev) || ev.Kind == "call" && (ev.Method == "OpenTagset" || ev.Method == "OpenFile" || ev.Method == "OpenStream") || ev.Kind == "rangestop"
				}
				e.KeepPre = func(ev *Event) bool { return isDiskWrite(ev) || isMaker(ev) }
				outs := c.Run(e, fn, nil, nil)
				seen := map[*Event]bool{}
				for i := range outs {
					if outs[i].Panic {
						continue
					}
					var opened *Event
					walked := map[*Term]bool{}
					AllEvents(outs[i].St.Events(), func(ev *Event, b *Body) {
						if ev.Star != nil && ev.Star.Kind == "range" && x.writes(ev) && !seen[ev] {
							seen[ev] = true
							for k := range ev.Star.Bodies {
								x.extracted(ev, &ev.Star.Bodies[k], org, true)
							}
						}
						if ev.Star != nil && ev.Star.Kind != "range" && x.walks(ev) && !seen[ev] {
							seen[ev] = true
							for _, b := range ev.Star.Bodies {
								c.Inst("packages")
								c.Must(x.walks(b.St.Events()...), b.St, at(ev.Pos, fn), fn, "passed package", "extraction goes on to the next package without a walk over the entries")
							}
						}
						if ev.Star != nil && x.writes(ev) {
							walked[ev.Star.Over] = true
						}
						if ev.Kind == "rangestop" && walked[ev.Recv] {
							st := outs[i].St
							if b != nil {
								st = b.St
							}
							err := errVal(&outs[i])
							c.Inst("interrupted extractions")
							c.Must(b == nil && err != nil && mustNotNil(st, err), st, at(ev.Pos, fn), fn, "interrupted", "extraction of a package stops before its last entry and this is not reported as an error")
						}
						if ev.Kind == "call" && ev.Method == "OpenFile" && ev.Name != "os.OpenFile" {
							opened = ev
						}
						if isMaker(ev) && !seen[ev] {
							seen[ev] = true
							c.Inst("data accessors")
							c.Site(ev.Pos)
							if !c.Must(opened != nil, ev.Pre, ev.Pos, fn, "opened", "the data accessor is made before a package is opened") {
								return
							}
							p := opened.Args[0]
							off := ev.Pre.load(c.fieldAddr(opened.Recv, "", "FTT", "datoffset"), tyU64)
							split, known := truth(ev.Pre, eqT(off, intConst(0, tyU64)))
							switch a := ev.Args[0]; {
							case a == p:
								c.Must(known && !split, ev.Pre, ev.Pos, fn, "split package", "nested files are read from the package file and it is not known that the package is not split")
							case callName(a) == "wpk.MakeDataPath" && callOf(a).Args[0] == p:
								c.Must(known && split, ev.Pre, ev.Pos, fn, "whole package", "nested files are read from a separate data file and it is not known that the package is split")
							default:
								c.Must(false, ev.Pre, ev.Pos, fn, "data file", "nested files are read from %v, the package is %v", shortT(a), shortT(p))
							}
						}
					})
				}
			}
			c.extractSize()
			c.Rule("the data path of a package differs from the header path in the extension only")
			for _, t := range []struct{ fn, ext string }{{":MakeDataPath", ".wpf"}, {":MakeTagsPath", ".wpt"}} {
				fn := c.Fn(t.fn)
				if fn == nil {
					continue
				}
				e := c.Engine()
				p := mk("param", "fpath", tyString)
				outs := c.Run(e, fn, []*Term{p}, newState(e))
				for i := range outs {
					o := &outs[i]
					c.Inst("derived paths")
					c.Must(!o.Panic && derivedPath(o.Vals[0], p, t.ext), o.St, o.Pos, fn, "extension", "the path becomes %v instead of one with the extension %s", o.Vals, t.ext)
				}
			}
			c.AtLeast("extracted entries", 1)
			c.AtLeast("changed times", 1)
			c.AtLeast("data accessors", 3)
		})
}

func callOf(t *Term) *Term {
	if t.Op == "res" {
		return t.Args[0]
	}
	return t
}

// derivedPath tells that a path is another one with a new extension.
func derivedPath(v, p *Term, ext string) bool {
	if v.Op != "concat" || len(v.Args) != 2 || !v.Args[1].isStr(ext) {
		return false
	}
	e := mk("pure", "path.Ext", tyString, p)
	f := mk("pure", "path/filepath.Ext", tyString, p)
	for _, e := range []*Term{e, f} {
		if v.Args[0] == mk("pure", "strings.TrimSuffix", tyString, p, e) {
			return true
		}
		b := v.Args[0]
		if b.Op == "substr" && b.Args[0] == p && b.Args[1].isInt(0) && b.Args[2] == subT(lenT(p), lenT(e), tyInt) {
			return true
		}
	}
	return false
}

// walks tells that there is a walk over entries that changes the file system.
func (x *extraction) walks(evs ...*Event) (yes bool) {
	AllEvents(evs, func(ev *Event, _ *Body) {
		yes = yes || ev.Star != nil && ev.Star.Kind == "range" && x.writes(ev)
	})
	return yes
}
