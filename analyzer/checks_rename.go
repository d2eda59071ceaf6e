package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// placers are the exported operations of a package that can fail and put entries into the table.
func (c *Check) placers() (out []*ssa.Function) {
	users := c.reachesTable("Poke", "Push")
	for _, fn := range c.methodsOf("", "Package") {
		if fn.Object() == nil || !fn.Object().Exported() || !users[fn] || fn.Synthetic != "" {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
			continue
		}
		some := false
		for _, p := range fn.Params[1:] {
			some = some || p.Type() == types.Typ[types.String]
		}
		if some && !c.opensPath(fn) {
			out = append(out, fn)
		}
	}
	return
}

// plainName takes off a conversion of slashes where it has nothing to convert.
func plainName(t *Term) *Term {
	for t.Op == "pure" && t.Aux == "wpk/util.ToSlash" && slashed(t.Args[0]) {
		t = t.Args[0]
	}
	return t
}

// sameKey tells that two keys of a table are the same one: that of an entry of a walk over
// the table, or made of its name within the workspace.
func (c *Check) sameKey(st *State, table, a, b *Term) bool {
	a, b = plainName(a), plainName(b)
	if a == b || sameString(st, a, b) {
		return true
	}
	if b.Op == "pure" && a.Op == "rkey" {
		a, b = b, a
	}
	if b.Op != "rkey" {
		return false
	}
	ws := c.workspaceOf(st, table)
	if ws == nil {
		return false
	}
	name := a
	if a.Op == "pure" && a.Aux == "wpk/util.JoinPath" {
		if !sameString(st, a.Args[0], ws) {
			return false
		}
		name = a.Args[1]
	} else {
		root := false
		for _, r := range []string{".", ""} {
			v, k := st.facts.Decide(eqT(ws, strConst(r)))
			root = root || k && v
		}
		if !root {
			return false
		}
	}
	if name.Op == "pure" && name.Aux == "wpk/util.ToSlash" {
		name = name.Args[0]
	}
	rest, in, known := inDir(st, b, ws)
	return known && in && sameString(st, name, rest)
}

// known finds out what is known of the presence of a key in a table.
func (c *Check) keyFact(st *State, table, key *Term) (val, known bool) {
	for t, v := range st.facts.truth {
		if t.Op == "maphas" && len(t.Args) >= 2 && t.Args[0] == table && c.sameKey(st, table, t.Args[1], key) {
			return v, true
		}
		if t.Op == "ranged" && t.Args[0] == table && v && c.sameKey(st, table, key, t.Args[1]) {
			return true, true
		}
	}
	return false, false
}

// origin peels off the changes of the name of an entry.
func (c *Check) origin(ts *Term) *Term {
	path := tidT(c.constInt("", "TIDpath"))
	for {
		switch {
		case ts.Op == "pure" && ts.Aux == "wpk.CopyTagset":
			ts = ts.Args[0]
			continue
		case ts.Op == "res" && ts.Aux == "0" && ts.Args[0].Op == "pure" && strings.HasPrefix(ts.Args[0].Aux, tsPfx):
			p := ts.Args[0]
			if len(p.Args) > 1 && eqT(p.Args[1], path) == tTrue {
				ts = p.Args[0]
				continue
			}
		}
		return ts
	}
}

// entryAt tells that a value is the entry of the table under given key.
func (c *Check) entryAt(st *State, ts, table *Term) (key *Term) {
	switch ts.Op {
	case "mapget":
		if ts.Args[0] == table {
			return ts.Args[1]
		}
	case "rval":
		if ts.Args[0] == table {
			for t, v := range st.facts.truth {
				if v && t.Op == "ranged" && len(t.Args) > 2 && t.Args[2] == ts {
					return t.Args[1]
				}
			}
		}
	}
	return nil
}

func isExist(t *Term) bool {
	return isGlobal(t, "io/fs.ErrExist") || isGlobal(t, "os.ErrExist")
}

// reports tells what an error is about.
func reports(st *State, err *Term, is func(*Term) bool) bool {
	if err == nil {
		return false
	}
	if is(err) {
		return true
	}
	if _, inner, ok := pathError(st, err); ok {
		return is(inner)
	}
	t := unwrap(err)
	return t != nil && t.Op != "load" && t.any(is)
}

// lockAt is the exclusive lock of the table that is held at an event.
func lockAt(ev *Event) *Term {
	for _, l := range ev.Locks {
		if l.Mode == "W" {
			return l.Addr
		}
	}
	return nil
}

func (c *Check) placings(fn *ssa.Function, o *Outcome, st *State, evs []*Event, body bool) {
	for i, ev := range evs {
		if !isStore(ev) {
			continue
		}
		table, key := ev.Recv, ev.Args[0]
		var own *Event
		for _, p := range evs[:i] {
			if isStore(p) && p.Recv == table && c.sameKey(st, table, p.Args[0], key) {
				own = p
			}
		}
		if own != nil { // the entry was just put there
			continue
		}
		c.Inst("insertions")
		c.Site(ev.Pos)
		has, known := c.keyFact(st, table, key)
		c.Must(known && !has, st, at(ev.Pos, fn), fn, "replaces", "an entry is put under a key that is not known to be free")
	}
}

func init() {
	register("C32", "abstract interpretation: path conditions and held locks at every insertion, effects on every failing path",
		"The exported operations of a package that can fail and put entries into the table (packing, renaming, aliasing) are discovered and interpreted abstractly, with loops over the table and callbacks. At every insertion the path must have found the key to be absent. On every path where the target key was found present, or the source key was found absent, the result is the error for that, and neither the table is changed nor the data stream touched. No path succeeds without having found the source and having missed the target. For packing, the lookup and the insertion happen under one exclusive lock of the table which is not released in between.",
		[]string{"names have no empty elements", "entries of a walk over the table are in the table"},
		func(c *Check) {
			c.Rule("an insertion never replaces an entry")
			fns := c.placers()
			for _, fn := range fns {
				e := c.Engine()
				e.NoInv = true
				outs := c.Run(e, fn, nil, nil)
				seen := map[*Star]bool{}
				for i := range outs {
					o := &outs[i]
					c.placings(fn, o, o.St, o.St.Events(), false)
					AllEvents(o.St.Events(), func(ev *Event, b *Body) {
						if ev.Star == nil || seen[ev.Star] {
							return
						}
						seen[ev.Star] = true
						for k := range ev.Star.Bodies {
							bs := ev.Star.Bodies[k].St
							c.placings(fn, o, bs, bs.Events(), true)
						}
					})
				}
			}
			c.AtLeast("insertions", 5)

			c.Rule("a collision or a missing source is reported and changes nothing")
			for _, fn := range fns {
				loops := false
				e := c.Engine()
				ps := e.Params(fn)
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					for _, ev := range outs[i].St.Events() {
						loops = loops || ev.Star != nil && isTableWalk(ev.Star)
					}
				}
				if loops { // a set of names
					continue
				}
				c.Inst("operations with collisions")
				var names []*Term
				for k, p := range fn.Params {
					if p.Type() == types.Typ[types.String] {
						names = append(names, ps[k])
					}
				}
				var src, dst *Term
				dst = names[len(names)-1]
				if len(names) > 1 {
					src = names[0]
				}
				var w *Term
				for k, p := range fn.Params {
					if it, ok := p.Type().Underlying().(*types.Interface); ok && hasMethod(it, "Write") {
						w = ps[k]
					}
				}
				for i := range outs {
					o := &outs[i]
					st := o.St
					if !c.Must(!o.Panic, st, o.Pos, fn, "panics", "it panics") {
						continue
					}
					err := o.Vals[len(o.Vals)-1]
					fact := func(name *Term) (val, known bool) {
						for t, v := range st.facts.truth {
							if t.Op == "maphas" && t.Args[1].contains(name) {
								return v, true
							}
						}
						return false, false
					}
					changed, touched := false, false
					for _, ev := range st.Events() {
						changed = changed || changesTable(ev)
						if w == nil || ev.Kind != "call" {
							continue
						}
						touched = touched || unwrap(ev.Recv) == w
						for _, a := range ev.Args {
							touched = touched || unwrap(a) == w
						}
					}
					dv, dk := fact(dst)
					sv, sk := true, true
					if src != nil {
						sv, sk = fact(src)
					}
					switch {
					case mustNil(st, err):
						c.Must(dk && !dv && sk && sv, st, o.Pos, fn, "success", "it succeeds without having found the source present and the target absent")
						c.Must(changed, st, o.Pos, fn, "nothing", "it succeeds without a change of the table")
					case dk && dv:
						c.Inst("collisions")
						c.Must(reports(st, err, isExist) || sk && !sv && reports(st, err, isNotExist), st, o.Pos, fn, "collision", "the target exists and the error is %v", err)
						c.Must(!changed, st, o.Pos, fn, "changed", "the table is changed although the target exists")
						c.Must(!touched, st, o.Pos, fn, "touched", "the data stream is touched although the target exists")
					case sk && !sv:
						c.Inst("missing sources")
						c.Must(reports(st, err, isNotExist), st, o.Pos, fn, "missing", "the source is missing and the error is %v", err)
						c.Must(!changed, st, o.Pos, fn, "changed", "the table is changed although the source is missing")
					default:
						c.Must(mustNotNil(st, err) || dk && !dv && sk && sv, st, o.Pos, fn, "unknown", "it is not known whether it fails")
						c.Must(!mustNotNil(st, err) || !changed, st, o.Pos, fn, "changed", "the table is changed although it fails")
						c.Must(!reports(st, err, isExist) && !reports(st, err, isNotExist), st, o.Pos, fn, "false report", "%v is reported although this is not so", err)
					}
				}
			}
			c.AtLeast("operations with collisions", 4)
			c.AtLeast("collisions", 4)
			c.AtLeast("missing sources", 2)

			c.Rule("packing looks up and inserts in one exclusive step")
			for _, fn := range fns {
				streams := false
				for _, p := range fn.Params {
					if it, ok := p.Type().Underlying().(*types.Interface); ok && hasMethod(it, "Write") {
						streams = true
					}
				}
				if !streams {
					continue
				}
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					evs := o.St.Events()
					for k, ev := range evs {
						if !isStore(ev) {
							continue
						}
						own := false
						for _, p := range evs[:k] {
							own = own || isStore(p) && p.Recv == ev.Recv && p.Args[0] == ev.Args[0]
						}
						if own {
							continue
						}
						c.Inst("exclusive insertions")
						look := -1
						for j := k - 1; j >= 0; j-- {
							p := evs[j]
							if keyOf(p) != nil && (p.Method == "Has" || p.Method == "Peek") && p.Recv == ev.Recv && p.Args[0] == ev.Args[0] {
								look = j
								break
							}
						}
						if !c.Must(look >= 0, o.St, at(ev.Pos, fn), fn, "lookup", "the key is not looked up before the insertion") {
							continue
						}
						l := lockAt(evs[look])
						ok := l != nil && holderOf(l) == holderOf(ev.Recv) && lockAt(ev) == l
						for j := look; j < k; j++ {
							ok = ok && lockAt(evs[j]) == l && evs[j].Kind != "unlock"
						}
						c.Must(ok, o.St, at(ev.Pos, fn), fn, "exclusive", "the table is not locked from the lookup to the insertion")
					}
				}
			}
			c.AtLeast("exclusive insertions", 2)
		})

	register("C33", "abstract interpretation: provenance of keys, tags and stream positions at every insertion",
		"The exported operations of a package that can fail and put entries into the table are discovered and interpreted abstractly. At every insertion the recorded name is proved to be the key. For entries of new files the recorded offset is proved to be the position reported by the stream before the first byte is written, and the recorded size the number of bytes copied from the source, with no access to the stream between the two; later updates keep them. For other insertions the value is proved to be the entry found under the source key with nothing but the name tag changed, where a renaming deletes exactly the source key and an alias deletes nothing.",
		[]string{"names have no empty elements", "offset and size are not negative"},
		func(c *Check) {
			c.Rule("a new entry tells its name, place and size")
			renames := 0
			for _, fn := range c.placers() {
				var w *Term
				e := c.Engine()
				ps := e.Params(fn)
				for k, p := range fn.Params {
					if it, ok := p.Type().Underlying().(*types.Interface); ok && hasMethod(it, "Write") {
						w = ps[k]
					}
				}
				outs := c.Run(e, fn, nil, nil)
				seen := map[*Star]bool{}
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					c.agrees(fn, o.St, o.St.Events(), w, &renames)
					AllEvents(o.St.Events(), func(ev *Event, b *Body) {
						if ev.Star == nil || seen[ev.Star] {
							return
						}
						seen[ev.Star] = true
						for k := range ev.Star.Bodies {
							bs := ev.Star.Bodies[k].St
							c.agrees(fn, bs, bs.Events(), w, &renames)
						}
					})
				}
			}
			c.AtLeast("new entries", 2)
			c.AtLeast("moved entries", 3)
			for _, s := range []string{"Rename", "RenameDir"} {
				c.Must(c.moves[s], nil, at(0, c.P.Method("", "Package", s)), c.P.Method("", "Package", s), "old key", "%s never removes the old key", s)
			}
			c.Must(!c.moves["PutAlias"], nil, at(0, c.P.Method("", "Package", "PutAlias")), c.P.Method("", "Package", "PutAlias"), "old key", "an alias removes the old key")
		})
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func (c *Check) agrees(fn *ssa.Function, st *State, evs []*Event, w *Term, renames *int) {
	var deleted []*Event
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == seqPfx+"Delete" {
			deleted = append(deleted, ev)
		}
	}
	stores := 0
	for i, ev := range evs {
		if !isStore(ev) {
			continue
		}
		stores++
		table, key, ts := ev.Recv, ev.Args[0], ev.Args[1]
		pos := at(ev.Pos, fn)
		c.Site(ev.Pos)
		path, has, off, hoff, size, hsize := c.entryTags(ts)
		c.Must(isTrue(st, has) && c.sameKey(st, table, path, key), st, pos, fn, "name", "the recorded name is %v, but the key is %v", shortT(path), shortT(key))
		if w != nil { // a new file
			c.Inst("new entries")
			var seek, cp *Event
			for _, p := range evs[:i] {
				if p.Kind != "call" {
					continue
				}
				uses := unwrap(p.Recv) == w
				for _, a := range p.Args {
					uses = uses || unwrap(a) == w
				}
				if !uses {
					continue
				}
				switch {
				case p.Method == "Seek" && cp == nil && len(p.Args) == 2 && p.Args[0].isInt(0) && p.Args[1].isInt(1):
					seek = p
				case (p.Name == "io.Copy" || p.Name == "io.CopyBuffer" || p.Name == "io.CopyN") && cp == nil && seek != nil:
					cp = p
				default:
					c.Must(false, st, at(p.Pos, fn), fn, "other access", "the stream is accessed by %s between finding the position and the insertion", p.Name)
				}
			}
			if !c.Must(seek != nil && cp != nil, st, pos, fn, "stream", "an entry is stored without position or copying") {
				continue
			}
			c.Must(isTrue(st, hoff) && eq64(st, off, seek.result(0)), st, pos, fn, "offset", "the recorded offset is %v, not the position before the first byte", shortT(off))
			c.Must(isTrue(st, hsize) && eq64(st, size, cp.result(0)), st, pos, fn, "size", "the recorded size is %v, not the number of bytes copied", shortT(size))
			c.Must(len(deleted) == 0, st, pos, fn, "deletes", "packing deletes an entry")
			continue
		}
		c.Inst("moved entries")
		org := c.origin(ts)
		src := c.entryAt(st, org, table)
		if !c.Must(src != nil, st, pos, fn, "other tags", "the stored tags are %v, not those of an entry of the table with a new name", shortT(ts)) {
			continue
		}
		for _, d := range deleted {
			c.Must(d.Recv == table && c.sameKey(st, table, d.Args[0], src), st, at(d.Pos, fn), fn, "deleted", "the deleted key %v is not the one of the moved entry", shortT(d.Args[0]))
		}
		if c.moves == nil {
			c.moves = map[string]bool{}
		}
		if len(deleted) > 0 {
			c.moves[fn.Name()] = true
		} else {
			c.Must(fn.Name() != "Rename" && fn.Name() != "RenameDir", st, pos, fn, "kept", "the old key is not removed")
		}
	}
	c.Must(stores > 0 || len(deleted) == 0, st, at(0, fn), fn, "lost", "an entry is deleted and not stored again")
}
