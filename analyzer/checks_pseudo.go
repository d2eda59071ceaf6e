package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rooted lets a package have the root as workspace.
func (c *Check) rooted(st *State, pkg *Term) {
	st.store(c.fieldAddr(pkg, "", "Package", "Workspace"), strConst("."), tyString)
}

// wholeTags tells that a tagset describes a package data from the start to the end of its data area.
func (c *Check) wholeTags(st *State, ts, pkg *Term) (off, size *Term, ok bool) {
	_, _, off, ho, size, hs := c.entryTags(ts)
	ftt := st.load(c.fieldAddr(pkg, "", "Package", "FTT"), types.NewPointer(c.P.Type("", "FTT")))
	do := st.load(c.fieldAddr(ftt, "", "FTT", "datoffset"), tyU64)
	ds := st.load(c.fieldAddr(ftt, "", "FTT", "datsize"), tyU64)
	ok = isTrue(st, ho) && isTrue(st, hs) && eq64(st, off, intConst(0, tyU64)) && eq64(st, size, addT(do, ds, tyU64))
	return
}

func init() {
	register("C34", "abstract interpretation: opening with the special names, provenance of the tags handed to the opener, bounds of the index",
		"Opening is interpreted abstractly with the special name on a package whose workspace is the root, and with the special name, a slash and an arbitrary text on a union of arbitrarily many packages. On the package every path must hand to the opener of the package's own data access a tagset with offset 0 and a size equal to offset plus size of the data area. On the union the index is proved to be the decimal value of the text and to be below the number of packages where it is used, so that no access is out of bounds; every other path returns an error known not to be nil and no result; the package opened is the one at this index, with the same rule.",
		[]string{"the packages are opened at their root", "the number parser accepts decimal digits if base 10 is given"},
		func(c *Check) {
			name := c.constStr("", "PackName")
			c.Rule("the special name opens the whole package")
			if fn := c.Fn(":Package.Open"); fn != nil {
				e := c.Engine()
				ps := e.Params(fn)
				st := newState(e)
				c.rooted(st, ps[0])
				outs := c.Run(e, fn, []*Term{ps[0], strConst(name)}, st)
				for i := range outs {
					o := &outs[i]
					c.opensWhole(fn, o, ps[0])
				}
			}
			c.AtLeast("whole packages", 1)

			c.Rule("the special name with an index opens the package at this index")
			if fn := c.Fn(":Union.Open"); fn != nil {
				c.pseudoUnion(fn, name)
			}
			c.AtLeast("packages by index", 1)
			c.AtLeast("refused indexes", 2)
		})
}

func (c *Check) opensWhole(fn *ssa.Function, o *Outcome, pkg *Term) {
	st := o.St
	if !c.Must(!o.Panic && len(o.Vals) == 2, st, o.Pos, fn, "panics", "it panics") {
		return
	}
	var open *Event
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Method == "OpenTagset" {
			open = ev
		}
	}
	if !c.Must(open != nil && samePair(o.Vals) == open.Res, st, o.Pos, fn, "opens", "the result is not that of opening the whole package") {
		return
	}
	c.Inst("whole packages")
	own := holderOf(open.Recv)
	c.Must(own == pkg, st, at(open.Pos, fn), fn, "access", "the package is opened by %v, not by its own data access", shortT(open.Recv))
	off, size, ok := c.wholeTags(st, open.Args[0], pkg)
	c.Must(ok, st, at(open.Pos, fn), fn, "extent", "the opened part is %v + %v, not the package from 0 to the end of the data area", shortT(off), shortT(size))
}

func (c *Check) pseudoUnion(fn *ssa.Function, name string) {
	e := c.Engine()
	ps := e.Params(fn)
	st := newState(e)
	text := mk("param", "text", tyString)
	list := c.packages(st, ps[0])
	bad := map[string]bool{}
	e.OnOblige = func(ob *Oblig) {
		if ob.Kind != "index" && ob.Kind != "slice" || ob.OK || e.quiet > 0 {
			return
		}
		key := ob.Kind + " " + ob.Desc
		if !bad[key] {
			bad[key] = true
			c.Must(false, ob.St, ob.Pos, fn, "crash", "it may crash: %s", ob.Desc)
		}
	}
	// every package is at its root
	e.Models["(*wpk.Package).FullPath"] = func(call *Call) ([]Outcome, bool) {
		return call.ret(joinPath(strConst("."), call.Args[0]))
	}
	outs := c.Run(e, fn, []*Term{ps[0], concatT(strConst(name+"/"), text)}, st)
	for i := range outs {
		o := &outs[i]
		st := o.St
		if !c.Must(!o.Panic && len(o.Vals) == 2, st, o.Pos, fn, "panics", "it panics: %s", o.Why) {
			continue
		}
		var open *Event
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Method == "OpenTagset" {
				open = ev
			}
		}
		if open == nil {
			c.Inst("refused indexes")
			c.Must(mustNotNil(st, o.Vals[1]) && mustNil(st, o.Vals[0]), st, o.Pos, fn, "refused", "nothing is opened, but the result is %v with the error %v", o.Vals[0], o.Vals[1])
			continue
		}
		pkg := holderOf(open.Recv)
		idx := listIndex(pkg, list)
		if !c.Must(idx != nil, st, at(open.Pos, fn), fn, "package", "the opened package %v is not one of the union", shortT(open.Recv)) {
			continue
		}
		c.Inst("packages by index")
		c.Must(parsedIndex(st, idx, text), st, at(open.Pos, fn), fn, "index", "the package at %v is opened, which is not the decimal value of the text behind the slash", shortT(idx))
		zero := st.facts.ProveGE(idx, intConst(0, tyInt), 0)
		c.Must(zero && st.facts.ProveGE(lenT(list), idx, 1), st, at(open.Pos, fn), fn, "bounds", "the index is not known to be within the list")
		c.opensWhole(fn, o, pkg)
	}
}

// parsedIndex tells that an index is the decimal value of a text.
func parsedIndex(st *State, idx, text *Term) bool {
	for idx.Op == "conv" {
		idx = idx.Args[0]
	}
	is := func(s *Term) bool {
		return s == text || sameString(st, plainName(s), text) || plainName(s) == toSlash(text)
	}
	if idx.Op != "res" || idx.Aux != "0" {
		return false
	}
	call := idx.Args[0]
	n := callName(call)
	if call.Op == "pure" {
		n = call.Aux
	}
	switch n {
	case "strconv.ParseUint", "strconv.ParseInt":
		bits, ok := call.Args[2].intVal()
		return is(call.Args[0]) && call.Args[1].isInt(10) && ok && (bits == 0 || bits >= 32)
	case "strconv.Atoi":
		return is(call.Args[0])
	}
	return false
}
