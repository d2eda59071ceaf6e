package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fsCalls are the exported methods of the file systems that take one name and can fail.
func (c *Check) fsCalls() (out []*ssa.Function) {
	for _, typ := range []string{"Package", "Union"} {
		for _, name := range []string{"Open", "Stat", "ReadFile", "ReadDir", "Sub"} {
			if fn := c.Fn(":" + typ + "." + name); fn != nil {
				out = append(out, fn)
			}
		}
	}
	return
}

// present tells that a path has found something in the table.
func present(st *State) bool {
	for t, v := range st.facts.truth {
		if v && (t.Op == "maphas" || t.Op == "ranged") {
			return true
		}
	}
	return false
}

// sentinels are facts that a name is one of the names of the root.
func rootName(st *State, param *Term) bool {
	for t, v := range st.facts.truth {
		if !v || t.Op != "==" && t.Op != "eq" {
			continue
		}
		for i := range t.Args {
			s, ok := t.Args[i].strVal()
			if ok && (s == "." || s == "") && t.Args[1-i].contains(param) {
				return true
			}
		}
	}
	return false
}

// pathError gives the fields of a path error.
func pathError(st *State, err *Term) (path, inner *Term, ok bool) {
	p := unwrap(err)
	if p == nil {
		return
	}
	pt, isp := types.Unalias(p.Typ).(*types.Pointer)
	if !isp {
		return
	}
	n := namedOf(p.Typ)
	if n == nil || n.Obj().Name() != "PathError" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "io/fs" {
		return
	}
	s := under(pt.Elem()).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		v := st.load(fieldAt(p, pt.Elem(), i), s.Field(i).Type())
		switch s.Field(i).Name() {
		case "Path":
			path = v
		case "Err":
			inner = v
		}
	}
	return path, inner, path != nil && inner != nil
}

// samePair tells that the results are those of one and the same call.
func samePair(vals []*Term) *Term {
	if len(vals) != 2 {
		return nil
	}
	a, b := unwrap(vals[0]), unwrap(vals[1])
	if a.Op == "res" && b.Op == "res" && a.Args[0] == b.Args[0] && a.Aux == "0" && b.Aux == "1" {
		return a.Args[0]
	}
	return nil
}

func isNotExist(t *Term) bool {
	return isGlobal(t, "io/fs.ErrNotExist") || isGlobal(t, "os.ErrNotExist")
}

func init() {
	register("C25", "abstract interpretation: relation of result, error and table lookups on every path of the file system calls",
		"Open, Stat, ReadFile, ReadDir and Sub of packages and unions are interpreted abstractly over an arbitrary table and an arbitrary name, with loops over packages and entries as fixpoints. At every exit the pair of result and error is decided: a nil error comes with a result known not to be nil; on every path where no lookup in a table and no entry of an enumeration has matched, the result is nil and the error is a path error that carries the name and wraps the sentinel for missing files; a listing is returned only if it is known to have entries or the name is known to be that of the root. Glob succeeds only on paths where matching the pattern itself has been checked without error, whether or not there are files.",
		[]string{"an opener of tagsets returns a file or an error", "path.Match reports a malformed pattern whatever the name is (documented)", "what an enumeration matches is the subject of C26"},
		func(c *Check) {
			c.Rule("a missing name is a path error, a present one a result")
			for _, fn := range c.fsCalls() {
				e := c.Engine()
				e.Record = func(ev *Event) bool { return false }
				name := e.Params(fn)[1]
				outs := c.Run(e, fn, nil, nil)
				absent, found := 0, 0
				for i := range outs {
					o := &outs[i]
					st := o.St
					c.Inst("exits of file system calls")
					if !c.Must(!o.Panic && len(o.Vals) == 2, st, o.Pos, fn, "panics", "the call panics") {
						continue
					}
					res, err := o.Vals[0], o.Vals[1]
					if call := samePair(o.Vals); call != nil && (present(st) || wholePackage(st, name)) {
						found++
						continue
					}
					listing := strings.Contains(res.Typ.String(), "DirEntry") || fn.Name() == "ReadDir"
					switch {
					case mustNil(st, err):
						found++
						if listing {
							some := st.facts.ProveGE(lenT(unwrap(res)), intConst(1, tyInt), 0)
							c.Must(some || rootName(st, name), st, o.Pos, fn, "empty listing", "an empty list is returned without an error although the directory is not known to be the root")
							continue
						}
						c.Must(present(st) || wholePackage(st, name) || c.someViews(st, res), st, o.Pos, fn, "result of nothing", "a result is returned and nothing was found under the name")
						c.Must(mustNotNil(st, res), st, o.Pos, fn, "nil result", "the result is not known to be there although there is no error")
					case present(st) && mustNotNil(st, err):
						found++
					case mustNotNil(st, err):
						absent++
						p, inner, ok := pathError(st, err)
						if !c.Must(ok, st, o.Pos, fn, "error", "the error for a missing name is %v, not a path error", err) {
							continue
						}
						c.Must(mustNil(st, res), st, o.Pos, fn, "result with error", "a result is returned together with an error for a missing name")
						c.Must(p.contains(name), st, o.Pos, fn, "name", "the path error carries %v, not the name", p)
						c.Must(isNotExist(inner) || notANumber(st, inner), st, o.Pos, fn, "sentinel", "the path error wraps %v, not the error for missing files", inner)
					default:
						c.Must(samePair(o.Vals) != nil && (present(st) || wholePackage(st, name)), st, o.Pos, fn, "unknown", "it is not known whether the call has failed")
						found++
					}
				}
				c.Must(absent > 0 && found > 0, nil, at(0, fn), fn, "cases", "the call has no way to find (%d) or not to find (%d) a name", found, absent)
			}
			c.AtLeast("exits of file system calls", 30)

			c.Rule("a malformed pattern is reported")
			for _, fn := range c.Fns(":Package.Glob", ":Union.Glob") {
				e := c.Engine()
				e.Record = func(ev *Event) bool { return false }
				pattern := e.Params(fn)[1]
				outs := c.Run(e, fn, nil, nil)
				failed := 0
				for i := range outs {
					o := &outs[i]
					st := o.St
					if !c.Must(!o.Panic && len(o.Vals) == 2, st, o.Pos, fn, "panics", "the call panics") {
						continue
					}
					err := o.Vals[1]
					if mustNil(st, err) {
						ok := false
						for t, v := range st.facts.truth {
							if m := matchErr(t, pattern); m != nil && v {
								ok = true
							}
						}
						c.Must(ok, st, o.Pos, fn, "pattern", "names are returned although the pattern is not known to be well-formed")
						c.Inst("results of patterns")
						continue
					}
					failed++
					c.Must(mustNotNil(st, err) && matchErr(eqT(err, tNil), pattern) != nil, st, o.Pos, fn, "error of pattern", "the error %v is not that of the pattern", err)
				}
				c.Must(failed > 0, nil, at(0, fn), fn, "reported", "a malformed pattern is never reported")
			}
			c.AtLeast("results of patterns", 2)
		})
}

// someViews tells that a value is a union of at least one package.
func (c *Check) someViews(st *State, res *Term) bool {
	u := unwrap(res)
	n := namedOf(u.Typ)
	if n == nil || n != c.P.Type("", "Union") || u.Op == "nil" {
		return false
	}
	s := under(n).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "List" {
			l := st.load(fieldAt(u, n, i), s.Field(i).Type())
			return st.facts.ProveGE(lenT(l), intConst(1, tyInt), 0)
		}
	}
	return false
}

// matchErr tells that a fact is about the error of matching a pattern.
func matchErr(t, pattern *Term) *Term {
	if !strings.HasPrefix(t.Op, "eq") && t.Op != "==" {
		return nil
	}
	for _, a := range t.Args {
		x := a
		if a.Op == "res" {
			x = a.Args[0]
		}
		if strings.HasPrefix(callName(x), "path.Match") && len(x.Args) > 0 && (x.Args[0] == pattern || x.Args[0] == toSlash(pattern)) {
			return a
		}
	}
	return nil
}

// wholePackage tells that the name is known to be that of the whole package.
func wholePackage(st *State, name *Term) bool {
	for t, v := range st.facts.truth {
		if !v {
			continue
		}
		for _, a := range t.Args {
			if s, ok := a.strVal(); ok && strings.HasPrefix(s, "@pack") && t.any(func(x *Term) bool { return x == name }) {
				return true
			}
		}
	}
	return false
}

// notANumber tells that an error comes from reading a number.
func notANumber(st *State, err *Term) bool {
	return err.any(func(x *Term) bool {
		return x.Op == "pure" && strings.HasPrefix(x.Aux, "strconv.") || x.Op == "res" && strings.HasPrefix(callName(x.Args[0]), "strconv.")
	})
}

func init() {
	register("C23", "abstract interpretation: ownership and content of the slice returned, typestate of the opened file",
		"ReadFile of packages and unions is interpreted abstractly. On every path with a nil error the returned slice is one made during the call, its length is proved to be the size tag of the tagset that was found, its content at the exit is exactly what one complete read of the opened file delivered into it from its start, and it has not been stored anywhere else. Every file opened on a path is closed before the exit and after the last read, on paths that fail as well; on paths where no lookup matched, nothing is opened. The opened tagset is the one found.",
		[]string{"io.ReadFull with an empty buffer gives no error (documented)", "an opened file gives access to exactly its extent (C22)"},
		func(c *Check) {
			c.Rule("a whole file is read into a private slice and closed")
			for _, fn := range c.Fns(":Package.ReadFile", ":Union.ReadFile") {
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				good := 0
				for i := range outs {
					o := &outs[i]
					st := o.St
					if !c.Must(!o.Panic && len(o.Vals) == 2, st, o.Pos, fn, "panics", "reading a file panics") {
						continue
					}
					var opens []*Event
					evs := st.Events()
					nested := 0
					AllEvents(evs, func(ev *Event, in *Body) {
						if isOpen(ev) {
							if in != nil {
								nested++
								c.Fail(at(ev.Pos, fn), fn, "opens in loop", "a nested file is opened again and again")
							}
							opens = append(opens, ev)
						}
					})
					if !present(st) {
						c.Must(len(opens) == 0, st, o.Pos, fn, "opens nothing", "a nested file is opened although nothing was found under the name")
						c.Inst("misses")
						continue
					}
					for _, op := range opens {
						if op.NRes == 2 && mustNotNil(st, op.result(1)) {
							continue
						}
						last, closed := -1, -1
						for k, ev := range evs {
							if ev.Kind != "call" {
								continue
							}
							uses := ev.Recv != nil && unwrap(ev.Recv) == unwrap(op.result(0))
							if uses && ev.Method == "Close" {
								closed = k
								continue
							}
							for _, a := range ev.Args {
								uses = uses || unwrap(a) == unwrap(op.result(0))
							}
							if uses {
								last = k
							}
						}
						c.Must(closed >= 0, st, o.Pos, fn, "closes", "the opened nested file is not closed")
						c.Must(closed >= last, st, o.Pos, fn, "closes late", "the nested file is closed before it is read")
					}
					if mustNotNil(st, o.Vals[1]) {
						continue
					}
					if !mustNil(st, o.Vals[1]) { // the error of something else is handed on
						st = st.clone()
						st.facts.Assume(eqT(o.Vals[1], tNil), true)
					}
					good++
					res := unwrap(o.Vals[0])
					var op *Event
					for _, ev := range opens {
						if op == nil || res.any(func(t *Term) bool { return t == ev.result(0) }) || st.sliceBytes(res).any(func(t *Term) bool { return t == ev.result(0) }) {
							op = ev
						}
					}
					if !c.Must(op != nil, st, o.Pos, fn, "opened", "a file is read without opening it") {
						continue
					}
					ts := op.Args[0]
					for t, v := range st.facts.truth {
						if v && t.Op == "maphas" {
							c.Must(ts.Op == "mapget" && ts.Args[0] == t.Args[0] && ts.Args[1] == t.Args[1], st, op.Pos, fn, "tagset", "%v is opened, not the tagset found", ts)
						}
					}
					own := holderOf(ts.Args[0])
					c.Must(own != nil && op.Recv != nil && holderOf(op.Recv) == own, st, op.Pos, fn, "tagger", "the file is opened by %v, not by the package it was found in", op.Recv)
					if all := resOf(res, "io.ReadAll"); all != nil {
						c.Must(unwrap(all.Args[0]) == unwrap(op.result(0)) && res.Aux == "0", st, o.Pos, fn, "source", "%v is read, not the opened file", all.Args[0])
						c.Inst("files read")
						continue
					}
					root, off := byteBase(res)
					if !c.Must(freshRoot(unwrap(root)), st, o.Pos, fn, "private", "the returned slice %v was not made by the call", res) {
						continue
					}
					_, _, _, _, size, _ := c.entryTags(ts)
					c.Must(eq64(st, lenT(res), size) || sameInt(st, lenT(res), size), st, o.Pos, fn, "length", "the slice has %v bytes, which is not the size of the file", lenT(res))
					content := st.sliceBytes(res)
					ok := false
					for _, ev := range evs {
						step := ioKind(ev)
						if step == nil || ev.Res == nil {
							continue
						}
						if content.Op == "rd" && content.Args[0] == ev.Res && off.isInt(0) && readsFrom(ev, op.result(0)) && fullRead(ev) {
							ok = true
						}
					}
					empty := st.facts.ProveEq(lenT(res), intConst(0, tyInt))
					c.Must(ok || empty, st, o.Pos, fn, "content", "the content of the slice is %v, not that of the whole file", content)
					for a, v := range st.mem {
						if v != nil && v.contains(unwrap(root)) && !freshRoot(addrRoot(a)) {
							c.Fail(o.Pos, fn, "stored", "the slice returned is also stored at %v", a)
						}
					}
					c.Inst("files read")
				}
				c.Must(good > 0, nil, at(0, fn), fn, "reads", "no path reads a file")
			}
			c.AtLeast("files read", 2)
			c.AtLeast("misses", 2)
		})
}

// isOpen tells that an event opens a nested file.
func isOpen(ev *Event) bool {
	return ev.Kind == "call" && ev.Method == "OpenTagset"
}

// holderOf gives the package a table or a tagger belongs to.
func holderOf(t *Term) *Term {
	for t = unwrap(t); t != nil; {
		switch t.Op {
		case "faddr":
			if n := ptrTo(t.Args[0].Typ); n == "Package" {
				return t.Args[0]
			}
			t = t.Args[0]
		case "load":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func ptrTo(t types.Type) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		if n := namedOf(p.Elem()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}

// fullRead tells that a read without error has filled the whole buffer.
func fullRead(ev *Event) bool {
	return ev.Name == "io.ReadFull" || ev.Name == "io.ReadAtLeast" && len(ev.Args) == 3 && ev.Args[2] == lenT(ev.Args[1])
}

func readsFrom(ev *Event, f *Term) bool {
	return len(ev.Args) > 0 && unwrap(ev.Args[0]) == unwrap(f)
}
