package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guarded are the tags telling where a file lies and how it is named.
var guarded = []string{"TIDoffset", "TIDsize", "TIDpath"}

// isTID tells whether a type is that of tag identifiers, declared as another name of it.
func isTID(t types.Type) bool { return t != nil && types.Identical(t, types.Typ[types.Uint16]) }

func isTIDs(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isTID(s.Elem())
}

// calleesOf calls f for each function a function and its closures call directly.
func calleesOf(fn *ssa.Function, f func(callee *ssa.Function, call ssa.CallInstruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					f(g, call)
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		calleesOf(a, f)
	}
}

var editNames = map[string]bool{"Put": true, "Set": true, "SetOk": true, "Add": true, "AddOk": true, "Del": true, "DelOk": true}

// isEdit tells whether a function is one of the editing methods of tagsets.
func isEdit(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || !editNames[fn.Name()] {
		return false
	}
	n := namedOf(r.Type())
	return n != nil && n.Obj().Name() == "TagsetRaw"
}

// editors are the functions of a list that edit tagsets, directly or through each other.
func editors(fns []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if out[fn] {
				continue
			}
			calleesOf(fn, func(g *ssa.Function, _ ssa.CallInstruction) {
				if isEdit(g) || out[g] {
					out[fn] = true
				}
			})
			changed = changed || out[fn]
		}
	}
	return out
}

func takesType(fn *ssa.Function, is func(types.Type) bool) bool {
	p := fn.Signature.Params()
	for i := 0; i < p.Len(); i++ {
		if is(p.At(i).Type()) {
			return true
		}
	}
	return false
}

// unguarded tells that a tag identifier is known not to be one of the guarded ones.
func (c *Check) unguarded(st *State, tid *Term) bool {
	for _, n := range guarded {
		if v, ok := st.facts.Decide(eqT(tid, tidT(c.constInt("", n)))); !ok || v {
			return false
		}
	}
	return true
}

// someError tells that a list of errors the loop extends contains one after this iteration.
func someError(b Body) bool {
	for _, v := range b.Next {
		if v == nil || v.Typ == nil || !isErrors(v.Typ) {
			continue
		}
		if n, ok := noErrors(b.St.facts, v); ok && !n {
			return true
		}
	}
	return false
}

func init() {
	register("C37", "guard dominance for tag edits in the scripting module by path-sensitive abstract interpretation, with element invariants of lists collected in callbacks",
		"All script functions and all other functions of the scripting module that edit tagsets are interpreted abstractly, helpers with a tag identifier among their parameters in the context of their callers. At every edit of a tagset (Put, Set, Add, Del and variants) the identifier must be proven different from those of offset, size and name: by conditions on the path, by being a constant, by coming from a tagset that a checked function built from nothing, or by being an element of a list all elements of which were proven so unless the list of errors filled beside it is not empty and therefore nothing is edited. Each iteration over a script table that edits nothing for a guarded identifier must add an error, and each operation on a single tag may return normally only for identifiers proven not guarded. Nothing is stored on paths that raise.",
		[]string{"the names under which files are stored are changed by the renaming operations only (C08, C12)"},
		func(c *Check) {
			fns := c.inLua()
			edits := editors(fns)
			inner := map[*ssa.Function]bool{} // conversions of script values into identifiers
			for _, fn := range fns {
				r := fn.Signature.Results()
				if r.Len() > 0 && isTID(r.At(0).Type()) {
					deep := false
					calleesOf(fn, func(g *ssa.Function, _ ssa.CallInstruction) {
						gr := g.Signature.Results()
						deep = deep || gr.Len() > 0 && isTID(gr.At(0).Type()) && c.P.InRepo(g)
					})
					inner[fn] = deep
				}
			}
			checked := map[string]bool{}
			isFunc := func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }
			isValue := func(t types.Type) bool { return strings.HasPrefix(t.String(), luaPkg+".") }
			lua := map[*ssa.Function]bool{}
			for _, fn := range c.luaFns() {
				lua[fn] = true
			}
			inlined := func(f *ssa.Function) bool {
				if deep, ok := inner[f]; ok {
					return deep
				}
				return !returnsError(f) || takesType(f, isTID) && (edits[f] || !takesType(f, isValue)) || takesType(f, isFunc)
			}
			var roots []*ssa.Function
			for _, fn := range fns {
				if fn.Parent() != nil || fn.Synthetic != "" || !edits[fn] {
					continue
				}
				if lua[fn] || !inlined(fn) || len(c.P.callers(fn)) == 0 {
					roots = append(roots, fn)
					checked[cname(fn)] = true
				}
			}
			stores := c.reachesTable("Poke", "Push")
			c.Rule("a script cannot edit the tags of location and name")
			for _, fn := range roots {
				e := c.luaEngine(false)
				e.Inline = func(f *ssa.Function) bool {
					if f.Parent() != nil || f.Synthetic != "" {
						return true
					}
					if fnPkg(f) == fnPkg(fn) {
						return inlined(f)
					}
					return takesFunc(f) || stores[f] && !returnsError(f)
				}
				e.Record = func(ev *Event) bool { return ev.Kind == "tsedit" || isStore(ev) || isRaise(ev) }
				e.KeepPre = func(ev *Event) bool { return ev.Kind == "tsedit" }
				outs := c.Run(e, fn, nil, nil)
				c.Analysed(fn, outs)
				// tagsets that a checked function built
				built := func(st *State, ts *Term) bool {
					if ts.Op == "res" {
						ts = callOf(ts)
					}
					if ts == nil || ts.Op != "call" && ts.Op != "pure" || !checked[callName(ts)] {
						return false
					}
					for _, a := range ts.Args {
						if a.Typ != nil && strings.HasSuffix(a.Typ.String(), ".TagsetRaw") && !mustNil(st, a) {
							return false
						}
					}
					return true
				}
				safeList := func(st *State, list *Term) bool {
					ok := false
					AllStars(st.Events(), func(s *Star) {
						var v *Term
						for _, b := range s.Bodies {
							for k := range b.Next {
								if k == list {
									v = k
								}
							}
						}
						if v == nil {
							return
						}
						good := true
						var errs []*Term // lists of errors known to be empty of errors
						for _, b := range s.Bodies {
							for k := range b.Next {
								if k.Typ != nil && isErrors(k.Typ) {
									none, known := st.facts.Decide(eqT(joined(k), tNil))
									if !known {
										none, known = st.facts.Decide(eqT(lenT(k), intConst(0, tyInt)))
									}
									if known && none {
										errs = append(errs, k)
									}
								}
							}
						}
						for _, b := range s.Bodies {
							next := b.Next[v]
							if next == nil || next == v {
								continue
							}
							if next.Op != "append" || next.Args[0] != v {
								good = false
								continue
							}
							for _, a := range next.Args[1:] {
								if a.Op != "elems" {
									good = false
									continue
								}
								for _, x := range a.Args {
									fine := c.unguarded(b.St, x)
									for _, k := range errs {
										if nk := b.Next[k]; nk != nil {
											if n, known := noErrors(b.St.facts, nk); known && !n {
												fine = true
											}
										}
									}
									good = good && fine
								}
							}
						}
						ok = ok || good
					})
					return ok
				}
				fine := func(st *State, whole *State, tid *Term) bool {
					if c.unguarded(st, tid) {
						return true
					}
					good := false
					if tid.Op == "rkey" || tid.Op == "tsitid" { // identifier of an entry of a tagset
						good = tid.Args[0].any(func(x *Term) bool { return built(st, x) })
					}
					if good {
						return true
					}
					if list := elementOf(tid); list != nil {
						return safeList(whole, list)
					}
					return false
				}
				var tids []*Term
				starTids := map[*Star][]*Term{}
				for i := range outs {
					o := &outs[i]
					var walk func(evs []*Event, s *Star, whole *State)
					walk = func(evs []*Event, s *Star, whole *State) {
						for _, ev := range evs {
							if ev.Kind == "star" {
								for _, b := range ev.Star.Bodies {
									walk(b.St.Events(), ev.Star, whole)
								}
							}
							if ev.Kind == "tsedit" {
								c.Inst("edits")
								c.Site(ev.Pos)
								c.Must(fine(ev.Pre, o.St, ev.Args[0]), ev.Pre, ev.Pos, fn, ev.Method, "the tag edited by %s may be offset, size or path: %s %v", ev.Method, ev.Args[0].Op, shortT(ev.Args[0]))
								if s == nil {
									tids = append(tids, ev.Args[0])
								} else {
									starTids[s] = append(starTids[s], ev.Args[0])
								}
							}
						}
					}
					walk(o.St.Events(), nil, o.St)
				}
				script := false
				for _, t := range tids {
					script = script || !isConstTerm(t)
				}
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						c.Inst("raising paths")
						AllEvents(o.St.Events(), func(ev *Event, _ *Body) {
							c.Must(!isStore(ev), o.St, ev.Pos, fn, "raise", "a tagset is stored although a script error is raised afterwards")
						})
						continue
					}
					if script && lua[fn] {
						c.Inst("normal paths")
						ok := false
						for _, t := range tids {
							ok = ok || !isConstTerm(t) && c.unguarded(o.St, t)
						}
						c.Must(ok, o.St, o.Pos, fn, "silent", "the operation may return normally for a guarded tag")
					}
					AllStars(o.St.Events(), func(s *Star) {
						if !overLuaTable(s) {
							return
						}
						ts := starTids[s]
						for _, b := range s.Bodies {
							for k, v := range b.Next {
								if v.Op == "append" && v.Args[0] == k && isTIDs(v.Typ) {
									for _, a := range v.Args[1:] {
										if a.Op == "elems" {
											ts = append(ts, a.Args...)
										}
									}
								}
							}
						}
						if len(ts) == 0 {
							return
						}
						for _, b := range s.Bodies {
							c.Inst("table entries")
							ok := someError(b)
							for _, t := range ts {
								ok = ok || c.unguarded(b.St, t)
							}
							c.Must(ok, b.St, fn.Pos(), fn, "silent", "an entry of the table with a guarded tag may be passed over without an error")
						}
					})
				}
			}
			c.AtLeast("edits", 12)
			c.AtLeast("table entries", 6)
			c.AtLeast("raising paths", 15)
			c.AtLeast("normal paths", 3)
		})
}

func isConstTerm(t *Term) bool { _, ok := t.intVal(); return ok }

// elementOf gives the list an element was read from.
func elementOf(t *Term) *Term {
	if t.Op == "elem" || t.Op == "load" || t.Op == "mem" || t.Op == "index" {
		a := t.Args[0]
		if a.Op == "iaddr" {
			return a.Args[0]
		}
		return a
	}
	return nil
}

// AllStars calls f for each loop of a sequence of events, nested ones included.
func AllStars(evs []*Event, f func(s *Star)) {
	for _, ev := range evs {
		if ev.Kind == "star" {
			f(ev.Star)
			for _, b := range ev.Star.Bodies {
				AllStars(b.St.Events(), f)
			}
		}
	}
}

// overLuaTable tells that a loop goes over the entries of a table of a script.
func overLuaTable(s *Star) bool {
	if s.Kind == "foreach" {
		return true
	}
	for _, init := range s.Init {
		if init != nil && init.Op == "res" && strings.HasSuffix(callName(init), ".LTable).Next") {
			return true
		}
	}
	return false
}
