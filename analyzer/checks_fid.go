package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// grows tells that a new value of a counter is above the old one (no counter gets near the
// end of its range).
func grows(st *State, old, now *Term) bool {
	if st.facts.ProveGE(now, old, 1) || isTrue(st, ltT(old, now)) {
		return true
	}
	n, ok := subT(now, old, now.Typ).intVal()
	return ok && n > 0 && n < 1<<32
}

// users are the functions that mention a field, and those that lead to them.
func (c *Check) users(pkg, typ, field string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var up func(fn *ssa.Function)
	up = func(fn *ssa.Function) {
		if fn == nil || out[fn] {
			return
		}
		out[fn] = true
		up(fn.Parent())
		for f := range c.P.callers(fn) {
			up(f)
		}
	}
	for _, fn := range c.P.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					st := structOf(fa.X.Type())
					if st != nil && st.Field(fa.Field).Name() == field && strings.HasSuffix(fa.X.Type().String(), pkg+"."+typ) {
						up(fn)
					}
				}
			}
		}
	}
	return out
}

func init() {
	register("C43", "abstract interpretation of the packing operations of the scripting module: provenance of automatic identifiers and monotonicity of their counter",
		"The packing operations of the scripting module are interpreted from the state the registration leaves, the switch for identifiers symbolic. On every path that stores the tags of a packed file: with the switch on and no identifier present an identifier is put, as the unsigned integer the counter of the package object holds at the end, which is above what it held before; with the switch off or an identifier present none is put. In every script operation that can reach the counter every change of it is proved to increase it, also inside of walks over tables, and the package object is never replaced as a whole. After loading a package its whole table is walked, and for each entry the counter is at least its identifier afterwards.",
		[]string{"the counter does not reach the end of its range", "identifiers given by the script itself are its own affair", "package objects of scripts have no workspace directory"},
		func(c *Check) {
			tid := tidT(c.constInt("", "TIDfid"))
			own := c.Fn("luawpk:InitLuaVM")
			for _, api := range c.script() {
				known := map[*Term]bool{}
				for _, a := range algorithms {
					if t := c.value(api, a.prop); t != nil {
						known[t] = false
					}
				}
				if t := c.value(api, "automime"); t != nil {
					known[t] = false
				}
				on := c.value(api, "autofid")
				c.Rule("automatic identifiers are fresh values of the counter")
				if !c.Must(on != nil, api.St, own.Pos(), own, "switch", "the switch for identifiers cannot be read") {
					return
				}
				var counter *Term
				for _, p := range c.packings(api, known, on) {
					if !c.Must(p.pack != nil && p.ts != nil && callOf(p.base) == p.pack.Res, p.st, p.fn.Pos(), p.fn, "stored", "%s ends without storing the tags of the packed file", p.name) {
						continue
					}
					c.Inst("packing paths")
					pos, fn := p.pack.Pos, p.fn
					ls := p.onTag(tid)
					if len(ls) == 0 {
						c.Must(isFalse(p.st, on) || p.present(tid), p.st, pos, fn, "missing", "%s: no identifier is stored although they may be switched on and the file has none", p.name)
						continue
					}
					l := ls[len(ls)-1]
					for _, ev := range p.evs {
						if ev.Kind == "tsedit" && ev.Recv == l.base && ev.Args[0] == l.tid {
							pos, fn = ev.Pos, ev.Fn
						}
					}
					c.Inst("identifiers put")
					if !c.Must(len(ls) == 1 && l.val != nil, p.st, pos, fn, "edits", "%s: the identifier is edited more than once", p.name) {
						continue
					}
					_, has := tsLookup(l.base, tid)
					c.Must(isFalse(p.st, has) || strings.HasSuffix(l.op.Aux, ".AddOk"), p.st, pos, fn, "kept", "%s: an identifier is put although the file may have one already", p.name)
					c.Must(isTrue(p.st, on), p.st, pos, fn, "switched off", "%s: an identifier is put although they may be switched off", p.name)
					v := l.val
					if !c.Must(v.Op == "pure" && v.Aux == "wpk.UintTag", p.st, pos, fn, "encoding", "%s: the identifier is not stored as an unsigned integer of full range (%v)", p.name, shortT(v)) {
						continue
					}
					v = v.Args[0]
					var at *Term
					v.any(func(x *Term) bool {
						if x.Op == "load" && x.Args[0].Op == "faddr" && strings.HasSuffix(x.Args[0].Args[0].Typ.String(), "luawpk.LuaPackage") {
							at = x.Args[0]
						}
						return false
					})
					if !c.Must(at != nil && (counter == nil || counter == at), p.st, pos, fn, "counter", "%s: the identifier does not come from the counter of the package object", p.name) {
						continue
					}
					counter = at
					old := api.St.clone().load(at, elemOf(at.Typ))
					c.Must(grows(p.st, old, v), p.st, pos, fn, "fresh", "%s: the identifier %v may have been given before", p.name, shortT(v))
					c.Must(p.st.clone().load(at, elemOf(at.Typ)) == v, p.st, pos, fn, "counted", "%s: the counter does not remember the identifier given last", p.name)
				}
				if !c.Must(counter != nil, api.St, own.Pos(), own, "never", "automatic identifiers are never put") {
					return
				}

				c.Rule("the counter never goes back")
				field := counter.Aux
				users := c.users("luawpk", "LuaPackage", field[strings.LastIndexAny(field, ". ")+1:])
				c.Must(len(users) > 0, api.St, own.Pos(), own, "users", "no use of the counter (%s) was found", field)
				api.e.Access = func(a *Term) bool {
					return a == counter || a.Op == "faddr" && a.Aux == field || a == counter.Args[0]
				}
				api.e.KeepPre = func(ev *Event) bool { return ev.Kind == "store" }
				steps := func(fn *ssa.Function, evs []*Event) {
					AllEvents(evs, func(ev *Event, _ *Body) {
						if ev.Kind != "store" || ev.Pre == nil || freshRoot(addrRoot(ev.Args[0])) {
							return
						}
						c.Inst("changes of the counter")
						if ev.Args[0] == counter.Args[0] {
							c.Must(false, ev.Pre, ev.Pos, ev.Fn, "replaced", "the package object is replaced, its counter starts again")
							return
						}
						old := ev.Pre.clone().load(ev.Args[0], elemOf(ev.Args[0].Typ))
						c.Must(old == ev.Args[1] || grows(ev.Pre, old, ev.Args[1]), ev.Pre, ev.Pos, ev.Fn, "step", "the counter of identifiers is set to %v, which may be below its value", shortT(ev.Args[1]))
					})
				}
				for _, p := range c.packings(api, known, on) {
					steps(p.fn, p.evs)
				}
				wpk := c.Fn(":Package.Enum")
				api.e.Inline = func(f *ssa.Function) bool {
					return f.Parent() != nil || f.Synthetic != "" || users[f] || takesFunc(f) || fnPkg(f) == fnPkg(own) && !returnsError(f) || wpk != nil && fnPkg(f) == fnPkg(wpk) && !returnsError(f)
				}
				names := make([]string, 0, len(api.Methods))
				for n := range api.Methods {
					names = append(names, n)
				}
				sort.Strings(names)
				st := api.St.clone()
				ws := c.fieldAddr(c.fieldAddr(counter.Args[0], "/luawpk", "LuaPackage", "Package"), "", "Package", "Workspace")
				if ws != nil {
					st.facts.Assume(eqT(st.load(ws, tyString), strConst("")), true)
				}
				loaded := false
				for _, n := range names {
					f := api.Methods[n]
					if f == nil || f.Op != "func" && f.Op != "closure" || n == "putdata" || n == "putfile" {
						continue
					}
					fn := f.Obj.(*ssa.Function)
					if !users[fn] && n != "load" {
						continue
					}
					c.Rule("the counter never goes back")
					outs := api.run(f, st.clone())
					c.Analysed(fn, outs)
					for i := range outs {
						steps(fn, api.since(outs[i].St))
					}
					if n != "load" {
						continue
					}
					c.Rule("identifiers continue above those of a loaded package")
					for i := range outs {
						o := &outs[i]
						if o.Panic {
							continue
						}
						loaded = true
						c.Inst("loading paths")
						opened, walked := false, false
						for _, ev := range api.since(o.St) {
							if ev.Kind == "rangestop" && walked {
								c.Must(false, o.St, ev.Pos, fn, "stop", "the walk over the loaded package may end before its last file")
							}
							if ev.Kind == "call" && (ev.Method == "OpenFile" || ev.Method == "OpenStream") {
								opened, walked = true, false
							}
							if ev.Kind != "star" || ev.Star.Kind != "range" && ev.Star.Kind != "foreach" && ev.Star.Kind != "walk" || !opened || ev.Star.Val == nil {
								continue
							}
							s := ev.Star
							accs := map[*Term]bool{}
							for _, b := range s.Bodies {
								for l := range b.Next {
									accs[l] = true
								}
							}
							good := false
							for l := range accs {
								// the greatest identifier so far is in l
								ok := true
								for _, b := range s.Bodies {
									c.Inst("entries of loaded packages")
									id, has := tsGet(s.Val, tid, "TagUint", nil)
									now, changed := b.Next[l]
									if !changed {
										now = l
									}
									if now != l && !b.St.facts.ProveGE(now, l, 0) && !isFalse(b.St, ltT(now, l)) && !isTrue(b.St, ltT(l, now)) {
										ok = false
									}
									if !isFalse(b.St, has) && !isFalse(b.St, hasOf(s.Val, tid)) && now != id && !b.St.facts.ProveGE(now, id, 0) && !isFalse(b.St, ltT(now, id)) {
										ok = false
									}
								}
								now := o.St.clone().load(counter, elemOf(counter.Typ))
								good = good || ok && (now == l || o.St.facts.ProveGE(now, l, 0) || isFalse(o.St, ltT(now, l)))
							}
							walked = good
						}
						c.Must(walked, o.St, o.Pos, fn, "walk", "after loading a package the counter may be below the identifiers of its files")
					}
				}
				c.Must(loaded, api.St, own.Pos(), own, "load", "loading never succeeds")
				break
			}
			c.AtLeast("identifiers put", 2)
			c.AtLeast("changes of the counter", 3)
			c.AtLeast("entries of loaded packages", 2)
		})
}

func hasOf(ts, tid *Term) *Term { _, h := tsLookup(ts, tid); return h }
