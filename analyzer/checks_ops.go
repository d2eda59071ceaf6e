package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const seqPfx = "(*wpk/util.SeqMap)."

// keyOf is the key with which an event refers to an entry of a file table.
func keyOf(ev *Event) *Term {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, seqPfx) {
		return nil
	}
	switch ev.Method {
	case "Has", "Peek", "Poke", "Push", "Delete":
		if len(ev.Args) > 0 {
			return ev.Args[0]
		}
	}
	return nil
}

// changesTable tells that an event changes the file table.
func changesTable(ev *Event) bool {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, seqPfx) {
		return false
	}
	switch ev.Method {
	case "Poke", "Push", "Delete", "Pop", "Init":
		return true
	}
	return false
}

// reachesTable are the functions that use the file table themselves or by their callees.
func (c *Check) reachesTable(methods ...string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	direct := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && out[mc.Fn.(*ssa.Function)] {
					return true
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil {
					continue
				}
				if out[f] {
					return true
				}
				n := cname(f)
				for _, m := range methods {
					if n == seqPfx+m || f.Origin() != nil && cname(f.Origin()) == seqPfx+m {
						return true
					}
				}
			}
		}
		return false
	}
	for more := true; more; {
		more = false
		for _, fn := range c.P.Fns {
			if !out[fn] && direct(fn) {
				out[fn] = true
				more = true
			}
		}
	}
	return out
}

// naked tells that a value depends on the spelling of a name, not only on the name with
// slashes.
func naked(t, name *Term, memo map[*Term]bool) bool {
	if t == name {
		return true
	}
	if t == nil || !t.contains(name) {
		return false
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	r := false
	args := t.Args
	switch {
	case t.Op == "pure" && t.Aux == "wpk/util.ToSlash", t.Op == "len":
		a := args[0]
		rest := args[1:]
		for a != nil && a.Op == "substr" {
			rest = append(append([]*Term{}, rest...), a.Args[1:]...)
			a = a.Args[0]
		}
		if a != name {
			rest = append(append([]*Term{}, rest...), a)
		}
		args = rest
	case t.Op == "==":
		// equality with a text without slashes does not depend on their form
		for i := range args {
			if v, ok := args[i].strVal(); ok && !strings.ContainsAny(v, "/\\") {
				x := args[1-i]
				for x.Op == "substr" {
					x = x.Args[0]
				}
				if x == name {
					args = nil
				}
				break
			}
		}
	}
	for _, a := range args {
		if naked(a, name, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// slashed tells that a name has no backslashes, provided that workspaces and keys of the
// table have none.
func slashed(t *Term) bool {
	if isSlashed(t) {
		return true
	}
	switch t.Op {
	case "rkey":
		return true
	case "load":
		return t.Args[0].Op == "faddr" && strings.HasSuffix(t.Args[0].Aux, "Workspace")
	case "field":
		return strings.HasSuffix(t.Aux, "Workspace")
	case "substr":
		return slashed(t.Args[0])
	case "concat", "join":
		for _, a := range t.Args {
			if !slashed(a) {
				return false
			}
		}
		return true
	case "pure":
		switch t.Aux {
		case "wpk/util.JoinPath":
			return slashed(t.Args[0]) && slashed(t.Args[1])
		case "strings.TrimSuffix", "strings.TrimPrefix", "path.Clean":
			return slashed(t.Args[0])
		}
	}
	return false
}

// fileCalls are the exported methods of the file systems and the file table that take
// names of files within the package.
func (c *Check) fileCalls() (out []*ssa.Function) {
	users := c.reachesTable("Has", "Peek", "Poke", "Push", "Delete", "Range")
	for _, typ := range []string{"Package", "Union", "FTT"} {
		for _, fn := range c.methodsOf("", typ) {
			if fn.Object() == nil || !fn.Object().Exported() || !users[fn] || fn.Synthetic != "" {
				continue
			}
			some := false
			for _, p := range fn.Params[1:] {
				some = some || p.Type() == types.Typ[types.String]
			}
			if some && !c.opensPath(fn) {
				out = append(out, fn)
			}
		}
	}
	return
}

// opensPath tells that a function opens the named file of the operating system.
func (c *Check) opensPath(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil {
					switch cname(f) {
					case "os.Open", "os.OpenFile", "os.ReadFile", "os.Create":
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("C27", "abstract interpretation: dependence of every table access, decision and result on the spelling of names",
		"All exported methods of package, union and file table that take a name and reach the file table are discovered and interpreted abstractly with symbolic names. It is proved that table keys, decisions (path conditions, including those within loops and callbacks), names handed to openers and the objects returned depend on each name only through its form with slashes, never on the spelling itself (texts within error values are exempt). Keys derived from a name are the concatenation of the workspace of the package whose table is accessed and of the name. Every key under which an entry is stored anywhere in the library, as well as the recorded path of a new entry, is proved to have no backslashes.",
		[]string{"the workspace of a package and keys already in the table have slashes only"},
		func(c *Check) {
			c.Rule("what happens depends on a name only through its form with slashes")
			for _, fn := range c.fileCalls() {
				e := c.Engine()
				ps := e.Params(fn)
				outs := c.Run(e, fn, nil, nil)
				c.Inst("operations with names")
				for k, p := range fn.Params[1:] {
					if p.Type() != types.Typ[types.String] {
						continue
					}
					name := ps[k+1]
					c.Inst("names")
					memo := map[*Term]bool{}
					seen := map[*Event]bool{}
					states := func(st *State, in string) {
						for t := range st.facts.truth {
							c.Must(!naked(t, name, memo), st, fn.Pos(), fn, "decision on "+p.Name(), "the decision %v%s depends on the spelling of the name", shortT(t), in)
						}
						for _, l := range st.facts.lins {
							for a := range l.M {
								c.Must(!naked(a, name, memo), st, fn.Pos(), fn, "decision on "+p.Name(), "a decision on %v%s depends on the spelling of the name", shortT(a), in)
							}
						}
						for a, v := range st.mem {
							if a.Op != "faddr" || !freshRoot(addrRoot(a)) || naked(a, name, memo) {
								continue
							}
							if n := namedOf(a.Args[0].Typ); n != nil && (n.Obj().Name() == "PathError" || n.Obj().Name() == "LinkError") {
								continue
							}
							c.Must(!naked(v, name, memo), st, fn.Pos(), fn, "object with "+p.Name(), "a field of a new object depends on the spelling of the name: %v", shortT(v))
						}
					}
					for i := range outs {
						o := &outs[i]
						states(o.St, "")
						for _, v := range o.Vals {
							if v.Typ != nil && isError(v.Typ) {
								continue
							}
							if mustNil(o.St, v) {
								continue
							}
							c.Must(!naked(v, name, memo), o.St, o.Pos, fn, "result with "+p.Name(), "the result %v depends on the spelling of the name", shortT(v))
						}
						AllEvents(o.St.Events(), func(ev *Event, b *Body) {
							if ev.Star != nil && !seen[ev] {
								for j := range ev.Star.Bodies {
									states(ev.Star.Bodies[j].St, " in a loop")
								}
							}
							if seen[ev] {
								return
							}
							seen[ev] = true
							st := o.St
							if b != nil {
								st = b.St
							}
							if key := keyOf(ev); key != nil {
								c.Inst("table accesses")
								c.Site(ev.Pos)
								c.Must(!naked(key, name, memo), st, at(ev.Pos, fn), fn, "key with "+p.Name(), "%s gets the key %v, which depends on the spelling of the name", ev.Method, shortT(key))
								if key.contains(name) {
									c.prefixed(st, fn, ev, key)
								}
							}
							if ev.Kind == "call" && (ev.Name == "func value" || ev.Method == "OpenTagset" || isStore(ev)) || ev.Kind == "append" || ev.Kind == "mapupdate" {
								for _, a := range append(ev.Args, ev.Data...) {
									c.Must(!naked(a, name, memo), st, at(ev.Pos, fn), fn, "effect with "+p.Name(), "%s%s gets %v, which depends on the spelling of the name", ev.Kind, ev.Name, shortT(a))
								}
							}
						})
					}
				}
			}
			c.AtLeast("operations with names", 15)
			c.AtLeast("table accesses", 20)

			c.Rule("names are stored with slashes")
			stores := c.reachesTable("Poke", "Push")
			for _, fn := range c.exported("") {
				if !stores[fn] {
					continue
				}
				e := c.Engine()
				e.Record = func(ev *Event) bool { return isStore(ev) }
				outs := c.Run(e, fn, nil, nil)
				seen := map[*Event]bool{}
				for i := range outs {
					AllEvents(outs[i].St.Events(), func(ev *Event, b *Body) {
						if !isStore(ev) || seen[ev] {
							return
						}
						seen[ev] = true
						st := outs[i].St
						if b != nil {
							st = b.St
						}
						c.Inst("stored names")
						c.Must(slashed(ev.Args[0]), st, at(ev.Pos, fn), fn, "stored key", "an entry is stored under the key %v, which may have backslashes", shortT(ev.Args[0]))
					})
				}
			}
			c.AtLeast("stored names", 8)
			if fn := c.Fn(":Package.BaseTagset"); fn != nil {
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					path, has, _, _, _, _ := c.entryTags(o.Vals[0])
					c.Inst("recorded names")
					c.Must(isTrue(o.St, has) && slashed(path), o.St, o.Pos, fn, "recorded", "the recorded name is %v, which may have backslashes", shortT(path))
				}
			}
			c.AtLeast("recorded names", 1)
		})
}

// prefixed checks that a key made of a name begins with the workspace of the package.
func (c *Check) prefixed(st *State, fn *ssa.Function, ev *Event, key *Term) {
	ws := c.workspaceOf(st, ev.Recv)
	if ws == nil { // a table without package: full names
		return
	}
	ok := key.Op == "pure" && key.Aux == "wpk/util.JoinPath" && sameString(st, key.Args[0], ws)
	for _, root := range []string{".", ""} {
		if v, k := st.facts.Decide(eqT(ws, strConst(root))); k && v {
			ok = true
		}
	}
	c.Must(ok, st, at(ev.Pos, fn), fn, "workspace", "%s gets the key %v without the workspace of the package", ev.Method, shortT(key))
}
