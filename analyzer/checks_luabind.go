package main

import (
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scriptAPI is what the scripting module registers in a Lua machine.
type scriptAPI struct {
	e       *Engine
	St      *State // after the initialisation of the package and the registration
	ls      *Term  // the machine
	Globals map[string]*Term
	Path    map[string]*Term
	Methods map[string]*Term    // of the package objects, special ones included
	Props   map[string][2]*Term // getters and setters
	index   map[string]int64    // places of the properties in their list
}

// stringKey gives the constant text of a key, converted to a Lua string or not.
func stringKey(t *Term) (string, bool) {
	return unboxed(t).strVal()
}

func unboxed(t *Term) *Term {
	for t != nil && (t.Op == "makeiface" || t.Op == "changetype" || t.Op == "chiface" || t.Op == "conv" && len(t.Args) == 1) {
		t = t.Args[0]
	}
	return t
}

// luaFunc is the function a Lua function object was made of.
func luaFunc(t *Term) *Term {
	t = unboxed(t)
	if c := callOf(t); c != nil && strings.HasSuffix(callName(c), "NewFunction") || callName(t) != "" && strings.HasSuffix(callName(t), "NewFunction") {
		if c != nil {
			t = c
		}
		return t.Args[len(t.Args)-1]
	}
	return nil
}

// wholeNumber gives the value of a constant number.
func wholeNumber(t *Term) (int64, bool) {
	if v, ok := t.constVal(); ok && (v.Kind() == constant.Int || v.Kind() == constant.Float) {
		return constant.Int64Val(constant.ToInt(v))
	}
	return 0, false
}

// mapOf lists what is put into a map that is made by the events.
func mapOf(evs []*Event, m *Term) (map[string]*Term, bool) {
	out := map[string]*Term{}
	ok := true
	for _, ev := range evs {
		if ev.Kind == "mapupdate" && (ev.Recv == m || len(ev.Args) > 2 && ev.Args[0] == m) {
			a := ev.Args[len(ev.Args)-2:]
			if k, is := stringKey(a[0]); is {
				out[k] = a[1]
				continue
			}
			ok = false
		}
	}
	return out, ok && m.Op == "makemap"
}

// script interprets the initialisation of the scripting module and then the registration of
// its names in a Lua machine.
func (c *Check) script() []*scriptAPI {
	e := c.Engine()
	own, start := c.Fn("luawpk:InitLuaVM"), c.Fn("luawpk:init")
	if own == nil || start == nil {
		return nil
	}
	e.Inline = func(f *ssa.Function) bool {
		return fnPkg(f) == fnPkg(own) || takesFunc(f)
	}
	ls := mk("param", "ls@script", own.Params[0].Type())
	var res []*scriptAPI
	for _, o := range e.Run(start, nil, nil) {
		if o.Panic {
			continue
		}
		if ran := len(o.St.Events()) > 0; !ran {
			continue // called for a second time
		}
		for _, o2 := range e.Run(own, []*Term{ls}, o.St) {
			if o2.Panic {
				continue
			}
			api := &scriptAPI{e: e, St: o2.St, ls: ls, Globals: map[string]*Term{}, Path: map[string]*Term{}, Methods: map[string]*Term{}, Props: map[string][2]*Term{}, index: map[string]int64{}}
			c.bindings(api)
			c.dispatch(api)
			res = append(res, api)
		}
	}
	return res
}

func (c *Check) bindings(api *scriptAPI) {
	evs := api.St.Events()
	mt := func(t *Term) string { // table a value is stored into
		t = unboxed(t)
		n := callName(t)
		if call := callOf(t); call != nil {
			t, n = call, callName(call)
		}
		switch {
		case strings.HasSuffix(n, "NewTypeMetatable"):
			return "type"
		case strings.HasSuffix(n, "RegisterModule"), t.any(func(x *Term) bool { return strings.HasSuffix(callName(x), "RegisterModule") }):
			return "module"
		}
		return ""
	}
	bind := func(table string, name string, v *Term) {
		f := luaFunc(v)
		if f == nil {
			f = v
		}
		switch table {
		case "type":
			if i, ok := wholeNumber(unboxed(v)); ok {
				api.index[name] = i
				return
			}
			api.Methods[name] = f
		case "module":
			api.Path[name] = f
		case "global":
			api.Globals[name] = f
		}
	}
	var do func(ev *Event, s *Star)
	do = func(ev *Event, s *Star) {
		if ev.Star != nil {
			for _, b := range ev.Star.Bodies {
				for _, x := range b.St.Events() {
					do(x, ev.Star)
				}
			}
			return
		}
		if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*"+luaPkg+".L") {
			return
		}
		table, key, val := "", (*Term)(nil), (*Term)(nil)
		switch ev.Method {
		case "SetGlobal":
			table, key, val = "global", ev.Args[0], ev.Args[1]
		case "SetField":
			table, key, val = mt(ev.Args[0]), ev.Args[1], ev.Args[2]
		case "SetTable", "RawSet":
			if ev.Method == "SetTable" {
				table, key, val = mt(ev.Args[0]), ev.Args[1], ev.Args[2]
			} else {
				table, key, val = mt(ev.Recv), ev.Args[0], ev.Args[1]
			}
		case "RawSetString":
			table, key, val = mt(ev.Recv), ev.Args[0], ev.Args[1]
		case "RegisterModule", "SetFuncs":
			m := ev.Args[1]
			table = "module"
			if ev.Method == "SetFuncs" {
				table = mt(ev.Args[0])
			}
			es, _ := mapOf(evs, m)
			for k, v := range es {
				bind(table, k, v)
			}
			return
		default:
			return
		}
		if k, ok := stringKey(key); ok {
			bind(table, k, val)
			return
		}
		if s == nil || table != "type" {
			return
		}
		key = unboxed(key)
		if key.Op == "nextkey" || key.Op == "rkey" { // entries of a map
			f := luaFunc(val)
			if f == nil || f.Op != "nextval" && f.Op != "rval" {
				return
			}
			m := key.Args[0]
			if m.Op == "rangeiter" {
				m = m.Args[0]
			}
			es, _ := mapOf(evs, m)
			for k, v := range es {
				bind(table, k, v)
			}
			return
		}
		// elements of a list: the value is their index
		if key.Op == "load" && key.Args[0].Op == "faddr" && key.Args[0].Args[0].Op == "iaddr" {
			el := key.Args[0].Args[0]
			n, ok := lenT(el.Args[0]).intVal()
			for i := int64(0); ok && i < n && unboxed(val) == el.Args[1]; i++ {
				at := faddrLike(key.Args[0], mk("iaddr", "", el.Typ, el.Args[0], intConst(i, tyInt)))
				if k, ok := api.St.load(at, tyString).strVal(); ok {
					api.index[k] = i
				}
			}
		}
	}
	for _, ev := range evs {
		do(ev, nil)
	}
}

// faddrLike is the same field of another object.
func faddrLike(f, base *Term) *Term { return mk("faddr", f.Aux, f.Typ, base) }

// dispatch finds out which function is called when a property is read or set.
func (c *Check) dispatch(api *scriptAPI) {
	for k, name := range []string{"__index", "__newindex"} {
		f := api.Methods[name]
		if f == nil || f.Op != "func" {
			continue
		}
		for _, o := range api.run(f, api.St.clone()) {
			for _, ev := range api.since(o.St) {
				if ev.Name != "func value" || ev.Recv.Op != "load" || ev.Recv.Args[0].Op != "faddr" || ev.Recv.Args[0].Args[0].Op != "iaddr" {
					continue
				}
				el := ev.Recv.Args[0].Args[0]
				for n, i := range api.index {
					at := faddrLike(ev.Recv.Args[0], mk("iaddr", "", el.Typ, el.Args[0], intConst(i, tyInt)))
					p := api.Props[n]
					p[k] = api.St.load(at, ev.Recv.Typ)
					api.Props[n] = p
				}
			}
		}
	}
}

// run interprets a function of the API called by a script.
func (a *scriptAPI) run(f *Term, st *State) []Outcome {
	fn, ok := f.Obj.(*ssa.Function)
	if !ok {
		return nil
	}
	if f.Op == "closure" {
		return a.e.invoke(fn, []*Term{a.ls}, f.Args, st, &frame{})
	}
	return a.e.Run(fn, []*Term{a.ls}, st)
}

// since are the events after the registration.
func (a *scriptAPI) since(st *State) []*Event { return st.Events()[len(a.St.Events()):] }

// documented reads the names which the documentation of the scripts promises: properties with
// "rw" or "ro", methods and functions of the path library.
func (c *Check) documented() (props map[string]string, methods, paths, globals []string) {
	props = map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.P.Dir, "testdata", "api.lua"))
	if err != nil {
		c.Fail(0, nil, "api.lua", "the scripting documentation cannot be read: %v", err)
		return
	}
	section, part := "", ""
	head := regexp.MustCompile(`^\*([a-z ]+)\*`)
	sub := regexp.MustCompile(`^\t([a-z]+):$`)
	fn := regexp.MustCompile(`^\t([a-z0-9_]+)\((.*)\) - `)
	val := regexp.MustCompile(`^\t([a-z0-9_]+) - (getter/setter|get/set|getter only)?`)
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r", ""), "\n") {
		if m := head.FindStringSubmatch(l); m != nil {
			section, part = m[1], ""
		} else if m := sub.FindStringSubmatch(l); m != nil {
			part = m[1]
		} else if m := fn.FindStringSubmatch(l); m != nil {
			switch {
			case section == "path":
				paths = append(paths, m[1])
			case section == "wpk" && part == "methods":
				methods = append(methods, m[1])
			case section == "global registration":
				globals = append(globals, m[1])
			}
		} else if m := val.FindStringSubmatch(l); m != nil && section == "wpk" && part == "properties" {
			switch m[2] {
			case "getter only":
				props[m[1]] = "ro"
			case "":
			default:
				props[m[1]] = "rw"
			}
		}
	}
	sort.Strings(methods)
	return
}

// pushed are the values a function called by a script leaves for it.
func (a *scriptAPI) pushed(st *State) []*Term {
	var out []*Term
	for _, ev := range a.since(st) {
		if ev.Kind == "call" && ev.Method == "Push" && ev.Recv == a.ls {
			out = append(out, ev.Args[0])
		}
	}
	return out
}

// changed are the places of objects that existed before whose contents differ afterwards.
func (a *scriptAPI) changed(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	for at, v := range st.mem {
		r := addrRoot(at)
		if freshRoot(r) || at.Typ == nil {
			continue
		}
		old := a.St.clone().load(at, elemOf(at.Typ))
		if old != v && !(v.Op == "load" && v.Args[0] == at && v.Aux == old.Aux) {
			out[at] = true
		}
	}
	return out
}

// reads are the places of objects that existed before which are read.
func (a *scriptAPI) reads(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	AllEvents(a.since(st), func(ev *Event, _ *Body) {
		if ev.Kind == "load" {
			out[ev.Args[0]] = true
		}
	})
	return out
}

// arg tells whether a value is an argument of the script.
func (a *scriptAPI) arg(t *Term, n int64) bool {
	t = unboxed(t)
	name := callName(t)
	return strings.HasPrefix(name, "(*"+luaPkg+".LState).") && len(t.Args) > 1 && t.Args[0] == a.ls && t.Args[1].isInt(n)
}

// object checks that the object a function works on is the one it is called for.
func (a *scriptAPI) object(c *Check, o *Outcome, fn *ssa.Function, n string) {
	name := "(*" + luaPkg + ".LState)."
	anyFact(o.St, func(x *Term) {
		if m := strings.TrimPrefix(callName(x), name); x.Op != "res" && (m == "CheckUserData" || m == "ToUserData") && len(x.Args) == 2 {
			c.Must(x.Args[1].isInt(1), o.St, o.Pos, fn, "object", "%q works on argument %v, not on the object it is called for", n, shortT(x.Args[1]))
		}
	})
}

// performs lists what methods of package objects have to do: the operation of the package and
// the arguments of the script it gets (0 for others).
var performs = map[string]struct {
	ops  []string
	args []int64
}{
	"load":      {[]string{"OpenFile"}, []int64{2}},
	"begin":     {[]string{"Begin"}, nil},
	"append":    {[]string{"Append"}, nil},
	"finalize":  {[]string{"Sync"}, nil},
	"flush":     {[]string{"Sync"}, nil},
	"hasfile":   {[]string{"HasTagset", "GetTagset"}, []int64{2}},
	"filesize":  {[]string{"GetTagset"}, []int64{2}},
	"putdata":   {[]string{"PackData"}, []int64{0, 0, 2}},
	"putfile":   {[]string{"PackFile"}, []int64{0, 0, 2}},
	"rename":    {[]string{"Rename"}, []int64{2, 3}},
	"renamedir": {[]string{"RenameDir"}, []int64{2, 3, 4}},
	"putalias":  {[]string{"PutAlias"}, []int64{2, 3}},
	"delalias":  {[]string{"DelTagset"}, []int64{2}},
	"hastag":    {[]string{"GetTagset"}, []int64{2}},
	"gettag":    {[]string{"GetTagset"}, []int64{2}},
	"settag":    {[]string{"GetTagset"}, []int64{2}},
	"addtag":    {[]string{"GetTagset"}, []int64{2}},
	"deltag":    {[]string{"GetTagset"}, []int64{2}},
	"gettags":   {[]string{"GetTagset"}, []int64{2}},
	"settags":   {[]string{"GetTagset"}, []int64{2}},
	"addtags":   {[]string{"GetTagset"}, []int64{2}},
	"deltags":   {[]string{"GetTagset"}, []int64{2}},
	"getinfo":   {[]string{"GetInfo"}, nil},
	"setupinfo": {[]string{"SetInfo"}, nil},
	"sumsize":   {[]string{"Range", "Enum"}, nil},
	"glob":      {[]string{"Range", "Enum"}, nil},
}

// edition lists the edits by which methods change tagsets.
var edition = map[string][]string{
	"settag": {"Set", "SetOk"}, "settags": {"Set", "SetOk"},
	"addtag": {"Add", "AddOk"}, "addtags": {"Add", "AddOk"},
	"deltag": {"Del", "DelOk"}, "deltags": {"Del", "DelOk"},
}

func init() {
	register("C40", "abstract interpretation of the initialisation and registration of the scripting module, composed with its getters and setters (memory effects and symbolic read-back)",
		"The initialisation of the scripting module and the registration of its names are interpreted; the names bound, the list of properties and the functions __index and __newindex choose for each are read off the resulting state. Names and modes are compared with the documentation of the scripting interface (testdata/api.lua). Every setter is interpreted and then, from the state it leaves, the getter of the same property, which must give the argument of the setter; the places a setter changes are compared with those the getters of all other properties read; getters change no place at all. Every method of a package object must perform the operation of the package it is documented for, with the arguments of the script in their places, on every path that does not raise.",
		[]string{"the Lua machine stores and calls what it is given", "the documentation lists the names"},
		func(c *Check) {
			props, methods, paths, globals := c.documented()
			apis := c.script()
			c.Rule("documented names are available")
			own := c.Fn("luawpk:InitLuaVM")
			c.Must(len(apis) > 0, nil, own.Pos(), own, "registration", "no path through the registration could be followed")
			for _, a := range apis {
				isFn := func(t *Term) bool { return t != nil && (t.Op == "func" || t.Op == "closure") }
				all := func(names []string, table map[string]*Term, what string) {
					for _, n := range names {
						c.Inst("names")
						c.Must(isFn(table[n]), a.St, own.Pos(), own, what+" "+n, "%s %q is documented, but no function is bound to the name", what, n)
					}
				}
				all(methods, a.Methods, "method")
				all(paths, a.Path, "function")
				all(globals, a.Globals, "function")
				for n, mode := range props {
					c.Inst("names")
					p, ok := a.Props[n]
					c.Must(ok && isFn(p[0]), a.St, own.Pos(), own, "property "+n, "property %q is documented, but cannot be read", n)
					if !ok {
						continue
					}
					if mode == "rw" {
						c.Must(isFn(p[1]), a.St, own.Pos(), own, "property "+n, "property %q is documented as changeable, but cannot be set", n)
					} else {
						c.Must(p[1] == nil || p[1].Op == "nil", a.St, own.Pos(), own, "property "+n, "property %q is documented as getter only, but has a setter", n)
					}
				}
			}
			if len(apis) == 0 {
				return
			}
			a := apis[0]

			c.Rule("reading and setting a property calls its function")
			for k, name := range []string{"__index", "__newindex"} {
				f := a.Methods[name]
				if f == nil || f.Op != "func" && f.Op != "closure" {
					c.Must(false, a.St, own.Pos(), own, name, "%s is not set", name)
					continue
				}
				fn := f.Obj.(*ssa.Function)
				called, passed := false, false
				outs := a.run(f, a.St.clone())
				c.Analysed(fn, outs)
				for i := range outs {
					o := &outs[i]
					removed := 0
					for _, ev := range a.since(o.St) {
						if ev.Kind == "call" && ev.Method == "Remove" && ev.Recv == a.ls {
							removed++
							c.Must(ev.Args[0].isInt(2), o.St, ev.Pos, fn, "name", "the argument removed is not the name of the property")
						}
						if ev.Kind == "call" && ev.Name == "func value" {
							called = true
							c.Inst("dispatches")
							c.Must(removed == 1, o.St, ev.Pos, fn, "name", "the function of the property is not called with the name of the property removed from its arguments")
							c.Must(len(ev.Args) == 1 && ev.Args[0] == a.ls, o.St, ev.Pos, fn, "machine", "the function of the property is called with something else than the machine")
							c.Must(len(o.Vals) == 1 && o.Vals[0] == ev.result(0), o.St, ev.Pos, fn, "results", "the number of results of the function of the property is not returned")
							c.Must(ev.Recv.any(func(x *Term) bool { return a.arg(x, 2) }), o.St, ev.Pos, fn, "which", "the property is not chosen by the name the script gives")
						}
						if ev.Kind == "call" && ev.Method == "Push" && luaTyped(ev.Args[0], "LFunction") {
							passed = true
						}
					}
				}
				c.Must(called, a.St, fn.Pos(), fn, "call", "no function of a property is ever called")
				c.Must(passed || k == 1, a.St, fn.Pos(), fn, "methods", "methods are not found by their names")
			}

			root := c.Fn(":FTT.SetInfo")
			a.e.Inline = func(f *ssa.Function) bool {
				return fnPkg(f) == fnPkg(own) || takesFunc(f) || root != nil && fnPkg(f) == fnPkg(root) && !returnsError(f)
			}
			a.e.Access = func(t *Term) bool { return !freshRoot(addrRoot(t)) }
			names := make([]string, 0, len(a.Props))
			for n := range a.Props {
				names = append(names, n)
			}
			sort.Strings(names)
			c.Rule("getters change nothing")
			read := map[string]map[*Term]bool{}
			for _, n := range names {
				f := a.Props[n][0]
				if f == nil || f.Op != "func" && f.Op != "closure" {
					continue
				}
				fn := f.Obj.(*ssa.Function)
				read[n] = map[*Term]bool{}
				outs := a.run(f, a.St.clone())
				c.Analysed(fn, outs)
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					c.Inst("getter paths")
					a.object(c, o, fn, n)
					for at := range a.changed(o.St) {
						c.Must(false, o.St, o.Pos, fn, "effect", "the getter of %q changes %v", n, shortT(at))
					}
					AllEvents(a.since(o.St), func(ev *Event, _ *Body) {
						c.Must(!isStore(ev) && ev.Kind != "store" && !(ev.Kind == "call" && (ev.Method == "SetInfo" || ev.Method == "Delete")), o.St, ev.Pos, fn, "effect", "the getter of %q changes the package (%s)", n, ev.Name)
					})
					c.Must(len(o.Vals) == 1 && o.Vals[0].isInt(int64(len(a.pushed(o.St)))), o.St, o.Pos, fn, "results", "the getter of %q does not return the number of values it pushed", n)
					for at := range a.reads(o.St) {
						read[n][at] = true
					}
				}
			}
			c.Rule("a setter changes what its getter returns and nothing else")
			for _, n := range names {
				f := a.Props[n][1]
				if f == nil || f.Op != "func" && f.Op != "closure" || a.Props[n][0] == nil {
					continue
				}
				fn := f.Obj.(*ssa.Function)
				outs := a.run(f, a.St.clone())
				c.Analysed(fn, outs)
				ok := false
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					ok = true
					c.Inst("setter paths")
					w := a.changed(o.St)
					for _, m := range names {
						if m == n {
							continue
						}
						for at := range w {
							c.Must(!read[m][at], o.St, o.Pos, fn, "shared "+m, "setting %q changes what %q returns (%v)", n, m, shortT(at))
						}
					}
					before := len(a.pushed(o.St))
					for _, g := range a.run(a.Props[n][0], o.St.clone()) {
						if g.Panic {
							continue
						}
						c.Inst("read back")
						vs := a.pushed(g.St)[before:]
						good := len(vs) == 1 && a.arg(vs[0], 2)
						c.Must(good, g.St, g.Pos, fn, "read back", "after setting %q its getter returns %v and not the value set", n, shortTs(vs))
					}
				}
				c.Must(ok, a.St, fn.Pos(), fn, "normal", "the setter of %q always fails", n)
			}

			c.Rule("methods perform the operation they are documented for")
			a.e.Access = nil
			a.e.Inline = func(f *ssa.Function) bool {
				if f.Parent() != nil || f.Synthetic != "" {
					return true
				}
				return fnPkg(f) == fnPkg(own) && (!returnsError(f) || looksUp(f)) || takesFunc(f)
			}
			for _, n := range methods {
				op, ok := performs[n]
				f := a.Methods[n]
				if !ok || f == nil || f.Op != "func" && f.Op != "closure" {
					continue
				}
				fn := f.Obj.(*ssa.Function)
				outs := a.run(f, a.St.clone())
				c.Analysed(fn, outs)
				edited := false
				for i := range outs {
					o := &outs[i]
					done := false
					AllEvents(a.since(o.St), func(ev *Event, _ *Body) {
						if ev.Kind == "tsedit" {
							good := false
							_, has := tsLookup(ev.Recv, ev.Args[0])
							if isFalse(o.St, has) && (ev.Method == "Put" || ev.Method == "SetOk" || ev.Method == "AddOk") {
								good = !strings.HasPrefix(n, "del")
							}
							for _, e := range edition[n] {
								good = good || ev.Method == e
							}
							edited = edited || good
							if edition[n] != nil {
								c.Must(good, o.St, ev.Pos, fn, "edit", "method %q edits a tagset by %s", n, ev.Method)
							}
						}
						if ev.Kind != "call" {
							return
						}
						for _, m := range op.ops {
							if ev.Method != m {
								continue
							}
							good := true
							for j, k := range op.args {
								if k != 0 {
									good = good && j < len(ev.Args) && a.arg(ev.Args[j], k)
								}
							}
							self := ev.Recv
							if self == nil && len(ev.Args) > 0 {
								self = ev.Args[0]
							}
							c.Must(self != nil && self.any(func(x *Term) bool { return a.arg(x, 1) }), o.St, at(ev.Pos, fn), fn, "object", "method %q performs %s on %v, not on the object it is called for", n, ev.Method, shortT(self))
							done = done || good
						}
					})
					if o.Panic {
						continue
					}
					c.Inst("method paths")
					c.Must(done, o.St, o.Pos, fn, "operation", "method %q may return without performing %s with the arguments of the script", n, strings.Join(op.ops, "/"))
				}
				c.Must(edited || edition[n] == nil, a.St, fn.Pos(), fn, "edit", "method %q never edits a tagset by %s", n, strings.Join(edition[n], "/"))
			}
			c.AtLeast("names", 60)
			c.AtLeast("dispatches", 2)
			c.AtLeast("getter paths", 18)
			c.AtLeast("read back", 12)
			c.AtLeast("method paths", 26)
		})
}

func shortTs(ts []*Term) []string {
	var out []string
	for _, t := range ts {
		out = append(out, shortT(t))
	}
	return out
}

// luaTyped tells that a value is one of a Lua type.
func luaTyped(t *Term, name string) bool {
	return t.Op == "makeiface" && len(t.Args) > 0 && t.Args[0].Typ != nil && strings.HasSuffix(t.Args[0].Typ.String(), luaPkg+"."+name)
}

func structOf(ptr types.Type) *types.Struct {
	p, ok := under(ptr).(*types.Pointer)
	if !ok {
		return nil
	}
	s, _ := under(p.Elem()).(*types.Struct)
	return s
}

func isFuncType(t types.Type) bool {
	_, ok := under(t).(*types.Signature)
	return ok
}

// looksUp tells that a function does nothing else with a package than looking
// up its tagsets.
func looksUp(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && missing[cname(g)] {
					n++
				}
			}
		}
	}
	return n > 0
}
