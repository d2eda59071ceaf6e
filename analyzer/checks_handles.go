package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closeMethod is the name of the method that releases a value of given type, if it has one.
func closeMethod(t types.Type) string {
	if t == nil {
		return ""
	}
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return ""
		}
		t = tp.At(0).Type()
	}
	for _, name := range []string{"Close", "Unmap"} {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			obj, _, _ := types.LookupFieldOrMethod(x, true, nil, name)
			if f, ok := obj.(*types.Func); ok {
				if s, ok := f.Type().(*types.Signature); ok && s.Params().Len() == 0 {
					return name
				}
			}
		}
	}
	return ""
}

func isClosing(method string) bool { return method == "Close" || method == "Unmap" }

// opens tells that a call gives a handle to the caller.
func opens(ev *Event) bool {
	if ev.Kind != "call" || ev.Sig == nil || ev.Sig.Results().Len() == 0 || closeMethod(ev.Sig.Results().At(0).Type()) == "" {
		return false
	}
	if ev.Name == "io.NopCloser" || inertCalls[ev.Name] {
		return false
	}
	return true
}

// inertCalls are the functions of the repository that open nothing: what they return
// holds no handle yet.
var inertCalls = map[string]bool{}

func (c *Check) findInert() {
	var dirty = map[*ssa.Function]bool{}
	direct := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && dirty[mc.Fn.(*ssa.Function)] {
					return true
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				if f := cc.StaticCallee(); f != nil && f.Blocks != nil && c.P.InRepo(f) {
					if dirty[f] {
						return true
					}
					continue
				}
				if closeMethod(cc.Signature().Results()) != "" {
					return true
				}
			}
		}
		return false
	}
	for more := true; more; {
		more = false
		for _, fn := range c.P.Fns {
			if !dirty[fn] && direct(fn) {
				dirty[fn] = true
				more = true
			}
		}
	}
	for _, fn := range c.P.Fns {
		if !dirty[fn] {
			inertCalls[cname(fn)] = true
		}
	}
}

// holds tells that a value is the target or has it as a part.
func holds(v *Term, targets map[*Term]bool) bool {
	if v == nil {
		return false
	}
	if targets[v] {
		return true
	}
	switch v.Op {
	case "makeiface", "chiface", "changetype", "conv", "struct", "tuple", "closure", "append", "elems", "slice", "ite", "bound", "faddr", "iaddr", "convslice", "sliced", "cast":
		for _, a := range v.Args {
			if holds(a, targets) {
				return true
			}
		}
	}
	return false
}

// whereTo tells what became of a value: stored in memory that outlives the function, or
// returned; owner is the new object that holds it, with the address of the field.
func whereTo(st *State, h *Term, vals []*Term) (stored, returned bool, fields []*Term) {
	targets := map[*Term]bool{h: true}
	for more := true; more; {
		more = false
		for a, v := range st.mem {
			if !holds(v, targets) {
				continue
			}
			r := addrRoot(a)
			if !freshRoot(r) {
				stored = true
				continue
			}
			if unwrap(v) == h && a.Op == "faddr" {
				dup := false
				for _, f := range fields {
					dup = dup || f == a
				}
				if !dup {
					fields = append(fields, a)
				}
			}
			if !targets[r] {
				targets[r] = true
				more = true
			}
		}
	}
	for _, v := range vals {
		returned = returned || holds(v, targets)
	}
	return
}

type handleCheck struct {
	c      *Check
	fn     *ssa.Function
	strict bool                // the function is the last owner
	owned  map[string][]string // fields of types that hold handles
}

// paths checks the handles opened by the events of a state.
func (h *handleCheck) state(o *Outcome, st *State, vals []*Term, body bool) {
	c, fn := h.c, h.fn
	evs := st.Events()
	for i, ev := range evs {
		if ev.Star != nil {
			for k := range ev.Star.Bodies {
				b := &ev.Star.Bodies[k]
				h.state(o, b.St, nil, true)
			}
			continue
		}
		if !opens(ev) || isClosing(ev.Method) {
			continue
		}
		res := ev.result(0)
		failed := mustNil(st, res)
		for _, err := range errOf(ev) {
			failed = failed || mustNotNil(st, err)
		}
		if failed {
			continue
		}
		c.Inst("opened handles")
		c.Site(ev.Pos)
		closed := false
		for _, later := range evs[i+1:] {
			if later.Kind == "call" && isClosing(later.Method) && unwrap(later.Recv) == unwrap(res) {
				closed = true
			}
		}
		if closed {
			continue
		}
		stored, returned, fields := whereTo(st, res, vals)
		if returned && len(vals) > 0 {
			if err := errVal(o); err != nil && mustNotNil(o.St, err) {
				returned = false // the caller drops it
			}
		}
		if o.Panic {
			returned = false
		}
		if returned {
			direct := false
			for _, v := range vals {
				direct = direct || holds(v, map[*Term]bool{res: true})
			}
			if !direct {
				ok := false
				for _, f := range fields {
					if n := namedOf(f.Args[0].Typ.Underlying().(*types.Pointer).Elem()); n != nil {
						ok = true
						key := n.Obj().Pkg().Path() + ":" + n.Obj().Name()
						has := false
						field := f.Aux[strings.LastIndex(f.Aux, ".")+1:]
						for _, x := range h.owned[key] {
							has = has || x == field
						}
						if !has {
							h.owned[key] = append(h.owned[key], field)
						}
					}
				}
				c.Must(ok, st, at(ev.Pos, fn), fn, "owner", "the handle opened by %s is returned within an object that cannot close it", ev.Name)
			}
			continue
		}
		how := "is neither closed nor handed over"
		if body {
			how = "in a loop is neither closed in the same turn nor handed over"
		}
		if h.strict && stored {
			how = "is left open at the end"
		}
		c.Must(stored && !h.strict, st, at(ev.Pos, fn), fn, "leak "+ev.Name, "the handle opened by %s %s", ev.Name, how)
	}
}

// reachesOpener tells that a function, or what it calls in its own package, opens something.
func (c *Check) openerRoots(pkg string) []*ssa.Function {
	memo := map[*ssa.Function]int{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if memo[fn] != 0 {
			return memo[fn] == 2
		}
		memo[fn] = 1
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && rec(mc.Fn.(*ssa.Function)) {
					memo[fn] = 2
					return true
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				f := cc.StaticCallee()
				if f != nil && f.Blocks != nil && fnPkg(f) == fnPkg(fn) {
					if rec(f) {
						memo[fn] = 2
						return true
					}
					continue
				}
				if _, ok := cc.Value.(*ssa.Builtin); !ok && closeMethod(cc.Signature().Results()) != "" {
					memo[fn] = 2
					return true
				}
			}
		}
		return false
	}
	var out []*ssa.Function
	for _, fn := range c.P.Fns {
		if p := fnPkg(fn); p != nil && p.Path() == ModPath+pkg && fn.Parent() == nil && fn.Synthetic == "" && fn.Blocks != nil && rec(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func onlyHandles(ev *Event) bool {
	return ev.Kind == "call" && (isClosing(ev.Method) || opens(ev))
}

func init() {
	register("C24", "typestate dataflow over handles: path-sensitive ownership (opened, closed, handed over) by abstract interpretation",
		"Calls that give a handle are discovered from the types: every call out of the analysed code whose first result has a Close or Unmap method. Each function of the library, of the scripting module and each work function of the utilities is interpreted abstractly with its callbacks and deferred calls, on normal and on raising paths. For every handle that may have been opened on a path, the path must close it, or return it (with an error that may be nil) within the result, or store it in memory that outlives the function; handles opened in a loop must be closed in the same turn. The work functions of the utilities must close what they open. If a handle is returned within a new object, the object must hold it in a field and the Close method of that type is proved to close this field on every path, except where it is nil, and to return the result of that. Closing a union is proved to close the data access of every package in each turn of a loop over all packages, and to keep a failure.",
		[]string{"a nil error of an opening call means that the handle is open", "constructors of the runtime (Lua state) are handles, too"},
		func(c *Check) {
			c.Rule("every handle is closed or handed over")
			c.findInert()
			owned := map[string][]string{}
			for _, pkg := range []string{"", "/bulk", "/mmap", "/fsys", "/util", "/luawpk"} {
				for _, fn := range c.openerRoots(pkg) {
					e := c.Engine()
					e.NoInv = true
					if pkg == "/luawpk" {
						e = c.cmdEngine(fn)
					}
					e.Record = onlyHandles
					h := &handleCheck{c: c, fn: fn, owned: owned}
					outs := c.Run(e, fn, nil, nil)
					for i := range outs {
						h.state(&outs[i], outs[i].St, outs[i].Vals, false)
					}
				}
			}
			for _, cmd := range []string{"cmd/pack", "cmd/extract", "cmd/build"} {
				targets := c.openerRoots("/" + cmd)
				for _, fn := range c.errRoots(cmd, targets) {
					if fn.Name() == "main" && len(targets) == 0 {
						continue
					}
					e := c.cmdEngine(fn)
					e.Record = onlyHandles
					h := &handleCheck{c: c, fn: fn, owned: owned, strict: true}
					outs := c.Run(e, fn, nil, nil)
					for i := range outs {
						h.state(&outs[i], outs[i].St, outs[i].Vals, false)
					}
				}
			}
			c.AtLeast("opened handles", 20)

			c.Rule("closing an object closes the handles it holds")
			for key, fields := range owned {
				c.closes(key, fields)
			}
			c.AtLeast("closing objects", 3)

			c.Rule("closing a union closes every package")
			if fn := c.Fn(":Union.Close"); fn != nil {
				c.unionClose(fn)
			}
			c.AtLeast("closed packages", 1)
		})
}

func (c *Check) closes(key string, fields []string) {
	path, name, _ := strings.Cut(key, ":")
	if !strings.HasPrefix(path, ModPath) {
		return
	}
	fn := c.Fn(strings.TrimPrefix(strings.TrimPrefix(path, ModPath), "/") + ":" + name + ".Close")
	if fn == nil {
		return
	}
	for _, f := range fields {
		c.Inst("closing objects")
		e := c.Engine()
		ps := e.Params(fn)
		outs := c.Run(e, fn, nil, nil)
		for i := range outs {
			o := &outs[i]
			if o.Panic {
				continue
			}
			var a *Term
			sub := strings.TrimPrefix(path, ModPath)
			a = c.fieldAddr(ps[0], sub, name, f)
			held := o.St.load(a, under(a.Typ).(*types.Pointer).Elem())
			var by *Event
			for _, ev := range o.St.Events() {
				if ev.Kind == "call" && isClosing(ev.Method) && (unwrap(ev.Recv) == unwrap(held) || ev.Recv == a) {
					by = ev
				}
			}
			if by == nil {
				v, k := o.St.facts.Decide(eqT(held, tNil))
				c.Must(mustNil(o.St, held) || k && v, o.St, o.Pos, fn, "not closed "+f, "the handle in field %s is not closed", f)
				continue
			}
			if len(o.Vals) > 0 && by.NRes > 0 {
				c.Must(o.Vals[len(o.Vals)-1] == by.result(by.NRes-1) || mustNotNil(o.St, o.Vals[len(o.Vals)-1]) || mustNil(o.St, by.result(by.NRes-1)), o.St, o.Pos, fn, "result", "the result of closing is lost")
			}
		}
	}
}

func (c *Check) unionClose(fn *ssa.Function) {
	e := c.Engine()
	ps := e.Params(fn)
	outs := c.Run(e, fn, nil, nil)
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
			continue
		}
		list := c.packages(o.St, ps[0])
		closing := func(st *State, evs []*Event) (idx *Term, ev *Event, n int) {
			for _, x := range evs {
				if x.Kind == "call" && x.Method == "Close" {
					if p := holderOf(x.Recv); p != nil {
						if k := listIndex(p, list); k != nil {
							idx, ev = k, x
							n++
						}
					}
				}
			}
			return
		}
		var loop *Star
		for _, ev := range o.St.Events() {
			if ev.Star == nil {
				continue
			}
			for k := range ev.Star.Bodies {
				b := &ev.Star.Bodies[k]
				idx, cl, n := closing(b.St, b.St.Events())
				c.Inst("closed packages")
				if !c.Must(n == 1, b.St, o.Pos, fn, "each", "a package of the union is closed %d times", n) {
					continue
				}
				if k == 0 {
					loop = ev.Star
				}
				first, next := substT(idx, ev.Star.Init), substT(idx, b.Next)
				one, zero := intConst(1, tyInt), intConst(0, tyInt)
				hs := ev.Star.Header
				up := first != nil && hs.facts.ProveEq(first, zero) && next != nil && b.St.facts.ProveEq(next, addT(idx, one, tyInt)) &&
					o.St.facts.ProveGE(idx, lenT(list), 0)
				down := first != nil && hs.facts.ProveEq(first, subT(lenT(list), one, tyInt)) && next != nil && b.St.facts.ProveEq(next, subT(idx, one, tyInt)) &&
					o.St.facts.ProveGE(intConst(-1, tyInt), idx, 0)
				c.Must(up || down, o.St, o.Pos, fn, "all packages", "the loop does not go over all packages: from %v on with %v", first, next)
				// the failure is kept
				err := cl.result(0)
				for v := range ev.Star.Init {
					next := b.Next[v]
					if isErrors(v.Typ) {
						got := next.Op == "append" && next.Args[0] == v && next.any(func(x *Term) bool { return x == err })
						c.Must(got || next == v && mustNil(b.St, err), b.St, o.Pos, fn, "lost", "a failure to close a package is lost")
					}
					if v.Typ == nil || !isError(v.Typ) {
						continue
					}
					switch {
					case next == v:
						c.Must(mustNil(b.St, err) || mustNotNil(b.St, v), b.St, o.Pos, fn, "lost", "a failure to close a package is lost")
					case next == err:
						c.Must(mustNotNil(b.St, err) || mustNil(b.St, v), b.St, o.Pos, fn, "overwritten", "an earlier failure is overwritten by a success")
					case next.Op == "pure" && next.Aux == "errors.Join":
						has := next.any(func(x *Term) bool { return x == err }) && next.any(func(x *Term) bool { return x == v })
						c.Must(has, b.St, o.Pos, fn, "lost", "a failure to close a package is lost")
					default:
						c.Must(mustNotNil(b.St, next), b.St, o.Pos, fn, "lost", "a failure to close a package is lost")
					}
				}
			}
		}
		if loop == nil {
			c.Must(o.St.facts.ProveEq(lenT(list), intConst(0, tyInt)), o.St, o.Pos, fn, "loop", "the packages are not closed")
			continue
		}
		// the result is the kept failure
		ok := false
		for v := range loop.Init {
			if isErrors(v.Typ) {
				ok = ok || o.Vals[0].Op == "pure" && o.Vals[0].Aux == "errors.Join" && o.Vals[0].contains(v) || mustNotNil(o.St, o.Vals[0]) || o.St.facts.ProveEq(lenT(v), intConst(0, tyInt))
			}
			if v.Typ != nil && isError(v.Typ) {
				ok = ok || o.Vals[0] == v || mustNil(o.St, v) && mustNil(o.St, o.Vals[0]) || mustNotNil(o.St, o.Vals[0])
			}
		}
		c.Must(ok, o.St, o.Pos, fn, "result", "the result is %v, which is not the failure of closing", o.Vals[0])
	}
}

func isErrors(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isError(sl.Elem())
}
