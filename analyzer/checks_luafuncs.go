package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// argOf tells which argument of the script a value was made of alone, 0 if it is made of none.
func (a *scriptAPI) argOf(t *Term) (n int64, def *Term, ok bool) {
	ok = true
	t.any(func(x *Term) bool {
		if !strings.HasPrefix(callName(x), "(*"+luaPkg+".LState).") || len(x.Args) < 2 || x.Args[0] != a.ls {
			return false
		}
		i, is := x.Args[1].intVal()
		if !is || n != 0 && n != i {
			ok = false
			return false
		}
		n = i
		if len(x.Args) > 2 {
			def = x.Args[2]
		}
		return false
	})
	return
}

// within finds a call of one of the given functions in a value.
func within(t *Term, names ...string) (found *Term, result string) {
	t.any(func(x *Term) bool {
		for _, n := range names {
			if found != nil {
				return true
			}
			if callName(x) == n {
				found = callOf(x)
				if found == nil {
					found = x
				}
				if x.Op == "res" {
					result = x.Aux
				}
			}
		}
		return found != nil
	})
	return
}

// only tells that nothing but changes of type, and views of bytes and strings, is between
// a value and what it is made of.
func only(t *Term, is func(x *Term) bool) bool {
	for t != nil {
		if is(t) {
			return true
		}
		switch {
		case t.Op == "makeiface" || t.Op == "changetype" || t.Op == "chiface" || t.Op == "conv" && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == "res" && t.Aux == "0" && (callName(t) == "wpk/util.S2B" || callName(t) == "wpk/util.B2S"):
			t = callOf(t).Args[0]
		case t.Op == "call" && (callName(t) == "wpk/util.S2B" || callName(t) == "wpk/util.B2S"):
			t = t.Args[0]
		case t.Op == "str" && wholeOf(t.Args[0]) != nil:
			t = wholeOf(t.Args[0])
		default:
			return false
		}
	}
	return false
}

// computes lists the functions of the path library and the global ones whose result is
// that of one function of the arguments of the script.
var computes = map[string]struct {
	by   []string
	args []int64 // argument of the script for each parameter, 0 for any
}{
	"toslash":  {[]string{"wpk/util.ToSlash"}, []int64{1}},
	"clean":    {[]string{"path.Clean"}, []int64{1}},
	"volume":   {[]string{"path/filepath.VolumeName"}, []int64{1}},
	"dir":      {[]string{"path.Dir"}, []int64{1}},
	"base":     {[]string{"path.Base"}, []int64{1}},
	"name":     {[]string{"wpk/util.PathName"}, []int64{1}},
	"ext":      {[]string{"path.Ext"}, []int64{1}},
	"match":    {[]string{"path.Match"}, []int64{2, 1}},
	"envfmt":   {[]string{"wpk/util.Envfmt"}, []int64{1}},
	"bin2hex":  {[]string{"encoding/hex.EncodeToString"}, []int64{1}},
	"hex2bin":  {[]string{"encoding/hex.DecodeString"}, []int64{1}},
	"hasfile":  {[]string{"(*wpk.Package).HasTagset", "(*wpk.Package).GetTagset"}, []int64{0, 2}},
	"filesize": {[]string{"(*wpk.Package).GetTagset"}, []int64{0, 2}},
}

func init() {
	register("C58", "abstract interpretation of the registered script functions: symbolic results compared with the documented function of the script's arguments",
		"Every function of the path library and every global function that the registration binds (read off the interpreted registration, not from names in the source), and the questions about packages, are interpreted abstractly for arbitrary arguments of the script. On each path that does not raise, the values handed to the script, their number and the count reported to the machine are compared with the documented function of the documented arguments in their roles; loops over names are followed per iteration: each name is handed over once and in its order. The variables of a script are compared with the path it was started by.",
		[]string{"the Lua machine hands over the arguments and results by their places", "the functions of the standard library do what they document; C44, C46 and C54 are about those of the repository"},
		func(c *Check) {
			own := c.Fn("luawpk:InitLuaVM")
			apis := c.script()
			if own == nil || !c.Must(len(apis) > 0, nil, own.Pos(), own, "registration", "no path through the registration could be followed") {
				return
			}
			c.Rule("script functions compute the documented results of their arguments")
			_, _, paths, globals := c.documented()
			for _, a := range apis {
				for _, n := range paths {
					c.scriptFunc(a, n, a.Path[n])
				}
				for _, n := range globals {
					c.scriptFunc(a, n, a.Globals[n])
				}
				for _, n := range []string{"hasfile", "filesize", "glob", "sumsize"} {
					c.packFunc(a, n, a.Methods[n])
				}
				for n, f := range map[string]string{"tagnum": "(*wpk.FTT).TagsetNum", "datasize": "(*wpk.FTT).DataSize"} {
					c.sizeProp(a, n, a.Props[n][0], f)
				}
			}
			c.AtLeast("script functions", 25)
			c.Rule("a script runs with its own directory and only after the names are registered")
			c.runsScript()
		})
}

// called are the calls of a function of that name on a path and in its loops.
func (a *scriptAPI) called(st *State, names ...string) []*Event {
	var out []*Event
	AllEvents(a.since(st), func(ev *Event, _ *Body) {
		for _, n := range names {
			if ev.Kind == "call" && ev.Name == n {
				out = append(out, ev)
			}
		}
	})
	return out
}

func (c *Check) scriptOutcomes(a *scriptAPI, n string, f *Term, ok func(o *Outcome, fn *ssa.Function, push []*Term)) {
	if f == nil || f.Obj == nil {
		return // C40
	}
	fn, is := f.Obj.(*ssa.Function)
	if !is {
		return
	}
	c.Inst("script functions")
	outs := a.run(f, a.St.clone())
	c.Analysed(fn, outs)
	done := false
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue // raised (C38)
		}
		done = true
		c.Inst("results")
		c.Site(o.Pos)
		push := a.pushed(o.St)
		if n != "glob" { // in a loop
			k, known := int64(-1), false
			if len(o.Vals) == 1 {
				k, known = o.Vals[0].intVal()
			}
			if !c.Must(known && k == int64(len(push)), o.St, o.Pos, fn, n+" count", "script function %s hands over %d values, but tells the machine of %v", n, len(push), o.Vals) {
				continue
			}
		}
		ok(o, fn, push)
	}
	c.Must(done, nil, fn.Pos(), fn, n+" result", "script function %s never returns", n)
}

func (c *Check) scriptFunc(a *scriptAPI, n string, f *Term) {
	c.scriptOutcomes(a, n, f, func(o *Outcome, fn *ssa.Function, push []*Term) {
		st := o.St
		bad := func(key, format string, args ...any) {
			c.FailT(st, o.Pos, fn, n+" "+key, "script function "+n+": "+format, args...)
		}
		isArg := func(i int64) func(t *Term) bool {
			return func(t *Term) bool { return a.arg(t, i) }
		}
		if s, ok := computes[n]; ok {
			if len(push) != 1 {
				bad("values", "%d values are handed over, not one", len(push))
				return
			}
			call, res := within(push[0], s.by...)
			if b, known := boolOf(st, push[0]); known && call == nil { // on each branch
				for _, name := range s.by {
					if r := a.asked(st, name); r != nil && sameBool(st, firstOf(r), boolT(b)) {
						call, res = callOf(r), "0"
						if call == nil {
							call = r
						}
						push[0] = call
					}
				}
			}
			if call == nil && n == "bin2hex" {
				if f, _ := within(push[0], "fmt.Sprintf"); f != nil && f.Args[0].isStr("%x") && len(f.Args) == 2 && len(f.Args[1].Args) == 1 &&
					only(push[0], func(x *Term) bool { return x == f }) {
					c.Must(only(f.Args[1].Args[0], isArg(1)), st, o.Pos, fn, n+" argument", "%v is encoded, not argument 1 of the script", shortT(f.Args[1]))
					return
				}
			}
			if call == nil || res != "" && res != "0" || !only(push[0], func(x *Term) bool { return x == call || callOf(x) == call }) {
				bad("value", "the result is %v, not that of %s", shortT(push[0]), s.by[0])
				return
			}
			for i, k := range s.args {
				if k != 0 && (i >= len(call.Args) || !only(call.Args[i], isArg(k)) && !(call.Args[i].Op == "bytes" && only(st.sliceBytes(call.Args[i]), isArg(k)))) {
					bad("argument", "%s gets %v in place %d, not argument %d of the script", s.by[0], shortT(call.Args[i]), i+1, k)
				}
			}
			if n == "envfmt" {
				c.Must(len(call.Args) == 2 && isZero(call.Args[1]), st, o.Pos, fn, n+" map", "references are resolved from something else than the environment")
			}
			return
		}
		switch n {
		case "split":
			if len(push) != 2 {
				bad("values", "%d values are handed over, not two", len(push))
				return
			}
			for i, v := range push {
				call, res := within(v, "path.Split")
				if call == nil || res != []string{"0", "1"}[i] || !only(v, func(x *Term) bool { return callOf(x) == call }) || !only(call.Args[0], isArg(1)) {
					bad("value", "value %d is %v, not that part of the path", i+1, shortT(v))
				}
			}
		case "log":
			c.Must(len(push) == 0, st, o.Pos, fn, n+" values", "logging hands over values")
			logged := false
			for _, ev := range a.since(st) {
				if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "log.") || strings.HasPrefix(ev.Name, "(*log.Logger).")) {
					for _, x := range ev.Args {
						logged = logged || a.holds(st, x, 1)
					}
				}
			}
			c.Must(logged, st, o.Pos, fn, n, "the text is not written to the log")
		case "milli2time":
			if len(push) != 1 {
				bad("values", "%d values are handed over, not one", len(push))
				return
			}
			call, _ := within(push[0], "(time.Time).Format")
			if call == nil || len(call.Args) != 2 || !only(push[0], func(x *Term) bool { return x == call }) {
				bad("value", "the result is %v, not a formatted time", shortT(push[0]))
				return
			}
			tm := call.Args[0]
			for tm.Op == "call" && (callName(tm) == "(time.Time).UTC" || callName(tm) == "(time.Time).Local") {
				tm = tm.Args[0]
			}
			c.Must(a.millis(tm), st, o.Pos, fn, n+" time", "the time is %v, not that of the milliseconds of argument 1", shortT(tm))
			c.Must(a.layout(call.Args[1]), st, o.Pos, fn, n+" layout", "the layout is %v, not argument 2 with the documented default", shortT(call.Args[1]))
		case "time2milli":
			if len(push) != 1 {
				bad("values", "%d values are handed over, not one", len(push))
				return
			}
			call, _ := within(push[0], "(time.Time).UnixMilli")
			if call == nil || !only(push[0], func(x *Term) bool { return x == call }) {
				bad("value", "the result is %v, not in milliseconds", shortT(push[0]))
				return
			}
			p, res := within(call.Args[0], "time.Parse")
			if !c.Must(p != nil && res == "0" && only(call.Args[0], func(x *Term) bool { return callOf(x) == p }), st, o.Pos, fn, n+" time", "the time is %v, not a parsed one", shortT(call.Args[0])) {
				return
			}
			c.Must(a.layout(p.Args[0]), st, o.Pos, fn, n+" layout", "the layout is %v, not argument 2 with the documented default", shortT(p.Args[0]))
			c.Must(only(p.Args[1], isArg(1)), st, o.Pos, fn, n+" argument", "the text parsed is %v, not argument 1", shortT(p.Args[1]))
		case "checkfile":
			evs := a.called(st, "os.Stat", "os.Lstat")
			if !c.Must(len(evs) == 1 && only(evs[0].Args[0], isArg(1)), st, o.Pos, fn, n+" file", "it is not asked for the file of argument 1") {
				return
			}
			err := evs[0].result(1)
			if !c.Must(len(push) >= 1 && len(push) <= 2, st, o.Pos, fn, n+" values", "%d values are handed over, not one or two", len(push)) {
				return
			}
			is, known := boolOf(st, push[0])
			if !c.Must(known, st, o.Pos, fn, n+" first", "the first value is %v, which is not decided", shortT(push[0])) {
				return
			}
			if is {
				c.Must(mustNil(st, err), st, o.Pos, fn, n+" exists", "a file that cannot be found may be said to exist")
				if c.Must(len(push) == 2, st, o.Pos, fn, n+" kind", "it is not told whether the path is a file") {
					isDir := []string{"(io/fs.FileInfo).IsDir", "(io/fs.FileMode).IsDir"}
					dir, _ := within(push[1], isDir...)
					v := unboxed(push[1])
					own := func(d *Term) bool {
						if callName(d) == isDir[1] {
							d = d.Args[0]
							if callName(d) != "(io/fs.FileInfo).Mode" {
								return false
							}
						}
						return d.Args[0] == evs[0].result(0)
					}
					if b, known := boolOf(st, v); known && dir == nil { // on each branch
						d := a.asked(st, isDir...)
						c.Must(d != nil && own(d) && sameBool(st, d, notT(boolT(b))), st, o.Pos, fn, n+" kind", "the second value is %v, not whether the path is a file", shortT(v))
					} else {
						c.Must(dir != nil && own(dir) && sameBool(st, v, notT(dir)), st, o.Pos, fn, n+" kind", "the second value is %v, not whether the path is a file", shortT(v))
					}
				}
				return
			}
			c.Must(mustNotNil(st, err), st, o.Pos, fn, n+" missing", "a file that is found may be said not to exist")
			if len(push) == 2 {
				call, _ := within(push[1], "(error).Error")
				c.Must(call != nil && call.Args[0] == err, st, o.Pos, fn, n+" message", "the second value is %v, not the error that occurred", shortT(push[1]))
			} else {
				c.Must(c.recognised(st, err), st, o.Pos, fn, n+" reason", "an error that occurred is not told")
			}
		case "join":
			if len(push) != 1 {
				bad("values", "%d values are handed over, not one", len(push))
				return
			}
			call, _ := within(push[0], "path.Join")
			if call == nil || !only(push[0], func(x *Term) bool { return x == call }) {
				bad("value", "the result is %v, not that of path.Join", shortT(push[0]))
				return
			}
			c.joined(a, o, fn, call.Args[0])
		case "glob", "enum":
			src, res := "path/filepath.Glob", 0
			if n == "enum" {
				src = "(*os.File).Readdirnames"
			}
			evs := a.called(st, src, "(*os.File).ReadDir", "(*os.File).Readdir", "os.ReadDir")
			if !c.Must(len(evs) == 1, st, o.Pos, fn, n+" names", "names are not asked for once") {
				return
			}
			ev := evs[0]
			if n == "glob" {
				c.Must(only(ev.Args[0], isArg(1)), st, o.Pos, fn, n+" argument", "the pattern is %v, not argument 1", shortT(ev.Args[0]))
			} else {
				op := a.called(st, "os.Open")
				c.Must(len(op) == 1 && only(op[0].Args[0], isArg(1)) && ev.Recv == op[0].result(0), st, o.Pos, fn, n+" argument", "the directory read is not that of argument 1")
				k, def, ok := a.argOf(ev.Args[0])
				c.Must(ok && k == 2 && def != nil && def.isInt(-1), st, o.Pos, fn, n+" limit", "the limit is %v, not argument 2, by default without limit", shortT(ev.Args[0]))
			}
			c.handedOver(a, o, fn, n, ev.result(res), push)
		default:
			bad("unknown", "it is documented, and not known to the check")
		}
	})
}

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// boolOf decides a boolean value that is handed to a script.
func boolOf(st *State, t *Term) (val, known bool) {
	if u := unboxed(t); isGlobal(u, luaPkg+".LTrue") || isGlobal(u, luaPkg+".LFalse") {
		return isGlobal(u, luaPkg+".LTrue"), true
	}
	return st.facts.Decide(unboxed(t))
}

// asked is the result of the last call of a function on a path.
func (a *scriptAPI) asked(st *State, names ...string) *Term {
	var r *Term
	for _, ev := range a.called(st, names...) {
		r = ev.result(0)
	}
	if r != nil {
		return r
	}
	for f := range st.facts.truth {
		f.any(func(x *Term) bool {
			for _, name := range names {
				if callName(x) == name {
					r = x
				}
			}
			return false
		})
	}
	return r
}

// firstOf is the first result of a call.
func firstOf(t *Term) *Term {
	if t.Op == "call" {
		return mk("res", "0", t.Typ, t)
	}
	return t
}

// recognised tells that the kind of an error is known on a path.
func (c *Check) recognised(st *State, err *Term) bool {
	return notExist(st, err) || isNotExist(err)
}

// holds tells that a value, or an element of a list of values, is an argument of the script.
func (a *scriptAPI) holds(st *State, t *Term, n int64) bool {
	if only(t, func(x *Term) bool { return a.arg(x, n) }) {
		return true
	}
	base, _ := span(t)
	for at, v := range st.mem {
		if at.Op == "iaddr" && addrRoot(at) == addrRoot(base) && only(v, func(x *Term) bool { return a.arg(x, n) }) {
			return true
		}
	}
	return false
}

// millis tells that a time is made of argument 1 in milliseconds.
func (a *scriptAPI) millis(t *Term) bool {
	isArg := func(x *Term) bool { return a.arg(x, 1) }
	switch callName(t) {
	case "time.UnixMilli":
		return only(t.Args[0], isArg)
	case "time.Unix":
		k, _, ok := a.argOf(t.Args[0])
		k2, _, ok2 := a.argOf(t.Args[1])
		if !ok || !ok2 || k > 1 || k2 > 1 {
			return false
		}
		var arg *Term
		find := func(x *Term) bool {
			if a.arg(x, 1) && x.Op != "conv" && x.Op != "changetype" {
				arg = x
			}
			return false
		}
		t.Args[0].any(find)
		t.Args[1].any(find)
		if arg == nil {
			return false
		}
		i64 := types.Typ[types.Int64]
		sec, ms := mk("div", "", i64, arg, intConst(1000, i64)), mk("mod", "", i64, arg, intConst(1000, i64))
		nano := ring(intConst(0, i64), i64).clone()
		nano.add(ring(ms, i64), big.NewInt(1000000))
		return same(t.Args[0], sec) && same(t.Args[1], linTerm(nano, i64))
	}
	return false
}

func same(a, b *Term) bool { return a == b || unboxed(a) == unboxed(b) }

// layout tells that a layout is argument 2, by default the documented one.
func (a *scriptAPI) layout(t *Term) bool {
	k, def, ok := a.argOf(t)
	if !ok || k != 2 || def == nil {
		return false
	}
	s, is := unboxed(def).strVal()
	return is && s == "2006-01-02T15:04:05.999Z07:00"
}

// everyIndex tells that a loop goes over all elements of a list of given length, one by one
// from the first, when idx is the place of the element an iteration is about.
func everyIndex(st *State, s *Star, b *Body, idx, length *Term) bool {
	one, zero := intConst(1, tyInt), intConst(0, tyInt)
	first, next := substT(idx, s.Init), substT(idx, b.Next)
	return first != nil && s.Header.facts.ProveEq(first, zero) && next != nil && b.St.facts.ProveEq(next, addT(idx, one, tyInt)) && st.facts.ProveGE(idx, length, 0)
}

// stars are the loops on the path of a script function.
func (a *scriptAPI) stars(st *State) []*Star {
	var out []*Star
	for _, ev := range a.since(st) {
		if ev.Star != nil {
			out = append(out, ev.Star)
		}
	}
	return out
}

// joined checks that a list has all arguments of the script in their order.
func (c *Check) joined(a *scriptAPI, o *Outcome, fn *ssa.Function, list *Term) {
	st, one := o.St, intConst(1, tyInt)
	var top *Term
	find := func(t *Term) {
		if t == nil {
			return
		}
		t.any(func(x *Term) bool {
			if strings.HasSuffix(callName(x), "LState).GetTop") {
				top = x
			}
			return false
		})
	}
	find(list)
	for f := range st.facts.truth {
		find(f)
	}
	ok := false
	for _, s := range a.stars(st) {
		for k := range s.Bodies {
			b := &s.Bodies[k]
			elem := func(v *Term) *Term { // number of the argument
				v = unboxed(v)
				if strings.HasPrefix(callName(v), "(*"+luaPkg+".LState).") && len(v.Args) > 1 && v.Args[0] == a.ls {
					return v.Args[1]
				}
				return nil
			}
			for at, v := range b.St.mem {
				if at.Op == "iaddr" && addrRoot(at) == addrRoot(list) && elem(v) != nil && top != nil {
					idx := at.Args[1]
					ok = b.St.facts.ProveEq(elem(v), addT(idx, one, tyInt)) && everyIndex(st, s, b, idx, top) &&
						s.Header.facts.ProveEq(lenT(list), top)
				}
			}
			for v := range s.Init {
				n := b.Next[v]
				if top == nil || n == nil || v != list || n.Op != "append" || n.Args[0] != v || !s.Header.facts.ProveEq(lenT(s.Init[v]), intConst(0, tyInt)) {
					continue
				}
				if els, is := appended(n, v); is && len(els) == 1 && elem(els[0]) != nil {
					ok = everyIndex(st, s, b, subT(elem(els[0]), one, tyInt), top)
				}
			}
		}
	}
	c.Must(ok, st, o.Pos, fn, "join elements", "it is not shown that %v has all arguments of the script in their order", shortT(list))
}

// handedOver checks that all names of a list are handed to the script in their order.
func (c *Check) handedOver(a *scriptAPI, o *Outcome, fn *ssa.Function, n string, list *Term, push []*Term) {
	st := o.St
	var table *Term
	if n == "enum" {
		if !c.Must(len(push) == 1, st, o.Pos, fn, n+" values", "%d values are handed over, not one table", len(push)) {
			return
		}
		table = unboxed(push[0])
	} else {
		c.Must(len(o.Vals) == 1 && st.facts.ProveEq(o.Vals[0], lenT(list)), st, o.Pos, fn, n+" count", "the machine is told of %v values, not of the number of names", o.Vals)
	}
	if st.facts.ProveEq(lenT(list), intConst(0, tyInt)) {
		return
	}
	// the names are not changed before
	plain := func(v *Term) *Term {
		v = unboxed(v)
		if callName(v) == "wpk/util.ToSlash" || callName(v) == "path/filepath.ToSlash" {
			v = unboxed(v.Args[0])
		}
		return v
	}
	changed := func(in *State) {
		for at, v := range in.mem {
			if at.Op == "iaddr" && addrRoot(at) == addrRoot(list) && listIndex(plain(v), at.Args[0]) != at.Args[1] {
				c.FailT(in, o.Pos, fn, n+" changed", "names are changed before they are handed over: %v", shortT(v))
			}
		}
	}
	if n != "glob" || callOf(list) != nil {
		changed(st)
		for _, s := range a.stars(st) {
			for k := range s.Bodies {
				changed(s.Bodies[k].St)
			}
		}
	}
	found := false
	for _, s := range a.stars(st) {
		hands := make([]int, len(s.Bodies))
		any := false
		for k := range s.Bodies {
			b := &s.Bodies[k]
			for _, ev := range b.St.Events() {
				if ev.Kind != "call" {
					continue
				}
				var v, at *Term
				switch {
				case table == nil && ev.Method == "Push" && ev.Recv == a.ls:
					v = ev.Args[0]
				case table != nil && ev.Method == "RawSetInt" && unboxed(ev.Recv) == table:
					at, v = ev.Args[0], ev.Args[1]
				case table != nil && ev.Method == "Append" && unboxed(ev.Recv) == table:
					v = ev.Args[0]
				}
				if v == nil {
					continue
				}
				idx := listIndex(plain(v), list)
				c.Must(idx != nil && everyIndex(st, s, b, idx, lenT(list)) && (at == nil || b.St.facts.ProveEq(at, addT(idx, intConst(1, tyInt), tyInt))),
					b.St, o.Pos, fn, n+" name", "it is not shown that each name is handed over once and in its order: %v", shortT(v))
				hands[k]++
				any = true
			}
		}
		for k := range hands {
			c.Must(!any || hands[k] == 1, s.Bodies[k].St, o.Pos, fn, n+" left out", "a name can be left out, or handed over again")
		}
		found = found || any
	}
	c.Must(found, st, o.Pos, fn, n+" names", "names are not handed to the script")
}

// packFunc checks the answers about a package.
func (c *Check) packFunc(a *scriptAPI, n string, f *Term) {
	enum := "(*wpk.Package).Enum" // names of the entries by the workspace, in their order
	a.e.Models[enum] = func(c *Call) ([]Outcome, bool) {
		sub := *c
		return defaultModels["(*wpk/util.SeqMap).Range"](&sub)
	}
	defer delete(a.e.Models, enum)
	c.scriptOutcomes(a, n, f, func(o *Outcome, fn *ssa.Function, push []*Term) {
		st := o.St
		isKey := func(t *Term) bool { return a.arg(t, 2) }
		one := func() bool {
			return c.Must(len(push) == 1, st, o.Pos, fn, n+" values", "%d values are handed over, not one", len(push))
		}
		switch n {
		case "hasfile":
			if !one() {
				return
			}
			ok := false
			for _, ev := range a.called(st, "(*wpk.Package).HasTagset", "(*wpk.Package).GetTagset") {
				if len(ev.Args) == 1 && only(ev.Args[0], isKey) {
					has := ev.result(ev.NRes - 1)
					ok = ok || sameBool(st, unboxed(push[0]), has)
				}
			}
			c.Must(ok, st, o.Pos, fn, n+" answer", "the answer is %v, not whether there is a file with the name of argument 2", shortT(push[0]))
		case "filesize":
			if !one() {
				return
			}
			ok := false
			for _, ev := range a.called(st, "(*wpk.Package).GetTagset") {
				ts := ev.result(0)
				size, _ := tsGet(ts, tidT(c.constInt("", "TIDsize")), "TagUint", types.Typ[types.Uint])
				ok = ok || len(ev.Args) == 1 && only(ev.Args[0], isKey) && only(push[0], func(x *Term) bool {
					return x == size || callName(x) == "(wpk.TagsetRaw).Size" && x.Args[0] == ts || sameVal(st, x, size)
				})
			}
			c.Must(ok, st, o.Pos, fn, n+" answer", "the answer is %v, not the size of the file of argument 2", shortT(push[0]))
		case "sumsize", "glob":
			c.overTable(a, o, fn, n, push)
		}
	})
}

// overTable checks what is made of all entries of a package.
func (c *Check) overTable(a *scriptAPI, o *Outcome, fn *ssa.Function, n string, push []*Term) {
	st := o.St
	stars := a.stars(st)
	walk := false
	for _, s := range stars {
		if s.Kind != "range" || s.Over == nil || !(isTableWalk(s) || strings.HasSuffix(s.Over.Typ.String(), "wpk.Package")) {
			continue
		}
		walk = true
		var sum *Term // counts
		for v, init := range s.Init {
			if init != nil && init.isInt(0) && isInt(v.Typ) {
				switch {
				case n == "glob" && len(o.Vals) == 1 && o.Vals[0] == v, n == "sumsize" && len(push) == 1 && only(push[0], func(x *Term) bool { return x == v }):
					sum = v
				}
			}
		}
		for v, init := range s.Init {
			sl, ok := under(v.Typ).(*types.Slice)
			if n == "glob" && ok && isString(sl.Elem()) && init != nil && st.facts.ProveEq(lenT(init), intConst(0, tyInt)) && len(o.Vals) == 1 && st.facts.ProveEq(o.Vals[0], lenT(v)) {
				sum = v // names gathered first
			}
		}
		gathers := sum != nil && !isInt(sum.Typ)
		if gathers {
			c.handedOver(a, o, fn, n, sum, push)
		}
		if !c.Must(sum != nil, st, o.Pos, fn, n+" count", "the result is not counted from zero over all entries") {
			continue
		}
		for k := range s.Bodies {
			b := &s.Bodies[k]
			next := b.Next[sum]
			if next == nil {
				next = sum
			}
			if n == "sumsize" {
				size, _ := tsGet(s.Val, tidT(c.constInt("", "TIDsize")), "TagUint", types.Typ[types.Uint])
				d := subT(next, sum, types.Typ[types.Int64])
				c.Must(only(d, func(x *Term) bool {
					return x == size || callName(x) == "(wpk.TagsetRaw).Size" && x.Args[0] == s.Val
				}), b.St, o.Pos, fn, n+" sum", "an entry adds %v, not its size", shortT(d))
				continue
			}
			var got []*Term
			for _, ev := range b.St.Events() {
				if ev.Kind == "call" && ev.Method == "Push" && ev.Recv == a.ls {
					got = append(got, unboxed(ev.Args[0]))
				}
			}
			var match *Term
			for f := range b.St.facts.truth {
				f.any(func(x *Term) bool {
					if x.Op == "res" && x.Aux == "0" && callName(x) == "path.Match" && (x.Args[0].Args[1] == s.Key || sameVal(b.St, x.Args[0].Args[1], s.Key)) {
						match = x
					}
					return false
				})
			}
			is, known := false, false
			if match != nil {
				is, known = b.St.facts.Decide(match)
			}
			if !c.Must(known && only(match.Args[0].Args[0], func(x *Term) bool { return a.arg(x, 2) || callName(x) == "wpk/util.ToSlash" && a.arg(x.Args[0], 2) }), b.St, o.Pos, fn, n+" match", "it is not decided whether the name of an entry matches the pattern of argument 2") {
				continue
			}
			w := 0
			if is {
				w = 1
			}
			if gathers {
				els, ok := appended(next, sum)
				c.Must(ok && len(els) == w && (w == 0 || els[0] == s.Key), b.St, o.Pos, fn, n+" name", "an entry that matches (%v) adds %d names", is, len(els))
				continue
			}
			c.Must(len(got) == w && (w == 0 || got[0] == s.Key), b.St, o.Pos, fn, n+" name", "an entry that matches (%v) hands over %d values", is, len(got))
			c.Must(b.St.facts.ProveEq(next, addT(sum, intConst(int64(w), tyInt), tyInt)), b.St, o.Pos, fn, n+" count", "the count of values is not kept")
		}
	}
	c.Must(walk, st, o.Pos, fn, n+" entries", "the entries of the package are not gone over")
}

func (c *Check) sizeProp(a *scriptAPI, n string, f *Term, by string) {
	c.scriptOutcomes(a, n, f, func(o *Outcome, fn *ssa.Function, push []*Term) {
		c.Must(len(push) == 1 && only(push[0], func(x *Term) bool { return callName(x) == by }), o.St, o.Pos, fn, n+" value", "the value is %v, not that of %s", push, by)
	})
}

// runsScript checks how a script is started.
func (c *Check) runsScript() {
	fn := c.Fn("luawpk:RunLuaVM")
	if fn == nil {
		return
	}
	e := c.Engine()
	e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == fnPkg(fn) }
	p := e.Params(fn)[0]
	outs := c.Run(e, fn, nil, nil)
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue
		}
		var dir, run *Event
		var pcall *Event // of a loaded script
		pushed := false
		regs, late := 0, 0
		for _, ev := range o.St.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Method == "SetGlobal" && ev.Args[0].isStr("scrdir"):
				dir = ev
			case ev.Method == "DoFile" || ev.Method == "LoadFile":
				run = ev
			case ev.Method == "Push" && run != nil && ev.Recv == run.Recv && unboxed(ev.Args[0]) == run.result(0):
				pushed = true
			case ev.Method == "PCall" && run != nil && ev.Recv == run.Recv && ev.Args[0].isInt(0) && pushed:
				pcall = ev
			case strings.HasSuffix(ev.Name, ").RegisterModule") || strings.HasSuffix(ev.Name, ").SetGlobal"):
				regs++
				if run != nil {
					late++
				}
			}
		}
		if run != nil && run.Method == "LoadFile" {
			if pcall == nil {
				c.Must(mustNotNil(o.St, run.result(1)) && len(o.Vals) == 1 && mustNotNil(o.St, o.Vals[0]), o.St, o.Pos, fn, "not run", "a script is loaded, but not run, and no error tells it")
				continue
			}
		}
		if run == nil {
			c.Must(len(o.Vals) == 1 && mustNotNil(o.St, o.Vals[0]), o.St, o.Pos, fn, "not run", "a script is not run, and no error tells it")
			continue
		}
		c.Inst("script runs")
		c.Must(run.Args[0] == p, o.St, o.Pos, fn, "file", "the script run is %v, not the given one", shortT(run.Args[0]))
		end := run
		if pcall != nil {
			end = pcall
		}
		c.Must(len(o.Vals) == 1 && (o.Vals[0] == end.result(0) || mustNotNil(o.St, o.Vals[0]) || mustNil(o.St, end.result(0))), o.St, o.Pos, fn, "failure", "the failure of a script is lost")
		c.Must(regs > 2 && late == 0, o.St, o.Pos, fn, "late", "names are registered after the script has run, or not at all")
		if c.Must(dir != nil && dir.Recv == run.Recv, o.St, o.Pos, fn, "directory", "the script does not get its directory") {
			d, _ := within(dir.Args[1], "path.Dir")
			c.Must(d != nil && only(dir.Args[1], func(x *Term) bool { return x == d }) && (d.Args[0] == toSlash(p) || sameVal(o.St, d.Args[0], toSlash(p))),
				o.St, o.Pos, fn, "directory value", "the directory of the script is %v", shortT(dir.Args[1]))
		}
	}
	c.AtLeast("script runs", 1)
}
