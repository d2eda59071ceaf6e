package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// argsOf are the arguments of the script a value is made of.
func (a *scriptAPI) argsOf(t *Term) []int64 {
	has := map[int64]bool{}
	if t != nil {
		t.any(func(x *Term) bool {
			if strings.HasPrefix(callName(x), "(*"+luaPkg+".LState).") && x.Op != "res" && len(x.Args) > 1 && x.Args[0] == a.ls {
				if n, ok := x.Args[1].intVal(); ok {
					has[n] = true
				}
			}
			return false
		})
	}
	var out []int64
	for n := range has {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func sameInts(a []int64, b ...int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tagFuncs are the script functions on tags.
var tagFuncs = []string{"hastag", "gettag", "settag", "addtag", "deltag", "gettags", "settags", "addtags", "deltags", "getinfo", "setupinfo"}

func init() {
	register("C60", "abstract interpretation of the script functions on tags: provenance of identifiers, values and stored tagsets from the script's arguments, effects of each step of the walks over tables and tagsets",
		"The script functions on tags are interpreted abstractly for arbitrary arguments, packages and tagsets, with the conversions between script values and tags opaque. On every path that returns normally the identifier of each edit or look-up derives from the third argument only, the value from the fourth, the tagset from the second; the tagset stored is the result of these edits, and nothing is left unstored unless the edit is known to have no effect; a value given back tells the outcome of the edit or is the converted value of that tag. Functions on tables edit or give back exactly one tag in each step, with identifier and value of the same entry, walk until the end, and count what they changed. Package information is set from the table given and got back without any tag but identifier and path left out.",
		[]string{"conversions of script values are those of C36 and C41", "a walk over a script table that changes nothing meets every entry once"},
		func(c *Check) {
			own := c.Fn("luawpk:InitLuaVM")
			apis := c.script()
			if own == nil || len(apis) == 0 {
				return
			}
			a := apis[0]
			a.e.Access = nil
			opaque := map[string]bool{"ValueToTID": true, "ValueToTag": true, "TagToValue": true, "TableToTagset": true}
			a.e.Inline = func(f *ssa.Function) bool {
				if f.Parent() != nil || f.Synthetic != "" {
					return true
				}
				return fnPkg(f) == fnPkg(own) && !opaque[f.Name()] || takesFunc(f)
			}
			c.Rule("script functions on tags act on the tags they are told to")
			for _, n := range tagFuncs {
				f := a.Methods[n]
				if f == nil || f.Op != "func" && f.Op != "closure" {
					c.Fail(0, nil, n, "there is no script function %q", n)
					continue
				}
				fn := f.Obj.(*ssa.Function)
				outs := a.run(f, a.St.clone())
				c.Analysed(fn, outs)
				for i := range outs {
					o := &outs[i]
					t := &tagFunc{c: c, a: a, o: o, fn: fn, n: n}
					if o.Panic {
						c.Inst("raising paths")
						t.raises()
						continue
					}
					c.Inst("normal paths")
					t.check()
				}
			}
			c.AtLeast("normal paths", 14)
			c.AtLeast("raising paths", 20)
			c.AtLeast("single edits", 4)
			c.AtLeast("edit steps", 6)
			c.AtLeast("given back", 4)
			c.AtLeast("stored", 5)
		})
}

// tagFunc is one path of a script function on tags.
type tagFunc struct {
	c  *Check
	a  *scriptAPI
	o  *Outcome
	fn *ssa.Function
	n  string
}

func (t *tagFunc) must(cond bool, key, format string, args ...any) bool {
	return t.c.Must(cond, t.o.St, t.o.Pos, t.fn, key, format, args...)
}

// calls are the calls of a function on the path, outside of loops.
func (t *tagFunc) calls(name string) []*Event {
	var out []*Event
	for _, ev := range t.a.since(t.o.St) {
		if ev.Kind == "call" && (ev.Method == name || ev.Kind == "call" && strings.HasSuffix(ev.Name, "."+name)) {
			out = append(out, ev)
		}
	}
	return out
}

func (t *tagFunc) check() {
	o, a := t.o, t.a
	pushed := a.pushed(o.St)
	if len(o.Vals) == 1 {
		t.must(o.Vals[0].isInt(int64(len(pushed))), "results", "%q gives %d values but tells of %v", t.n, len(pushed), shortT(o.Vals[0]))
	}
	if t.n == "setupinfo" {
		set := t.calls("SetInfo")
		t.c.Inst("stored")
		if t.must(len(set) == 1, "info", "package information is set %d times", len(set)) {
			v := set[0].Args[len(set[0].Args)-1]
			t.must(sameInts(a.argsOf(v), 2) && t.converted(v, "TableToTagset"), "info", "package information is set to %v, not to the tags of the table given", shortT(v))
		}
		return
	}
	// the tagset
	var ts *Term
	look := "GetTagset"
	if t.n == "getinfo" {
		look = "GetInfo"
	}
	for _, ev := range t.calls(look) {
		if t.n == "getinfo" || len(ev.Args) > 0 && sameInts(a.argsOf(ev.Args[len(ev.Args)-1]), 2) {
			ts = ev.result(0)
		}
	}
	if !t.must(ts != nil, "file", "%q returns without looking for the tagset of the file given", t.n) {
		return
	}
	switch t.n {
	case "hastag", "gettag":
		t.lookup(ts, pushed)
	case "settag", "addtag", "deltag":
		t.single(ts, pushed)
	case "settags", "addtags", "deltags":
		t.many(ts, pushed)
	default:
		t.listed(ts, pushed)
	}
}

// protected tells that a tag is known to be one a script may not change.
func (t *tagFunc) protected(st *State, tid *Term) bool {
	for _, n := range guarded {
		if isTrue(st, eqT(tid, tidT(t.c.constInt("", n)))) {
			return true
		}
	}
	return false
}

// refused tells that one of the calls of a sequence has failed, so that there is an error to raise.
func (t *tagFunc) refused(st *State, evs []*Event) bool {
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		if ev.Method == "ArgError" || ev.Method == "TypeError" {
			return true
		}
		for _, n := range []string{"ValueToTID", "ValueToTag", "TagToValue", "TableToTagset"} {
			if strings.HasSuffix(ev.Name, "."+n) {
				for _, err := range errOf(ev) {
					if mustNotNil(st, err) {
						return true
					}
				}
				if n == "ValueToTID" && t.protected(st, ev.result(0)) {
					return true
				}
			}
		}
		if ev.Method == "GetTagset" && isFalse(st, ev.result(1)) {
			return true
		}
	}
	return false
}

// raises checks that an error is raised for a reason.
func (t *tagFunc) raises() {
	st := t.o.St
	evs := t.a.since(st)
	if t.refused(st, evs) {
		return
	}
	// errors collected in a loop
	good, some := true, false
	AllStars(evs, func(s *Star) {
		for _, b := range s.Bodies {
			if none := !errorsGrow(b); none {
				continue
			}
			if someNil(b) {
				continue
			}
			some = true
			good = good && t.refused(b.St, b.St.Events())
		}
	})
	t.must(good && some, "raises", "%q raises an error without a reason", t.n)
}

// errorsGrow tells that a list of errors gets longer in an iteration.
func errorsGrow(b Body) bool {
	for k, v := range b.Next {
		if v != nil && v != k && v.Typ != nil && isErrors(v.Typ) {
			return true
		}
	}
	return false
}

// someNil tells that an iteration puts nothing but nil into its lists of errors.
func someNil(b Body) bool {
	for k, v := range b.Next {
		if v == nil || v == k || v.Typ == nil || !isErrors(v.Typ) {
			continue
		}
		if v.Op != "append" || len(v.Args) < 2 {
			return false
		}
		for _, l := range v.Args[1:] {
			if l.Op != "elems" {
				return false
			}
			for _, x := range l.Args {
				if !mustNil(b.St, x) {
					return false
				}
			}
		}
	}
	return true
}

// converted tells that a value is the result of a conversion.
func (t *tagFunc) converted(v *Term, name string) bool {
	return v != nil && (v.Op == "call" || v.Op == "pure" || v.Op == "res") && strings.HasSuffix(callName(v), "."+name)
}

// tids are the identifiers converted from the third argument of the script.
func (t *tagFunc) tids() []*Term {
	var out []*Term
	for _, ev := range t.calls("ValueToTID") {
		if len(ev.Args) > 0 && t.a.arg(ev.Args[0], 3) {
			out = append(out, ev.result(0))
		}
	}
	return out
}

func (t *tagFunc) lookup(ts *Term, pushed []*Term) {
	st := t.o.St
	tids := t.tids()
	if !t.must(len(tids) > 0, "tag", "%q returns without converting the identifier given", t.n) {
		return
	}
	raw, has := tsLookup(ts, tids[0])
	if t.n == "hastag" {
		t.c.Inst("given back")
		good := len(pushed) == 1 && sameAnswer(st, pushed[0], has)
		t.must(good, "answer", "%q does not answer whether the tag given is present: %v", t.n, shortTs(pushed))
		return
	}
	if len(pushed) == 0 {
		t.must(isFalse(st, has), "answer", "%q gives nothing although the tag may be present", t.n)
		return
	}
	t.c.Inst("given back")
	t.must(isTrue(st, has), "answer", "%q gives a value although the tag may be absent", t.n)
	good := false
	for _, ev := range t.calls("TagToValue") {
		good = good || len(ev.Args) == 2 && sameVal(st, ev.Args[0], tids[0]) && sameVal(st, ev.Args[1], raw) && len(pushed) == 1 && pushed[0] == ev.result(0)
	}
	t.must(good, "value", "%q gives %v, not the value of the tag given", t.n, shortTs(pushed))
}

// changes tells when an edit changes a tagset in which a tag is present or not.
func (t *tagFunc) changes(has *Term) *Term {
	switch {
	case strings.HasPrefix(t.n, "add"):
		return notT(has)
	case strings.HasPrefix(t.n, "del"):
		return has
	}
	return tTrue
}

// answer tells what an edit answers when a tag is present or not.
func (t *tagFunc) answer(has *Term) *Term {
	if strings.HasPrefix(t.n, "del") {
		return has
	}
	return notT(has)
}

// isNought tells that a number of any type is the constant zero.
func isNought(t *Term) bool {
	if t.Op != "const" {
		return false
	}
	v := t.Obj.(constant.Value)
	return (v.Kind() == constant.Int || v.Kind() == constant.Float) && constant.Sign(v) == 0
}

// sameAnswer tells that a value given to the script is the truth of a condition.
func sameAnswer(st *State, v, cond *Term) bool {
	if x, ok := boolOf(st, v); ok {
		y, ok := truth(st, cond)
		return ok && x == y
	}
	return sameBool(st, unboxed(v), cond)
}

func (t *tagFunc) stores() []*Event {
	return append(t.calls("SetupTagset"), t.calls("SetTagset")...)
}

// edited tells that a tagset is the result of an edit.
func edited(ev *Event, t *Term) bool {
	if t == nil || t.Op != "res" || t.Aux != "0" {
		return false
	}
	p := t.Args[0]
	if p.Op != "pure" || p.Aux != tsPfx+ev.Method || len(p.Args) != len(ev.Args)+1 || p.Args[0] != ev.Recv {
		return false
	}
	for i, a := range ev.Args {
		if p.Args[i+1] != a {
			return false
		}
	}
	return true
}

// storesResult checks that the result of the edits is stored.
func (t *tagFunc) storesResult(is func(*Term) bool, needless bool) {
	stores := t.stores()
	if len(stores) == 0 {
		t.must(needless, "stored", "%q does not store the tagset it may have changed", t.n)
		return
	}
	t.c.Inst("stored")
	for _, ev := range stores {
		v := ev.Args[len(ev.Args)-1]
		t.must(is(v), "stored", "%q stores %v, not the result of the edit", t.n, shortT(v))
	}
}

// base tells that a tagset is the one of the file or a copy of it.
func base(ts, of *Term) bool {
	for ts.Op == "pure" && ts.Aux == "wpk.CopyTagset" {
		ts = ts.Args[0]
	}
	return ts == of
}

func (t *tagFunc) single(ts *Term, pushed []*Term) {
	st, a := t.o.St, t.a
	tids := t.tids()
	if !t.must(len(tids) > 0, "tag", "%q returns without converting the identifier given", t.n) {
		return
	}
	_, has := tsLookup(ts, tids[0])
	var edits []*Event
	for _, ev := range a.since(st) {
		if ev.Kind == "tsedit" {
			edits = append(edits, ev)
		}
	}
	if len(edits) == 0 {
		t.must(isFalse(st, t.changes(has)), "edit", "%q returns without an edit", t.n)
		t.must(len(t.stores()) == 0, "stored", "%q stores a tagset it has not edited", t.n)
	}
	for i, ev := range edits {
		t.c.Inst("single edits")
		t.c.Site(ev.Pos)
		t.must(i == 0 && base(ev.Recv, ts), "edit", "%q edits %v, not the tagset of the file given", t.n, shortT(ev.Recv))
		t.must(sameVal(st, ev.Args[0], tids[0]), "tag", "%q edits tag %v, not the one given", t.n, shortT(ev.Args[0]))
		if len(ev.Args) > 1 {
			v := ev.Args[1]
			good := false
			for _, cv := range t.calls("ValueToTag") {
				good = good || cv.result(0) == v && len(cv.Args) == 2 && sameVal(st, cv.Args[0], tids[0]) && a.arg(cv.Args[1], 4)
			}
			t.must(good, "value", "%q puts %v, not the value given", t.n, shortT(v))
		}
	}
	if n := len(edits); n > 0 {
		last := edits[n-1]
		t.storesResult(func(v *Term) bool { return edited(last, v) }, isFalse(st, t.changes(has)))
	}
	if len(pushed) > 0 {
		t.c.Inst("given back")
		t.must(len(pushed) == 1 && sameAnswer(st, pushed[0], t.answer(has)), "answer", "%q does not tell the outcome of the edit: %v", t.n, shortTs(pushed))
	}
}

// walked tells that a loop over a tagset with an iterator goes until its end: the last question
// for an entry after the loop is answered in the negative.
func (t *tagFunc) walked(s *Star, ts *Term) bool {
	past := false
	for _, ev := range t.a.since(t.o.St) {
		if ev.Star == s {
			past = true
		} else if past && ev.Kind == "call" && ev.Method == "Next" && isFalse(t.o.St, ev.result(0)) {
			return true
		}
	}
	return false
}

// entry tells that an identifier and a value are those of the entry an iterator is at, and of
// which tagset.
func entry(tid, tag *Term) (ts *Term, ok bool) {
	if tid == nil || tag == nil || tid.Op != "tsitid" || tag.Op != "tsitag" || len(tid.Args) != 2 || len(tag.Args) != 2 {
		return nil, false
	}
	return tid.Args[0], tid.Args[0] == tag.Args[0] && tid.Args[1] == tag.Args[1]
}

// scriptKeys tells that a loop goes over all entries of the table which is the third argument of
// the script; key is what it has for the key of an entry.
func (t *tagFunc) scriptKeys(s *Star, key *Term) bool {
	if s.Kind == "foreach" {
		return s.Key == key && s.Over != nil && sameInts(t.a.argsOf(s.Over), 3)
	}
	init := s.Init[key]
	if init == nil || init.Op != "res" || !strings.HasSuffix(callName(init), ".LTable).Next") {
		return false
	}
	call := callOf(init)
	if call == nil || len(call.Args) != 2 || !sameInts(t.a.argsOf(call.Args[0]), 3) {
		return false
	}
	for _, b := range s.Bodies {
		n := b.Next[key]
		if n == nil || n.Op != "res" || n.Aux != init.Aux || callName(n) != callName(init) {
			return false
		}
		nc := callOf(n)
		if nc == nil || nc.Args[0] != call.Args[0] || nc.Args[1] != key {
			return false
		}
	}
	return isTrue(t.o.St, eqT(key, call.Args[1]))
}

// convertedKey finds the key which a conversion in a loop's iteration gives an identifier for.
func convertedKey(b *Body, tid *Term) *Term {
	for _, ev := range b.St.Events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".ValueToTID") && len(ev.Args) > 0 && ev.result(0) == tid {
			return ev.Args[0]
		}
	}
	return nil
}

// keyList tells that a list has the identifiers of all keys of the script's table.
func (t *tagFunc) keyList(list *Term) bool {
	ok := false
	AllStars(t.a.since(t.o.St), func(s *Star) {
		init, has := s.Init[list]
		if !has || init == nil || !t.o.St.facts.ProveEq(lenT(init), intConst(0, types.Typ[types.Int])) {
			return
		}
		good := len(s.Bodies) > 0
		for i := range s.Bodies {
			b := &s.Bodies[i]
			n := b.Next[list]
			if n == nil || n.Op != "append" || len(n.Args) != 2 || n.Args[0] != list || n.Args[1].Op != "elems" || len(n.Args[1].Args) != 1 {
				good = good && someError(*b) // nothing is edited
				continue
			}
			key := convertedKey(b, n.Args[1].Args[0])
			good = good && key != nil && t.scriptKeys(s, key)
		}
		ok = ok || good
	})
	return ok
}

func (t *tagFunc) many(ts *Term, pushed []*Term) {
	st, a := t.o.St, t.a
	var loops []*Star
	AllStars(a.since(st), func(s *Star) {
		for _, b := range s.Bodies {
			for _, ev := range b.St.Events() {
				if ev.Kind == "tsedit" {
					loops = append(loops, s)
					return
				}
			}
		}
	})
	var count *Term
	if len(pushed) > 0 {
		count = unboxed(pushed[0])
		for count.Op == "conv" {
			count = count.Args[0]
		}
		t.must(len(pushed) == 1, "answer", "%q gives %d values", t.n, len(pushed))
	}
	if len(loops) == 0 {
		t.must(false, "edit", "%q returns without going over the tags given", t.n)
		return
	}
	s := loops[0]
	t.must(len(loops) == 1, "edit", "%q edits in %d loops", t.n, len(loops))
	if count != nil && s.Init[count] == nil {
		// a number known to be that of a counter
		for v, init := range s.Init {
			if init != nil && isInt(v.Typ) && s.Header.facts.ProveEq(init, intConst(0, v.Typ)) && (sameVal(st, v, count) || isNought(count) && st.facts.ProveGE(intConst(0, v.Typ), v, 0)) {
				count = v
				break
			}
		}
	}
	var cur *Term // the tagset edited
	for i := range s.Bodies {
		b := &s.Bodies[i]
		var edits []*Event
		for _, ev := range b.St.Events() {
			if ev.Kind == "tsedit" {
				edits = append(edits, ev)
			}
		}
		t.c.Inst("edit steps")
		if len(edits) != 1 {
			t.must(false, "edit", "%q edits %d tags for an entry of the table", t.n, len(edits))
			continue
		}
		ev := edits[0]
		t.c.Site(ev.Pos)
		if i == 0 {
			cur = ev.Recv
		}
		next := b.Next[cur]
		t.must(cur == ev.Recv && next != nil && edited(ev, next), "edit", "%q does not keep the result of the edit of an entry", t.n)
		_, has := tsLookup(cur, ev.Args[0])
		if len(ev.Args) > 1 {
			from, ok := entry(ev.Args[0], ev.Args[1])
			t.must(ok, "tag", "%q puts value %v as tag %v, not an entry of the table", t.n, shortT(ev.Args[1]), shortT(ev.Args[0]))
			if ok {
				of := false
				from.any(func(x *Term) bool {
					of = of || t.converted(x, "TableToTagset")
					return false
				})
				t.must(of && sameInts(a.argsOf(from), 3), "table", "%q goes over %v, not the tags of the table given", t.n, shortT(from))
				t.must(t.walked(s, from), "ends", "%q may end before the last entry", t.n)
			}
		} else {
			ok := false
			if key := convertedKey(b, ev.Args[0]); key != nil {
				ok = t.scriptKeys(s, key)
			} else if list := elementOf(ev.Args[0]); list != nil {
				var idx *Term
				ev.Args[0].any(func(x *Term) bool {
					if idx == nil && (x.Op == "iaddr" || x.Op == "elem" || x.Op == "index") && len(x.Args) > 1 {
						idx = x.Args[1]
					}
					return false
				})
				ok = idx != nil && everyIndex(st, s, b, idx, lenT(list)) && t.keyList(list)
			}
			t.must(ok, "tag", "%q edits tag %v, which is not that of each key of the table given", t.n, shortT(ev.Args[0]))
		}
		if count != nil {
			n := b.Next[count]
			one := intConst(1, types.Typ[types.Int])
			ch := t.changes(has)
			good := n != nil && s.Init[count] != nil && s.Header.facts.ProveEq(s.Init[count], intConst(0, types.Typ[types.Int]))
			switch {
			case !good:
			case isTrue(b.St, ch):
				good = b.St.facts.ProveEq(n, addT(count, one, types.Typ[types.Int]))
			case isFalse(b.St, ch):
				good = b.St.facts.ProveEq(n, count)
			default:
				good = false
			}
			t.must(good, "count", "%q does not count the tags it changes (%v)", t.n, shortT(count))
		}
	}
	if cur == nil {
		return
	}
	t.must(s.Init[cur] != nil && base(s.Init[cur], ts), "file", "%q does not edit the tagset of the file given", t.n)
	t.storesResult(func(v *Term) bool { return sameVal(st, v, cur) }, count != nil && st.facts.ProveGE(intConst(0, types.Typ[types.Int]), count, 0))
}

// listed checks the functions which give all tags of a tagset.
func (t *tagFunc) listed(ts *Term, pushed []*Term) {
	st, a := t.o.St, t.a
	if !t.must(len(pushed) == 1, "answer", "%q gives %d values", t.n, len(pushed)) {
		return
	}
	table := unboxed(pushed[0])
	t.c.Inst("given back")
	var loops []*Star
	for _, ev := range a.since(st) {
		if ev.Star != nil {
			set := false
			AllEvents([]*Event{ev}, func(x *Event, _ *Body) {
				set = set || x.Kind == "call" && strings.HasPrefix(x.Method, "RawSet")
			})
			if set {
				loops = append(loops, ev.Star)
			}
		}
	}
	if !t.must(len(loops) == 1, "walk", "%q goes over the tags %d times", t.n, len(loops)) {
		return
	}
	s := loops[0]
	t.must(t.walked(s, ts), "ends", "%q may end before the last tag", t.n)
	for i := range s.Bodies {
		b := &s.Bodies[i]
		var sets []*Event
		var tid *Term
		AllEvents(b.St.Events(), func(ev *Event, _ *Body) {
			if ev.Kind == "call" && strings.HasPrefix(ev.Method, "RawSet") {
				sets = append(sets, ev)
			}
		})
		if len(sets) == 0 {
			// which identifiers are passed over
			skip := false
			if t.n == "getinfo" {
				anyFact(b.St, func(x *Term) {
					if x.Op == "tsitid" {
						tid = x
					}
				})
				for _, n := range []string{"TIDfid", "TIDpath"} {
					skip = skip || tid != nil && isTrue(b.St, eqT(tid, tidT(t.c.constInt("", n))))
				}
			}
			t.must(skip, "skipped", "%q passes over a tag", t.n)
			continue
		}
		t.c.Inst("edit steps")
		ev := sets[0]
		t.c.Site(ev.Pos)
		if !t.must(len(sets) == 1 && len(ev.Args) >= 2 && ev.Recv == table, "table", "%q fills another table than it gives", t.n) {
			continue
		}
		var conv *Event
		for _, x := range b.St.Events() {
			if x.Kind == "call" && strings.HasSuffix(x.Name, ".TagToValue") && x.result(0) == unboxed(ev.Args[1]) {
				conv = x
			}
		}
		if !t.must(conv != nil && len(conv.Args) == 2, "value", "%q gives %v, not the value of the tag", t.n, shortT(ev.Args[1])) {
			continue
		}
		from, ok := entry(conv.Args[0], conv.Args[1])
		t.must(ok && from.contains(ts), "value", "%q gives value %v for tag %v, not an entry of the tagset asked for", t.n, shortT(conv.Args[1]), shortT(conv.Args[0]))
		t.must(ev.Args[0].contains(conv.Args[0]), "key", "%q gives the value of a tag under %v, not its own name or number", t.n, shortT(ev.Args[0]))
		if t.n == "getinfo" {
			for _, n := range []string{"TIDfid", "TIDpath"} {
				t.must(isFalse(b.St, eqT(conv.Args[0], tidT(t.c.constInt("", n)))), "skipped", "%q gives the identifier or the path as information", t.n)
			}
		}
	}
}
