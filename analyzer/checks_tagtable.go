package main

import (
	"fmt"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tagDoc is a line of the documented table of tags.
type tagDoc struct {
	name string
	id   int64
	typ  string // number, string, time, hex
}

// documentedTags reads the table of named tags of the documentation of scripts.
func (c *Check) documentedTags() []tagDoc {
	b, err := os.ReadFile(filepath.Join(c.P.Dir, "testdata", "api.lua"))
	if err != nil {
		c.Fail(0, nil, "api.lua", "the scripting documentation cannot be read: %v", err)
		return nil
	}
	line := regexp.MustCompile(`^\t([a-z0-9]+)\s+(\d+)\s+(number|string time|string|hex string).*$`)
	var out []tagDoc
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r", ""), "\n") {
		if m := line.FindStringSubmatch(l); m != nil {
			d := tagDoc{name: m[1], typ: m[3]}
			fmt.Sscan(m[2], &d.id)
			out = append(out, d)
		}
	}
	return out
}

// tableOf lists what a map holds that is made by events with constant keys, numbers and strings.
func tableOf(evs []*Event, m *Term) (map[string]*Term, map[int64]*Term, bool) {
	names, nums, ok := map[string]*Term{}, map[int64]*Term{}, m != nil && m.Op == "makemap"
	for _, ev := range evs {
		if (ev.Kind == "mapdelete" || ev.Kind == "mapclear") && ev.Args[0] == m {
			ok = false
		}
		if ev.Kind != "mapupdate" || len(ev.Args) < 3 || ev.Args[0] != m {
			continue
		}
		k, v := ev.Args[1], ev.Args[2]
		if s, is := k.strVal(); is {
			names[s] = v
		} else if n, is := k.intVal(); is {
			nums[n] = v
		} else {
			ok = false
		}
	}
	return names, nums, ok
}

// bare strips conversions.
func bare(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "changetype" || t.Op == "makeiface") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// unordered tells that an iteration belongs to a walk over a map.
func unordered(b *Body) bool {
	for t, v := range b.St.facts.truth {
		if v && t.Op == "nextok" {
			return true
		}
	}
	return false
}

func init() {
	register("C41", "abstract interpretation of the package initialisation of the scripting module and of its conversions, compared with the documented table of tags",
		"The initialisation of the scripting module is interpreted; its tables from names to numbers and from numbers to value types are compared with the table of named tags of the documentation. The table of reported names is proved to hold for every documented tag a name which leads to that tag, chosen independently of the order of walks over maps. None of the tables is changed outside of the initialisation. Every path of ValueToTID, ValueToTag and TagToValue is interpreted for every value type: names and numbers give the tag they stand for, values are encoded from the value given, parse failures and other kinds of values end with an error, and each encoding is accepted by TagToValue of the same type, which delivers the decoded value in the documented form.",
		[]string{"numbers of scripts are in the range of what they are stored as", "the encodings themselves are the subject of C13"},
		func(c *Check) {
			c.tagTables()
		})
}

func (c *Check) tagTables() {
	docs := c.documentedTags()
	e := c.Engine()
	start := c.Fn("luawpk:init")
	toTID, toTag, toValue := c.Fn("luawpk:ValueToTID"), c.Fn("luawpk:ValueToTag"), c.Fn("luawpk:TagToValue")
	if start == nil || toTID == nil || toTag == nil || toValue == nil {
		return
	}
	e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == fnPkg(start) || takesFunc(f) }
	c.Rule("the tables hold what is documented")
	for range docs {
		c.Inst("documented names")
	}
	global := func(st *State, name string) *Term {
		for at, val := range st.mem {
			if at.Op == "global" && strings.HasSuffix(at.Aux, "wpk/luawpk."+name) {
				return val
			}
		}
		return nil
	}
	done := false
	for _, o := range e.Run(start, nil, nil) {
		if o.Panic || len(o.St.Events()) == 0 {
			continue
		}
		evs := o.St.Events()
		nameM, typeM, backM := global(o.St, "NameTid"), global(o.St, "TidType"), global(o.St, "TidName")
		if !c.Must(nameM != nil && typeM != nil && backM != nil, o.St, start.Pos(), start, "tables", "the tables of tags are not found in the initialisation") {
			return
		}
		c.Analysed(start, []Outcome{o})
		names, _, ok1 := tableOf(evs, nameM)
		_, kinds, ok2 := tableOf(evs, typeM)
		c.Must(ok1 && ok2, o.St, start.Pos(), start, "constant", "the tables of tags are not tables of constants")
		at := func(m *Term, k func(*Term) bool) token.Pos {
			for _, ev := range evs {
				if ev.Kind == "mapupdate" && ev.Args[0] == m && k(ev.Args[1]) {
					return ev.Pos
				}
			}
			return start.Pos()
		}
		class := map[int64]string{}
		byTID := map[int64]string{}
		for _, d := range docs {
			pos := at(nameM, func(k *Term) bool { return k.isStr(d.name) })
			v := names[d.name]
			if c.Must(v != nil, o.St, pos, start, "name "+d.name, "the documented name %q is not known", d.name) {
				c.Must(v.isInt(d.id), o.St, pos, start, "number "+d.name, "the name %q leads to tag %v and not to %d", d.name, v, d.id)
			}
			pos = at(typeM, func(k *Term) bool { return k.isInt(d.id) })
			k := int64(0)
			if t := kinds[d.id]; t != nil {
				k, _ = t.intVal()
			}
			if was, ok := class[k]; ok && was != d.typ {
				c.Must(false, o.St, pos, start, "type "+d.name, "the tag %q of type %s has the same value type as those of type %s", d.name, d.typ, was)
			} else {
				class[k] = d.typ
			}
			byTID[d.id] = d.typ
		}
		if !done {
			c.backNames(e, &o, start, docs, names, nameM, backM)
			done = true
			c.Rule("names and numbers lead to the tag they stand for")
			c.tagKeys(e, o.St, toTID, nameM)
			c.tagValues(e, o.St, toTag, toValue, typeM, class)
		} else {
			c.backNames(e, &o, start, docs, names, nameM, backM)
		}
	}
	c.Rule("the tables are constant")
	for _, fn := range c.P.AllFns {
		if fn == start || fn.Parent() == start || fnPkg(fn) == fnPkg(start) && strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch in := in.(type) {
				case *ssa.MapUpdate:
					m = in.Map
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						m = g
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = in.Call.Args[0]
					}
				}
				if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
					m = u.X
				}
				if g, ok := m.(*ssa.Global); ok && g.Pkg.Pkg == fnPkg(start) && (g.Name() == "NameTid" || g.Name() == "TidType" || g.Name() == "TidName") {
					c.Must(false, nil, in.Pos(), fn, "changed "+g.Name(), "the table %s is changed", g.Name())
				}
			}
		}
	}
	c.AtLeast("documented names", 25)
	c.AtLeast("reported names", 1)
	c.AtLeast("conversions to tags", 12)
	c.AtLeast("conversions to values", 6)
	c.AtLeast("encodings accepted", 8)
	c.AtLeast("keys", 3)
}

// backNames judges how the table of reported names is made.
func (c *Check) backNames(e *Engine, o *Outcome, start *ssa.Function, docs []tagDoc, names map[string]*Term, nameM, backM *Term) {
	c.Rule("every tag has one name, which leads back to it")
	all := map[int64]bool{}
	whole := false
	sorted := map[*Term]bool{}
	complete := map[*Term]bool{} // lists of all names
	for _, ev := range o.St.Events() {
		if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort")) && len(ev.Args) > 0 {
			a := unwrap(ev.Args[0])
			if ev.Name == "sort.Strings" || ev.Name == "slices.Sort" || strings.HasPrefix(ev.Name, "slices.Sort[") || ev.Name == "sort.Sort" && bare(ev.Args[0]) != nil {
				sorted[bare(a)] = true
			} else if len(ev.Args) == 2 {
				sorted[bare(a)] = c.sortsTexts(e, o.St, ev, bare(a))
			}
		}
		if ev.Kind == "mapupdate" && ev.Args[0] == backM {
			c.Inst("reported names")
			id, ok1 := ev.Args[1].intVal()
			n, ok2 := ev.Args[2].strVal()
			if c.Must(ok1 && ok2, o.St, ev.Pos, ev.Fn, "constant", "the reported name %v of tag %v is not constant", ev.Args[2], ev.Args[1]) {
				c.Must(names[n] != nil && names[n].isInt(id), o.St, ev.Pos, ev.Fn, "back "+n, "the name %q reported for tag %d leads to %v", n, id, names[n])
				all[id] = true
			}
		}
		if ev.Kind != "star" {
			continue
		}
		s := ev.Star
		for _, b := range s.Bodies {
			walk := unordered(&b)
			for l, next := range b.Next {
				if next.Op == "append" && len(s.Bodies) == 1 && walk {
					// the list of the names of a walk
					last := next.Args[len(next.Args)-1]
					if last.Op == "elems" && len(last.Args) == 1 && last.Args[0].Op == "rangekey" || last.Op == "elems" && len(last.Args) == 1 && last.Args[0].any(func(t *Term) bool { return t == nameM }) {
						complete[l] = true
					}
				}
			}
			AllEvents(b.St.Events(), func(u *Event, _ *Body) {
				if u.Kind != "mapupdate" || u.Args[0] != backM {
					return
				}
				c.Inst("reported names")
				k, v := u.Args[1], u.Args[2]
				isKey := k.any(func(t *Term) bool { return t == nameM })
				back := strings.HasPrefix(k.Op, "mapget") && k.Args[0] == nameM && k.Args[1] == v
				if k.Op == "rangeval" || walk && !back {
					back = isKey && v.any(func(t *Term) bool { return t == nameM }) && k != v
				}
				c.Must(back, b.St, u.Pos, u.Fn, "back", "the name %v reported for the tag %v need not lead to it", shortT(v), shortT(k))
				if !walk {
					// an element of a list
					l := bare(v)
					if l.Op == "load" && l.Args[0].Op == "iaddr" {
						l = l.Args[0].Args[0]
					}
					c.Must(sorted[l], b.St, u.Pos, u.Fn, "order", "which name is reported depends on the order of %v, which is not sorted", shortT(l))
					whole = whole || complete[l]
					return
				}
				whole = true
				c.Must(c.chosen(s, backM, k, v), b.St, u.Pos, u.Fn, "order", "which name is reported for a tag with several names depends on the order of a walk over a map")
			})
		}
	}
	if !whole {
		for _, d := range docs {
			c.Must(all[d.id], o.St, start.Pos(), start, fmt.Sprint("reported ", d.id), "no name is reported for tag %d", d.id)
		}
	}
}

// sortsTexts tells that a call sorts a list of texts with a comparison of its elements.
func (c *Check) sortsTexts(e *Engine, st *State, ev *Event, list *Term) bool {
	if ev.Args[1].Op != "closure" && ev.Args[1].Op != "func" {
		return false
	}
	less := ev.Args[1].Obj.(*ssa.Function)
	args := e.Params(less)
	outs := e.invoke(less, args, ev.Args[1].Args, st.clone(), &frame{})
	item := func(t, arg *Term) bool {
		return t == arg || t.Op == "load" && t.Args[0].Op == "iaddr" && t.Args[0].Args[1] == arg
	}
	pair := func(a, b *Term) bool {
		return item(a, args[0]) && item(b, args[1]) || item(a, args[1]) && item(b, args[0])
	}
	for i := range outs {
		t := outs[i].Vals[0]
		ok := false
		t.any(func(x *Term) bool { ok = ok || len(x.Args) == 2 && pair(x.Args[0], x.Args[1]); return ok })
		for f := range outs[i].St.facts.truth {
			ok = ok || len(f.Args) == 2 && pair(f.Args[0], f.Args[1])
		}
		if outs[i].Panic || !ok {
			return false
		}
	}
	return len(outs) > 0
}

// chosen tells that of the names met in a walk in any order always the same is kept: the least or
// the greatest.
func (c *Check) chosen(s *Star, m, key, val *Term) bool {
	dir := 0
	for _, b := range s.Bodies {
		puts := false
		for _, ev := range b.St.Events() {
			puts = puts || ev.Kind == "mapupdate" && ev.Args[0] == m
		}
		has, less := 0, 0
		for t, v := range b.St.facts.truth {
			sign := -1
			if v {
				sign = 1
			}
			if strings.HasPrefix(t.Op, "maphas") && t.Args[0] == m {
				has = sign
			}
			if (t.Op == "strlt" || t.Op == "<") && len(t.Args) == 2 {
				old := func(x *Term) bool { return strings.HasPrefix(x.Op, "mapget") && x.Args[0] == m }
				if t.Args[0] == val && old(t.Args[1]) {
					less = sign
				} else if t.Args[1] == val && old(t.Args[0]) {
					less = 2 * sign
				}
			}
		}
		switch {
		case puts && has < 0:
		case puts && less > 0:
			if dir != 0 && dir != less {
				return false
			}
			dir = less
		case !puts && has >= 0 && less < 0:
			if dir != 0 && dir != -less {
				return false
			}
			dir = -less
		default:
			return false
		}
	}
	return dir != 0
}

// tagKeys judges how keys of scripts become numbers of tags.
func (c *Check) tagKeys(e *Engine, st *State, fn *ssa.Function, nameM *Term) {
	args := e.Params(fn)
	outs := e.Run(fn, args, st.clone())
	c.Analysed(fn, outs)
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic && len(o.Vals) == 2, o.St, o.Pos, fn, "panic", "converting a key panics") {
			continue
		}
		num, str := luaIs(o.St, args[0], "LNumber"), luaIs(o.St, args[0], "LString")
		v, err := bare(o.Vals[0]), o.Vals[1]
		if !mustNil(o.St, err) {
			c.Must(notNil(o.St, err), o.St, o.Pos, fn, "error", "converting a key may fail without an error")
			c.Must(num <= 0, o.St, o.Pos, fn, "refused", "numbers are refused as keys")
			has := false
			for t, is := range o.St.facts.truth {
				has = has || is && strings.HasPrefix(t.Op, "maphas") && t.Args[0] == nameM
			}
			c.Must(!has, o.St, o.Pos, fn, "refused", "names of tags are refused as keys")
			continue
		}
		c.Inst("keys")
		switch {
		case num > 0:
			c.Must(v.Op == "tassert" && v.Args[0] == args[0], o.St, o.Pos, fn, "number", "a number given as key leads to %v", shortT(v))
		case str > 0:
			ok := strings.HasPrefix(v.Op, "mapget") && v.Args[0] == nameM && bare(v.Args[1]).Op == "tassert" && bare(v.Args[1]).Args[0] == args[0]
			known := false
			for t, is := range o.St.facts.truth {
				known = known || is && strings.HasPrefix(t.Op, "maphas") && t.Args[0] == nameM && len(v.Args) > 1 && t.Args[1] == v.Args[1]
			}
			known = known || isFalse(o.St, eqT(o.Vals[0], intConst(0, o.Vals[0].Typ)))
			c.Must(ok, o.St, o.Pos, fn, "name", "a name given as key leads to %v", shortT(v))
			c.Must(known, o.St, o.Pos, fn, "unknown", "a name that is not known leads to a tag")
		default:
			c.Must(false, o.St, o.Pos, fn, "other", "a key that is neither number nor text leads to tag %v", shortT(v))
		}
	}
	c.Inst("keys")
}

// luaIs tells whether a value of a script is known to be (1), known not to be (-1) of a type.
func luaIs(st *State, v *Term, typ string) int {
	for t, is := range st.facts.truth {
		if t.Op == "tassertok" && t.Args[0] == v && strings.HasSuffix(t.Aux, "."+typ) {
			if is {
				return 1
			}
			return -1
		}
	}
	return 0
}

// tagValues judges the conversions for every value type.
func (c *Check) tagValues(e *Engine, st *State, toTag, toValue *ssa.Function, typeM *Term, class map[int64]string) {
	args := e.Params(toTag)
	var kind *Term
	find := func(outs []Outcome) {
		for _, o := range outs {
			for t := range o.St.facts.truth {
				t.any(func(x *Term) bool {
					if strings.HasPrefix(x.Op, "mapget") && x.Args[0] == typeM && x.Args[1] == args[0] {
						kind = x
					}
					return false
				})
			}
		}
	}
	find(e.Run(toTag, args, st.clone()))
	c.Rule("values are stored as their type demands")
	if !c.Must(kind != nil, st, toTag.Pos(), toTag, "type", "conversions to tags do not depend on the type of the tag") {
		return
	}
	known := map[int64]bool{0: true}
	for k := range class {
		known[k] = true
	}
	for _, o := range e.Run(toTag, args, st.clone()) {
		for t := range o.St.facts.truth {
			if len(t.Args) == 2 && t.Args[0] == kind {
				if n, ok := t.Args[1].intVal(); ok {
					known[n] = true
				}
			}
		}
	}
	var ks []int64
	for k := range known {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	inner := e.Inline
	for _, k := range ks {
		s := st.clone()
		s.facts.Assume(eqT(kind, intConst(k, kind.Typ)), true)
		outs := e.Run(toTag, args, s)
		layout := ""
		c.Analysed(toTag, outs)
		for i := range outs {
			o := &outs[i]
			c.Rule("values are stored as their type demands")
			if !c.Must(!o.Panic && len(o.Vals) == 2, o.St, o.Pos, toTag, "panic", "converting a value panics") {
				continue
			}
			c.Inst("conversions to tags")
			if l := c.storedTag(o, toTag, args[1], class[k]); l != "" {
				layout = l
			}
		}
		// decoding
		vargs := []*Term{args[0], mk("param", "tag@value", toValue.Params[1].Type())}
		vouts := e.Run(toValue, vargs, s.clone())
		c.Analysed(toValue, vouts)
		c.Rule("tags are delivered as their type demands")
		for i := range vouts {
			o := &vouts[i]
			if !c.Must(!o.Panic && len(o.Vals) == 2, o.St, o.Pos, toValue, "panic", "converting a tag panics") {
				continue
			}
			c.Inst("conversions to values")
			c.deliveredTag(o, toValue, vargs[1], class[k], layout)
		}
		c.Rule("what is stored can be read")
		fits := map[string]string{"TagUint": "UintTag BoolTag ByteTag Uint16Tag Uint32Tag Uint64Tag UintLenTag", "TagNumber": "NumberTag", "TagTime": "TimeTag UnixmsTag", "TagUnixms": "TimeTag UnixmsTag", "TagBool": "BoolTag"}
		for i := range vouts {
			decoder := ""
			if mustNil(vouts[i].St, vouts[i].Vals[1]) {
				vouts[i].Vals[0].any(func(x *Term) bool {
					if n := callName(x); strings.HasPrefix(n, "(wpk.TagRaw).") {
						decoder = strings.TrimPrefix(n, "(wpk.TagRaw).")
					}
					return false
				})
			}
			if fits[decoder] == "" {
				continue
			}
			for j := range outs {
				if t := outs[j].Vals[0]; t.Op == "pure" && strings.HasPrefix(t.Aux, "wpk.") && !notNil(outs[j].St, outs[j].Vals[1]) {
					made := strings.TrimPrefix(t.Aux, "wpk.")
					c.Must(strings.Contains(fits[decoder], made), outs[j].St, outs[j].Pos, toTag, "pair "+made+" "+decoder, "a value stored by %s is read by %s", made, decoder)
				}
			}
		}
		// encodings are accepted
		c.Rule("what is stored can be read")
		e.Inline = func(f *ssa.Function) bool {
			n := f.Name()
			return inner(f) || strings.HasSuffix(n, "Tag") || strings.HasPrefix(n, "Tag")
		}
		off := e.NoDefault
		e.NoDefault = map[string]bool{}
		for n := range off {
			e.NoDefault[n] = true
		}
		for _, f := range c.P.AllFns {
			if n := cname(f); strings.HasPrefix(n, "wpk.") && strings.HasSuffix(n, "Tag") || strings.HasPrefix(n, "(wpk.TagRaw).Tag") {
				e.NoDefault[n] = true
			}
		}
		for _, o := range e.Run(toTag, args, s.clone()) {
			if o.Panic || notNil(o.St, o.Vals[1]) {
				continue
			}
			o.St.facts.Assume(eqT(o.Vals[1], tNil), true)
			for _, o2 := range e.Run(toValue, []*Term{args[0], o.Vals[0]}, o.St.clone()) {
				if o2.Panic {
					continue
				}
				c.Inst("encodings accepted")
				c.Must(mustNil(o2.St, o2.Vals[1]), o2.St, o.Pos, toValue, "refused", "the encoding %v that ValueToTag gives for type %s is refused by TagToValue", shortT(o.Vals[0]), class[k])
			}
		}
		e.NoDefault = off
		e.Inline = inner
	}
}

// notNil tells that an error is known to be none.
func notNil(st *State, t *Term) bool { v, ok := isNil(st, t); return ok && !v }

// from finds the value of a script which a value is a conversion of.
func from(t, v *Term, typ string) bool {
	t = bare(t)
	return t != nil && t.Op == "tassert" && t.Args[0] == v && strings.HasSuffix(t.Aux, "."+typ)
}

// isCall tells whether a value is a result of a function of given names, and gives its arguments.
func isCall(t *Term, names ...string) []*Term {
	t = bare(t)
	for _, n := range names {
		if n == callName(t) {
			return callOf(t).Args
		}
	}
	return nil
}

// storedTag judges a path of ValueToTag for a type of values, and gives the layout of times.
func (c *Check) storedTag(o *Outcome, fn *ssa.Function, v *Term, typ string) string {
	num, str, boo := luaIs(o.St, v, "LNumber"), luaIs(o.St, v, "LString"), luaIs(o.St, v, "LBool")
	tag, err := o.Vals[0], o.Vals[1]
	named := typ
	if named == "" {
		named = "undocumented type"
	}
	if notNil(o.St, err) {
		switch {
		case num > 0:
			limited := false
			for t := range o.St.facts.truth {
				limited = limited || t.Op != "tassertok" && t.any(func(x *Term) bool { return from(x, v, "LNumber") })
			}
			c.Must(limited, o.St, o.Pos, fn, "number "+named, "numbers are refused for %s", named)
		case str > 0:
			c.Must(err.any(func(x *Term) bool { return from(x, v, "LString") }) || c.failed(o.St, v), o.St, o.Pos, fn, "text "+named, "texts are refused for %s although they may be well formed", named)
		case boo > 0:
			c.Must(typ == "hex string" || typ == "string time", o.St, o.Pos, fn, "boolean "+named, "booleans are refused for %s", named)
		}
		return ""
	}
	name := ""
	var arg *Term
	if (tag.Op == "pure" || tag.Op == "pure1") && strings.HasPrefix(tag.Aux, "wpk.") && len(tag.Args) > 0 {
		name, arg = strings.TrimPrefix(tag.Aux, "wpk."), tag.Args[0]
	}
	// a failure to parse what is stored is reported
	tag.any(func(x *Term) bool {
		if x.Op == "res" && isCall(x, "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool", "time.Parse", "encoding/hex.DecodeString") != nil {
			failure := mk("res", "1", errTyp, x.Args[0])
			c.Must(failure == err || mustNil(o.St, failure), o.St, o.Pos, fn, "unparsed "+named, "%s is stored without an error although the text may be malformed", shortT(tag))
		}
		return false
	})
	uint := name == "UintTag" || name == "Uint64Tag"
	boolean := func(x *Term, yes, no string) bool { // the boolean given, as one of two constants
		x = bare(x)
		is := func(s string) bool { n, ok := wholeNumber(x); return ok && fmt.Sprint(n) == s || x.isStr(s) }
		if x.Op == "ite" && from(x.Args[0], v, "LBool") {
			return true
		}
		for t, val := range o.St.facts.truth {
			if from(t, v, "LBool") {
				return val && is(yes) || !val && is(no)
			}
		}
		return false
	}
	layout := ""
	good := false
	switch {
	case num <= 0 && str <= 0 && boo <= 0:
		c.Must(false, o.St, o.Pos, fn, "other "+named, "a value that is neither number, text nor boolean is stored for %s", named)
		return ""
	case num > 0:
		same := arg != nil && from(arg, v, "LNumber")
		switch typ {
		case "number", "hex string":
			good = uint && same
		case "string":
			as := isCall(arg, "("+luaPkg+".LNumber).String")
			good = name == "StrTag" && (len(as) > 0 && from(as[0], v, "LNumber") || arg.any(func(x *Term) bool { return from(x, v, "LNumber") }) && !same)
		case "string time":
			good = (name == "UnixmsTag" || name == "TimeTag") && c.milliseconds(arg, v)
		default:
			good = same || tag.any(func(x *Term) bool { return from(x, v, "LNumber") }) || name == "BoolTag" && c.about(o.St, v, "LNumber")
		}
	case str > 0:
		text := func(as []*Term, i int) bool { return len(as) > i && from(as[i], v, "LString") }
		switch typ {
		case "number":
			good = uint && text(isCall(arg, "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint"), 0)
		case "hex string":
			good = text(isCall(tag, "encoding/hex.DecodeString"), 0)
		case "string":
			good = name == "StrTag" && (from(arg, v, "LString") || text(isCall(arg, "("+luaPkg+".LString).String"), 0))
		case "string time":
			as := isCall(arg, "time.Parse")
			good = (name == "UnixmsTag" || name == "TimeTag") && text(as, 1)
			if good {
				layout, _ = as[0].strVal()
			}
		default:
			good = tag.any(func(x *Term) bool { return from(x, v, "LString") }) || name == "BoolTag" && c.about(o.St, v, "LString")
		}
	default:
		switch typ {
		case "number":
			good = uint && boolean(arg, "1", "0")
		case "string":
			as := isCall(arg, "("+luaPkg+".LBool).String")
			good = name == "StrTag" && (len(as) > 0 && from(as[0], v, "LBool") || boolean(arg, "true", "false"))
		case "":
			good = tag.any(func(x *Term) bool { return from(x, v, "LBool") }) || arg != nil && boolean(arg, "1", "0") || arg != nil && boolean(arg, "true", "false") || name == "BoolTag" && c.about(o.St, v, "LBool")
		}
	}
	c.Must(good, o.St, o.Pos, fn, "value "+named, "for %s is stored %v, which is not the value given", named, shortT(tag))
	return layout
}

// about tells that a path depends on the value given.
func (c *Check) about(st *State, v *Term, typ string) bool {
	for t := range st.facts.truth {
		if t.Op != "tassertok" && t.any(func(x *Term) bool { return from(x, v, typ) }) {
			return true
		}
	}
	return false
}

// failed tells that parsing the text given failed on the path.
func (c *Check) failed(st *State, v *Term) bool {
	for t, val := range st.facts.truth {
		if !val && t.Op == "==" && t.any(func(x *Term) bool { return from(x, v, "LString") }) {
			return true
		}
	}
	return false
}

// milliseconds tells whether a time is made of the number of milliseconds given.
func (c *Check) milliseconds(t, v *Term) bool {
	if as := isCall(t, "time.UnixMilli"); len(as) == 1 {
		return from(as[0], v, "LNumber")
	}
	as := isCall(t, "time.Unix")
	if len(as) != 2 {
		return false
	}
	n := (*Term)(nil)
	t.any(func(x *Term) bool {
		if from(x, v, "LNumber") && n == nil {
			n = x
		}
		return n != nil
	})
	if n == nil {
		return false
	}
	k := intConst(1000, n.Typ)
	million := func(x *Term) *Term {
		l := newLin()
		l.add(ring(x, x.Typ), big.NewInt(1000000))
		return linTerm(l, x.Typ)
	}
	sec, ms := mk("div", "", n.Typ, n, k), mk("mod", "", n.Typ, n, k)
	return as[0] == sec && as[1] == million(ms) || as[0].isInt(0) && as[1] == million(n)
}

// deliveredTag judges a path of TagToValue for a type of values.
func (c *Check) deliveredTag(o *Outcome, fn *ssa.Function, tag *Term, typ, layout string) {
	named := typ
	if named == "" {
		named = "undocumented type"
	}
	val, err := o.Vals[0], o.Vals[1]
	of := func(as []*Term) bool { return len(as) > 0 && as[0] == tag }
	decoded := func(x *Term, names ...string) bool { return of(isCall(x, names...)) }
	refused := func() bool { // decoding failed
		for t, v := range o.St.facts.truth {
			if !v && t.any(func(x *Term) bool { return x == tag }) {
				return true
			}
		}
		return false
	}
	if notNil(o.St, err) {
		c.Must(refused() && typ != "string" && typ != "hex string", o.St, o.Pos, fn, "refused "+named, "well formed tags of %s are refused", named)
		return
	}
	box := ""
	if val.Op == "makeiface" {
		box = val.Aux[strings.LastIndex(val.Aux, ".")+1:]
	}
	in := bare(val)
	good := false
	switch typ {
	case "number":
		good = box == "LNumber" && decoded(in, "(wpk.TagRaw).TagUint") && !refused()
	case "string":
		good = box == "LString" && (in == tag || decoded(in, "(wpk.TagRaw).TagStr"))
	case "hex string":
		good = box == "LString" && decoded(in, "encoding/hex.EncodeToString")
	case "string time":
		as := isCall(in, "(time.Time).Format")
		if len(as) == 2 {
			t := as[0]
			if x := isCall(t, "(time.Time).UTC", "(time.Time).Local"); len(x) > 0 {
				t = x[0]
			}
			good = box == "LString" && decoded(t, "(wpk.TagRaw).TagTime") && as[1].isStr(layout) && !refused()
		}
	default:
		good = val.any(func(x *Term) bool { return x == tag }) || refused()
		for t := range o.St.facts.truth {
			good = good || t.any(func(x *Term) bool { return x == tag })
		}
		good = good && !mustNil(o.St, val)
	}
	c.Must(good, o.St, o.Pos, fn, "value "+named, "a tag of %s is delivered as %v", named, shortT(val))
}
