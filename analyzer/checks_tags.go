package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoders of tag values with the decoders which must read their result back.
var tagPairs = []struct{ enc, dec string }{
	{"StrTag", "TagStr"},
	{"BoolTag", "TagBool"},
	{"ByteTag", "TagByte"},
	{"ByteTag", "TagUint"},
	{"Uint16Tag", "TagUint16"},
	{"Uint16Tag", "TagUint"},
	{"Uint32Tag", "TagUint32"},
	{"Uint32Tag", "TagUint"},
	{"Uint64Tag", "TagUint64"},
	{"Uint64Tag", "TagUint"},
	{"UintTag", "TagUint"},
	{"UintLenTag", "TagUint"},
	{"NumberTag", "TagNumber"},
	{"TimeTag", "TagTime"},
	{"TimeTag", "TagUnixms"},
	{"UnixmsTag", "TagTime"},
	{"UnixmsTag", "TagUnixms"},
}

// lengths accepted by the decoders
var tagLens = map[string][]int64{
	"TagBool": {1}, "TagByte": {1}, "TagUint16": {2}, "TagUint32": {4}, "TagUint64": {8},
	"TagUint": {1, 2, 4, 8}, "TagNumber": {8}, "TagTime": {8, 12}, "TagUnixms": {8, 12},
}

// wide strips conversions to integer types of at least w bits.
func wide(t *Term, w int) *Term {
	for t.Op == "conv" && isInt(t.Typ) && isInt(t.Args[0].Typ) {
		if n, _ := intKind(t.Typ); n < w {
			return t
		}
		t = t.Args[0]
	}
	return t
}

// isCallOf recognises a pure call with given arguments.
func isCallOf(t *Term, name string) bool { return t != nil && t.Op == "pure" && t.Aux == name }

// partOfTime tells that a value is the named component of a time.
func partOfTime(t, val *Term, name string, w int) bool {
	t = wide(t, w)
	return isCallOf(t, "(time.Time)."+name) && t.Args[0] == val
}

// milliOf tells that a value is the time in milliseconds.
func milliOf(st *State, t, val *Term) bool {
	if partOfTime(t, val, "UnixMilli", 64) {
		return true
	}
	t = wide(t, 64)
	if isCallOf(t, "(time.Time).UnixMilli") {
		return sameTime(st, t.Args[0], val)
	}
	// seconds and the rest of nanoseconds
	l := lin64(t)
	if l.C.Sign() != 0 || len(l.M) != 2 {
		return false
	}
	secs, rest := false, false
	for a, k := range l.M {
		if k.Int64() == 1000 && partOfTime(a, val, "Unix", 64) {
			secs = true
		}
		if k.Int64() == 1 && a.Op == "div" && a.Args[1].isInt(1000000) && partOfTime(a.Args[0], val, "Nanosecond", 32) {
			rest = true
		}
	}
	return secs && rest
}

// sameTime tells that a time is the given one, at least to the millisecond if it is kept so.
func sameTime(st *State, t, val *Term) bool {
	for isCallOf(t, "(time.Time).UTC") || isCallOf(t, "(time.Time).Local") || isCallOf(t, "(time.Time).In") {
		t = t.Args[0] // the same instant
	}
	if t == val {
		return true
	}
	if isCallOf(t, "time.UnixMilli") {
		return milliOf(st, t.Args[0], val)
	}
	if !isCallOf(t, "time.Unix") {
		return false
	}
	a, b := wide(t.Args[0], 64), t.Args[1]
	if partOfTime(a, val, "Unix", 64) && partOfTime(b, val, "Nanosecond", 32) {
		return true
	}
	if a.Op != "div" || !a.Args[1].isInt(1000) || !milliOf(st, a.Args[0], val) {
		return b != nil && a.isInt(0) && func() bool { // all in nanoseconds
			l := lin64(b)
			for m, k := range l.M {
				return len(l.M) == 1 && l.C.Sign() == 0 && k.Int64() == 1000000 && milliOf(st, m, val)
			}
			return false
		}()
	}
	l := lin64(b)
	for m, k := range l.M {
		return len(l.M) == 1 && l.C.Sign() == 0 && k.Int64() == 1000000 && m.Op == "mod" && m.Args[1].isInt(1000) && milliOf(st, m.Args[0], val)
	}
	return false
}

func init() {
	register("C14", "abstract interpretation of every tag encoder composed with its decoders: symbolic byte transfer and length analysis",
		"For every pair of tag constructor and tag converter of the same value (17 pairs), the constructor is interpreted abstractly with a symbolic argument and the converter is interpreted on its symbolic result in the same state: it must accept it and return the argument itself (for the explicit-length form: the argument reduced to that length; for times: the same seconds and nanoseconds, or the same milliseconds). Every converter on an arbitrary tag accepts only the lengths that belong to its type, touches no byte of a tag of another length, and stays inside of the tag. The getters of tagsets return what the converter gives for the tag found, and nothing for an absent one.",
		[]string{"time.Time conversions of the standard library are exact", "the fixed-width accessors behave as C13 checks", "little endian platform"},
		func(c *Check) {
			encs := map[string]bool{}
			for _, p := range tagPairs {
				enc, dec := c.Fn(":"+p.enc), c.Fn(":TagRaw."+p.dec)
				if enc == nil || dec == nil {
					continue
				}
				encs[p.enc] = true
				c.Rule("a converter reads back what the constructor has encoded")
				e := c.tagEngine()
				ps := e.Params(enc)
				args := append([]*Term{}, ps...)
				val := ps[0]
				key := p.enc + " by " + p.dec
				n := 0
				outs := c.Run(e, enc, args, nil)
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						c.Must(p.enc == "UintLenTag", o.St, o.Pos, enc, key+" panic", "%s panics", p.enc)
						continue
					}
					l, ok := lenT(o.Vals[0]).intVal()
					if p.enc == "UintLenTag" {
						c.Must(ok && o.St.facts.ProveEq(ps[1], lenT(o.Vals[0])), o.St, o.Pos, enc, key+" length", "%s makes a tag of %v bytes, not of the given length", p.enc, lenT(o.Vals[0]))
					}
					douts := c.Run(e, dec, []*Term{o.Vals[0]}, o.St.clone())
					for j := range douts {
						d := &douts[j]
						if !d.St.facts.Consistent() {
							continue
						}
						n++
						if !c.Must(!d.Panic, d.St, d.Pos, dec, key+" decoder panics", "%s panics on a tag made by %s", p.dec, p.enc) {
							continue
						}
						v, known := truth(d.St, d.Vals[1])
						if !c.Must(known && v, d.St, o.Pos, enc, key+" refused", "%s makes a tag of %v bytes which %s does not accept", p.enc, lenT(o.Vals[0]), p.dec) {
							continue
						}
						got := d.Vals[0]
						same := false
						switch {
						case p.dec == "TagTime":
							same = sameTime(d.St, got, val)
						case p.dec == "TagUnixms":
							same = milliOf(d.St, got, val)
						case p.dec == "TagBool":
							g, ok := truth(d.St, got)
							w, ok2 := truth(d.St, val)
							same = ok && ok2 && g == w || got == val
						case p.enc == "UintLenTag" && l < 8:
							ut := types.Typ[map[int64]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32}[l]]
							same = sameVal(d.St, got, convT(convT(val, ut), dec.Signature.Results().At(0).Type()))
						case isInt(got.Typ):
							same = d.St.facts.ProveEq(got, val) || eq64(d.St, got, val)
						default:
							same = sameVal(d.St, got, val)
						}
						c.Must(same, d.St, o.Pos, enc, key+" value", "%s reads %v back from what %s has made of %v", p.dec, trim(got.String(), 200), p.enc, val)
					}
				}
				c.Must(n > 0, nil, enc.Pos(), enc, key+" runs", "no path through %s and %s", p.enc, p.dec)
			}
			for d, lens := range tagLens {
				fn := c.Fn(":TagRaw." + d)
				if fn == nil {
					continue
				}
				c.Rule("a converter accepts only the lengths of its type and stays inside of the tag")
				e := c.tagEngine()
				e.OnOblige = func(o *Oblig) {
					if o.Kind == "index" || o.Kind == "slice" || strings.HasPrefix(o.Kind, "unsafe") {
						c.Site(o.Pos)
						c.Must(o.OK, o.St, o.Pos, o.Fn, d+" "+o.Kind, "%s: access is not proved to stay inside of the tag: %s", d, o.Desc)
					}
				}
				outs := c.Run(e, fn, nil, nil)
				t := e.Params(fn)[0]
				got := map[int64]bool{}
				for i := range outs {
					o := &outs[i]
					if !c.Must(!o.Panic, o.St, o.Pos, fn, d+" panics", "%s can panic", d) {
						continue
					}
					v, known := truth(o.St, o.Vals[1])
					if !known {
						v = true
					}
					hit := int64(-1)
					for _, n := range lens {
						if o.St.facts.ProveEq(lenT(t), intConst(n, tyInt)) {
							hit = n
						}
					}
					if v {
						c.Must(hit >= 0, o.St, o.Pos, fn, d+" length", "%s accepts tags of other lengths than %v bytes", d, lens)
						got[hit] = true
						continue
					}
					// refused: nothing of the tag is in the result
					c.Must(hit < 0, o.St, o.Pos, fn, fmt.Sprint(d, " refuses ", hit), "%s refuses tags of %d bytes", d, hit)
					c.Must(!o.Vals[0].any(func(x *Term) bool { return x.Op == "content" }), o.St, o.Pos, fn, d+" reads refused", "%s takes a value out of a tag it refuses", d)
				}
				for _, n := range lens {
					c.Must(got[n], nil, fn.Pos(), fn, fmt.Sprint(d, " accepts ", n), "%s does not accept tags of %d bytes", d, n)
				}
			}
			c.Rule("getters of tagsets convert the tag found by identifier")
			for d := range tagLens {
				c.setGetter(d)
			}
			c.setGetter("TagStr")
		})
}

// tagEngine follows the converters and constructors they call.
func (c *Check) tagEngine() *Engine {
	e := c.Engine()
	e.NoDefault["(wpk.TagRaw).TagStr"] = true
	for d := range tagLens {
		e.NoDefault["(wpk.TagRaw)."+d] = true
	}
	for _, p := range tagPairs {
		e.NoDefault["wpk."+p.enc] = true
	}
	return e
}

// setGetter checks a getter of tagsets against the converter of the same name.
func (c *Check) setGetter(d string) {
	fn := c.Fn(":TagsetRaw." + d)
	if fn == nil {
		return
	}
	e := c.Engine()
	e.NoDefault = map[string]bool{"(wpk.TagsetRaw)." + d: true}
	ps := e.Params(fn)
	rt := fn.Signature.Results().At(0).Type()
	raw, has := tsLookup(ps[0], ps[1])
	want, wok := rawGet(d, raw, rt)
	outs := c.Run(e, fn, nil, nil)
	found, absent := false, false
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, d+" panics", "%s can panic", d) {
			continue
		}
		h, known := truth(o.St, has)
		if !c.Must(known, o.St, o.Pos, fn, d+" presence", "%s gives %v whether the tag is present or not", d, o.Vals[0]) {
			continue
		}
		if h {
			found = true
			same := o.Vals[0] == want || sameVal(o.St, o.Vals[0], want)
			ok := o.Vals[1] == wok
			if !ok {
				a, k1 := truth(o.St, o.Vals[1])
				b, k2 := truth(o.St, wok)
				ok = k1 && k2 && a == b
				// the value of an inconvertible tag is zero as well
				if ok && !b && o.Vals[0] == zeroTerm(rt) {
					same = true
				}
			}
			c.Must(same && ok, o.St, o.Pos, fn, d+" value", "%s gives %v, %v for the tag found, not what the converter gives", d, trim(o.Vals[0].String(), 200), o.Vals[1])
		} else {
			absent = true
			v, known := truth(o.St, o.Vals[1])
			c.Must(known && !v && isZero(o.Vals[0]), o.St, o.Pos, fn, d+" absent", "%s gives %v, %v for an absent tag", d, o.Vals[0], o.Vals[1])
		}
	}
	c.Must(found && absent, nil, fn.Pos(), fn, d+" cases", "%s does not tell present and absent tags", d)
}

var _ = token.NoPos
var _ *ssa.Function

// truth decides a condition on a path.
func truth(st *State, t *Term) (val, known bool) {
	if t == nil {
		return false, false
	}
	if t == tTrue || t == tFalse {
		return t == tTrue, true
	}
	return st.facts.Decide(t)
}

// fileTimes are the times of a file: tag, accessor, condition of presence.
var fileTimes = []struct{ tid, acc, has string }{
	{"TIDmtime", "ModTime", ""},
	{"TIDatime", "AccessTime", ""},
	{"TIDctime", "ChangeTime", "HasChangeTime"},
	{"TIDbtime", "BirthTime", "HasBirthTime"},
}

func tidT(n int64) *Term { return intConst(n, types.Typ[types.Uint16]) }

// sameTag tells that a value is the tag's value or, for an absent tag, the zero value.
func sameTag(st *State, got, ts *Term, tid int64, conv string) bool {
	want, wok := tsGet(ts, tidT(tid), conv, got.Typ)
	if got == want || sameVal(st, got, want) {
		return true
	}
	if ok, known := truth(st, wok); known && !ok {
		return isZero(got)
	}
	raw, has := tsLookup(ts, tidT(tid))
	if h, ok := truth(st, has); ok && !h {
		return isZero(got)
	}
	v, ok := rawGet(conv, raw, got.Typ)
	if got == v {
		return true
	}
	if h, known := truth(st, ok); known && !h {
		return isZero(got)
	}
	return false
}

// lastPut is the last value put into the file table on a path.
func lastPut(st *State) *Event {
	var last *Event
	for _, ev := range st.Events() {
		if ev.Kind == "call" && (ev.Name == "(*wpk/util.SeqMap).Poke" || ev.Name == "(*wpk/util.SeqMap).Push") {
			last = ev
		}
	}
	return last
}

func init() {
	register("C15", "abstract interpretation: provenance of stored time tags against the tag read by each accessor",
		"Packing a file is interpreted abstractly. On every path that can succeed, the tagset finally stored for the file holds under the modification and access tags the nanosecond-precise encoding of exactly the like-named time of the packed file's own information, and under the change and birth tags the like-named time exactly when the file has one. Each time accessor of the file information returns the time converter's result for the very tag under which packing stores that time, and the presence tests look for the same tags.",
		[]string{"times.Get and the Timespec accessors of the times package give the file's times", "tag conversion is exact as C14 checks"},
		func(c *Check) {
			if fn := c.Fn(":Package.PackFile"); fn != nil {
				c.Rule("every time of the packed file is stored under its own tag")
				e := c.Engine()
				n := 0
				outs := c.Run(e, fn, nil, nil)
				file := e.Params(fn)[2]
				for i := range outs {
					o := &outs[i]
					if err := errVal(o); o.Panic || err == nil || mustNotNil(o.St, err) {
						continue
					}
					put := lastPut(o.St)
					if !c.Must(put != nil, o.St, o.Pos, fn, "not stored", "a file is packed without being put into the table") {
						continue
					}
					n++
					c.Site(put.Pos)
					ts := put.Args[1]
					for _, t := range fileTimes {
						raw, has := tsLookup(ts, tidT(c.constInt("", t.tid)))
						h, known := truth(o.St, has)
						want := true
						if t.has != "" {
							asked := false
							want = false
							for f, v := range o.St.facts.truth {
								if f.Op == "pure" && strings.HasSuffix(f.Aux, "."+t.has) {
									want, asked = want || v, true
								}
							}
							if !c.Must(asked, o.St, put.Pos, fn, t.tid+" unknown", "it makes no difference whether the file has the time of tag %s", t.tid) {
								continue
							}
						}
						if !c.Must(known && h == want, o.St, put.Pos, fn, t.tid+" presence", "tag %s is stored: %v, the file has this time: %v", t.tid, h, want) || !want {
							continue
						}
						ok := isCallOf(raw, "wpk.TimeTag")
						if ok {
							x := raw.Args[0]
							ok = x.Op == "pure" && strings.HasSuffix(x.Aux, ")."+t.acc) && x.any(func(y *Term) bool {
								return y.Op == "res" && y.Aux == "0" && strings.HasPrefix(fmt.Sprint(y.Args[0].Obj), "(io/fs.File).Stat") && y.Args[0].Args[0] == file
							})
						}
						c.Must(ok, o.St, put.Pos, fn, t.tid+" value", "tag %s is stored with %v, not with %s of the packed file", t.tid, trim(raw.String(), 200), t.acc)
					}
				}
				c.Must(n > 0, nil, fn.Pos(), fn, "succeeds", "packing never succeeds")
			}
			c.Rule("time accessors read the tag under which packing stores the time")
			for _, t := range fileTimes {
				tid := c.constInt("", t.tid)
				if fn := c.Fn(":TagsetRaw." + t.acc); fn != nil {
					c.accessor(fn, func(o *Outcome, ts *Term) bool { return sameTag(o.St, o.Vals[0], ts, tid, "TagTime") }, "the time of tag "+t.tid)
				}
				if t.has == "" {
					continue
				}
				if fn := c.Fn(":TagsetRaw." + t.has); fn != nil {
					c.accessor(fn, func(o *Outcome, ts *Term) bool {
						_, has := tsLookup(ts, tidT(tid))
						return sameBool(o.St, o.Vals[0], has)
					}, "the presence of tag "+t.tid)
				}
			}
			// the two converters agree on both encodings
			c.Rule("getters of tagsets convert the tag found by identifier")
			c.setGetter("TagTime")
		})
}

func sameBool(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	x, ok1 := truth(st, a)
	y, ok2 := truth(st, b)
	return ok1 && ok2 && x == y
}

// accessor checks the result of a method of tagsets on every path.
func (c *Check) accessor(fn *ssa.Function, ok func(o *Outcome, ts *Term) bool, what string) {
	e := c.Engine()
	e.NoDefault = map[string]bool{cname(fn): true}
	for _, n := range []string{"Path", "Name", "Size", "Pos", "IsDir", "Mode", "Type"} {
		e.NoDefault["(wpk.TagsetRaw)."+n] = true // accessors made from each other
	}
	modeModel(e)
	outs := c.Run(e, fn, nil, nil)
	ts := e.Params(fn)[0]
	for i := range outs {
		o := &outs[i]
		c.Must(!o.Panic && ok(o, ts), o.St, o.Pos, fn, "value", "%s returns %v, not %s", fn.Name(), o.Vals, what)
	}
}
