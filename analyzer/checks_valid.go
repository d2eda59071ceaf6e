package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// linSum is a sum of integer terms over the integers, without wrap around.
func linSum(f *Facts, plus, minus []*Term) *LinForm {
	l := newLin()
	for _, t := range plus {
		l.add(f.toInt(t), bigOne)
	}
	for _, t := range minus {
		l.add(f.toInt(t), bigMinus)
	}
	return l
}

// entryTags are the mandatory tags of an entry: value and presence.
func (c *Check) entryTags(ts *Term) (path, haspath, off, hasoff, size, hassize *Term) {
	str, u := types.Typ[types.String], types.Typ[types.Uint]
	path, haspath = tsGet(ts, tidT(c.constInt("", "TIDpath")), "TagStr", str)
	off, hasoff = tsGet(ts, tidT(c.constInt("", "TIDoffset")), "TagUint", u)
	size, hassize = tsGet(ts, tidT(c.constInt("", "TIDsize")), "TagUint", u)
	return
}

func isTrue(st *State, t *Term) bool  { v, k := truth(st, t); return k && v }
func isFalse(st *State, t *Term) bool { v, k := truth(st, t); return k && !v }

// isStore tells that an event puts an entry into the file table.
func isStore(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "(*wpk/util.SeqMap).Poke" || ev.Name == "(*wpk/util.SeqMap).Push")
}

func init() {
	register("C19", "abstract interpretation: path conditions before every insertion into the table of an opened package, linear arithmetic without wrap-around",
		"Opening, parsing and reading the file table are interpreted abstractly over arbitrary bytes. Before every insertion into the table the conditions of the path are proved to imply: the getters give a name, an offset and a size for this very tagset; the key is the normalised name and is known to be absent; offset and offset plus size lie inside of the data area as sums of integers without wrap-around. Every iteration over the table that goes on has inserted its entry, so a rejected one makes opening fail. Each error of the validation names the tag that is really wrong, and the key. The accessors of the tagset (position, size, path, name) return what the validated getters return.",
		[]string{"lookups in tagsets are those of C16"},
		func(c *Check) {
			c.Rule("an entry is put into the table only if its name, offset and size are validated")
			ftt := func(e *Engine, fn *ssa.Function) *Term { return e.Params(fn)[0] }
			for _, spec := range []string{":FTT.Parse", ":FTT.ReadFrom", ":FTT.OpenStream"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				e.KeepPre = isStore
				outs := c.Run(e, fn, nil, nil)
				base := ftt(e, fn)
				seen := map[*Event]bool{}
				stars := map[*Star]bool{}
				for i := range outs {
					AllEvents(outs[i].St.Events(), func(ev *Event, in *Body) {
						if ev.Star != nil && !stars[ev.Star] {
							stars[ev.Star] = true
							c.everyStores(ev.Star, fn)
						}
						if !isStore(ev) || seen[ev] || ev.Pre == nil {
							return
						}
						seen[ev] = true
						c.Inst(fn.Name())
						c.Site(ev.Pos)
						st := ev.Pre
						key, ts := ev.Args[0], ev.Args[1]
						path, hp, off, ho, size, hs := c.entryTags(ts)
						c.Must(isTrue(st, hp), st, ev.Pos, fn, "name", "an entry is stored and it is not known to have a name")
						c.Must(isTrue(st, ho), st, ev.Pos, fn, "offset", "an entry is stored and it is not known to have an offset")
						c.Must(isTrue(st, hs), st, ev.Pos, fn, "size", "an entry is stored and it is not known to have a size")
						c.Must(key == toSlash(path) || sameVal(st, key, toSlash(path)), st, ev.Pos, fn, "key", "an entry is stored under %v, not under its normalised name", key)
						_, has := e.mapLookup(st, ev.Recv, key, ts.Typ)
						c.Must(isFalse(st, has), st, ev.Pos, fn, "repeats", "an entry is stored and its name is not known to be absent from the table under the key stored")
						u64 := types.Typ[types.Uint64]
						do := st.load(c.fieldAddr(base, "", "FTT", "datoffset"), u64)
						ds := st.load(c.fieldAddr(base, "", "FTT", "datsize"), u64)
						f := st.facts
						c.Must(proveSplit(f, linSum(f, []*Term{off}, []*Term{do})), st, ev.Pos, fn, "before", "an entry is stored and its offset is not proved to be inside of the data area")
						c.Must(proveSplit(f, linSum(f, []*Term{do, ds}, []*Term{off, size})), st, ev.Pos, fn, "behind", "an entry is stored and its end is not proved to be inside of the data area")
					})
				}
				c.AtLeast(fn.Name(), 1)
			}
			if fn := c.Fn(":FTT.OpenStream"); fn != nil {
				c.Rule("a package is opened only if its table fills the bytes recorded for it")
				c.wholeTable(fn)
				c.AtLeast("openings", 1)
			}
			if fn := c.Fn(":FTT.CheckTagset"); fn != nil {
				c.Rule("a rejected entry is reported with its key and the tag that is wrong")
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				ps := e.Params(fn)
				ts := ps[1]
				path, hp, off, ho, size, hs := c.entryTags(ts)
				u64 := types.Typ[types.Uint64]
				tids := map[int64]bool{}
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						c.FailT(o.St, o.Pos, fn, "panic", "the check of a tagset panics")
						continue
					}
					st := o.St
					err := errVal(o)
					if mustNil(st, err) {
						_, has := e.mapLookup(st, c.fieldAddr(ps[0], "", "FTT", "tsm"), toSlash(path), ts.Typ)
						c.Must(isTrue(st, hp) && isTrue(st, ho) && isTrue(st, hs) && isFalse(st, has), st, o.Pos, fn, "accepts", "a tagset is accepted without name, offset, size or with a repeated name")
						c.Must(o.Vals[0] == toSlash(path) || sameVal(st, o.Vals[0], toSlash(path)), st, o.Pos, fn, "accepted key", "the key of an accepted tagset is %v, not its normalised name", o.Vals[0])
						continue
					}
					if isGlobal(err, "io.ErrUnexpectedEOF") {
						failed := false
						for t, v := range st.facts.truth {
							if t.Op == "tsifailed" && v {
								failed = true
							}
						}
						c.Must(failed, st, o.Pos, fn, "broken", "a tagset that is not malformed is reported as such")
						continue
					}
					tid, key := c.tagError(st, err)
					if !c.Must(tid != nil, st, o.Pos, fn, "kind", "a rejected tagset is reported with %v, not with an error of a tag", err) {
						continue
					}
					n, ok := tid.intVal()
					if !c.Must(ok, st, o.Pos, fn, "tag", "it is not known which tag is reported") {
						continue
					}
					tids[n] = true
					f := st.facts
					do := st.load(c.fieldAddr(ps[0], "", "FTT", "datoffset"), u64)
					ds := st.load(c.fieldAddr(ps[0], "", "FTT", "datsize"), u64)
					wrong := false
					_, has := e.mapLookup(st, c.fieldAddr(ps[0], "", "FTT", "tsm"), toSlash(path), ts.Typ)
					switch n {
					case c.constInt("", "TIDpath"):
						wrong = isFalse(st, hp) || isTrue(st, has)
					case c.constInt("", "TIDoffset"):
						in := proveSplit(f, linSum(f, []*Term{off}, []*Term{do})) && proveSplit(f, linSum(f, []*Term{do, ds}, []*Term{off}))
						wrong = isFalse(st, ho) || isTrue(st, ho) && !in
					case c.constInt("", "TIDsize"):
						in := proveSplit(f, linSum(f, []*Term{do, ds}, []*Term{off, size}))
						wrong = isFalse(st, hs) || isTrue(st, ho) && isTrue(st, hs) && !in
					}
					c.Must(wrong, st, o.Pos, fn, fmt.Sprint("wrong ", n), "tag %d is reported although it is right", n)
					if isTrue(st, hp) {
						c.Must(key == toSlash(path) || sameVal(st, key, toSlash(path)), st, o.Pos, fn, "key of error", "an error names %v, not the key of the entry", key)
					}
				}
				for _, n := range []string{"TIDpath", "TIDoffset", "TIDsize"} {
					c.Must(tids[c.constInt("", n)], nil, fn.Pos(), fn, "reports "+n, "nothing is reported for tag %s", n)
				}
			}
			c.Rule("accessors return the validated values")
			acc := func(name string, ok func(o *Outcome, path, off, size *Term) bool, what string) {
				fn := c.Fn(":TagsetRaw." + name)
				if fn == nil {
					return
				}
				c.accessor(fn, func(o *Outcome, ts *Term) bool {
					path, _, off, _, size, _ := c.entryTags(ts)
					return ok(o, path, off, size)
				}, what)
			}
			val := func(o *Outcome, got, ts *Term, tid, conv string) bool {
				return sameTag(o.St, got, ts, c.constInt("", tid), conv)
			}
			for _, a := range []struct {
				name string
				ok   func(o *Outcome, ts *Term) bool
				what string
			}{
				{"Pos", func(o *Outcome, ts *Term) bool {
					return len(o.Vals) == 2 && val(o, o.Vals[0], ts, "TIDoffset", "TagUint") && val(o, o.Vals[1], ts, "TIDsize", "TagUint")
				}, "offset and size"},
				{"Path", func(o *Outcome, ts *Term) bool { return val(o, o.Vals[0], ts, "TIDpath", "TagStr") }, "the name"},
			} {
				if fn := c.Fn(":TagsetRaw." + a.name); fn != nil {
					c.accessor(fn, a.ok, a.what)
				}
			}
			acc("Size", func(o *Outcome, path, off, size *Term) bool {
				return eq64(o.St, o.Vals[0], size) || o.Vals[0] == convT(size, types.Typ[types.Int64])
			}, "the size")
			acc("Name", func(o *Outcome, path, off, size *Term) bool {
				v := o.Vals[0]
				return isCallOf(v, "path.Base") && v.Args[0] == path
			}, "the last element of the name")
			for _, a := range []struct {
				name string
				dir  bool
			}{{"IsDir", true}} {
				if fn := c.Fn(":TagsetRaw." + a.name); fn != nil {
					c.accessor(fn, func(o *Outcome, ts *Term) bool {
						_, has := tsLookup(ts, tidT(c.constInt("", "TIDsize")))
						return sameBool(o.St, o.Vals[0], notT(has))
					}, "whether there is no size")
				}
			}
		})
}

func minusOne(l *LinForm) *LinForm {
	l = l.clone()
	l.C.Sub(l.C, bigOne)
	return l
}

// tagError takes the tag and the key out of an error made by the repository for a tag.
func (c *Check) tagError(st *State, err *Term) (tid, key *Term) {
	if err == nil || err.Op != "makeiface" || !strings.HasSuffix(err.Aux, "wpk.ErrTag") {
		return nil, nil
	}
	p := err.Args[0]
	if _, ok := p.Typ.(*types.Pointer); !ok {
		return nil, nil
	}
	return st.load(c.fieldAddr(p, "", "ErrTag", "TID"), u16t()), st.load(c.fieldAddr(p, "", "ErrTag", "Key"), types.Typ[types.String])
}

// everyStores checks that a loop which puts entries into the table does it in every iteration.
func (c *Check) everyStores(s *Star, fn *ssa.Function) {
	stores := func(b *Body) bool {
		found := false
		for _, ev := range b.St.Events() {
			if isStore(ev) {
				found = true
			}
		}
		return found
	}
	any := false
	for i := range s.Bodies {
		any = any || stores(&s.Bodies[i])
	}
	if !any {
		return
	}
	for i := range s.Bodies {
		b := &s.Bodies[i]
		c.Must(stores(b), b.St, fn.Pos(), fn, "skips", "an entry of the table is passed over without being stored or reported")
	}
}

// proveSplit proves a linear inequality with a case split on whether the sums it
// depends on wrap around.
func proveSplit(f *Facts, goal *LinForm) bool {
	if f.proveGE(goal) {
		return true
	}
	rel := map[*Term]bool{}
	for a := range goal.M {
		rel[a] = true
	}
	var sums []*Term
	for changed := true; changed; {
		changed = false
		for _, l := range f.lins {
			for a := range l.M {
				if a.Op != "lin" || rel[a] {
					continue
				}
				src, ok := a.Obj.(*LinForm)
				if !ok {
					continue
				}
				for x := range src.M {
					if rel[x] {
						rel[a] = true
					}
				}
				if rel[a] {
					if _, self := f.toInt(a).M[a]; self {
						sums = append(sums, a)
					}
					changed = true
				}
			}
		}
	}
	if len(sums) == 0 || len(sums) > 4 {
		return false
	}
	neg := newLin()
	neg.add(goal, bigMinus)
	neg.C.Sub(neg.C, bigOne)
	var split func(i int, extra []*LinForm) bool
	split = func(i int, extra []*LinForm) bool {
		if !f.feasible(extra) {
			return true
		}
		if i == len(sums) {
			return false
		}
		t := sums[i]
		src := t.Obj.(*LinForm)
		w, _ := intKind(t.Typ)
		mod := new(big.Int).Lsh(bigOne, uint(w))
		lo, hi := int64(0), int64(0)
		for _, k := range src.M {
			if k.Sign() > 0 {
				hi += k.Int64()
			} else {
				lo += k.Int64()
			}
		}
		if hi-lo > 4 {
			return false
		}
		for k := lo - 1; k <= hi; k++ {
			// t = src - k*mod
			l := newLin()
			l.C.Set(src.C)
			for x, c := range src.M {
				l.add(f.toInt(x), c)
			}
			l.C.Sub(l.C, new(big.Int).Mul(mod, big.NewInt(k)))
			l.addTerm(t, bigMinus)
			n := newLin()
			n.add(l, bigMinus)
			if !split(i+1, append(extra[:len(extra):len(extra)], l, n)) {
				return false
			}
		}
		return true
	}
	return split(0, []*LinForm{neg})
}

// wholeTable checks that the bytes taken by the table read are those which the header tells.
func (c *Check) wholeTable(fn *ssa.Function) {
	e := c.Engine()
	own := func(f *ssa.Function) bool {
		n := cname(f)
		return n == "(*wpk.FTT).Parse" || n == "(*wpk.FTT).ReadFrom"
	}
	e.Inline = func(f *ssa.Function) bool { return !own(f) }
	outs := c.Run(e, fn, nil, nil)
	c.Analysed(fn, outs)
	// the table read on a path, and the sizes the tables read on any path are to have
	var sizes []*Term
	reads := map[int]*Event{}
	for i := range outs {
		AllEvents(outs[i].St.Events(), func(ev *Event, _ *Body) {
			if ev.Kind == "call" && (ev.Name == "(*wpk.FTT).Parse" || ev.Name == "(*wpk.FTT).ReadFrom") {
				reads[i] = ev
				if a := ev.Args[len(ev.Args)-1]; a.Typ != nil && isByteSlice(a.Typ) {
					n := lenT(a)
					for n.Op == "conv" {
						n = n.Args[0]
					}
					sizes = append(sizes, n)
				}
			}
		})
	}
	for i := range outs {
		o := &outs[i]
		if o.Panic || !mustNil(o.St, errVal(o)) {
			continue
		}
		c.Inst("openings")
		read := reads[i]
		n := intConst(0, types.Typ[types.Uint64]) // nothing is read of an empty table
		if read != nil {
			n = read.result(0)
			if a := read.Args[len(read.Args)-1]; a.Typ != nil && isByteSlice(a.Typ) {
				sizes = append(sizes, lenT(a))
			}
		}
		good := false
		for _, x := range sizes {
			good = good || eq64(o.St, n, x) || o.St.facts.ProveEq(n, x) || sameVal(o.St, n, x)
		}
		if read != nil && len(sizes) == 0 {
			// read from a stream: its length is compared with something
			for t := range o.St.facts.truth {
				good = good || t.any(func(x *Term) bool { return x == n })
			}
		}
		c.Must(good, o.St, o.Pos, fn, "rest", "a package is opened although the table read may take another number of bytes than the header tells")
	}
}
