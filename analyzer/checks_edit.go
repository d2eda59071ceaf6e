package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// walkEngine follows the editing operations of tagsets; the step of the iterator is
// replaced by what C17 proves of it. The tag "tsi" tells where the walk is.
type walk struct {
	c    *Check
	e    *Engine
	f    *tsiFields
	tid  *Term // identifier looked for
	recv map[*Term]bool
}

var walkAt = map[string]*Term{"start": nil, "yes": intConst(1, tyInt), "no": intConst(2, tyInt)}

func (c *Check) walkEngine(f *tsiFields, tid *Term, fn *ssa.Function) *walk {
	e := c.iterEngine()
	for _, m := range []string{"Has", "Get", "Put", "Add", "AddOk", "Set", "SetOk", "Del", "DelOk", "Num"} {
		e.NoDefault["(wpk.TagsetRaw)."+m] = true
	}
	e.NoDefault["wpk.CopyTagset"] = true
	e.NoUnroll = true
	e.AppendClobbers = true
	e.Threshold = 400
	e.Ghost = map[string]bool{"tsi": true}
	w := &walk{c: c, e: e, f: f, tid: tid, recv: map[*Term]bool{}}
	e.Models[tsiNext] = func(cl *Call) ([]Outcome, bool) {
		st, it := cl.st, cl.Recv
		if !w.recv[it] {
			w.recv[it] = true
			e.Preds = append(e.Preds,
				func(s *State) *Term {
					if s.tags["tsi"] != walkAt["yes"] {
						return nil
					}
					return w.at(s, it)
				},
				func(s *State) *Term {
					if tid == nil {
						return nil
					}
					if s.tags["tsi"] != walkAt["yes"] {
						return nil
					}
					return notT(eqT(f.get(s, it, f.tid), tid))
				})
		}
		zero := intConst(0, tyInt)
		pos0 := f.get(st, it, f.pos)
		switch st.tags["tsi"] {
		case walkAt["yes"]:
			if e.quiet == 0 && tid != nil {
				v, known := truth(st, eqT(f.get(st, it, f.tid), tid))
				c.Must(known && !v, st, cl.Pos, fn, "skips", "the walk goes on from an entry that is not compared with the identifier looked for")
			}
		case walkAt["no"]:
			st.store(f.addr(it, f.tid), intConst(0, f.st.Field(f.tid).Type()), f.st.Field(f.tid).Type())
			return cl.ret(tFalse)
		default:
			if e.quiet == 0 && tid != nil {
				c.Must(st.facts.ProveEq(pos0, zero), st, cl.Pos, fn, "starts", "the walk starts at %v, not at the front of the tagset", pos0)
			}
		}
		id := fmt.Sprint(st.step(cl.Instr, 7))
		fresh := func(k string, i int) *Term { return mk("step", k+id, f.st.Field(i).Type(), pos0) }
		put := func(s *State, i int, v *Term) { s.store(f.addr(it, i), v, f.st.Field(i).Type()) }
		yes, no := st, st.clone()
		put(yes, f.tid, fresh("tid", f.tid))
		put(yes, f.tag, fresh("tag", f.tag))
		put(yes, f.pos, fresh("pos", f.pos))
		yes.tags["tsi"] = walkAt["yes"]
		yes.facts.Assume(w.at(yes, it), true)
		yes.facts.Assume(ltT(f.get(yes, it, f.tag), addT(pos0, intConst(4, tyInt), tyInt)), false)
		put(no, f.tid, intConst(0, f.st.Field(f.tid).Type()))
		put(no, f.pos, fresh("end", f.pos))
		no.tags["tsi"] = walkAt["no"]
		no.facts.Assume(ltT(f.get(no, it, f.pos), lenT(f.get(no, it, f.ts))), false)
		return []Outcome{{St: yes, Vals: []*Term{tTrue}}, {St: no, Vals: []*Term{tFalse}}}, true
	}
	return w
}

// at is the fact that the iterator stands at an entry of the set.
func (w *walk) at(s *State, it *Term) *Term {
	f := w.f
	return mk("tsiat", "", tyBool, f.get(s, it, f.ts), f.get(s, it, f.tid), f.get(s, it, f.tag), f.get(s, it, f.pos))
}

func init() {
	assumeHook["tsiat"] = func(f *Facts, t *Term, val bool) bool {
		if val {
			ts, tag, pos := t.Args[0], t.Args[2], t.Args[3]
			four := intConst(4, tyInt)
			f.addGE(tag, four)
			f.addGE(pos, tag)
			f.addGE(lenT(ts), pos)
		}
		return true
	}
}

// found is the entry with the identifier looked for at which the walk has stopped.
func (w *walk) found(s *State) (tag, pos *Term, found, none bool) {
	switch s.tags["tsi"] {
	case walkAt["yes"]:
		for it := range w.recv {
			if v, ok := truth(s, w.at(s, it)); ok && v {
				if v, ok := truth(s, eqT(w.f.get(s, it, w.f.tid), w.tid)); ok && v {
					return w.f.get(s, it, w.f.tag), w.f.get(s, it, w.f.pos), true, false
				}
			}
		}
	case walkAt["no"]:
		return nil, nil, false, true
	}
	return
}

// part is a range of bytes of a result.
type part struct {
	kind   string // orig, value, id, length
	lo, hi *Term
}

// partsOf takes bytes apart into ranges of the original set and what is new.
func (w *walk) partsOf(s *State, r, ts, tid, val *Term) (ps []part, ok bool) {
	ds, ns := segsOf(s, r)
	for i, d := range ds {
		n := ns[i]
		p := part{}
		switch {
		case d == nil:
			return nil, false
		case d.Op == "content" && d.Args[0] == ts && !s.hav[ts] && len(d.Aux) > 0 && d.Aux[0] >= '0' && d.Aux[0] <= '9':
			p = part{"orig", d.Args[1], addT(d.Args[1], n, tyInt)}
		case val != nil && d.Op == "content" && d.Args[0] == val && d.Args[1].isInt(0) && s.facts.ProveEq(n, lenT(val)) && !s.hav[val]:
			p.kind = "value"
		default:
			if tid != nil && n.isInt(2) && sameVal(s, decode(d, 2, tid.Typ), tid) {
				p.kind = "id"
			} else if val != nil && n.isInt(2) && lengthOf(s, d, lenT(val)) {
				p.kind = "length"
			} else if tid != nil && val != nil && n.isInt(4) && sameVal(s, decode(dataAt(d, 0, 2), 2, tid.Typ), tid) && lengthOf(s, dataAt(d, 2, 2), lenT(val)) {
				ps = append(ps, part{kind: "id"})
				p.kind = "length"
			} else {
				p.kind = "?" + trim(d.String(), 120)
			}
		}
		if p.kind == "orig" {
			if s.facts.ProveEq(p.lo, p.hi) {
				continue
			}
			if k := len(ps) - 1; k >= 0 && ps[k].kind == "orig" && s.facts.ProveEq(ps[k].hi, p.lo) {
				ps[k].hi = p.hi
				continue
			}
		}
		ps = append(ps, p)
	}
	return ps, true
}

func partsString(ps []part) string {
	s := ""
	for _, p := range ps {
		if p.kind == "orig" {
			s += fmt.Sprintf("[old %v to %v]", p.lo, p.hi)
		} else {
			s += "[" + p.kind + "]"
		}
	}
	return s
}

// matches compares the bytes of a result with what they have to be.
func (w *walk) matches(s *State, got, want []part) bool {
	var ws []part
	for _, p := range want {
		if p.kind == "orig" {
			if s.facts.ProveEq(p.lo, p.hi) {
				continue
			}
			if k := len(ws) - 1; k >= 0 && ws[k].kind == "orig" && s.facts.ProveEq(ws[k].hi, p.lo) {
				ws[k].hi = p.hi
				continue
			}
		}
		ws = append(ws, p)
	}
	if len(got) != len(ws) {
		return false
	}
	for i, g := range got {
		if g.kind != ws[i].kind || g.kind == "orig" && !(s.facts.ProveEq(g.lo, ws[i].lo) && s.facts.ProveEq(g.hi, ws[i].hi)) {
			return false
		}
	}
	return true
}

func init() {
	register("C16", "abstract interpretation of tagset editing with symbolic set, capacity and entry: byte range provenance and clobber analysis",
		"Every operation that looks up or edits a tag is interpreted abstractly over an arbitrary set with arbitrary spare capacity; the walk is summarised by what the check of the iterator (C17) proves of a step. Every entry visited is compared with the identifier asked for before the walk goes on, and absence is concluded only at the end of the walk. The bytes of the resulting set are taken apart into ranges of the old set and new parts, with writes into spare capacity taken into account, and must be: appended: the old set, the identifier, the true length and the value; added: nothing new if the tag is there; replaced: the old set up to the length of the entry, the new length, the value, the rest of the old set; deleted: the old set without exactly that entry. The result flag tells which of them has happened, and an absent identifier changes nothing.",
		[]string{"values of tags are at most 65535 bytes long, as the format can express", "a value given is not itself a part of the set being edited", "identifiers are unique in a set"},
		func(c *Check) {
			next := c.Fn(":TagsetIterator.Next")
			if next == nil {
				return
			}
			f := c.tsiRoles(next)
			if f == nil {
				return
			}
			c.Rule("editing a tag changes exactly this tag")
			zero := intConst(0, tyInt)
			type op struct {
				name    string
				val     bool
				flag    bool
				present func(w *walk, s *State, ts, val, tag, pos *Term) ([]part, bool) // bytes, flag
				absent  func(w *walk, s *State, ts, val *Term) ([]part, bool)
			}
			whole := func(ts *Term) part { return part{"orig", zero, lenT(ts)} }
			same := func(w *walk, s *State, ts, val, tag, pos *Term) ([]part, bool) { return []part{whole(ts)}, false }
			added := func(w *walk, s *State, ts, val *Term) ([]part, bool) {
				return []part{whole(ts), {kind: "id"}, {kind: "length"}, {kind: "value"}}, true
			}
			put := func(w *walk, s *State, ts, val, tag, pos *Term) ([]part, bool) { return added(w, s, ts, val) }
			replaced := func(w *walk, s *State, ts, val, tag, pos *Term) ([]part, bool) {
				if s.facts.ProveEq(lenT(val), subT(pos, tag, tyInt)) {
					return []part{{"orig", zero, tag}, {kind: "value"}, {"orig", pos, lenT(ts)}}, false
				}
				return []part{{"orig", zero, subT(tag, intConst(2, tyInt), tyInt)}, {kind: "length"}, {kind: "value"}, {"orig", pos, lenT(ts)}}, false
			}
			deleted := func(w *walk, s *State, ts, val, tag, pos *Term) ([]part, bool) {
				return []part{{"orig", zero, subT(tag, intConst(4, tyInt), tyInt)}, {"orig", pos, lenT(ts)}}, true
			}
			kept := func(w *walk, s *State, ts, val *Term) ([]part, bool) { return []part{whole(ts)}, false }
			for _, d := range []op{
				{"Put", true, false, put, added},
				{"Add", true, false, same, added},
				{"AddOk", true, true, same, added},
				{"Set", true, false, replaced, added},
				{"SetOk", true, true, replaced, added},
				{"Del", false, false, deleted, kept},
				{"DelOk", false, true, deleted, kept},
			} {
				fn := c.Fn(":TagsetRaw." + d.name)
				if fn == nil {
					continue
				}
				ps := c.Engine().Params(fn)
				ts, tid := ps[0], ps[1]
				var val *Term
				if d.val {
					val = ps[2]
				}
				w := c.walkEngine(f, tid, fn)
				w.e.OnOblige = func(o *Oblig) {
					if o.Kind == "index" || o.Kind == "slice" {
						c.Site(o.Pos)
						c.Must(o.OK, o.St, o.Pos, o.Fn, d.name+" "+o.Kind, "%s: access is not proved to stay inside of the tagset: %s", d.name, o.Desc)
					}
				}
				outs := c.Run(w.e, fn, nil, nil)
				there, not := 0, 0
				for i := range outs {
					o := &outs[i]
					if !o.St.facts.Consistent() {
						continue
					}
					if !c.Must(!o.Panic, o.St, o.Pos, fn, d.name+" panics", "%s can panic", d.name) {
						continue
					}
					tag, pos, found, none := w.found(o.St)
					var want []part
					var flag bool
					switch {
					case d.name == "Put":
						there++
						not++
						want, flag = d.absent(w, o.St, ts, val)
					case found:
						there++
						want, flag = d.present(w, o.St, ts, val, tag, pos)
					case none:
						not++
						want, flag = d.absent(w, o.St, ts, val)
					default:
						c.FailT(o.St, o.Pos, fn, d.name+" undecided", "%s returns neither at the entry looked for nor at the end of the walk", d.name)
						continue
					}
					got, _ := w.partsOf(o.St, o.Vals[0], ts, tid, val)
					c.Must(w.matches(o.St, got, want), o.St, o.Pos, fn, fmt.Sprint(d.name, " bytes ", found), "%s (entry present: %v) makes %s of the set, it has to be %s", d.name, found, partsString(got), partsString(want))
					if d.flag {
						v, known := truth(o.St, o.Vals[1])
						c.Must(known && v == flag, o.St, o.Pos, fn, fmt.Sprint(d.name, " flag ", found), "%s (entry present: %v) reports %v", d.name, found, o.Vals[1])
					}
				}
				c.Must(there > 0 && not > 0, nil, fn.Pos(), fn, d.name+" cases", "%s does not tell present and absent tags", d.name)
			}
			c.Rule("a lookup gives the value of the entry with the identifier asked for")
			for _, name := range []string{"Has", "Get"} {
				fn := c.Fn(":TagsetRaw." + name)
				if fn == nil {
					continue
				}
				ps := c.Engine().Params(fn)
				w := c.walkEngine(f, ps[1], fn)
				outs := c.Run(w.e, fn, nil, nil)
				there, not := 0, 0
				for i := range outs {
					o := &outs[i]
					if !c.Must(!o.Panic, o.St, o.Pos, fn, name+" panics", "%s can panic", name) {
						continue
					}
					tag, pos, found, none := w.found(o.St)
					if !c.Must(found || none, o.St, o.Pos, fn, name+" undecided", "%s returns neither at the entry looked for nor at the end of the walk", name) {
						continue
					}
					v, known := truth(o.St, o.Vals[len(o.Vals)-1])
					c.Must(known && v == found, o.St, o.Pos, fn, fmt.Sprint(name, " result ", found), "%s reports %v, the entry is present: %v", name, o.Vals[len(o.Vals)-1], found)
					if found {
						there++
						if name == "Get" {
							got, _ := w.partsOf(o.St, o.Vals[0], ps[0], ps[1], nil)
							c.Must(w.matches(o.St, got, []part{{"orig", tag, pos}}), o.St, o.Pos, fn, name+" value", "Get returns %s, not the bytes of the entry", partsString(got))
						}
					} else {
						not++
						if name == "Get" {
							c.Must(isZero(o.Vals[0]), o.St, o.Pos, fn, name+" value of none", "Get returns %v for an absent tag", o.Vals[0])
						}
					}
					c.Must(!writesBytes(o.St), o.St, o.Pos, fn, name+" writes", "%s writes to the set", name)
				}
				c.Must(there > 0 && not > 0, nil, fn.Pos(), fn, name+" cases", "%s does not tell present and absent tags", name)
			}
		})
}

var _ = token.NoPos
var _ types.Type
