package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isEntries tells the type of lists of directory entries.
func isEntries(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isNamed(s.Elem(), "io/fs", "DirEntry")
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// listingModels make the listings of directories opaque: what C28 decides about
// a listing without a limit is taken as one list per directory, and a listing
// with a limit as some list.
func (c *Check) listingModels(e *Engine, self *ssa.Function) {
	for _, fn := range c.P.Fns {
		sig := fn.Signature
		if fn == self || fn.Parent() != nil || fn.Synthetic != "" || sig.Results().Len() == 0 || !isEntries(sig.Results().At(0).Type()) {
			continue
		}
		given := false
		for _, p := range fn.Params {
			given = given || isEntries(p.Type()) || ptrTo(p.Type()) == "PackDirFile" || ptrTo(p.Type()) == "UnionDir"
		}
		if given {
			continue
		}
		e.Models[cname(fn)] = func(cl *Call) ([]Outcome, bool) {
			full := true
			var key []*Term
			for _, a := range cl.All {
				if b, ok := under(a.Typ).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					v, known := cl.st.facts.Decide(ltT(intConst(0, a.Typ), a))
					full = full && known && !v
					continue
				}
				key = append(key, a)
			}
			vals := make([]*Term, cl.Sig.Results().Len())
			if !full {
				t := cl.callTerm()
				for i := range vals {
					vals[i] = mk("res", fmt.Sprint(i), cl.resT(i), t)
				}
				return cl.ret(vals...)
			}
			vals[0] = mk("pure", "listing", cl.resT(0), key...)
			for i := 1; i < len(vals); i++ {
				vals[i] = zeroTerm(cl.resT(i))
			}
			if !cl.st.facts.Assume(eqT(vals[0], zeroTerm(cl.resT(0))), false) {
				return nil, true
			}
			return cl.ret(vals...)
		}
	}
}

// span is the part of a list a value is.
func span(t *Term) (base, from *Term) {
	from = intConst(0, tyInt)
	for t.Op == "slice" {
		from = addT(from, t.Args[1], tyInt)
		t = t.Args[0]
	}
	return t, from
}

func init() {
	register("C56", "abstract interpretation composed over successive calls on one directory file: relational comparison of the returned parts of one listing",
		"Reading of an opened directory is interpreted abstractly three times in a row on the same directory file, from a state where nothing was read, each time with its own arbitrary limit; the memory effects of one call are the start of the next. The complete listing of the directory (C28) is one opaque list. On every path each call has to return the part of this list that begins where the call before has ended; with a positive limit not more than that, an end of directory only if nothing is left, and not an empty part without it; without a limit everything that is left and no error. Opened directories are shown to begin with nothing read.",
		[]string{"the directory is not changed between the calls", "listings without a limit are those of C28"},
		func(c *Check) {
			zero := intConst(0, tyInt)
			c.Rule("each reading of a directory continues where the one before has ended")
			for _, spec := range []string{":PackDirFile.ReadDir", ":UnionDir.ReadDir"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				var of lister
				for _, l := range c.listers() {
					if l.spec == spec {
						of = l
					}
				}
				e := c.Engine()
				e.Models["(*wpk.Package).TrimPath"] = trimModel
				c.listingModels(e, fn)
				ps := e.Params(fn)
				st0 := newState(e)
				c.unread(st0, fn, ps[0])
				var next func(st *State, all, pos *Term, turn int)
				next = func(st *State, all, pos *Term, turn int) {
					if turn > 3 {
						return
					}
					n := mk(ps[1].Op, fmt.Sprint(ps[1].Aux, "/", turn), ps[1].Typ)
					outs := c.Run(e, fn, []*Term{ps[0], n}, st)
					for i := range outs {
						o := &outs[i]
						if !c.Must(!o.Panic, o.St, o.Pos, fn, "panic", "reading a directory can panic") {
							continue
						}
						c.Inst(fmt.Sprintf("readings %d", turn))
						c.Site(o.Pos)
						st, res, err := o.St, o.Vals[0], errVal(o)
						count := lenT(res)
						list := all // the complete listing
						eof := equalsEOF(err)
						if !eof && mustNotNil(st, err) {
							if c.Must(st.facts.ProveEq(count, zero), st, o.Pos, fn, "failure", "entries are returned together with %v", shortT(err)) {
								c.Must(of.fails != nil && of.fails(st, ps, err, nil), st, o.Pos, fn, "failure of reading", "reading %d fails with %v although the directory can be listed", turn, shortT(err))
								next(st, list, pos, turn+1)
							}
							continue
						}
						if !c.Must(eof || mustNil(st, err), st, o.Pos, fn, "error", "it is not decided whether reading succeeds: %v", shortT(err)) {
							continue
						}
						base, from := span(res)
						part := base.Op == "pure" && base.Aux == "listing"
						if part && list == nil {
							list = base
						}
						if !part && st.facts.ProveEq(count, zero) {
							from = pos
							if list == nil {
								continue
							}
							base, part = list, true
						}
						if !c.Must(part && base == list, st, o.Pos, fn, "list", "reading %d returns %v, not a part of the directory's complete listing", turn, shortT(res)) {
							continue
						}
						for _, k := range base.Args {
							if isString(k.Typ) {
								own := false
								for _, d := range of.dirs(st, ps, strConst("")) {
									own = own || sameVal(st, k, d[len(d)-1])
								}
								c.Must(own, st, o.Pos, fn, "directory", "reading %d lists %v, not the directory it was opened for", turn, shortT(k))
							}
						}
						c.Must(st.facts.ProveEq(count, zero) || st.facts.ProveEq(from, pos), st, o.Pos, fn, "start", "reading %d does not begin at the entry after the last one of the reading before (at %v, not %v)", turn, shortT(from), shortT(pos))
						end := addT(pos, count, tyInt)
						done := func(f *Facts) bool { return f.ProveGE(end, lenT(list), 0) }
						if f := st.facts.clone(); f.Assume(ltT(zero, n), true) && f.Consistent() && f.feasible(nil) {
							c.Must(f.ProveGE(n, count, 0), st, o.Pos, fn, "limit", "reading %d can return more entries than the limit", turn)
							if eof {
								c.Must(done(f), st, o.Pos, fn, "end", "reading %d can report the end of the directory though there are entries left", turn)
							} else {
								c.Must(f.ProveGE(count, zero, 1), st, o.Pos, fn, "empty", "reading %d with a limit can return nothing and no error", turn)
							}
						}
						if f := st.facts.clone(); f.Assume(ltT(zero, n), false) && f.Consistent() && f.feasible(nil) {
							c.Must(!eof, st, o.Pos, fn, "end without limit", "reading %d without a limit can report the end of the directory", turn)
							c.Must(done(f), st, o.Pos, fn, "rest", "reading %d without a limit can leave entries out", turn)
						}
						next(st, list, end, turn+1)
					}
				}
				next(st0, nil, zero, 1)
			}
			c.Rule("nothing is read from an opened directory yet")
			for _, spec := range []string{":FTT.OpenDir", ":Package.Open", ":Union.Open"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					if o.Panic || len(o.Vals) == 0 {
						continue
					}
					for _, typ := range []string{"PackDirFile", "UnionDir"} {
						obj := newObj(o.Vals[0], typ)
						if obj == nil {
							continue
						}
						c.Inst("opened directories")
						s := structOf(obj.Typ)
						for i := 0; i < s.NumFields(); i++ {
							switch f := s.Field(i); f.Name() {
							case "TagsetRaw", "ftt", "Union":
							default:
								v := o.St.load(c.fieldAddr(obj, "", typ, f.Name()), f.Type())
								c.Must(isZero(v) || o.St.facts.ProveEq(v, zeroTerm(f.Type())), o.St, o.Pos, fn, "opened "+typ, "an opened directory begins with %s = %v", f.Name(), shortT(v))
							}
						}
					}
				}
			}
			for i := 1; i <= 3; i++ {
				c.AtLeast(fmt.Sprintf("readings %d", i), 4)
			}
			c.AtLeast("opened directories", 2)
		})
}
