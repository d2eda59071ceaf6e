package main

import (
	"go/types"
	"strings"
)

// streamEnd are the lengths of streams a path has asked for.
func streamEnds(st *State) (ends []*Term) {
	AllEvents(st.Events(), func(ev *Event, _ *Body) {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Seek") && len(ev.Args) == 2 && ev.Args[1].isInt(2) {
			ends = append(ends, ev.result(0))
		}
	})
	return
}

// crashRule makes an engine report every operation that is not proved to be safe,
// and every allocation which data of the package could make arbitrarily large.
func (c *Check) crashRule(e *Engine, what string, data ...*Term) {
	e.OnOblige = func(o *Oblig) {
		c.Site(o.Pos)
		if o.Kind == "alloc" {
			ok := o.T.Op == "int" || o.St.facts.ProveGE(intConst(1<<17, tyInt), o.T, 0)
			for _, l := range append(streamEnds(o.St), data...) {
				ok = ok || o.St.facts.ProveGE(convT(l, types.Typ[types.Int64]), o.T, 0) || o.St.facts.ProveGE(l, o.T, 0)
			}
			c.Must(ok, o.St, o.Pos, o.Fn, "alloc", "%s: %s is not bounded by the data really there", what, o.Desc)
			return
		}
		c.Must(o.OK, o.St, o.Pos, o.Fn, o.Kind, "%s: %s is not proved to be safe: %s", what, o.Kind, o.Desc)
	}
}

func init() {
	register("C18", "abstract interpretation: bounds, nil, division and allocation obligations with linear arithmetic over symbolic package content",
		"Every function that reads packages (opening from a stream, reading and parsing the header and the table, checking tagsets, reading the package description) is interpreted abstractly over arbitrary bytes, with everything it calls in the repository. Every index, slice bound, slice length, division, type assertion and access behind a pointer on every path is an obligation, proved by linear arithmetic over the conditions of the path, no explicit panic is reachable, and every allocation whose size comes from the package is proved to be at most the length of the stream (found by seeking to its end), the length of the given data, or a 16-bit length. All methods of tags and tagsets that read are interpreted the same way over arbitrary bytes, and the step of the iterator is proved to stay inside of the set from any position.",
		[]string{"functions of the standard library do not panic on arguments of the right type", "the map of the table is checked by C01 and C48"},
		func(c *Check) {
			next := c.Fn(":TagsetIterator.Next")
			if next == nil {
				return
			}
			f := c.tsiRoles(next)
			if f == nil {
				return
			}
			c.Rule("no operation of a reader can fail on package content")
			for _, spec := range []string{":FTT.OpenStream", ":FTT.OpenFile", ":FTT.ReadFrom", ":FTT.Parse", ":FTT.CheckTagset", ":Header.Parse", ":Header.ReadFrom", ":Header.IsReady", ":GetPackageInfo", ":FTT.GetInfo"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				e.NoDefault["(*wpk/util.SeqMap).Init"] = true
				var data []*Term
				for _, p := range e.Params(fn) {
					if sl, ok := under(p.Typ).(*types.Slice); ok && isByteT(sl.Elem()) {
						data = append(data, lenT(p))
					}
				}
				c.crashRule(e, fn.Name(), data...)
				outs := c.Run(e, fn, nil, nil)
				n := 0
				for i := range outs {
					o := &outs[i]
					c.Must(!o.Panic, o.St, o.Pos, fn, "panic", "%s can panic", fn.Name())
					if !o.Panic {
						n++
					}
				}
				c.Must(n > 0, nil, fn.Pos(), fn, "returns", "%s never returns", fn.Name())
				c.Inst("readers")
			}
			c.AtLeast("readers", 8)
			for _, typ := range []string{"TagRaw", "TagsetRaw"} {
				for _, fn := range c.declared(typ) {
					if len(fn.Params) == 0 || c.returnsTagset(fn) >= 0 || fn.Blocks == nil {
						continue // editing is checked by C16
					}
					if _, ok := under(fn.Params[0].Type()).(*types.Slice); !ok {
						continue
					}
					if !fn.Object().Exported() && len(c.P.callers(fn)) > 0 {
						continue // followed in the context of its callers
					}
					w := c.walkEngine(f, nil, fn)
					for _, t := range []string{"(wpk.TagRaw).", "(wpk.TagsetRaw)."} {
						for d := range tagLens {
							w.e.NoDefault[t+d] = true
						}
						w.e.NoDefault[t+"TagStr"] = true
					}
					w.e.NoDefault[cname(fn)] = true
					w.e.NoDefault["(wpk.TagsetRaw).Pos"] = true
					c.crashRule(w.e, fn.Name())
					outs := c.Run(w.e, fn, nil, nil)
					for i := range outs {
						o := &outs[i]
						c.Must(!o.Panic, o.St, o.Pos, fn, "panic", "%s can panic", fn.Name())
					}
					c.Inst("decoders")
				}
			}
			c.AtLeast("decoders", 25)
			c.stepRule(f, next)
		})
}
