package main

import (
	"strconv"
	"strings"
)

// madeIn tells that memory was allocated after a loop's header was reached.
func madeIn(root *Term, s *Star) bool {
	i := strings.LastIndexByte(root.Aux, '#')
	if i < 0 || s.Header == nil || root.Op != "makeslice" && root.Op != "alloc" && root.Op != "appended" && root.Op != "append" {
		return false
	}
	n, err := strconv.Atoi(root.Aux[i+1:])
	return err == nil && n > s.Header.hist
}

// varies tells that a term depends on what changes from one iteration to the next.
func varies(t *Term, s *Star) bool {
	found := false
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if found || t == nil || seen[t] {
			return
		}
		seen[t] = true
		if _, ok := s.Init[t]; ok {
			found = true
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		if l, ok := t.Obj.(*LinForm); ok {
			for a := range l.M {
				rec(a)
			}
		}
	}
	rec(t)
	return found
}

func init() {
	register("C21", "ownership dataflow of stored tagsets over SSA with interprocedural write summaries, and abstract interpretation of the capacity of loaded tagsets",
		"Every function of the repository is analysed by a path-sensitive ownership dataflow: tagsets loaded from the container of the file table or from the description field, and tagsets that were put there, are followed through variables, results, parameters, closures, iterators and tag getters, and no store, copy, append within their length or call of a function that writes its argument may reach them; only copies may be edited. Loading the table (parsing and reading) is interpreted abstractly: every tagset it stores, and the description, is proved to have a capacity equal to its length, and two entries never share memory (allocated in the iteration, or a part of the buffer that moves with the iteration).",
		[]string{"a value is followed by its SSA name, so another name of the same memory made before it was stored is not"},
		func(c *Check) {
			c.Rule("tagsets in the file table are never written in place")
			c.newFlow(true, "the memory of a stored tagset")
			c.AtLeast("loads of stored tagsets", 3)
			c.AtLeast("stores of tagsets", 3)
			c.Rule("loaded tagsets have no spare capacity and no common memory")
			for _, spec := range []string{":FTT.Parse", ":FTT.ReadFrom", ":FTT.OpenStream"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				e.KeepPre = isStore
				outs := c.Run(e, fn, nil, nil)
				base := e.Params(fn)[0]
				seen := map[*Event]bool{}
				var walk func(evs []*Event, star *Star)
				walk = func(evs []*Event, star *Star) {
					for _, ev := range evs {
						if ev.Star != nil {
							for i := range ev.Star.Bodies {
								walk(ev.Star.Bodies[i].St.Events(), ev.Star)
							}
						}
						if !isStore(ev) || ev.Pre == nil || seen[ev] {
							continue
						}
						seen[ev] = true
						c.Inst(fn.Name())
						c.Site(ev.Pos)
						ts := ev.Args[1]
						c.Must(ev.Pre.facts.ProveEq(capT(ts), lenT(ts)), ev.Pre, ev.Pos, fn, "capacity", "a loaded tagset can have spare capacity: appending a tag to it could overwrite its neighbour")
						if star != nil {
							root, off := byteBase(ts)
							c.Must(madeIn(root, star) || varies(off, star), ev.Pre, ev.Pos, fn, "shared", "all loaded tagsets lie in the same memory")
						}
					}
				}
				for i := range outs {
					o := &outs[i]
					walk(o.St.Events(), nil)
					if o.Panic {
						continue
					}
					info := o.St.load(c.fieldAddr(base, "", "FTT", "info"), c.P.Type("", "TagsetRaw"))
					c.Must(info.Op == "nil" || o.St.facts.ProveEq(capT(info), lenT(info)) || !mustNil(o.St, errVal(o)), o.St, o.Pos, fn, "description", "the loaded description can have spare capacity")
				}
				c.AtLeast(fn.Name(), 1)
			}
		})
}
