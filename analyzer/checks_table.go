package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// countBytes keeps the number of bytes moved over a stream in a ghost cell.
func (e *Engine) countBytes(stream *Term, st *State) *Term {
	cell := mk("cell", "bytes", types.NewPointer(types.Typ[types.Int64]), stream)
	st.mem[cell] = i64(0)
	e.AfterCall = func(c *Call, outs []Outcome) []Outcome {
		for i := range outs {
			o := &outs[i]
			if o.Panic || len(o.Vals) == 0 {
				continue
			}
			ev := &Event{Kind: "call", Name: c.Name, Method: c.Method, Recv: c.Recv, Args: c.Args}
			if len(o.Vals) == 2 && o.Vals[0].Op == "res" {
				ev.Res = o.Vals[0].Args[0]
			}
			s := ioKind(ev)
			if s == nil || s.Stream != stream || s.Op != "write" && s.Op != "read" {
				continue
			}
			if s.Len == nil {
				o.St.mem[cell] = mk("unknown", c.Name, types.Typ[types.Int64], o.Vals[0])
				continue
			}
			cur := o.St.mem[cell]
			if cur == nil {
				cur = i64(0)
			}
			o.St.mem[cell] = addT(cur, convT(s.Len, types.Typ[types.Int64]), types.Typ[types.Int64])
		}
		return outs
	}
	return cell
}

// tsmAddr is the address of the file table container.
func (c *Check) tsmAddr(ftt *Term) *Term { return c.fieldAddr(ftt, "", "FTT", "tsm") }

func init() {
	register("C12", "abstract interpretation of table writer and readers: record grammar over write and read events, ghost byte counters with loop invariants",
		"The table writer is interpreted abstractly; the writes of a path that succeeds are flattened to a sequence of byte ranges, which must be: 2-byte length of the description and its whole content, then inside of the enumeration of the table, on every iteration, the 2-byte length of the entry and its whole content, then after the completed enumeration two zero bytes. At the write of each length it must be known that the record is not longer than 65535. The number returned equals a ghost counter of all bytes written. For the buffer reader the ghost position of the end of the last record must be the place of the next length, every stored entry must be exactly the bytes that length counts, success needs a zero length there, and the returned number is its end. For the stream reader and the quick description reader the reads alternate between 2 bytes and exactly that many, entries and description are the buffers so filled, and the returned number equals the ghost counter of bytes taken.",
		[]string{"io.Writer and io.Reader follow their contracts", "the container enumerates in insertion order (C48)"},
		func(c *Check) {
			c.tableWriter()
			c.tableParse()
			c.tableRead(":FTT.ReadFrom", true)
			c.tableRead(":GetPackageInfo", false)
		})
}

func (c *Check) tableWriter() {
	fn := c.Fn(":FTT.WriteTo")
	if fn == nil {
		return
	}
	e := c.Engine()
	ps := e.Params(fn)
	ftt, w := ps[0], streamOf(ps[1])
	tsm := c.tsmAddr(ftt)
	e.KeepPre = func(ev *Event) bool { return ioKind(ev) != nil }
	st0 := newState(e)
	count := e.countBytes(w, st0)
	info := st0.clone().load(c.fieldAddr(ftt, "", "FTT", "info"), c.P.Type("", "TagsetRaw"))
	outs := c.Run(e, fn, nil, st0)
	nn := 0
	// record checks that a sequence of writes is one record and gives its value
	type part struct {
		d, n *Term
		ev   *Event
		st   *State
	}
	parts := func(st *State, evs []*Event) (ps []part, bad *Event) {
		for _, ev := range evs {
			if s := ioKind(ev); s != nil {
				if s.Op != "write" || s.Stream != w {
					return nil, ev
				}
				ds, ns := flatten(st, s.Data, s.Len)
				for i := range ds {
					ps = append(ps, part{ds[i], ns[i], ev, ev.Pre})
				}
			}
		}
		return
	}
	record := func(st *State, p []part, want *Term, what string) {
		var pos token.Pos
		if len(p) > 0 {
			pos = p[0].ev.Pos
		}
		if len(p) == 1 && p[0].d != nil && (p[0].d.Op == "zeros" || lengthOf(st, p[0].d, lenT(want))) && st.facts.ProveEq(lenT(want), intConst(0, tyInt)) {
			c.Holds() // empty record
			return
		}
		if !c.Must(len(p) == 2, st, at(pos, fn), fn, what+" framing", "%s: %d byte ranges are written for a record, must be its length and its content", what, len(p)) {
			return
		}
		c.Inst("records written")
		c.Must(wholeOf(p[1].d) == want, st, at(p[1].ev.Pos, fn), fn, what+" content", "%s: content written is %v, not the whole tagset", what, p[1].d)
		c.Must(lengthOf(st, p[0].d, lenT(want)), st, at(pos, fn), fn, what+" length", "%s: the length written is %v, not the length of the content", what, p[0].d)
		c.Must(p[0].st != nil && p[0].st.facts.ProveGE(intConst(65535, tyInt), lenT(want), 0), st, at(pos, fn), fn, what+" too long", "%s: the length is written although the record may be longer than 65535 bytes", what)
	}
	for i := range outs {
		o := &outs[i]
		err := errVal(o)
		if o.Panic || err == nil {
			continue
		}
		st := o.St
		if mustNotNil(st, err) {
			continue
		}
		nn++
		c.Rule("the table is written as length and content of every record and an end marker")
		c.Must(mustNil(st, err), st, o.Pos, fn, "undecided", "it is not decided whether an error is returned (%v)", err)
		var before, after []*Event
		stage := 0
		var star *Star
		for _, ev := range st.Events() {
			switch {
			case ev.Star != nil && ev.Star.Kind == "range" && ev.Star.Over == tsm && stage == 0:
				stage, star = 1, ev.Star
			case ev.Star != nil && !ev.Star.empty():
				hasIO := false
				for j := range ev.Star.Bodies {
					AllEvents(ev.Star.Bodies[j].St.Events(), func(e2 *Event, _ *Body) { hasIO = hasIO || ioKind(e2) != nil })
				}
				c.Must(!hasIO, st, ev.Pos, fn, "loop", "bytes are written by a loop that is not the enumeration of the table")
			case ev.Kind == "rangeend" && ev.Recv == tsm:
				stage = 2
			case ev.Kind == "rangestop" && ev.Recv == tsm:
				stage = 3
			case stage == 0:
				before = append(before, ev)
			default:
				after = append(after, ev)
			}
		}
		c.Must(stage == 2, st, o.Pos, fn, "complete", "success although the enumeration of the table was not completed")
		p, bad := parts(st, before)
		c.Must(bad == nil, st, o.Pos, fn, "other", "something else than writing the table is done with the stream")
		record(st, p, info, "description")
		if star != nil {
			for j := range star.Bodies {
				b := &star.Bodies[j]
				p, bad := parts(b.St, b.St.Events())
				c.Must(bad == nil, b.St, o.Pos, fn, "other", "something else than writing the table is done with the stream")
				record(b.St, p, star.Val, "entry")
			}
		}
		p, _ = parts(st, after)
		c.Must(len(p) == 1 && p[0].d != nil && p[0].d.Op == "zeros" && p[0].n.isInt(2), st, o.Pos, fn, "end marker", "the table does not end with the two zero bytes after the entries")
		c.Rule("the number of bytes returned is the number of bytes written")
		got := st.mem[count]
		c.Must(got != nil && eq64(st, o.Vals[0], got), st, o.Pos, fn, "written", "%v is returned, %v bytes were written", o.Vals[0], got)
	}
	c.Must(nn > 0, nil, fn.Pos(), fn, "succeeds", "writing the table never succeeds")
	c.AtLeast("records written", 2)
}

// recordOf checks that a slice of the input is the record whose length stands before it.
func recordOf(st *State, buf, v *Term) (lo, hi *Term, ok bool) {
	r, off := byteBase(v)
	if r != buf {
		return nil, nil, false
	}
	at := subT(off, intConst(2, tyInt), tyInt)
	d := decode(newState(st.e).readBytes(buf, at, intConst(2, tyInt)), 2, types.Typ[types.Uint16])
	if !eq64(st, lenT(v), convT(d, tyInt)) {
		return nil, nil, false
	}
	return at, addT(off, lenT(v), tyInt), true
}

func (c *Check) tableParse() {
	fn := c.Fn(":FTT.Parse")
	if fn == nil {
		return
	}
	e := c.Engine()
	ps := e.Params(fn)
	ftt, buf := ps[0], ps[1]
	cell := mk("cell", "end", types.NewPointer(types.Typ[types.Int64]), buf)
	st0 := newState(e)
	zero := intConst(0, tyInt)
	d0 := decode(st0.readBytes(buf, zero, intConst(2, tyInt)), 2, types.Typ[types.Uint16])
	st0.mem[cell] = addT(convT(d0, types.Typ[types.Int64]), i64(2), types.Typ[types.Int64])
	e.Models["(*wpk/util.SeqMap).Poke"] = func(cl *Call) ([]Outcome, bool) {
		if e.quiet == 0 && cl.Recv == c.tsmAddr(ftt) {
			c.Rule("the buffer reader follows the framing")
			c.Inst("entries parsed")
			c.Site(cl.Pos)
			lo, _, ok := recordOf(cl.st, buf, cl.Args[1])
			c.Must(ok, cl.st, cl.Pos, fn, "entry", "the tagset stored is not the bytes counted by the length before it: %v", cl.Args[1])
			if ok {
				c.Must(eq64(cl.st, lo, cl.st.mem[cell]), cl.st, cl.Pos, fn, "adjacent", "an entry is taken at %v, the previous record ends at %v", lo, cl.st.mem[cell])
			}
		}
		if _, hi, ok := recordOf(cl.st, buf, cl.Args[1]); ok {
			cl.st.mem[cell] = convT(hi, types.Typ[types.Int64])
		}
		return nil, false
	}
	e.Models["(*wpk/util.SeqMap).Push"] = e.Models["(*wpk/util.SeqMap).Poke"]
	outs := c.Run(e, fn, nil, st0)
	nn := 0
	for i := range outs {
		o := &outs[i]
		err := errVal(o)
		if o.Panic || err == nil || mustNotNil(o.St, err) {
			continue
		}
		nn++
		st := o.St
		c.Rule("the buffer reader follows the framing")
		c.Must(mustNil(st, err), st, o.Pos, fn, "undecided", "it is not decided whether an error is returned (%v)", err)
		end := st.mem[cell]
		last := decode(newState(e).readBytes(buf, convT(end, tyInt), intConst(2, tyInt)), 2, types.Typ[types.Uint16])
		okEnd := st.facts.ProveEq(last, intConst(0, types.Typ[types.Uint16]))
		if !okEnd { // the place may be known under another name
			for f, v := range st.facts.truth {
				if v && f.Op == "==" {
					for k, a := range f.Args {
						if f.Args[1-k].isInt(0) && a.Op == "dec" && a.Aux == "2" && a.Args[0].Op == "content" && a.Args[0].Args[0] == buf && eq64(st, a.Args[0].Args[1], end) {
							okEnd = true
						}
					}
				}
			}
		}
		c.Must(okEnd, st, o.Pos, fn, "end marker", "success although there is no end marker behind the last record")
		c.Must(eq64(st, o.Vals[0], addT(end, i64(2), types.Typ[types.Int64])), st, o.Pos, fn, "count", "%v is returned as number of bytes processed, the table ends at %v+2", o.Vals[0], end)
		v := st.load(c.fieldAddr(ftt, "", "FTT", "info"), c.P.Type("", "TagsetRaw"))
		lo, _, ok := recordOf(st, buf, v)
		c.Must(ok && eq64(st, lo, zero), st, o.Pos, fn, "description", "the description is %v, not the first record", v)
	}
	c.Must(nn > 0, nil, fn.Pos(), fn, "succeeds", "the buffer reader never succeeds")
	c.AtLeast("entries parsed", 1)
}

// tableRead checks the readers which take records from a stream.
func (c *Check) tableRead(spec string, entries bool) {
	fn := c.Fn(spec)
	if fn == nil {
		return
	}
	e := c.Engine()
	ps := e.Params(fn)
	var r *Term
	if entries {
		r = streamOf(ps[1])
	} else {
		r = streamOf(ps[0])
	}
	st0 := newState(e)
	count := e.countBytes(r, st0)
	outs := c.Run(e, fn, nil, st0)
	nn := 0
	// frame: reads of 2 bytes and of the number they say
	type state struct {
		pending *Event // a length whose content has not been read
		body    *Term  // buffer of the last complete record
	}
	for i := range outs {
		o := &outs[i]
		err := errVal(o)
		if o.Panic || err == nil || mustNotNil(o.St, err) {
			continue
		}
		c.Rule("the stream readers follow the framing")
		c.Must(mustNil(o.St, err), o.St, o.Pos, fn, "undecided", "it is not decided whether an error is returned (%v)", err)
		nn++
		steps, _ := ioSteps(o.St, nil)
		skip := 0
		if !entries { // behind the header
			for k, s := range steps {
				if s.Op == "seek" && !s.Off.isInt(0) {
					skip = k + 1
				}
			}
			if skip == 0 {
				continue // no table
			}
		}
		skipped := map[*Event]bool{}
		for _, s := range steps[:skip] {
			skipped[s.Ev] = true
		}
		var run func(st *State, evs []*Event, s state, in *Body) state
		run = func(st *State, evs []*Event, s state, in *Body) state {
			for _, ev := range evs {
				if skipped[ev] {
					continue
				}
				if ev.Star != nil {
					for j := range ev.Star.Bodies {
						b := &ev.Star.Bodies[j]
						s2 := run(b.St, b.St.Events(), state{body: s.body}, b)
						reads := false
						AllEvents(b.St.Events(), func(e2 *Event, _ *Body) { reads = reads || ioKind(e2) != nil })
						if reads {
							c.Must(s2.pending == nil, b.St, ev.Pos, fn, "unread", "a length is read without its content before the next record")
						}
					}
					continue
				}
				if entries && (ev.Method == "Poke" || ev.Method == "Push") && ev.Recv == c.tsmAddr(ps[0]) {
					c.Inst("entries read")
					c.Must(s.pending == nil && s.body == ev.Args[1], st, ev.Pos, fn, "entry", "the tagset stored is %v, the record read is %v", ev.Args[1], s.body)
				}
				k := ioKind(ev)
				if k == nil {
					continue
				}
				if !c.Must(k.Op == "read" && k.Stream == r && k.Len != nil, st, ev.Pos, fn, "other", "something else than reading records is done with the stream") {
					return s
				}
				if s.pending != nil && s.body == nil && in == nil && st.facts.ProveEq(decode(rdOf(s.pending), 2, types.Typ[types.Uint16]), intConst(0, types.Typ[types.Uint16])) {
					s.pending, s.body = nil, tNil // an empty description
				}
				if s.pending == nil {
					c.Must(eq64(st, k.Len, i64(2)), st, ev.Pos, fn, "length size", "the length of a record is taken from %v bytes", k.Len)
					s.pending = ev
					continue
				}
				want := decode(rdOf(s.pending), 2, types.Typ[types.Uint16])
				c.Must(eq64(st, k.Len, convT(want, tyInt)), st, ev.Pos, fn, "content size", "%v bytes are read for a record whose length is %v", k.Len, want)
				s.pending, s.body = nil, ev.Args[1]
			}
			return s
		}
		s := run(o.St, o.St.Events(), state{}, nil)
		st := o.St
		if entries {
			zero := false
			if s.pending != nil {
				zero = st.facts.ProveEq(decode(rdOf(s.pending), 2, types.Typ[types.Uint16]), intConst(0, types.Typ[types.Uint16]))
			}
			c.Must(zero, st, o.Pos, fn, "end marker", "success without having read the end marker")
			c.Must(eq64(st, o.Vals[0], st.mem[count]), st, o.Pos, fn, "count", "%v is returned as number of bytes processed, %v were taken", o.Vals[0], st.mem[count])
			v := st.load(c.fieldAddr(ps[0], "", "FTT", "info"), c.P.Type("", "TagsetRaw"))
			var first []*ioStep
			for _, k := range steps {
				if k.Body == nil && len(first) < 2 {
					first = append(first, k)
				}
			}
			none := len(first) > 0 && emptyOn(st, v) && st.facts.ProveEq(decode(rdOf(first[0].Ev), 2, types.Typ[types.Uint16]), intConst(0, types.Typ[types.Uint16]))
			c.Must(none || len(first) >= 2 && first[1].Ev.Args[1] == v, st, o.Pos, fn, "description", "the description is %v, not the first record", v)
		} else {
			none := s.pending != nil && st.facts.ProveEq(decode(rdOf(s.pending), 2, types.Typ[types.Uint16]), intConst(0, types.Typ[types.Uint16]))
			c.Must(s.pending == nil && s.body == o.Vals[1] || none && emptyOn(st, o.Vals[1]), st, o.Pos, fn, "description", "%v is returned, the first record is %v", o.Vals[1], s.body)
			c.Inst("descriptions read")
		}
	}
	c.Must(nn > 0, nil, fn.Pos(), fn, "succeeds", "%s never succeeds", cname(fn))
	if entries {
		c.AtLeast("entries read", 1)
	} else {
		c.AtLeast("descriptions read", 1)
	}
}

func init() {
	register("C10", "interprocedural must-analysis over read events: bytes obtained against bytes requested on successful paths",
		"All exported functions of the library packages are interpreted abstractly with what they call. A read that may be short by its contract (Read, ReadAt, ReadAtLeast) is an obligation wherever it occurs: on every path that returns success it is known to have delivered the whole buffer, or its count is what the function itself returns. A full read that failed, an early end of the input included, leads to a non-nil error. Fixed-size records are read with their full size (C11, C12, C13) and the size of the extracted file is compared with the size of the entry.",
		[]string{"io.ReadFull, io.ReadAll, os.ReadFile, io.Copy follow their documentation"},
		func(c *Check) {
			short := func(name, method string, nargs int) bool {
				return method == "Read" && nargs == 1 || method == "ReadAt" && nargs == 2 || name == "io.ReadAtLeast"
			}
			pkgs := []string{"", "/bulk", "/mmap", "/fsys", "/util"}
			for _, fn := range c.exported(pkgs...) {
				e := c.Engine()
				e.NoInv = true
				e.Record = func(ev *Event) bool { return ev.Kind == "star" || short(ev.Name, ev.Method, len(ev.Args)) }
				e.TrackFailures(func(cl *Call) bool {
					s := ioKind(&Event{Kind: "call", Name: cl.Name, Method: cl.Method, Recv: cl.Recv, Args: cl.Args, Res: mk("none", "", nil), Sig: cl.Sig, NRes: cl.Sig.Results().Len()})
					return s == nil || s.Op != "read" && s.Op != "readat"
				}, nil)
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					err := errVal(o)
					if f := o.St.tags["failed"]; f != nil {
						c.Rule("an incomplete read is reported")
						name, _, _ := strings.Cut(f.Aux, " @")
						c.Inst("failed reads")
						c.Must(err != nil && mustNotNil(o.St, err), o.St, o.Pos, fn, name, "%s failed but %s does not return an error (%v)", f.Aux, cname(fn), err)
					}
					if err != nil && mustNotNil(o.St, err) {
						continue
					}
					c.Rule("short reads are not taken for complete ones")
					AllEvents(o.St.Events(), func(ev *Event, in *Body) {
						if ev.Kind != "call" || !short(ev.Name, ev.Method, len(ev.Args)) || ev.Res == nil {
							return
						}
						st := o.St
						if in != nil {
							st = in.St
						}
						n := ev.result(0)
						for _, v := range o.Vals {
							if v == n {
								c.Holds()
								return
							}
						}
						var buf *Term
						if ev.Name == "io.ReadAtLeast" {
							buf = ev.Args[1]
						} else {
							buf = ev.Args[0]
						}
						c.Site(ev.Pos)
						c.Must(st.facts.ProveGE(n, lenT(buf), 0), st, ev.Pos, ev.Fn, ev.Method, "%s may deliver less than the buffer and %s goes on as if it was complete", ev.Name, cname(fn))
					})
				}
			}
			c.AtLeast("failed reads", 10)
			c.extractSize()
		})
}

// extractSize checks that extracting compares the number of bytes copied with the entry's size.
func (c *Check) extractSize() {
	c.Rule("a truncated nested file is reported")
	for _, fn := range c.errRoots("cmd/extract", c.copiers("cmd/extract")) {
		e := c.cmdEngine(fn)
		e.Record = func(ev *Event) bool {
			return ev.Star != nil || ev.Kind == "call" && strings.HasPrefix(ev.Name, "io.Copy")
		}
		outs := c.Run(e, fn, nil, nil)
		for i := range outs {
			o := &outs[i]
			err := errVal(o)
			if o.Panic {
				continue
			}
			AllEvents(o.St.Events(), func(ev *Event, in *Body) {
				if ev.Kind != "call" {
					return
				}
				st := o.St
				if in != nil {
					st = in.St
				} else if err != nil && mustNotNil(st, err) {
					return
				}
				c.Inst("copied entries")
				c.Site(ev.Pos)
				ok := false
				n := ev.result(0)
				for f, v := range st.facts.truth {
					if v && f.Op == "==" {
						for k, a := range f.Args {
							if a == n && f.Args[1-k].Op != "const" {
								ok = true
							}
						}
					}
				}
				c.Must(ok, st, ev.Pos, ev.Fn, "size", "extracting goes on and the number of bytes copied is not compared with the size of the file")
			})
		}
	}
	c.AtLeast("copied entries", 1)
}

// cmdEngine follows the functions of a command and those that take callbacks, but not into
// the opening of packages and nested files.
func (c *Check) cmdEngine(fn *ssa.Function) *Engine {
	e := c.Engine()
	e.NoInv = true
	e.Threshold = 160
	pk := fnPkg(fn)
	e.Inline = func(f *ssa.Function) bool {
		return fnPkg(f) == pk || takesFunc(f) || f.Parent() != nil || f.Synthetic != ""
	}
	return e
}

// errRoots are the outermost functions of a command, below main, that report errors and
// lead to one of the given functions; main itself where there is none.
func (c *Check) errRoots(cmd string, targets []*ssa.Function) []*ssa.Function {
	main := c.Fn(cmd + ":main")
	if main == nil {
		return nil
	}
	var out []*ssa.Function
	for _, t := range targets {
		reach := map[*ssa.Function]bool{}
		var up func(fn *ssa.Function)
		up = func(fn *ssa.Function) {
			if reach[fn] || fnPkg(fn) != fnPkg(main) {
				return
			}
			reach[fn] = true
			if fn.Parent() != nil {
				up(fn.Parent())
			}
			for f := range c.P.callers(fn) {
				up(f)
			}
		}
		up(t)
		var best *ssa.Function
		var down func(fn *ssa.Function, seen map[*ssa.Function]bool)
		down = func(fn *ssa.Function, seen map[*ssa.Function]bool) {
			if seen[fn] || !reach[fn] || best != nil {
				return
			}
			seen[fn] = true
			if fn != main && returnsError(fn) && fn.Parent() == nil {
				best = fn
				return
			}
			for f := range reach {
				if f.Parent() == fn || c.P.callers(f)[fn] {
					down(f, seen)
				}
			}
		}
		down(main, map[*ssa.Function]bool{})
		if best == nil {
			best = main
		}
		dup := false
		for _, x := range out {
			dup = dup || x == best
		}
		if !dup {
			out = append(out, best)
		}
	}
	return out
}

// copiers are the functions reachable from main that copy nested files, as deep as possible.
func (c *Check) copiers(cmd string) []*ssa.Function {
	main := c.Fn(cmd + ":main")
	if main == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		if seen[fn] || fn == nil || fn.Blocks == nil || fnPkg(fn) != fnPkg(main) {
			return
		}
		seen[fn] = true
		direct := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						if f.Name() == "Copy" && fnPkg(f) != nil && fnPkg(f).Path() == "io" {
							direct = true
						}
						scan(f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					scan(mc.Fn.(*ssa.Function))
				}
			}
		}
		if direct {
			out = append(out, fn)
		}
	}
	scan(main)
	return out
}
