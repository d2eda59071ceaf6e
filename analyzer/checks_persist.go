package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// config is one way the two streams of a package are given to Begin, Append and Sync.
type config struct {
	name  string
	split bool
	args  func(ps []*Term) []*Term
	pre   func(st *State, args []*Term)
}

func writerConfigs() []config {
	return []config{
		{"single file, no data stream", false, func(ps []*Term) []*Term { return []*Term{ps[0], ps[1], tNil} },
			func(st *State, a []*Term) { st.facts.Assume(eqT(a[1], tNil), false) }},
		{"single file, same stream twice", false, func(ps []*Term) []*Term { return []*Term{ps[0], ps[1], ps[1]} },
			func(st *State, a []*Term) { st.facts.Assume(eqT(a[1], tNil), false) }},
		{"split package", true, func(ps []*Term) []*Term { return ps },
			func(st *State, a []*Term) {
				st.facts.Assume(eqT(a[1], tNil), false)
				st.facts.Assume(eqT(a[2], tNil), false)
				st.facts.Assume(eqT(a[1], a[2]), false)
			}},
	}
}

// runConfigs analyses a writer operation in all configurations.
func (c *Check) runConfigs(spec string, f func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome)) {
	fn := c.Fn(spec)
	if fn == nil {
		return
	}
	for _, cfg := range writerConfigs() {
		e := c.Engine()
		e.NoInv = true
		st := newState(e)
		args := cfg.args(e.Params(fn))
		cfg.pre(st, args)
		init := st.clone()
		outs := c.Run(e, fn, args, st)
		c.Inst(spec + " configurations")
		for i := range outs {
			if outs[i].Panic {
				continue
			}
			f(cfg, fn, args, init, &outs[i])
		}
	}
}

// carries tells that written data contains given bytes as a constant.
func carries(d *Term, s string) bool {
	return d != nil && d.any(func(t *Term) bool {
		v, ok := t.strVal()
		return ok && strings.Contains(v, s)
	})
}

// image assembles what the writes of a path leave at the beginning of a stream.
func image(st *State, steps []*ioStep, stream *Term) (*State, *Term, bool) {
	img := newState(st.e)
	img.facts = st.facts.clone()
	root := mk("makeslice", "image", types.NewSlice(types.Typ[types.Uint8]), intConst(1<<40, tyInt))
	img.hav[root] = true
	for _, s := range steps {
		if s.Stream != stream || s.Op != "write" && s.Op != "writeat" {
			continue
		}
		p := s.Pos
		if s.Op == "writeat" {
			p = s.Off
		}
		if p == nil || s.Body != nil || s.Copy != nil {
			continue
		}
		img.writeBytes(root, p, s.Len, s.Data)
	}
	return img, root, true
}

func (c *Check) unchangedExtent(o *Outcome, init *State, ftt *Term) bool {
	for _, f := range []string{"datoffset", "datsize"} {
		a := c.fieldAddr(ftt, "", "FTT", f)
		t := types.Typ[types.Uint64]
		if o.St.load(a, t) != init.clone().load(a, t) {
			return false
		}
	}
	return true
}

func init() {
	register("C04", "path-sensitive abstract interpretation of the publishing operation over go/ssa; typestate on the header stream",
		"FTT.Sync is interpreted abstractly with everything it calls (table writer, header writer, integer writers), for the three ways its streams can be given. On every abstract path the operations on the header stream are put in order with their positions and contents. A write whose content carries the ready signature is an obligation: every fallible operation before it is known to have succeeded, the enumeration of the whole table and the closing zero record come before it, it goes to position 0 and fills the whole header, and nothing is written or truncated after it. A path without error must have such a write; a path with a failed operation before it must return a non-nil error and leave the recorded data extent as it was.",
		[]string{"io.Writer and io.Seeker follow their contracts (a write without an error wrote everything)", "a single Write of the 64 header bytes is not torn"},
		func(c *Check) {
			ready := c.constStr("", "SignReady")
			hsz := c.constInt("", "HeaderSize")
			c.runConfigs(":FTT.Sync", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
				wpt, ftt := args[1], args[0]
				st := o.St
				steps, _ := ioSteps(st, nil)
				err := errVal(o)
				first := -1
				for i, s := range steps {
					if (s.Op == "write" || s.Op == "writeat") && carries(s.Data, ready) {
						first = i
						break
					}
				}
				c.Rule("the ready header is written last and only after the complete table")
				if first >= 0 {
					h := steps[first]
					c.Site(h.Ev.Pos)
					c.Inst("ready header writes")
					pos := h.Pos
					if h.Op == "writeat" {
						pos = h.Off
					}
					c.Must(h.Stream == wpt, st, h.Ev.Pos, fn, cfg.name+" stream", "%s: the ready header goes to another stream than the header file", cfg.name)
					c.Must(pos != nil && eq64(st, pos, i64(0)), st, h.Ev.Pos, fn, cfg.name+" pos", "%s: the ready header is not placed at the start of the header file (position %v)", cfg.name, pos)
					img, root, _ := image(st, steps[:first+1], wpt)
					full := false
					if d := dataAt(h.Data, 0, 24); d != nil && d.isStr(ready) && eq64(st, h.Len, i64(hsz)) {
						full = true
					} else if sig := img.readBytes(root, intConst(0, tyInt), intConst(24, tyInt)); sig.isStr(ready) {
						rest := img.readBytes(root, intConst(24, tyInt), intConst(hsz-24, tyInt))
						full = !rest.any(func(t *Term) bool { return t == root })
					}
					c.Must(full, st, h.Ev.Pos, fn, cfg.name+" whole", "%s: when the ready signature is written the %d bytes of the header are not all in place", cfg.name, hsz)
					// everything before has succeeded
					n := 0
					var failed *Event
					before := func(evs []*Event) {}
					before = func(evs []*Event) {
						for _, ev := range evs {
							if ev == h.Ev {
								n = -1
								return
							}
							if n < 0 {
								return
							}
							if ev.Star != nil {
								for i := range ev.Star.Bodies {
									b := &ev.Star.Bodies[i]
									for _, e2 := range b.St.Events() {
										if len(errOf(e2)) > 0 && !errNilOn(st, b, e2) && failed == nil {
											failed = e2
										}
									}
								}
								continue
							}
							if len(errOf(ev)) > 0 && !errNilOn(st, nil, ev) && failed == nil && n >= 0 {
								failed = ev
							}
						}
					}
					before(st.Events())
					fp := h.Ev.Pos
					if failed != nil {
						fp = failed.Pos
					}
					c.Must(failed == nil, st, fp, fn, cfg.name+" failed before", "%s: the ready header is written although an operation before it may have failed", cfg.name)
					// the whole table
					table, end := false, false
					for _, ev := range st.Events() {
						if ev == h.Ev {
							break
						}
						if ev.Star != nil && ev.Star.Kind == "range" && ev.Star.Over == c.fieldAddr(ftt, "", "FTT", "tsm") {
							for i := range ev.Star.Bodies {
								b := &ev.Star.Bodies[i]
								wrote := false
								for _, e2 := range b.St.Events() {
									if s := ioKind(e2); s != nil && s.Op == "write" && s.Stream == wpt && s.Data != nil && s.Data.any(func(t *Term) bool { return t.Op == "rval" }) {
										wrote = true
									}
								}
								table = wrote
								if !wrote {
									break
								}
							}
						}
						if ev.Kind == "rangeend" {
							end = true
						}
						if ev.Kind == "rangestop" {
							end = false
						}
					}
					if !table && end { // an empty table has no iterations
						v, ok := st.facts.Decide(eqT(mk("maplen", "0", tyInt, c.fieldAddr(ftt, "", "FTT", "tsm")), intConst(0, tyInt)))
						table = ok && v
					}
					c.Must(table && end, st, h.Ev.Pos, fn, cfg.name+" table", "%s: the ready header is written before the enumeration of all entries has been completed", cfg.name)
					var last *ioStep
					for i := first - 1; i >= 0; i-- {
						if s := steps[i]; s.Op == "write" && s.Stream == wpt && s.Body == nil && !(s.Pos != nil && eq64(st, s.Pos, i64(0))) {
							last = s
							break
						}
					}
					c.Must(last != nil && last.Data != nil && last.Data.Op == "zeros", st, h.Ev.Pos, fn, cfg.name+" end marker", "%s: the last thing written to the table is not its end marker", cfg.name)
					for _, s := range steps[first+1:] {
						bad := s.Op == "write" || s.Op == "writeat" || s.Op == "truncate"
						if bad && s.Stream == wpt && !carries(s.Data, ready) {
							c.FailT(st, s.Ev.Pos, fn, cfg.name+" after", "%s: %s follows the ready header", cfg.name, s.Op)
						} else if bad {
							c.Must(s.Stream != wpt || !carries(s.Data, ready), st, s.Ev.Pos, fn, cfg.name+" twice", "%s: ready header is written more than once", cfg.name)
						}
					}
					c.Holds()
				}
				c.Rule("failures keep the package unpublished and are returned")
				ok := first >= 0 && errNilOn(st, nil, steps[first].Ev)
				if err != nil && !ok {
					c.Must(mustNotNil(st, err), st, o.Pos, fn, cfg.name+" success", "%s: success is returned on a path that has not written the ready header", cfg.name)
				}
				if err != nil && mustNotNil(st, err) || !ok {
					c.Must(c.unchangedExtent(o, init, ftt), st, o.Pos, fn, cfg.name+" extent", "%s: the recorded data extent is changed although the publication failed", cfg.name)
				}
			})
			c.AtLeast("ready header writes", 3)
			// nobody else marks packages
			c.Rule("the ready signature is written by the publishing operation only")
			for _, u := range c.constUsers(ready) {
				c.Site(u.pos)
				c.Inst("uses of the ready signature")
				c.Must(u.fn == nil || u.compare || c.onlyReachedFrom(u.fn, ":FTT.Sync"), nil, u.pos, u.fn, "user", "the ready signature is used to build data outside of the publishing operation")
			}
		})

	register("C05", "path-sensitive abstract interpretation of the begin and resume operations; positions and contents of stream writes",
		"FTT.Begin and FTT.Append are interpreted abstractly in the three stream configurations. For Begin every path without error must have left at position 0 of the header stream a 64-byte image with the construction signature, entry count, table size and data size of zero and a data offset of 64 (single file) or 0 (split), written nothing else, and recorded the same extent in memory. For Append the first write of every path must be the 24-byte construction signature at position 0, there is no other write, and on success the stream that receives the data stands at recorded offset plus recorded size measured from the start of the file. Paths with an error leave the recorded extent alone.",
		[]string{"io.Writer and io.Seeker follow their contracts"},
		func(c *Check) {
			build := c.constStr("", "SignBuild")
			hsz := c.constInt("", "HeaderSize")
			u64 := types.Typ[types.Uint64]
			c.runConfigs(":FTT.Begin", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
				st, wpt := o.St, args[1]
				c.Rule("beginning writes an empty header under construction")
				steps, _ := ioSteps(st, nil)
				err := errVal(o)
				if err == nil || !mustNil(st, err) {
					if err == nil || !mustNotNil(st, err) {
						c.FailT(st, o.Pos, fn, cfg.name+" undecided", "%s: it is not decided whether an error is returned", cfg.name)
					}
					c.Must(c.unchangedExtent(o, init, args[0]), st, o.Pos, fn, cfg.name+" extent on error", "%s: the extent is changed on a failure", cfg.name)
					return
				}
				var dat int64 = hsz
				if cfg.split {
					dat = 0
				}
				total := int64(0)
				for _, s := range steps {
					if s.Op != "write" && s.Op != "writeat" && s.Op != "truncate" {
						continue
					}
					if s.Op == "truncate" {
						continue
					}
					c.Site(s.Ev.Pos)
					c.Inst("writes of Begin")
					n, ok := s.Len.intVal()
					c.Must(ok && s.Stream == wpt && s.Pos != nil && s.Body == nil, st, s.Ev.Pos, fn, cfg.name+" stray", "%s: something else than the header is written", cfg.name)
					total += n
				}
				img, root, _ := image(st, steps, wpt)
				var cells []*Term
				h := img.readBytes(root, intConst(0, tyInt), intConst(hsz, tyInt))
				sig := dataAt(h, 0, 24)
				c.Must(sig != nil && sig.isStr(build) && total == hsz, st, o.Pos, fn, cfg.name+" signature", "%s: the header of a new package does not consist of the construction signature and the fields (signature %v, %d bytes)", cfg.name, sig, total)
				for i, f := range []struct {
					name string
					val  int64
				}{{"entry count", 0}, {"table offset", -1}, {"table size", 0}, {"data offset", dat}, {"data size", 0}} {
					v := uintAt(h, 24+8*int64(i), 8, u64)
					cells = append(cells, v)
					if f.val >= 0 {
						c.Must(v != nil && v.isInt(f.val), st, o.Pos, fn, cfg.name+" "+f.name, "%s: %s in the header of a new package is %v, must be %d", cfg.name, f.name, v, f.val)
					}
				}
				for i, f := range []string{"datoffset", "datsize"} {
					v := st.load(c.fieldAddr(args[0], "", "FTT", f), u64)
					c.Must(v == cells[3+i], st, o.Pos, fn, cfg.name+" recorded "+f, "%s: recorded %s is %v, the header has %v", cfg.name, f, v, cells[3+i])
				}
				for _, s := range steps {
					c.Must(errNilOn(st, s.Body, s.Ev), st, s.Ev.Pos, fn, cfg.name+" failure", "%s: success although %s may have failed", cfg.name, s.Op)
				}
			})
			c.AtLeast("writes of Begin", 3)
			c.runConfigs(":FTT.Append", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
				st, wpt := o.St, args[1]
				data := wpt
				if cfg.split {
					data = args[2]
				}
				c.Rule("resuming rewrites the signature first and nothing else")
				steps, pos := ioSteps(st, nil)
				n := 0
				for _, s := range steps {
					if s.Op != "write" && s.Op != "writeat" && s.Op != "truncate" {
						continue
					}
					c.Site(s.Ev.Pos)
					c.Inst("writes of Append")
					n++
					c.Must(n == 1 && s.Op == "write" && s.Stream == wpt && s.Pos != nil && eq64(st, s.Pos, i64(0)) && s.Data != nil && s.Data.isStr(build) && s.Len.isInt(24), st, s.Ev.Pos, fn, cfg.name+" write",
						"%s: resuming writes something else than the construction signature at the start of the header file", cfg.name)
				}
				err := errVal(o)
				c.Must(c.unchangedExtent(o, init, args[0]), st, o.Pos, fn, cfg.name+" extent", "%s: resuming changes the recorded extent", cfg.name)
				if err == nil || !mustNil(st, err) {
					if err == nil || !mustNotNil(st, err) {
						c.FailT(st, o.Pos, fn, cfg.name+" undecided", "%s: it is not decided whether an error is returned", cfg.name)
					}
					return
				}
				c.Must(n == 1, st, o.Pos, fn, cfg.name+" signature", "%s: the package is resumed without the construction signature", cfg.name)
				c.Rule("resuming continues at the end of the data")
				want := addT(init.load(c.fieldAddr(args[0], "", "FTT", "datoffset"), u64), init.load(c.fieldAddr(args[0], "", "FTT", "datsize"), u64), u64)
				p := pos[data]
				c.Must(p != nil && eq64(st, p, convT(want, types.Typ[types.Int64])), st, o.Pos, fn, cfg.name+" position", "%s: after resuming the data stream stands at %v, must be at data offset plus data size", cfg.name, p)
				for _, s := range steps {
					c.Must(errNilOn(st, s.Body, s.Ev), st, s.Ev.Pos, fn, cfg.name+" failure", "%s: success although %s may have failed", cfg.name, s.Op)
				}
			})
			c.AtLeast("writes of Append", 3)
		})

	register("C07", "path-sensitive abstract interpretation of publication; symbolic header fields compared with stream positions",
		"FTT.Sync is interpreted abstractly in the three stream configurations. On every successful path the 64-byte header image is taken apart into its fields and each is compared, as a linear form modulo 2^64, with what the path did: entry count with the number of entries of the table, table offset with the position of the first table byte, table size with the distance from there to the position of the header stream after the last table byte, data offset with the fixed data start of the layout, data size with the position of the data stream minus that start. The recorded extent must be the header's, the table must lie behind the data (single file) or behind the header (split).",
		[]string{"Seek reports the position truthfully"},
		func(c *Check) {
			hsz := c.constInt("", "HeaderSize")
			u64 := types.Typ[types.Uint64]
			c.runConfigs(":FTT.Sync", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
				st, wpt, ftt := o.St.clone(), args[1], args[0]
				err := errVal(o)
				if err == nil || !mustNil(st, err) {
					return
				}
				data := wpt
				if cfg.split {
					data = args[2]
				}
				steps, _ := ioSteps(st, nil)
				c.Rule("header fields describe what was written")
				var dpos, tpos, tend *Term
				firstW := -1
				for i, s := range steps {
					if s.Op == "write" && s.Stream == data && data != wpt {
						c.FailT(st, s.Ev.Pos, fn, cfg.name+" data", "%s: publication writes to the data stream", cfg.name)
					}
					if s.Op == "write" && s.Stream == wpt && firstW < 0 {
						firstW = i
						tpos = s.Pos
					}
				}
				if firstW < 0 || tpos == nil {
					c.FailT(st, o.Pos, fn, cfg.name+" table position", "%s: the position of the table is not known", cfg.name)
					return
				}
				// position of the data stream: before anything is written, from its end
				for i, s := range steps {
					if s.Stream == data && s.Op == "seek" {
						if s.Whence == 1 && s.Off.isInt(0) && (data != wpt || i < firstW) {
							dpos = s.Ev.result(0)
						} else if data != wpt {
							c.FailT(st, s.Ev.Pos, fn, cfg.name+" data seek", "%s: the data stream is moved by publication", cfg.name)
						}
					}
				}
				if dpos == nil && data == wpt {
					dpos = tpos
				}
				// end of table: first time position is taken after the last table write
				hdr := -1
				for i := len(steps) - 1; i > firstW; i-- {
					if s := steps[i]; s.Op == "write" && s.Stream == wpt && s.Pos != nil && eq64(st, s.Pos, i64(0)) {
						hdr = i
					}
				}
				lastW := -1
				for i := firstW; i < len(steps) && (hdr < 0 || i < hdr); i++ {
					if steps[i].Op == "write" && steps[i].Stream == wpt {
						lastW = i
					}
				}
				for i := lastW + 1; i < len(steps); i++ {
					if s := steps[i]; s.Stream == wpt && s.Op == "seek" && s.Whence == 1 && s.Off.isInt(0) {
						tend = s.Ev.result(0)
						break
					} else if s.Stream == wpt && s.Op == "seek" {
						break
					}
				}
				img, root, _ := image(st, steps, wpt)
				var h *Term
				if hdr >= 0 {
					if n, ok := steps[hdr].Len.intVal(); ok && n == hsz {
						h = steps[hdr].Data
					}
				}
				if h == nil {
					h = img.readBytes(root, intConst(0, tyInt), intConst(hsz, tyInt))
				}
				c.Inst("published headers")
				var dat int64 = hsz
				if cfg.split {
					dat = 0
				}
				if dpos == nil {
					c.FailT(st, o.Pos, fn, cfg.name+" data end", "%s: the end of the data is not taken from the data stream", cfg.name)
					return
				}
				if tend == nil {
					c.FailT(st, o.Pos, fn, cfg.name+" table end", "%s: the end of the table is not taken from the header stream after the table is written", cfg.name)
					return
				}
				f := func(i int64) *Term { return uintAt(h, 24+8*i, 8, u64) }
				cnt := mk("maplen", "0", tyInt, c.fieldAddr(ftt, "", "FTT", "tsm"))
				d0 := intConst(dat, types.Typ[types.Uint64])
				check := func(name string, got, want *Term) {
					c.Must(got != nil && eq64(st, got, want), st, o.Pos, fn, cfg.name+" "+name, "%s: header has %s %v, must be %v", cfg.name, name, got, want)
				}
				check("entry count", f(0), convT(cnt, u64))
				check("table offset", f(1), convT(tpos, u64))
				check("table size", f(2), convT(subT(tend, convT(tpos, types.Typ[types.Int64]), types.Typ[types.Int64]), u64))
				check("data offset", f(3), d0)
				check("data size", f(4), subT(convT(dpos, u64), d0, u64))
				for i, n := range []string{"datoffset", "datsize"} {
					v := st.load(c.fieldAddr(ftt, "", "FTT", n), u64)
					c.Must(f(int64(3+i)) != nil && eq64(st, v, f(int64(3+i))), st, o.Pos, fn, cfg.name+" recorded "+n, "%s: recorded %s is %v, the header has %v", cfg.name, n, v, f(int64(3+i)))
				}
				c.Rule("table follows the data or the header")
				want := dpos
				if cfg.split {
					want = i64(hsz)
				}
				c.Must(eq64(st, tpos, want), st, o.Pos, fn, cfg.name+" layout", "%s: the table is placed at %v, must be at %v", cfg.name, tpos, want)
				sig := dataAt(h, 0, 24)
				c.Must(sig != nil && sig.isStr(c.constStr("", "SignReady")), st, o.Pos, fn, cfg.name+" signature", "%s: published header has signature %v", cfg.name, sig)
			})
			c.AtLeast("published headers", 3)
		})

	register("C50", "path-sensitive abstract interpretation of publication and resuming in split mode; ordering of writes to the live header file",
		"For the split layout FTT.Append and FTT.Sync are interpreted abstractly. Resuming may write only the construction signature into the header file (which split readers accept as readable); publication may write table bytes only where the table that the current header points to cannot lie. A write of table bytes at a fixed position before a header pointing elsewhere is in place is reported; the one of the present format is recorded as a known finding.",
		[]string{"only the header file matters for readability: data of a split package is only appended"},
		func(c *Check) {
			build := c.constStr("", "SignBuild")
			ready := c.constStr("", "SignReady")
			c.runConfigs(":FTT.Append", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
				if !cfg.split {
					return
				}
				c.Rule("resuming keeps the header readable")
				steps, _ := ioSteps(o.St, nil)
				for _, s := range steps {
					if (s.Op == "write" || s.Op == "writeat" || s.Op == "truncate") && s.Stream == args[1] {
						c.Inst("writes while resuming")
						c.Must(s.Op == "write" && s.Pos != nil && eq64(o.St, s.Pos, i64(0)) && s.Len.isInt(24) && (s.Data.isStr(build) || s.Data.isStr(ready)), o.St, s.Ev.Pos, fn, "append", "resuming writes more than a signature into the header file of a split package")
					}
				}
			})
			c.AtLeast("writes while resuming", 1)
			c.runConfigs(":FTT.Sync", func(cfg config, fn *ssa.Function, args []*Term, init *State, o *Outcome) {
				if !cfg.split {
					return
				}
				st := o.St.clone()
				steps, _ := ioSteps(st, nil)
				c.Rule("publication keeps the live table")
				hdr := false
				for _, s := range steps {
					if s.Stream != args[1] {
						continue
					}
					switch s.Op {
					case "truncate":
						c.FailT(st, s.Ev.Pos, fn, "truncate", "the header file of a split package is truncated while it is live")
					case "write", "writeat":
						c.Inst("writes while publishing")
						pos := s.Pos
						if s.Op == "writeat" {
							pos = s.Off
						}
						if s.Body == nil && pos != nil && eq64(st, pos, i64(0)) {
							hdr = true
							c.Must(s.Len.isInt(c.constInt("", "HeaderSize")), st, s.Ev.Pos, fn, "torn header", "the header of a split package is replaced by several writes while it is live")
							continue
						}
						c.Must(!hdr, st, s.Ev.Pos, fn, "table after header", "table bytes are written after the header that points to them")
						// the live table may be anywhere from the header on
						if pos != nil && pos.isConst() || s.Body != nil || pos != nil {
							fresh := pos != nil && pos.any(func(t *Term) bool {
								return t.Op == "res" && callName(t) == "(io.Seeker).Seek" && t.Args[0].Op == "call" && len(t.Args[0].Args) == 3 && t.Args[0].Args[2].isInt(2)
							})
							if !fresh {
								c.FailT(st, s.Ev.Pos, fn, "table in place", "table bytes are written over the place of the table which the current header points to")
							}
						}
					}
				}
			})
			c.AtLeast("writes while publishing", 1)
			c.Rule("split packages under construction are readable")
			c.splitReadable()
		})

}

type constUse struct {
	fn      *ssa.Function
	pos     token.Pos
	compare bool
}
