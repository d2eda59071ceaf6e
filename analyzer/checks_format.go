package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var accessorName = regexp.MustCompile(`^(Get|Set|Read|Write)(U|F)(16|32|64)$`)

// sameVal tells that two values are the same on a path.
func sameVal(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if isInt(a.Typ) && isInt(b.Typ) {
		return eq64(st, a, b)
	}
	v, ok := st.facts.Decide(eqT(a, b))
	return ok && v
}

// rdOf is the content which a successful full read has brought.
func rdOf(ev *Event) *Term { return mk("rd", "", nil, ev.Res) }

// flatten gives the sequence of byte ranges a write consists of.
func flatten(st *State, data, n *Term) (ds, ns []*Term) {
	if data != nil && data.Op == "cat" {
		for i, s := range strings.Split(strings.TrimSuffix(data.Aux, ","), ",") {
			var w int64
			fmt.Sscan(s, &w)
			ds, ns = append(ds, data.Args[i]), append(ns, intConst(w, tyInt))
		}
		return
	}
	if data != nil && data.Op == "cats" {
		for i := 0; i < len(data.Args); i += 2 {
			d2, n2 := flatten(st, data.Args[i], data.Args[i+1])
			ds, ns = append(ds, d2...), append(ns, n2...)
		}
		return
	}
	if data != nil && data.Op == "content" && data.Args[0].Op == "append" && data.Args[1].isInt(0) && lenT(data.Args[0]) == data.Args[2] {
		for _, a := range data.Args[0].Args {
			if a.Op == "seg" {
				d2, n2 := flatten(st, a.Args[0], a.Args[1])
				ds, ns = append(ds, d2...), append(ns, n2...)
			} else {
				ds, ns = append(ds, a), append(ns, lenT(a))
			}
		}
		return
	}
	return []*Term{data}, []*Term{n}
}

// lengthOf tells that a piece of data is the little endian 16-bit value of a length.
func lengthOf(st *State, d, n *Term) bool {
	if d == nil {
		return false
	}
	if d.Op == "zeros" {
		return st.facts.ProveEq(n, intConst(0, tyInt))
	}
	if d.Op != "le" || d.Aux != "2" {
		return false
	}
	u := d.Args[0]
	for {
		if u == n || eq64(st, u, n) {
			return true
		}
		if u.Op != "conv" {
			return false
		}
		u = u.Args[0]
	}
}

// wholeOf tells that data is the whole content of a byte slice value, as it was at the time.
func wholeOf(d *Term) *Term {
	if d != nil && d.Op == "content" && d.Args[1].isInt(0) && lenT(d.Args[0]) == d.Args[2] {
		return d.Args[0]
	}
	return nil
}

// streamBytes is what a path has read from given place of a stream.
func streamBytes(st *State, steps []*ioStep, stream *Term, o, n int64) *Term {
	for _, s := range steps {
		if s.Op != "read" || s.Stream != stream || s.Pos == nil || s.Len == nil || s.Body != nil {
			continue
		}
		p, ok := s.Pos.intVal()
		l, ok2 := s.Len.intVal()
		if ok && ok2 && p <= o && o+n <= p+l {
			return subBytes2(rdOf(s.Ev), o-p, n, l)
		}
	}
	return nil
}

// sameBytes tells whether a path knows a content to be equal to a text or not.
func sameBytes(st *State, content *Term, text string) (eq, known bool) {
	if content == nil {
		return false, false
	}
	if s, ok := content.strVal(); ok {
		return s == text, true
	}
	for f, v := range st.facts.truth {
		if f.Op != "==" && !(f.Op == "pure" && (f.Aux == "bytes.Equal" || f.Aux == "strings.HasPrefix" || f.Aux == "bytes.HasPrefix" || f.Aux == "strings.EqualFold")) {
			continue
		}
		if f.Aux == "strings.EqualFold" || !f.contains(content) {
			continue
		}
		var other *Term
		if f.Args[0].contains(content) {
			other = f.Args[1]
		} else {
			other = f.Args[0]
		}
		if other.any(func(t *Term) bool { s, ok := t.strVal(); return ok && s == text }) {
			return v, true
		}
		if v && f.Op == "==" { // equal to another text
			if s, ok := other.strVal(); ok && len(s) == len(text) {
				return s == text, true
			}
		}
	}
	return false, false
}

var headerFields = []string{"fttcount", "fttoffset", "fttsize", "datoffset", "datsize"}

func init() {
	register("C13", "abstract interpretation of the accessors: access extents against slice length, byte-exact transfer relation",
		"All exported fixed-width accessors of the utility package (found by name: Get, Set, Read, Write with U or F and 16, 32 or 64) are interpreted abstractly. Accesses through unsafe pointers are obligations: the accessed extent must be proved to lie inside the slice before the access. A getter returns the value of exactly the first w bytes, a setter replaces exactly the first w bytes by the little-endian value, a path that completes has a slice of at least w bytes, a reader fills exactly w bytes by a full read and decodes the value from them, a writer writes exactly the w bytes of its value.",
		[]string{"the analysed platform is little endian and allows unaligned access (amd64)"},
		func(c *Check) {
			for _, fn := range c.exported("/util") {
				m := accessorName.FindStringSubmatch(fn.Name())
				if m == nil || fn.Signature.Recv() != nil {
					continue
				}
				w := map[string]int64{"16": 2, "32": 4, "64": 8}[m[3]]
				c.Inst(m[1] + " accessors")
				e := c.Engine()
				e.OnOblige = func(o *Oblig) {
					c.Rule("no access outside of the slice")
					if strings.HasPrefix(o.Kind, "unsafe") {
						c.Site(o.Pos)
						c.Must(o.OK, o.St, o.Pos, o.Fn, fn.Name()+" "+o.Kind, "%s: access by pointer is not proved to stay inside of the slice: %s", fn.Name(), o.Desc)
					}
				}
				outs := c.Run(e, fn, nil, nil)
				ps := e.Params(fn)
				wt := intConst(w, tyInt)
				ok := 0
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					st := o.St
					err := errVal(o)
					switch m[1] {
					case "Get":
						c.Rule("a getter reads exactly its width")
						ok++
						c.Must(st.facts.ProveGE(lenT(ps[0]), wt, 0), st, o.Pos, fn, "short slice", "%s returns for slices shorter than %d bytes", fn.Name(), w)
						want := decode(newState(e).readBytes(ps[0], intConst(0, tyInt), wt), w, fn.Signature.Results().At(0).Type())
						c.Must(sameVal(st, o.Vals[0], want), st, o.Pos, fn, "value", "%s returns %v instead of the value of the first %d bytes", fn.Name(), o.Vals[0], w)
					case "Set":
						c.Rule("a setter writes exactly its width")
						ok++
						c.Must(st.facts.ProveGE(lenT(ps[0]), wt, 0), st, o.Pos, fn, "short slice", "%s returns for slices shorter than %d bytes", fn.Name(), w)
						got := st.readBytes(ps[0], intConst(0, tyInt), wt)
						c.Must(got == encode(ps[1], w), st, o.Pos, fn, "value", "%s leaves %v in the first %d bytes", fn.Name(), got, w)
						for _, cell := range st.bytes[ps[0]] {
							c.Must(st.facts.ProveGE(cell.off, intConst(0, tyInt), 0) && st.facts.ProveGE(wt, addT(cell.off, cell.w, tyInt), 0), st, o.Pos, fn, "extent", "%s writes outside of the first %d bytes (%v bytes at %v)", fn.Name(), w, cell.w, cell.off)
						}
					case "Read":
						c.Rule("a reader transfers exactly its width")
						steps, _ := ioSteps(st, map[*Term]*Term{streamOf(ps[0]): i64(0)})
						if err == nil || mustNotNil(st, err) {
							continue
						}
						var total int64
						bad := false
						for _, s := range steps {
							n, known := int64(0), false
							if s.Len != nil {
								n, known = s.Len.intVal()
							}
							bad = bad || !known || s.Op != "read" || s.Stream != streamOf(ps[0])
							total += n
						}
						var want *Term
						if b := streamBytes(st, steps, streamOf(ps[0]), 0, w); b != nil {
							want = decode(b, w, fn.Signature.Results().At(0).Type())
						}
						if mustNil(st, err) {
							ok++
						}
						c.Must(mustNil(st, err) && !bad && total == w, st, o.Pos, fn, "extent", "%s takes something else than %d bytes off the stream", fn.Name(), w)
						c.Must(sameVal(st, o.Vals[0], want), st, o.Pos, fn, "value", "%s returns %v", fn.Name(), o.Vals[0])
					case "Write":
						c.Rule("a writer transfers exactly its width")
						steps, _ := ioSteps(st, map[*Term]*Term{streamOf(ps[0]): i64(0)})
						if err == nil || mustNotNil(st, err) {
							continue
						}
						ok++
						total := intConst(0, tyInt)
						for _, s := range steps {
							c.Must(s.Op == "write" && s.Stream == streamOf(ps[0]), st, s.Ev.Pos, fn, "kind", "%s does %s", fn.Name(), s.Op)
							total = addT(total, s.Len, tyInt)
						}
						img, root, _ := image(st, steps, streamOf(ps[0]))
						got := img.readBytes(root, intConst(0, tyInt), wt)
						c.Must(total == wt && got == encode(ps[1], w), st, o.Pos, fn, "value", "%s writes %v bytes, the first %d of them %v", fn.Name(), total, w, got)
					}
				}
				c.Must(ok > 0, nil, fn.Pos(), fn, "succeeds", "%s has no path that succeeds", fn.Name())
			}
			for _, k := range []string{"Get", "Set", "Read", "Write"} {
				c.AtLeast(k+" accessors", 5)
			}
		})

	register("C11", "abstract interpretation of header writer and readers: symbolic byte image compared with the field layout",
		"The header writer is interpreted abstractly and the bytes it writes are assembled into a symbolic image: 24 signature bytes and the five fields at 24, 32, 40, 48 and 56, 64 bytes in all. For both readers every field of the header is, on every path that succeeds, the 8-byte value decoded from the same place of the input (position in the buffer, position in the stream), the signature the first 24 bytes, and the processed length 64. The accessors return the field of their name.",
		[]string{"io.Writer and io.Reader follow their contracts"},
		func(c *Check) {
			u64 := types.Typ[types.Uint64]
			hsz := c.constInt("", "HeaderSize")
			c.Must(hsz == 64, nil, token.NoPos, nil, "size", "HeaderSize is %d, must be 64", hsz)
			if fn := c.Fn(":Header.WriteTo"); fn != nil {
				c.Rule("the writer emits the layout")
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				ps := e.Params(fn)
				n := 0
				for i := range outs {
					o := &outs[i]
					err := errVal(o)
					if o.Panic || err == nil || mustNotNil(o.St, err) {
						continue
					}
					n++
					st := o.St
					steps, _ := ioSteps(st, map[*Term]*Term{streamOf(ps[1]): i64(0)})
					total := intConst(0, tyInt)
					for _, s := range steps {
						c.Site(s.Ev.Pos)
						c.Must(s.Op == "write" && s.Stream == streamOf(ps[1]) && s.Body == nil, st, s.Ev.Pos, fn, "other", "the header writer does something else than writing the header (%s)", s.Op)
						total = addT(total, s.Len, tyInt)
					}
					img, root, _ := image(st, steps, streamOf(ps[1]))
					h := img.readBytes(root, intConst(0, tyInt), intConst(64, tyInt))
					sig := newState(e).readBytes(c.fieldAddr(ps[0], "", "Header", "signature"), intConst(0, tyInt), intConst(24, tyInt))
					c.Must(dataAt(h, 0, 24) == sig, st, o.Pos, fn, "signature", "the first 24 bytes are %v, not the signature", dataAt(h, 0, 24))
					for k, f := range headerFields {
						got := uintAt(h, 24+8*int64(k), 8, u64)
						c.Must(sameVal(st, got, newState(e).load(c.fieldAddr(ps[0], "", "Header", f), u64)), st, o.Pos, fn, f, "bytes %d to %d are %v, not %s", 24+8*k, 31+8*k, got, f)
					}
					c.Must(sameVal(st, total, intConst(64, tyInt)), st, o.Pos, fn, "total", "%v bytes are written instead of 64", total)
					c.Must(o.Vals[0].isInt(64), st, o.Pos, fn, "count", "%v is returned as number of bytes written", o.Vals[0])
				}
				c.Must(n > 0, nil, fn.Pos(), fn, "succeeds", "the header writer never succeeds")
			}
			reader := func(spec string, get func(e *Engine, fn *ssa.Function, o *Outcome, ps []*Term) func(o, n int64) *Term) {
				fn := c.Fn(spec)
				if fn == nil {
					return
				}
				c.Rule("both readers take the fields from the layout")
				e := c.Engine()
				outs := c.Run(e, fn, nil, nil)
				ps := e.Params(fn)
				n := 0
				for i := range outs {
					o := &outs[i]
					err := errVal(o)
					if o.Panic || err == nil {
						continue
					}
					if mustNotNil(o.St, err) {
						continue
					}
					n++
					st := o.St
					in := get(e, fn, o, ps)
					sig := st.readBytes(c.fieldAddr(ps[0], "", "Header", "signature"), intConst(0, tyInt), intConst(24, tyInt))
					c.Must(in(0, 24) != nil && sig == in(0, 24), st, o.Pos, fn, "signature", "signature is taken from %v", sig)
					for k, f := range headerFields {
						var want *Term
						if b := in(24+8*int64(k), 8); b != nil {
							want = decode(b, 8, u64)
						}
						got := st.load(c.fieldAddr(ps[0], "", "Header", f), u64)
						c.Must(sameVal(st, got, want), st, o.Pos, fn, f, "%s is %v instead of the value at %d", f, got, 24+8*k)
					}
					c.Must(o.Vals[0].isInt(64), st, o.Pos, fn, "count", "%v is returned as number of bytes processed", o.Vals[0])
				}
				c.Must(n > 0, nil, fn.Pos(), fn, "succeeds", "the reader never succeeds")
			}
			reader(":Header.Parse", func(e *Engine, fn *ssa.Function, o *Outcome, ps []*Term) func(a, n int64) *Term {
				c.Must(o.St.facts.ProveGE(lenT(ps[1]), i64(64), 0), o.St, o.Pos, fn, "short", "buffers shorter than the header are accepted")
				return func(a, n int64) *Term {
					return newState(e).readBytes(ps[1], intConst(a, tyInt), intConst(n, tyInt))
				}
			})
			reader(":Header.ReadFrom", func(e *Engine, fn *ssa.Function, o *Outcome, ps []*Term) func(a, n int64) *Term {
				s := streamOf(ps[1])
				steps, pos := ioSteps(o.St, map[*Term]*Term{s: i64(0)})
				c.Must(pos[s] != nil && eq64(o.St, pos[s], i64(64)), o.St, o.Pos, fn, "end", "the stream is left at %v instead of the end of the header", pos[s])
				return func(a, n int64) *Term { return streamBytes(o.St, steps, s, a, n) }
			})
			c.Rule("accessors return their fields")
			for spec, f := range map[string]string{":Header.Count": "fttcount", ":Header.FttSize": "fttsize", ":Header.DataSize": "datsize"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				ps := e.Params(fn)
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					want := newState(e).load(c.fieldAddr(ps[0], "", "Header", f), u64)
					c.Must(!o.Panic && len(o.Vals) == 1 && eq64(o.St, o.Vals[0], want), o.St, o.Pos, fn, "value", "%s returns %v instead of %s", cname(fn), o.Vals, f)
				}
			}
		})

	register("C06", "path-sensitive abstract interpretation of the opening operations: signature facts dominate every access to the table",
		"Opening a package from a stream, from a file and the quick description reader are interpreted abstractly. The signature and data offset are the bytes 0..23 and 48..55 the path has read from the stream. Every operation that touches the table place (a seek from the start to another position than 0, a read from behind the header) must be preceded on its path by the knowledge that the signature is the ready one, or the construction one with a zero data offset. A path on which the signature was refused ends with exactly the error of that refusal; paths that accept each of the two allowed kinds exist, and no path that returns success lacks the decision.",
		[]string{"io.Reader and io.Seeker follow their contracts"},
		func(c *Check) {
			ready, build := c.constStr("", "SignReady"), c.constStr("", "SignBuild")
			u64 := types.Typ[types.Uint64]
			for _, spec := range []string{":FTT.OpenStream", ":FTT.OpenFile", ":GetPackageInfo"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				e := c.Engine()
				e.NoInv = true
				e.KeepPre = func(ev *Event) bool { return ioKind(ev) != nil }
				e.Part = knownTexts(ready, build)
				e.Record = func(ev *Event) bool {
					return ev.Kind == "star" || ioKind(ev) != nil || strings.HasPrefix(ev.Name, "os.")
				}
				outs := c.Run(e, fn, nil, nil)
				nReady, nSplit := 0, 0
				for i := range outs {
					o := &outs[i]
					if o.Panic {
						continue
					}
					st := o.St
					steps, _ := ioSteps(st, nil)
					var stream *Term
					for _, s := range steps {
						if stream == nil {
							stream = s.Stream
						}
					}
					if stream == nil {
						continue
					}
					sig := streamBytes(st, steps, stream, 0, 24)
					var dat *Term
					if b := streamBytes(st, steps, stream, 48, 8); b != nil {
						dat = decode(b, 8, u64)
					}
					allowed := func(s *State) bool {
						if v, ok := sameBytes(s, sig, ready); ok && v {
							return true
						}
						v, ok := sameBytes(s, sig, build)
						return ok && v && dat != nil && s.facts.ProveEq(dat, intConst(0, u64))
					}
					c.Rule("the table is touched only after the signature is accepted")
					for _, s := range steps {
						touch := false
						switch s.Op {
						case "seek":
							touch = s.Whence != 2 && !(s.Whence == 0 && s.Off.isInt(0)) && !(s.Whence == 1 && s.Off.isInt(0))
						case "read", "readat":
							p := s.Pos
							if s.Op == "readat" {
								p = s.Off
							}
							touch = true
							if p != nil && s.Len != nil && s.Body == nil {
								a, ok := p.intVal()
								n, ok2 := s.Len.intVal()
								touch = !ok || !ok2 || a+n > 64
							}
						default:
							c.FailT(st, s.Ev.Pos, fn, s.Op, "%s: %s on the stream of a package that is being opened", cname(fn), s.Op)
						}
						if !touch {
							continue
						}
						c.Inst("touches of the table")
						c.Site(s.Ev.Pos)
						pre := s.Ev.Pre
						c.Must(s.Stream == stream && pre != nil && allowed(pre), st, s.Ev.Pos, fn, spec+" "+s.Op, "%s: %s reaches behind the header while the signature is not known to be accepted", cname(fn), s.Op)
					}
					err := errVal(o)
					c.Rule("a refused signature is reported as it is")
					if sig == nil {
						c.Must(err != nil && mustNotNil(st, err), st, o.Pos, fn, spec+" unread", "%s: success without reading the signature", cname(fn))
						continue
					}
					isR, okR := sameBytes(st, sig, ready)
					isB, okB := sameBytes(st, sig, build)
					if okR && isR {
						isB, okB = false, true
					}
					if okB && isB {
						isR, okR = false, true
					}
					acc := allowed(st)
					refusal := equalsGlobalVal(err, "ErrSignPre", "ErrSignBad")
					if acc && mustNil(st, err) {
						if okR && isR {
							nReady++
						} else {
							nSplit++
						}
					}
					c.Must(!(acc && refusal), st, o.Pos, fn, spec+" refused", "%s: a package that must be accepted is refused", cname(fn))
					if okR && !isR && okB && !isB {
						c.Inst("refusals")
						c.Must(isGlobal(err, "wpk.ErrSignBad"), st, o.Pos, fn, spec+" bad", "%s: a package with a bad signature ends with %v", cname(fn), err)
					} else if okB && isB && !acc && mustNotNil(st, err) {
						if dat != nil {
							if v, ok := st.facts.Decide(eqT(dat, intConst(0, u64))); ok && !v {
								c.Inst("refusals")
								c.Must(isGlobal(err, "wpk.ErrSignPre"), st, o.Pos, fn, spec+" pre", "%s: a package under construction ends with %v", cname(fn), err)
							}
						}
					}
					if !acc {
						c.Must(mustNotNil(st, err), st, o.Pos, fn, spec+" success", "%s: success is returned although the signature is not known to be accepted", cname(fn))
					}
				}
				c.Rule("allowed packages are accepted")
				c.Must(nReady > 0, nil, fn.Pos(), fn, spec+" ready", "%s never accepts a ready package", cname(fn))
				c.Must(nSplit > 0, nil, fn.Pos(), fn, spec+" split", "%s never accepts a split package under construction", cname(fn))
			}
			c.AtLeast("touches of the table", 6)
			c.AtLeast("refusals", 6)
		})
}

// knownTexts tells which of given texts something is known to be equal to, or not.
func knownTexts(texts ...string) func(st *State) string {
	return func(st *State) string {
		k := make([]byte, len(texts))
		for f, v := range st.facts.truth {
			if f.Op != "==" && f.Op != "pure" {
				continue
			}
			for i, s := range texts {
				for _, a := range f.Args {
					if x, ok := a.strVal(); ok && x == s {
						k[i] = '-'
						if v {
							k[i] = '+'
						}
					}
				}
			}
		}
		return string(k)
	}
}

func equalsGlobalVal(t *Term, names ...string) bool {
	if t == nil {
		return false
	}
	for _, n := range names {
		if isGlobal(t, "wpk."+n) {
			return true
		}
	}
	return false
}
