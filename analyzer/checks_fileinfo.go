package main

import (
	"io/fs"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modeBits are the bits of a file mode known to be set and to be clear.
func modeBits(t *Term) (ones, zeros uint32) {
	if v, ok := t.bigVal(); ok {
		m := uint32(v.Uint64())
		return m, ^m
	}
	switch {
	case t.Op == "and" && len(t.Args) == 2:
		o1, z1 := modeBits(t.Args[0])
		o2, z2 := modeBits(t.Args[1])
		return o1 & o2, z1 | z2
	case t.Op == "bit|" && len(t.Args) == 2:
		o1, z1 := modeBits(t.Args[0])
		o2, z2 := modeBits(t.Args[1])
		return o1 | o2, z1 & z2
	case t.Op == "bit&^" && len(t.Args) == 2:
		o1, z1 := modeBits(t.Args[0])
		o2, z2 := modeBits(t.Args[1])
		return o1 & z2, z1 | o2
	}
	return 0, 0
}

// modeModel interprets the methods of file modes bit by bit.
func modeModel(e *Engine) {
	mask := func(m fs.FileMode) Model {
		return func(c *Call) ([]Outcome, bool) {
			v := c.All[0]
			typ := c.resT(0)
			if x, ok := v.bigVal(); ok {
				return c.ret(intConst(int64(uint32(x.Uint64())&uint32(m)), typ))
			}
			return c.ret(mk("and", "", typ, v, intConst(int64(uint32(m)), typ)))
		}
	}
	test := func(m fs.FileMode, set bool) Model {
		return func(c *Call) ([]Outcome, bool) {
			ones, zeros := modeBits(c.All[0])
			switch b := uint32(m); {
			case ones&b != 0:
				if set {
					return c.ret(tTrue)
				}
				return c.ret(tFalse)
			case zeros&b == b:
				if set {
					return c.ret(tFalse)
				}
				return c.ret(tTrue)
			}
			return nil, false
		}
	}
	e.Models["(io/fs.FileMode).Type"] = mask(fs.ModeType)
	e.Models["(io/fs.FileMode).Perm"] = mask(fs.ModePerm)
	e.Models["(io/fs.FileMode).IsDir"] = test(fs.ModeDir, true)
	e.Models["(io/fs.FileMode).IsRegular"] = test(fs.ModeType, false)
}

// ownInfo tells that a value is the information kept by an object itself.
func ownInfo(v, self *Term) bool {
	for v.Op == "makeiface" || v.Op == "iface" || v.Op == "conv" {
		v = v.Args[0]
	}
	if v == self {
		return true
	}
	return v.Op == "load" && v.Args[0].any(func(x *Term) bool { return x == self }) && strings.HasSuffix(tstr(v.Typ), "TagsetRaw")
}

func init() {
	register("C55", "abstract interpretation of the accessors of file information over one symbolic tagset: algebra of tags, path conditions, known bits of modes",
		"Every accessor of file information is interpreted abstractly over the same arbitrary tagset. On each path the result is compared with the tag it stands for (path and base name, offset and size, presence of the size tag for directories); the known bits of the mode and of the type are compared with the path condition on the presence of the size tag, so that all of IsDir, Mode and Type say the same. What an entry gives as its information is the entry itself. Files of directories describe themselves, give no bytes without an error, and can be closed.",
		[]string{"tag conversion is exact as C14 checks; times are those of C15; what opened nested files tell is checked by C22"},
		func(c *Check) {
			size := tidT(c.constInt("", "TIDsize"))
			run := func(spec string, rule string, ok func(fn *ssa.Function, o *Outcome, ts *Term)) {
				c.Rule("%s", rule)
				fn := c.Fn(":TagsetRaw." + spec)
				if fn == nil {
					return
				}
				e := c.Engine()
				for _, n := range []string{"Path", "Name", "Size", "Pos", "IsDir", "Mode", "Type", "Sys", "Info"} {
					e.NoDefault["(wpk.TagsetRaw)."+n] = true
				}
				modeModel(e)
				outs := c.Run(e, fn, nil, nil)
				ts := e.Params(fn)[0]
				for i := range outs {
					o := &outs[i]
					if !c.Must(!o.Panic, o.St, o.Pos, fn, "panic", "%s can panic", fn.Name()) {
						continue
					}
					c.Inst("accessor paths")
					c.Site(o.Pos)
					ok(fn, o, ts)
				}
			}
			tag := func(spec, what, tid, conv string, base bool) {
				id := c.constInt("", tid)
				run(spec, "every accessor gives the tag it stands for", func(fn *ssa.Function, o *Outcome, ts *Term) {
					v := o.Vals[0]
					for v.Op == "conv" {
						v = v.Args[0]
					}
					if base {
						if v.isStr(".") { // of an empty path
							_, has := tsLookup(ts, tidT(id))
							if isFalse(o.St, has) {
								return
							}
						}
						if !c.Must(callName(v) == "path.Base" && len(callOf(v).Args) == 1, o.St, o.Pos, fn, "value", "%s returns %v, not %s", fn.Name(), shortT(v), what) {
							return
						}
						v = callOf(v).Args[0]
					}
					c.Must(sameTag(o.St, v, ts, id, conv), o.St, o.Pos, fn, "value", "%s returns %v, not %s", fn.Name(), shortT(o.Vals[0]), what)
				})
			}
			tag("Path", "the path of the tagset", "TIDpath", "TagStr", false)
			tag("Name", "the base of the path of the tagset", "TIDpath", "TagStr", true)
			tag("Size", "the size of the tagset", "TIDsize", "TagUint", false)
			run("Pos", "every accessor gives the tag it stands for", func(fn *ssa.Function, o *Outcome, ts *Term) {
				for i, tid := range []string{"TIDoffset", "TIDsize"} {
					c.Must(sameTag(o.St, o.Vals[i], ts, c.constInt("", tid), "TagUint"), o.St, o.Pos, fn, tid, "the result %d of Pos is %v, not the tag %s", i, shortT(o.Vals[i]), tid)
				}
			})
			const agree = "directories are told from files the same way everywhere"
			run("IsDir", agree, func(fn *ssa.Function, o *Outcome, ts *Term) {
				_, has := tsLookup(ts, size)
				c.Must(sameBool(o.St, o.Vals[0], notT(has)), o.St, o.Pos, fn, "size", "IsDir returns %v, not the absence of the size", shortT(o.Vals[0]))
			})
			for _, n := range []string{"Mode", "Type"} {
				n := n
				run(n, agree, func(fn *ssa.Function, o *Outcome, ts *Term) {
					_, has := tsLookup(ts, size)
					h, known := truth(o.St, has)
					if !c.Must(known, o.St, o.Pos, fn, "size", "%s does not depend on the presence of the size", n) {
						return
					}
					var want uint32
					if !h {
						want = uint32(fs.ModeDir)
					}
					cover := uint32(fs.ModeType)
					if n == "Type" {
						cover = ^uint32(0)
					}
					ones, zeros := modeBits(o.Vals[0])
					c.Must(ones&cover == want && zeros&cover == cover&^want, o.St, o.Pos, fn, "bits", "%s returns %v where the size is present: %v", n, shortT(o.Vals[0]), h)
				})
			}
			run("Sys", "an entry is its own information", func(fn *ssa.Function, o *Outcome, ts *Term) {
				c.Must(ownInfo(o.Vals[0], ts), o.St, o.Pos, fn, "value", "Sys returns %v, not the tagset", shortT(o.Vals[0]))
			})
			run("Info", "an entry is its own information", func(fn *ssa.Function, o *Outcome, ts *Term) {
				c.Must(ownInfo(o.Vals[0], ts) && mustNil(o.St, o.Vals[1]), o.St, o.Pos, fn, "value", "Info returns %v, not the tagset without an error", shortTs(o.Vals))
			})
			c.Rule("directory files describe themselves and have no content")
			for _, d := range []string{"PackDirFile", "UnionDir"} {
				if fn := c.Fn(":" + d + ".Stat"); fn != nil {
					e := c.Engine()
					outs := c.Run(e, fn, nil, nil)
					for i := range outs {
						o := &outs[i]
						c.Inst("directory files")
						c.Must(!o.Panic && ownInfo(o.Vals[0], e.Params(fn)[0]) && mustNil(o.St, o.Vals[1]), o.St, o.Pos, fn, "stat", "Stat of a directory returns %v", shortTs(o.Vals))
					}
				}
				if fn := c.Fn(":" + d + ".Read"); fn != nil {
					e := c.Engine()
					outs := c.Run(e, fn, nil, nil)
					for i := range outs {
						o := &outs[i]
						c.Inst("directory files")
						c.Must(!o.Panic && o.Vals[0].isInt(0) && mustNotNil(o.St, o.Vals[1]), o.St, o.Pos, fn, "read", "reading a directory returns %v", shortTs(o.Vals))
					}
				}
				if fn := c.Fn(":" + d + ".Close"); fn != nil {
					e := c.Engine()
					outs := c.Run(e, fn, nil, nil)
					for i := range outs {
						o := &outs[i]
						c.Inst("directory files")
						c.Must(!o.Panic && mustNil(o.St, o.Vals[0]), o.St, o.Pos, fn, "close", "closing a directory returns %v", shortTs(o.Vals))
						AllEvents(o.St.Events(), func(ev *Event, _ *Body) {
							c.Must(ev.Kind != "call" && ev.Kind != "invoke", o.St, ev.Pos, fn, "close effect", "closing a directory calls %s", ev.Name)
						})
					}
				}
			}
			c.AtLeast("accessor paths", 9)
			c.AtLeast("directory files", 6)
		})
}
