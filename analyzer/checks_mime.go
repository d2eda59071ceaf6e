package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packed are the files packed inside of walks.
func packed(e *Engine, name string, fn *ssa.Function, evs []*Event) []*packing {
	var out []*packing
	AllStars(evs, func(s *Star) {
		for i := range s.Bodies {
			p := &packing{e: e, name: name, fn: fn, st: s.Bodies[i].St, evs: s.Bodies[i].St.Events()}
			p.walk()
			if p.pack != nil && p.ts != nil {
				out = append(out, p)
			}
		}
	})
	return out
}

// named tells that a text is derived from the name of the packed file.
func (p *packing) named(t *Term) bool {
	if t.contains(p.pack.Res) {
		return true
	}
	for _, a := range p.pack.Args {
		if isStringT(a) && t.contains(a) {
			return true
		}
	}
	return false
}

func isStringT(t *Term) bool { return t.Typ != nil && under(t.Typ).String() == "string" }

// byExtension are the lookups of a type by the extension of the name: the terms that give it.
func (p *packing) byExtension(f func(val, unknown *Term)) {
	seen := map[*Term]bool{}
	for t := range p.st.facts.truth {
		t.any(func(x *Term) bool {
			if x.Op == "pure" && x.Aux == "mime.TypeByExtension" && p.named(x) && !seen[x] {
				seen[x] = true
				f(x, eqT(x, strConst("")))
			}
			if x.Op == "maphas" && p.named(x) && !seen[x] {
				seen[x] = true
				f(nil, notT(x))
			}
			return false
		})
	}
}

// sniffs are the calls that look at the content of the packed file.
func (p *packing) sniffs() []*Event {
	var out []*Event
	after := false
	for _, ev := range p.evs {
		if ev == p.pack {
			after = true
			continue
		}
		if !after || ev.Kind != "call" || ev.Method == "Seek" || ev.Method == "Copy" || ev.Method == "Close" || ev.Method == "Stat" {
			continue
		}
		r := plainly(p.reader())
		uses := plainly(ev.Recv) == r
		for _, a := range ev.Args {
			uses = uses || plainly(a) == r
		}
		if uses {
			out = append(out, ev)
		}
	}
	return out
}

// untold tells that looking at the content is known to have given no type.
func (p *packing) untold() bool {
	for t, v := range p.st.facts.truth {
		if !v || t.Op != "==" || !t.Args[0].isStr("") && !t.Args[1].isStr("") {
			continue
		}
		for _, ev := range p.sniffs() {
			if t.contains(ev.Res) {
				return true
			}
		}
	}
	return false
}

// mimeType tells what is wrong with a text as the type of the packed file.
func (p *packing) mimeType(x *Term) string {
	unknown, lookups := true, 0
	p.byExtension(func(_, u *Term) {
		lookups++
		unknown = unknown && isTrue(p.st, u)
	})
	for _, ev := range p.sniffs() {
		from := x.any(func(t *Term) bool { return t == ev.Res })
		known := false // it is known whether the content has a known type
		for t, v := range p.st.facts.truth {
			if t.Op == "==" && v == (x.Op == "const") && t.any(func(y *Term) bool { return y == ev.result(0) }) {
				known = true
			}
		}
		if !from && x.Op != "const" {
			continue
		}
		if strings.HasPrefix(ev.Name, "github.com/h2non/filetype.") {
			if !known {
				return "is put without knowing whether the content has a known type"
			}
			if from && !strings.HasSuffix(x.String(), ".MIME.Value") {
				return "is not the type found"
			}
		} else if !from && !known {
			continue
		}
		if !unknown || lookups == 0 {
			return "is taken from the content although the extension may tell it"
		}
		if ev.Method == "ReadFull" || ev.Method == "Read" || ev.Method == "ReadAtLeast" {
			short := false
			x.any(func(y *Term) bool {
				if y.Op == "pure" && strings.HasSuffix(y.Aux, ".DetectContentType") {
					short = y.any(func(z *Term) bool { return z == ev.result(0) }) || p.st.facts.ProveEq(lenT(y.Args[0]), ev.result(0))
				}
				return false
			})
			if !short {
				return "is taken from more than the bytes that were read"
			}
		}
		for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
			if plainly(a) == plainly(p.reader()) {
				if msg := p.readsWhole(ev, a); msg != "" {
					return msg
				}
			}
		}
		return ""
	}
	if x.Op == "const" {
		return "is a fixed text although the content was not looked at"
	}
	good := ""
	switch {
	case x.Op == "pure" && x.Aux == "mime.TypeByExtension" && p.named(x):
		if !isFalse(p.st, eqT(x, strConst(""))) {
			good = "may be unknown, but the content is not looked at"
		}
	case x.Op == "mapget" && p.named(x):
		if !isTrue(p.st, mk("maphas", strings.Join(strings.SplitN(x.Aux, ":", 3)[:2], ":"), tyBool, x.Args...)) {
			good = "may be unknown, but the content is not looked at"
		}
	default:
		good = "is neither derived from the name nor from the content of the file"
	}
	return good
}

func init() {
	register("C49", "abstract interpretation of the packing operations of the scripting module and of the pack utility: provenance of the stored type, typestate of the reader",
		"The packing operations of the scripting module are interpreted from the state the registration leaves (the switch for types symbolic), and the pack utility from its entry, the walk over the source folder included. On every path that stores the tags of a packed file the type tag put by the code is followed back: its value is a type looked up by the extension of the file's name and known to be found, or derived from a call that takes the reader of the packed content directly after a successful seek to its start, and then every lookup by the extension is known to have failed; a fixed type is put only after the result of such a call was compared. A path without the tag is one with the switch off or the tag present. The scripting module puts the tag only where none is known to be present, before the tags given by the script are merged.",
		[]string{"mime.TypeByExtension, filetype.MatchReader and http.DetectContentType are correct"},
		func(c *Check) {
			tid := tidT(c.constInt("", "TIDmime"))
			judge := func(p *packing, on *Term, keep bool) {
				c.Inst("packing paths of " + p.name)
				pos, fn := p.pack.Pos, p.fn
				ls := p.onTag(tid)
				if len(ls) == 0 {
					c.Must(isFalse(p.st, on) || p.present(tid) || p.untold(), p.st, pos, fn, "missing", "%s: no type is stored although the option may be on and the tag absent", p.name)
					return
				}
				l := ls[len(ls)-1]
				for _, ev := range p.evs {
					if ev.Kind == "tsedit" && ev.Recv == l.base && ev.Args[0] == l.tid {
						pos, fn = ev.Pos, ev.Fn
					}
				}
				c.Inst("types put by " + p.name)
				if !c.Must(len(ls) == 1 && l.val != nil, p.st, pos, fn, "edits", "%s: the type is edited more than once", p.name) {
					return
				}
				if keep {
					_, has := tsLookup(l.base, tid)
					c.Must(isFalse(p.st, has) || strings.HasSuffix(l.op.Aux, ".AddOk"), p.st, pos, fn, "kept", "%s: the type is put although the file may have one already", p.name)
				}
				c.Must(isTrue(p.st, on), p.st, pos, fn, "switch", "%s: the type is put although the option may be off", p.name)
				v := l.val
				if v.Op != "pure" || v.Aux != "wpk.StrTag" {
					c.Must(false, p.st, pos, fn, "text", "%s: the type is not stored as a text", p.name)
					return
				}
				msg := p.mimeType(v.Args[0])
				c.Must(msg == "", p.st, pos, fn, "value", "%s: the type stored %s", p.name, msg)
			}
			c.Rule("types of files packed by scripts")
			for _, api := range c.script() {
				known := map[*Term]bool{}
				for _, a := range algorithms {
					if t := c.value(api, a.prop); t != nil {
						known[t] = false
					}
				}
				on := c.value(api, "automime")
				for _, p := range c.packings(api, known, on) {
					if c.Must(p.pack != nil && p.ts != nil && callOf(p.base) == p.pack.Res, p.st, p.fn.Pos(), p.fn, "stored", "%s ends without storing the tags of the packed file", p.name) {
						judge(p, on, true)
					}
				}
				break
			}
			c.Rule("types of files packed by the utility")
			main := c.Fn("cmd/pack:main")
			flag := c.flagVar("cmd/pack", "mime")
			if main == nil || flag == nil {
				return
			}
			e := c.cmdEngine(main)
			at := mk("global", shortMod.Replace(flag.Pkg.Pkg.Path())+"."+flag.Name(), flag.Type())
			e.Record = func(ev *Event) bool {
				return ev.Kind == "tsedit" || ev.Kind == "call" && (ev.Recv != nil && ev.Res != nil || ev.Name == "io.ReadFull")
			}
			for _, r := range c.errRoots("cmd/pack", []*ssa.Function{c.Fn(":Package.PackFile")}) {
				outs := c.Run(e, r, nil, nil)
				c.Analysed(r, outs)
				for i := range outs {
					for _, p := range packed(e, "the utility", r, outs[i].St.Events()) {
						judge(p, p.st.load(at, tyBool), false)
					}
				}
			}
			c.AtLeast("types put by putdata", 4)
			c.AtLeast("types put by putfile", 4)
			c.AtLeast("types put by the utility", 2)
		})
}
