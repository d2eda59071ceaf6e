package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opensFile tells whether an event opens or creates a file.
func opensFile(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Name {
	case "os.OpenFile", "os.Create", "os.CreateTemp", "os.WriteFile", "os.Truncate":
		return true
	}
	return false
}

// writesPackage tells whether an event changes package files or tables of packages.
func writesPackage(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Method {
	case "Sync", "PackData", "PackFile", "Begin", "Append", "Write", "WriteString", "ReadFrom", "WriteTo", "Seek", "Truncate", "SetupTagset", "SetTagset", "OpenFile", "OpenStream":
		return true
	}
	return ev.Name == "io.Copy" || ev.Name == "io.CopyN" || ev.Name == "io.WriteString" || opensFile(ev)
}

func init() {
	register("C42", "abstract interpretation of every script operation under each state of the writer fields (closed, single file, data file)",
		"The fields that hold the package writers are those which the files opened by the script operation \"begin\" and given to Begin are stored in. Every script operation is interpreted from the state the registration leaves for every state of these two fields (no header writer; header only; both). With no header writer the packing operations, finalize and flush only raise errors and write nothing; begin and append end with the fields holding the files opened and given to Begin or Append, or raise with the header field still empty and every file opened before closed. With a header writer begin, append and load only raise, open nothing and leave both fields. Flush raises without a data writer. What is packed goes to the data writer if there is one, else to the header writer. Finalize publishes both, closes both and leaves both fields empty; no other operation changes the fields, and new objects are closed.",
		[]string{"failures of writing the header by Begin and Append (files are open then) are not failures to open", "the object is used by one script"},
		func(c *Check) {
			own := c.Fn("luawpk:InitLuaVM")
			for _, api := range c.script() {
				api.e.NoInv = true
				names := make([]string, 0, len(api.Methods))
				for n := range api.Methods {
					names = append(names, n)
				}
				sort.Strings(names)
				fnOf := func(n string) *ssa.Function {
					f := api.Methods[n]
					if f == nil || f.Op != "func" && f.Op != "closure" {
						return nil
					}
					return f.Obj.(*ssa.Function)
				}
				find := func(o *Outcome, method string) *Event {
					for _, ev := range api.since(o.St) {
						if ev.Kind == "call" && ev.Method == method && len(ev.Args) == 2 {
							return ev
						}
					}
					return nil
				}

				c.Rule("starting a package remembers its writers")
				var hdr, dat *Term
				begin := fnOf("begin")
				if !c.Must(begin != nil, api.St, own.Pos(), own, "begin", "scripts have no operation to begin a package") {
					return
				}
				for _, o := range api.run(api.Methods["begin"], api.St.clone()) {
					ev := find(&o, "Begin")
					if o.Panic || ev == nil {
						continue
					}
					for at, v := range o.St.mem {
						if at.Op != "faddr" || freshRoot(addrRoot(at)) || v == tNil {
							continue
						}
						if plainly(v) == plainly(ev.Args[0]) {
							hdr = at
						} else if plainly(v) == plainly(ev.Args[1]) && !isTrue(o.St, eqT(ev.Args[1], tNil)) {
							dat = at
						}
					}
				}
				if !c.Must(hdr != nil && dat != nil, api.St, begin.Pos(), begin, "fields", "the writers which a package is begun with are not kept in the package object") {
					return
				}
				// what neither mentions the writers nor leads to code which does leaves them
				users := map[*ssa.Function]bool{}
				for _, at := range []*Term{hdr, dat} {
					for f := range c.users("luawpk", "LuaPackage", at.Aux[strings.LastIndexAny(at.Aux, ". ")+1:]) {
						users[f] = true
					}
				}
				opaque := func(cl *Call) ([]Outcome, bool) {
					ct := cl.emit()
					return cl.ret(cl.results(ct)...)
				}
				for _, f := range c.P.AllFns {
					if f.Signature.Recv() == nil || users[f] || f.Synthetic != "" {
						continue
					}
					switch s := cname(f); {
					case strings.HasPrefix(s, "(*wpk.Package)."), strings.HasPrefix(s, "(*wpk.FTT)."), strings.HasPrefix(s, "(*wpk/luawpk.LuaPackage)."):
						if !takesFunc(f) {
							api.e.Models[s] = opaque
						}
					}
				}
				H, D := api.St.clone().load(hdr, elemOf(hdr.Typ)), api.St.clone().load(dat, elemOf(dat.Typ))

				// the data writer is never left in a closed package, if so
				clean := true
				for _, n := range []string{"begin", "append", "finalize"} {
					st := api.St.clone()
					if n != "finalize" {
						st.facts.Assume(eqT(H, tNil), true)
						st.facts.Assume(eqT(D, tNil), true)
					}
					for _, o := range api.run(api.Methods[n], st) {
						h, d := o.St.clone().load(hdr, elemOf(hdr.Typ)), o.St.clone().load(dat, elemOf(dat.Typ))
						clean = clean && (h == H && n == "finalize" || !maybe(o.St, eqT(h, tNil)) || d == tNil || isTrue(o.St, eqT(d, tNil)))
					}
				}
				for _, mode := range []string{"closed", "single", "split", "open"} {
					st := api.St.clone()
					st.facts.Assume(eqT(H, tNil), mode == "closed")
					if mode == "closed" && clean {
						st.facts.Assume(eqT(D, tNil), true)
					}
					if mode == "single" || mode == "split" {
						st.facts.Assume(eqT(D, tNil), mode == "single")
					}
					for _, n := range names {
						fn := fnOf(n)
						if fn == nil {
							continue
						}
						main := n == "begin" || n == "append" || n == "load" || n == "putdata" || n == "putfile" || n == "finalize" || n == "flush"
						if !main && mode != "open" || main && mode == "open" {
							continue
						}
						outs := api.run(api.Methods[n], st.clone())
						c.Analysed(fn, outs)
						normal := 0
						for i := range outs {
							o := &outs[i]
							c.Inst("paths of script operations")
							h, d := o.St.clone().load(hdr, elemOf(hdr.Typ)), o.St.clone().load(dat, elemOf(dat.Typ))
							same := (h == H || isTrue(o.St, eqT(h, H))) && (d == D || isTrue(o.St, eqT(d, D)))
							refused := func(why string) {
								c.Must(o.Panic, o.St, o.Pos, fn, "refuse", "%s does not fail although %s", n, why)
								AllEvents(api.since(o.St), func(ev *Event, _ *Body) {
									c.Must(!writesPackage(ev), o.St, ev.Pos, ev.Fn, "writes", "%s: %s although %s", n, ev.Method+" "+ev.Name, why)
								})
								c.Must(same, o.St, o.Pos, fn, "refused", "%s: the writers are changed although %s", n, why)
								c.Inst("refusals")
							}
							if !o.Panic {
								normal++
							}
							switch {
							case !main:
								c.Rule("only begin, append and finalize change the state of the package")
								c.Must(same, o.St, o.Pos, fn, "changed", "%s changes the writers of the package", n)
							case n == "begin" || n == "append" || n == "load":
								if mode != "closed" {
									c.Rule("an open package is not started or loaded again")
									refused("the package is open")
									break
								}
								if n == "load" {
									c.Rule("only begin, append and finalize change the state of the package")
									c.Must(same, o.St, o.Pos, fn, "changed", "%s changes the writers of the package", n)
									break
								}
								c.Rule("starting opens the package, failing to open the files leaves it closed")
								c.starts(api, o, n, fn, h, d, find(o, map[string]string{"begin": "Begin", "append": "Append"}[n]))
							case mode == "closed":
								c.Rule("nothing is written to a closed package")
								refused("the package is not open")
							case n == "flush" && mode == "single":
								c.Rule("flushing is refused for single-file packages")
								refused("the package has no data file")
							case n == "putdata" || n == "putfile":
								c.Rule("data goes to the data file if there is one")
								want := H
								if mode == "split" {
									want = D
								}
								AllEvents(api.since(o.St), func(ev *Event, _ *Body) {
									if ev.Kind == "call" && (ev.Method == "PackData" || ev.Method == "PackFile") {
										c.Inst("packings")
										c.Must(len(ev.Args) > 0 && (plainly(ev.Args[0]) == plainly(want) || isTrue(o.St, eqT(ev.Args[0], want))), o.St, ev.Pos, ev.Fn, "destination", "%s: the data of a %s package goes to %v", n, mode, shortT(ev.Args[0]))
									}
								})
								c.Must(same, o.St, o.Pos, fn, "changed", "%s changes the writers of the package", n)
							default:
								c.Rule("finalize and flush publish both files")
								c.publishes(api, o, n, fn, H, D, h, d, mode)
								if n == "flush" {
									c.Must(same, o.St, o.Pos, fn, "changed", "flush changes the writers of the package")
								}
							}
						}
						works := !main || mode == "closed" && (n == "begin" || n == "append" || n == "load") || mode == "split" && n != "begin" && n != "append" && n != "load" || mode == "single" && (n == "putdata" || n == "putfile" || n == "finalize")
						if works && main {
							c.Rule("operations on packages in the right state work")
							c.Must(normal > 0, st, fn.Pos(), fn, "works", "%s never works for a package that is %s", n, mode)
						}
					}
				}
				c.Rule("new package objects are closed")
				for n, f := range api.Path {
					if n != "new" || f.Op != "func" && f.Op != "closure" {
						continue
					}
					fn := f.Obj.(*ssa.Function)
					for _, o := range api.run(f, api.St.clone()) {
						if o.Panic {
							continue
						}
						c.Inst("new objects")
						opens := false
						AllEvents(api.since(o.St), func(ev *Event, _ *Body) { opens = opens || opensFile(ev) })
						c.Must(!opens, o.St, o.Pos, fn, "new", "making a package object opens files")
						for at, v := range o.St.mem {
							if at.Op == "faddr" && (at.Aux == hdr.Aux || at.Aux == dat.Aux) {
								c.Must(v == tNil || isTrue(o.St, eqT(v, tNil)), o.St, o.Pos, fn, "new", "a new package object has a writer")
							}
						}
					}
				}
				break
			}
			c.AtLeast("paths of script operations", 100)
			c.AtLeast("refusals", 20)
			c.AtLeast("packings", 4)
			c.AtLeast("starts", 4)
			c.AtLeast("failures to open", 3)
			c.AtLeast("publications", 3)
		})
}

// starts judges a path of an operation that starts a package.
func (c *Check) starts(api *scriptAPI, o *Outcome, n string, fn *ssa.Function, h, d *Term, call *Event) {
	var opened, closed []*Event
	failed := false
	for _, ev := range api.since(o.St) {
		if opensFile(ev) {
			if errNilOn(o.St, nil, ev) {
				opened = append(opened, ev)
			} else {
				failed = true
			}
		}
		if ev.Kind == "call" && ev.Method == "Close" {
			closed = append(closed, ev)
		}
	}
	isFile := func(t *Term, ev *Event) bool {
		return plainly(t) == ev.result(0) || plainly(t) == plainly(ev.result(0))
	}
	if call == nil {
		c.Must(o.Panic, o.St, o.Pos, fn, "start", "%s returns without starting the package", n)
		c.Must(h == tNil || isTrue(o.St, eqT(h, tNil)), o.St, o.Pos, fn, "half-open", "%s fails and leaves the package with a header writer", n)
		if failed {
			c.Inst("failures to open")
		}
		for _, f := range opened {
			ok := false
			for _, ev := range closed {
				ok = ok || isFile(ev.Recv, f)
			}
			c.Must(ok, o.St, f.Pos, f.Fn, "leak", "%s fails and leaves a file open", n)
		}
		return
	}
	c.Inst("starts")
	c.Must(!failed, o.St, call.Pos, fn, "failed", "%s starts the package although a file could not be opened", n)
	c.Must(len(opened) > 0 && isFile(call.Args[0], opened[0]), o.St, call.Pos, fn, "header", "%s starts the package without the header file it opened", n)
	data := call.Args[1]
	single := data == tNil || isTrue(o.St, eqT(data, tNil))
	c.Must(single == (len(opened) == 1), o.St, call.Pos, fn, "data", "%s starts the package without the data file it opened", n)
	if !single && len(opened) > 1 {
		c.Must(isFile(data, opened[1]), o.St, call.Pos, fn, "data", "%s starts the package without the data file it opened", n)
	}
	for _, f := range opened {
		for _, ev := range closed {
			c.Must(o.Panic || !isFile(ev.Recv, f), o.St, ev.Pos, ev.Fn, "closed", "%s closes the file of an open package", n)
		}
	}
	if !o.Panic {
		c.Must(plainly(h) == plainly(call.Args[0]), o.St, o.Pos, fn, "header field", "%s: the package does not keep the header writer", n)
		c.Must(plainly(d) == plainly(data) || single && (d == tNil || isTrue(o.St, eqT(d, tNil))), o.St, o.Pos, fn, "data field", "%s: the package keeps another data writer (%v)", n, shortT(d))
	}
}

// publishes judges a path of the operations that publish a package.
func (c *Check) publishes(api *scriptAPI, o *Outcome, n string, fn *ssa.Function, H, D, h, d *Term, mode string) {
	if o.Panic {
		return
	}
	c.Inst("publications")
	synced := false
	shut := map[*Term]bool{}
	for _, ev := range api.since(o.St) {
		if ev.Kind != "call" {
			continue
		}
		switch ev.Method {
		case "Sync":
			if len(ev.Args) != 2 {
				continue
			}
			good := plainly(ev.Args[0]) == plainly(H) && (plainly(ev.Args[1]) == plainly(D) || mode == "single" && (isTrue(o.St, eqT(ev.Args[1], tNil)) || plainly(ev.Args[1]) == plainly(H)))
			c.Must(good, o.St, ev.Pos, ev.Fn, "writers", "%s publishes with other writers", n)
			c.Must(len(shut) == 0, o.St, ev.Pos, ev.Fn, "order", "%s publishes after closing", n)
			synced = errNilOn(o.St, nil, ev)
		case "Close":
			if t := plainly(ev.Recv); t == plainly(H) || t == plainly(D) {
				shut[t] = true
				c.Must(n == "finalize", o.St, ev.Pos, ev.Fn, "closing", "%s closes the files of the package", n)
			}
		}
	}
	c.Must(synced, o.St, o.Pos, fn, "sync", "%s succeeds without publishing the package", n)
	if n != "finalize" {
		return
	}
	c.Must(shut[plainly(H)], o.St, o.Pos, fn, "close header", "finalize does not close the header file")
	c.Must(mode == "single" || shut[plainly(D)], o.St, o.Pos, fn, "close data", "finalize does not close the data file")
	c.Must(h == tNil || isTrue(o.St, eqT(h, tNil)), o.St, o.Pos, fn, "open header", "finalize leaves the package open")
	c.Must(d == tNil || isTrue(o.St, eqT(d, tNil)), o.St, o.Pos, fn, "open data", "finalize leaves the data writer")
}

// maybe tells whether a condition is not known to be false.
func maybe(st *State, t *Term) bool { return !isFalse(st, t) }
