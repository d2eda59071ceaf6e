package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// luaFns are the functions scripts call: those of the scripting module with the type of
// functions of the Lua machine.
func (c *Check) luaFns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.inLua() {
		sig := fn.Signature
		if fn.Parent() != nil || fn.Synthetic != "" || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		if !strings.HasSuffix(sig.Params().At(0).Type().String(), luaPkg+".LState") || !types.Identical(sig.Results().At(0).Type(), tyInt) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func (c *Check) inLua() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Fns {
		if p := fnPkg(fn); p != nil && p.Path() == ModPath+"/luawpk" && fn.Blocks != nil {
			out = append(out, fn)
		}
	}
	return out
}

// luaEngine follows the functions of the scripting module, those with an error result apart
// if whole is not set, and the calls of callbacks.
func (c *Check) luaEngine(whole bool) *Engine {
	e := c.Engine()
	lua := c.Fn("luawpk:CheckPack")
	e.Inline = func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" {
			return true
		}
		if lua != nil && fnPkg(f) == fnPkg(lua) {
			return whole || !returnsError(f)
		}
		return takesFunc(f)
	}
	return e
}

func isRaise(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "(*"+luaPkg+".LState).RaiseError" || ev.Name == "(*"+luaPkg+".LState).Error")
}

// missing are the lookups by which an operation finds a file; it fails if there is none.
var missing = map[string]bool{"(*wpk.Package).GetTagset": true, "(*wpk.FTT).GetTagset": true}

func init() {
	register("C38", "error-discipline dataflow over the scripting module: path-sensitive typestate of the first failed call up to the raised script error",
		"Every function with the type of a script function and every function with an error result in the scripting module is interpreted abstractly, deferred functions included. Each fallible call (discovered from the types; lookups of files included) is followed with and without a failure; failures inside of callbacks and loops over tables are followed into the lists of errors that are joined afterwards. A script function may leave a path with a failure only by raising a script error whose arguments contain the failure (or, for queries of the file system, by handing its text to the script); a function with an error result has to return a non-nil error. Every script error raised from an error value raises one known to be non-nil.",
		[]string{"RaiseError of the Lua machine raises", "errors of closing files that were only read are out of scope", "argument checks of the Lua machine raise script errors themselves"},
		func(c *Check) {
			c.Rule("a failure inside a scripting call is raised")
			track := func(e *Engine) {
				e.TrackFailures(func(cl *Call) bool { return cl.Method == "Close" && cl.Defer || environment[cl.Name] }, softEOF(false))
				next := e.AfterCall
				e.AfterCall = func(cl *Call, outs []Outcome) []Outcome {
					if missing[cl.Name] {
						var res []Outcome
						for _, o := range outs {
							if len(o.Vals) != 2 {
								res = append(res, o)
								continue
							}
							bad := Outcome{St: o.St.clone(), Vals: o.Vals}
							if bad.St.facts.Assume(o.Vals[1], false) {
								bad.St.tags["presence"] = o.Vals[1]
								if bad.St.tags["failed"] == nil {
									bad.St.tags["failed"] = mk("failed", cl.Name+" @"+e.P.Pos(cl.Pos), nil, tNil)
								}
								res = append(res, bad)
							}
							if o.St.facts.Assume(o.Vals[1], true) {
								o.St.tags["presence"] = o.Vals[1]
								res = append(res, o)
							}
						}
						outs = res
					}
					return next(cl, outs)
				}
			}
			for _, fn := range c.luaFns() {
				e := c.luaEngine(false)
				track(e)
				raised := map[*State]bool{}
				e.Record = func(ev *Event) bool {
					return isRaise(ev) || ev.Kind == "call" && ev.Method == "Push" || ev.Kind == "call" && ev.Method == "Error"
				}
				e.KeepPre = isRaise
				outs := c.Run(e, fn, nil, nil)
				c.Inst("script functions")
				_ = raised
				asks := answersPresence(outs)
				for i := range outs {
					o := &outs[i]
					f := o.St.tags["failed"]
					var raise *Event
					AllEvents(o.St.Events(), func(ev *Event, _ *Body) {
						if isRaise(ev) {
							raise = ev
						}
					})
					if raise != nil && raise.Pre != nil {
						c.Inst("raised errors")
						c.Site(raise.Pos)
						if raise.Method == "RaiseError" && len(raise.Args) > 0 {
							_, fixed := raise.Args[0].strVal()
							c.Must(fixed, raise.Pre, raise.Pos, fn, "format", "the message of a failure is taken for a format: %v", shortT(raise.Args[0]))
						}
						for _, er := range raisedErrors(raise) {
							c.Must(mustNotNil(raise.Pre, er), raise.Pre, raise.Pos, fn, "nothing failed", "a script error is raised from %v, which may be nil", shortT(er))
						}
					}
					if f == nil {
						continue
					}
					name, _, _ := strings.Cut(f.Aux, " @")
					if asks && missing[name] && raise == nil {
						continue // the absence is what the script asked for
					}
					c.Inst("failing paths")
					if raise == nil {
						told := false
						AllEvents(o.St.Events(), func(ev *Event, _ *Body) {
							if ev.Method == "Push" && strings.HasPrefix(f.Aux, "os.Stat") {
								for _, a := range ev.Args {
									told = told || a.contains(f.Args[0])
								}
							}
						})
						told = told || strings.HasPrefix(f.Aux, "os.Stat") && notExist(o.St, f.Args[0])
						c.Must(told, o.St, o.Pos, fn, name, "%s failed on this path but the script function returns normally", f.Aux)
						continue
					}
					if f.Args[0] == tNil {
						c.Must(len(raisedErrors(raise)) > 0, o.St, raise.Pos, fn, name+" message", "the script error raised after %s does not tell what failed", f.Aux)
						continue
					}
					told := false
					for _, a := range raise.Args {
						told = told || mentionsErr(raise.Pre, a, f.Args[0])
					}
					for _, er := range raisedErrors(raise) { // failures collected by a loop
						told = told || er.any(func(x *Term) bool { return x.Op == "loop" })
					}
					c.Must(told, o.St, raise.Pos, fn, name+" message", "the script error raised after %s does not carry its error", f.Aux)
				}
			}
			c.Rule("a failure inside the scripting module is returned")
			for _, fn := range c.inLua() {
				if !returnsError(fn) || fn.Parent() != nil || fn.Synthetic != "" {
					continue
				}
				e := c.luaEngine(false)
				track(e)
				e.Record = func(ev *Event) bool { return false }
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					f := o.St.tags["failed"]
					if o.Panic || f == nil {
						continue
					}
					c.Inst("failing paths")
					err := errVal(o)
					name, _, _ := strings.Cut(f.Aux, " @")
					c.Must(err != nil && mustNotNil(o.St, err), o.St, o.Pos, fn, name, "%s failed on this path but %s does not return an error (%v)", f.Aux, cname(fn), err)
				}
			}
			c.AtLeast("script functions", 70)
			c.AtLeast("raised errors", 30)
			c.AtLeast("failing paths", 60)
		})
}

// answersPresence tells whether what a script function hands to the script is,
// on all of its paths, whether a file was found and nothing else.
func answersPresence(outs []Outcome) bool {
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue
		}
		flag := o.St.tags["presence"]
		if flag == nil {
			return false
		}
		var pushed []*Term
		AllEvents(o.St.Events(), func(ev *Event, _ *Body) {
			if ev.Kind == "call" && ev.Method == "Push" {
				pushed = append(pushed, ev.Args...)
			}
		})
		if len(pushed) != 1 {
			return false
		}
		v := pushed[0]
		for v.Op == "iface" || v.Op == "conv" || v.Op == "makeiface" {
			v = v.Args[0]
		}
		yes, known := o.St.facts.Decide(flag)
		if v != flag && !(known && (yes && v == tTrue || !yes && v == tFalse)) {
			return false
		}
		n++
	}
	return n > 0
}

// raisedErrors are the errors whose texts make a script error.
func raisedErrors(ev *Event) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		t.any(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			n := callName(x)
			if strings.HasSuffix(n, ".Error") && x.Op != "res" {
				if len(x.Args) > 0 {
					out = append(out, x.Args[0])
				}
			}
			return false
		})
	}
	for _, a := range ev.Args {
		find(a)
		if a.Op == "slice" && a.Args[0].Op == "alloc" {
			for b, v := range ev.Pre.mem {
				if underAddr(b, a.Args[0]) {
					find(v)
				}
			}
		}
	}
	return out
}
