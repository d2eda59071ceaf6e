package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exported lists the exported functions and methods of packages, with their bodies.
func (c *Check) exported(pkgs ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[ModPath+p] = true
	}
	var out []*ssa.Function
	for _, fn := range c.P.Fns {
		p := fnPkg(fn)
		if p == nil || !want[p.Path()] || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if fn.Synthetic != "" {
			continue
		}
		if fn.Origin() != nil && fn.Origin() != fn { // instances of generic functions are reached from their users
			continue
		}
		if fn.TypeParams().Len() > 0 || fn.Signature.Recv() != nil && isGenericRecv(fn) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func isGenericRecv(fn *ssa.Function) bool {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.TypeParams().Len() > 0
}

func returnsError(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isError(r.At(i).Type()) {
			return true
		}
	}
	return false
}

// notExist tells that an error is known to say that a name does not exist.
func notExist(st *State, err *Term) bool {
	for f, v := range st.facts.truth {
		if !v || f.Op != "pure" || len(f.Args) == 0 || f.Args[0] != err {
			continue
		}
		if f.Aux == "errors.Is" && len(f.Args) == 2 && (isGlobal(f.Args[1], "io/fs.ErrNotExist") || isGlobal(f.Args[1], "os.ErrNotExist")) || f.Aux == "os.IsNotExist" {
			return true
		}
	}
	return false
}

func skipClose(c *Call) bool { return c.Method == "Close" || c.Method == "Chtimes" && c.Defer }

func init() {
	register("C08", "error-discipline dataflow: interprocedural path-sensitive typestate of the first failed call over go/ssa",
		"Every exported function and method of the core library, the access modules and the utilities (with everything it calls inside the repository, closures included) is interpreted abstractly. Each call that leaves the analysed code and has an error result is followed once with a nil and once with a non-nil error; the first failing call of a path is remembered through branches, loops and callbacks. At every exit of a path with a failed call the returned error must be known to be non-nil. A failure whose error the code has recognised as 'does not exist' (or as end of file of a plain Read) is an answer, not a failure. The set of fallible calls is discovered from the types, not listed.",
		[]string{"errors of Close count in operations that close (methods Close), elsewhere they are out of scope", "path.Match reports a malformed pattern whatever the name is (documented)", "writers of the standard library that are documented never to fail (bytes.Buffer, strings.Builder, hash.Hash) do not"},
		func(c *Check) {
			c.Rule("a failed call makes the operation fail")
			for _, fn := range c.exported("", "/bulk", "/mmap", "/fsys", "/util") {
				e := c.Engine()
				e.NoInv = true
				e.Record = func(ev *Event) bool { return false }
				skip := skipClose
				if cname(fn) == "(*wpk.Union).Close" {
					c.unionClose(fn) // it closes all of them first
				} else if fn.Name() == "Close" { // closing is what it is for
					skip = func(*Call) bool { return false }
				}
				e.TrackFailures(skip, softEOF(false))
				outs := c.Run(e, fn, nil, nil)
				for i := range outs {
					o := &outs[i]
					f := o.St.tags["failed"]
					if o.Panic || f == nil || notExist(o.St, f.Args[0]) {
						continue
					}
					what := f.Aux
					c.Inst("failing paths")
					err := errVal(o)
					name, _, _ := strings.Cut(what, " @")
					if !returnsError(fn) {
						c.FailT(o.St, o.Pos, fn, "no error result: "+name, "%s may fail, and %s has no error to return", what, cname(fn))
						continue
					}
					c.Must(err != nil && mustNotNil(o.St, err), o.St, o.Pos, fn, name, "%s failed on this path but the function does not return an error (%v)", what, err)
				}
			}
			c.AtLeast("failing paths", 60)
		})
	register("C09", "error-discipline dataflow over the utilities: path-sensitive typestate of the first failed call",
		"The work functions of the utilities (the functions with an error result which main calls) are interpreted abstractly with their closures and callbacks (directory walk, enumeration of the package); every call out of the utility that has an error result is followed with and without a failure, and so is the failure a directory walk reports to its callback. On a path with a failed call the work function must return a non-nil error and the publishing operation must not be called after the failure. In main every failing work function must be followed by a log call that carries its error, and no other work is started.",
		[]string{"errors of Close and of restoring file times are out of scope", "a failed enumeration callback stops the enumeration (C30)"},
		func(c *Check) {
			for _, cmd := range []string{"cmd/pack", "cmd/extract", "cmd/build"} {
				c.cmdErrors(cmd)
			}
			c.AtLeast("work functions", 3)
			c.AtLeast("failing paths", 12)
		})
}

// softEOF lists the calls whose end of file is an answer: plain reads, readings of
// directories by portions, and with sniff also filling of a local array, which may be longer
// than the file.
func softEOF(sniff bool) func(c *Call) []string {
	return func(c *Call) []string {
		if c.Method == "Read" && len(c.Args) == 1 {
			return []string{"io.EOF"}
		}
		if m := c.Method; (m == "Readdirnames" || m == "Readdir" || m == "ReadDir") && len(c.Args) == 1 {
			return []string{"io.EOF"} // the end of a directory
		}
		if sniff && (c.Name == "io.ReadFull" || c.Name == "io.ReadAtLeast") && rootOf(c.Args[1]).Op == "alloc" {
			return []string{"io.EOF", "io.ErrUnexpectedEOF"}
		}
		return nil
	}
}

// equalsGlobal tells that a value is known to be that of a package level variable.
func equalsGlobal(st *State, v *Term, names ...string) bool {
	if v == nil {
		return false
	}
	for _, n := range names {
		if isGlobal(v, n) {
			return true
		}
	}
	for f, val := range st.facts.truth {
		if !val {
			continue
		}
		if f.Op == "==" && (f.Args[0] == v || f.Args[1] == v) || f.Op == "pure" && f.Aux == "errors.Is" && f.Args[0] == v {
			for _, n := range names {
				if isGlobal(f.Args[0], n) || isGlobal(f.Args[1], n) {
					return true
				}
			}
		}
	}
	return false
}

// takesFunc tells that a function has a parameter of function type.
func takesFunc(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if _, ok := under(ps.At(i).Type()).(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (c *Check) cmdErrors(cmd string) {
	main := c.Fn(cmd + ":main")
	if main == nil {
		return
	}
	pk := fnPkg(main)
	// roots: functions of main's package with an error result that main calls, and those of other packages
	var work []*ssa.Function
	isWork := map[*ssa.Function]bool{}
	var scan func(fn *ssa.Function, seen map[*ssa.Function]bool)
	scan = func(fn *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil || f.Blocks == nil || !c.P.InRepo(f) {
					continue
				}
				if returnsError(f) && (fnPkg(f) == pk || cmd == "cmd/build") {
					if !isWork[f] {
						isWork[f] = true
						work = append(work, f)
					}
					continue
				}
				if fnPkg(f) == pk {
					scan(f, seen)
				}
			}
		}
	}
	scan(main, map[*ssa.Function]bool{})
	for _, fn := range work {
		c.Inst("work functions")
		e := c.Engine()
		e.NoInv = true
		e.Record = func(ev *Event) bool { return false }
		e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == fnPkg(fn) || takesFunc(f) || f.Parent() != nil }
		e.TrackFailures(func(c *Call) bool { return skipClose(c) || c.Name == "os.Chtimes" || environment[c.Name] }, softEOF(true))
		sync := func(cl *Call) ([]Outcome, bool) {
			f := cl.st.tags["failed"]
			if e.quiet == 0 {
				c.Rule("nothing is published after a failure")
				c.Must(f == nil, cl.st, cl.Pos, fn, "publish after failure", "the package is published although %v has failed", f)
			}
			return nil, false
		}
		e.Models["(*wpk.FTT).Sync"] = sync
		e.Models["(*wpk.Package).Sync"] = sync
		outs := c.Run(e, fn, nil, nil)
		c.Rule("a failure makes the work function fail")
		for i := range outs {
			o := &outs[i]
			f := o.St.tags["failed"]
			if o.Panic || f == nil {
				continue
			}
			c.Inst("failing paths")
			err := errVal(o)
			name, _, _ := strings.Cut(f.Aux, " @")
			c.Must(err != nil && mustNotNil(o.St, err), o.St, o.Pos, fn, name, "%s failed on this path but %s does not return an error (%v)", f.Aux, cname(fn), err)
		}
	}
	// main reports what the work functions return
	c.Rule("main reports the failure")
	e := c.Engine()
	e.NoInv = true
	e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == pk && !isWork[f] }
	e.Record = func(ev *Event) bool {
		if strings.HasPrefix(ev.Name, "log.") || strings.HasPrefix(ev.Name, "(*log.Logger)") || strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "os.Exit") {
			return ev.Kind == "call" && ev.Recv == nil
		}
		for f := range isWork {
			if ev.Name == cname(f) {
				return true
			}
		}
		return false
	}
	e.TrackFailures(func(cl *Call) bool { return cl.Fn == nil || !isWork[cl.Fn] }, nil)
	outs := c.Run(e, main, nil, nil)
	for i := range outs {
		o := &outs[i]
		f := o.St.tags["failed"]
		if f == nil {
			continue
		}
		c.Inst("failures in main")
		told := false
		after := false
		AllEvents(o.St.Events(), func(ev *Event, _ *Body) {
			for _, er := range errOf(ev) {
				if er == f.Args[0] {
					after = true
				}
			}
			for _, a := range ev.Args {
				if mentionsErr(o.St, a, f.Args[0]) {
					told = true
				}
			}
		})
		_ = after
		c.Must(told, o.St, o.Pos, main, "not reported", "%s failed but main neither prints nor logs its error", f.Aux)
	}
	c.AtLeast("failures in main", 1)
}

// mentionsErr tells that a printed argument carries an error.
func mentionsErr(st *State, a, err *Term) bool {
	if a == nil {
		return false
	}
	if a.contains(err) {
		return true
	}
	if a.Op == "slice" && a.Args[0].Op == "alloc" {
		for b, v := range st.mem {
			if underAddr(b, a.Args[0]) && v.contains(err) {
				return true
			}
		}
		return false
	}
	return false
}

// environment lookups whose failure leaves something unset.
var environment = map[string]bool{"os.Executable": true, "os.Getwd": true, "os.UserHomeDir": true, "os.Hostname": true}
