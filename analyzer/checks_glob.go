package main

import "golang.org/x/tools/go/ssa"

func init() {
	register("C54", "abstract interpretation: effect of each step of the walk over the table on the list of names, path conditions of success",
		"Globbing of a package is interpreted abstractly over arbitrary tables, workspaces and patterns. On every path that succeeds the pattern, normalised, is known to be well formed by a question that needs no file, and the one table of the package has been walked over without ending early; each step of the walk has added exactly the workspace-relative name when path.Match of this pattern and this name is known to hold, and nothing when it is known not to hold or when the file lies outside of the workspace. A failure is returned exactly for a malformed pattern, and without names. For unions the rules of C29 are applied to each package in turn, and the same rule for malformed patterns.",
		[]string{"path.Match of the standard library is the pattern language and reports a malformed pattern for the empty name", "tables enumerate in the order of insertion (C48)"},
		func(c *Check) {
			c.Rule("a malformed pattern is reported whatever files there are, and nothing else is")
			for _, s := range []string{":Package.Glob", ":Union.Glob"} {
				if fn := c.Fn(s); fn != nil {
					c.globErrors(fn)
				}
			}
			c.AtLeast("successes", 2)
			c.AtLeast("failures", 2)
			c.Rule("a package lists every matching name once")
			if fn := c.Fn(":Package.Glob"); fn != nil {
				c.packageGlob(fn)
			}
			c.AtLeast("names", 2)
			c.Rule("a union lists every matching name once")
			c.keyListing(":Union.Glob", true)
			c.AtLeast("names", 6)
		})
}

// globErrors checks when globbing fails.
func (c *Check) globErrors(fn *ssa.Function) {
	e := c.Engine()
	pattern := e.Params(fn)[1]
	outs := c.Run(e, fn, nil, nil)
	c.Analysed(fn, outs)
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, "panics", "it panics") {
			continue
		}
		var asked *Term
		anyFact(o.St, func(x *Term) {
			if x.Op == "pure" && x.Aux == "path.Match.err" && (x.Args[0] == toSlash(pattern) || x.Args[0] == pattern) {
				asked = x
			}
		})
		err := errVal(o)
		if !mustNil(o.St, err) {
			c.Inst("failures")
			from := err.any(func(x *Term) bool { return x == asked || isGlobal(x, "path.ErrBadPattern") })
			c.Must(asked != nil && from && mustNotNil(o.St, asked), o.St, o.Pos, fn, "failure", "it fails though the pattern is not known to be malformed, or with something else")
			c.Must(mustNil(o.St, o.Vals[0]), o.St, o.Pos, fn, "names of a failure", "names are returned with an error")
			continue
		}
		c.Inst("successes")
		c.Must(asked != nil && mustNil(o.St, asked), o.St, o.Pos, fn, "malformed", "it succeeds though the pattern may be malformed")
	}
}

// packageGlob checks the names a package lists.
func (c *Check) packageGlob(fn *ssa.Function) {
	e := c.Engine()
	ps := e.Params(fn)
	outs := c.Run(e, fn, nil, nil)
	for i := range outs {
		o := &outs[i]
		if err := errVal(o); o.Panic || !mustNil(o.St, err) {
			continue
		}
		walks := 0
		w := &listWalk{typ: fn.Signature.Results().At(0).Type()}
		w.fail = func(st *State, why string) { c.Must(false, st, o.Pos, fn, "list", "%s", why) }
		w.loop = func(s *Star, outer []*Star) {
			if isTableWalk(s) {
				c.Must(len(outer) == 0, o.St, o.Pos, fn, "repeated", "the table is walked over in a loop")
				return
			}
			c.Must(false, o.St, o.Pos, fn, "loop", "names are gathered in another loop than over the table")
		}
		w.leaf = func(l *leaf) {
			st := l.st
			c.Must(l.broken == nil, st, o.Pos, fn, "stops", "the walk over the files ends early")
			if l.table == nil {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "extra", "names are listed that belong to no file")
				return
			}
			c.Must(holderOf(l.table.Over) == ps[0], st, o.Pos, fn, "table", "the table of something else than the package is listed")
			rest, in, known := inDir(st, l.table.Key, c.workspaceOf(st, l.table.Over))
			if !known || !in {
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "outside", "a file is listed that is not known to be in the workspace")
				return
			}
			c.Inst("names")
			wanted, decided := wantedName(st, ps[1], rest)
			switch {
			case !c.Must(decided, st, o.Pos, fn, "known", "it is not decided whether the name of a file matches the pattern"):
			case !wanted:
				c.Must(len(l.elems) == 0, st, o.Pos, fn, "not matching", "a name is listed that does not match")
			case c.Must(len(l.elems) == 1, st, o.Pos, fn, "missing", "a matching name is listed %d times", len(l.elems)):
				c.Must(sameString(st, l.elems[0], rest), st, o.Pos, fn, "name", "the listed name is %v", shortT(l.elems[0]))
			}
		}
		evs := o.St.Events()
		for _, ev := range evs {
			if ev.Star != nil && isTableWalk(ev.Star) {
				walks++
			}
			c.Must(ev.Kind != "call" || len(ev.Args) == 0 || unwrap(ev.Args[0]) != unwrap(o.Vals[0]), o.St, at(ev.Pos, fn), fn, "changed", "the list of names is changed by %s", ev.Name)
		}
		c.Must(walks == 1, o.St, o.Pos, fn, "walks", "the table is walked over %d times", walks)
		w.walk(o.St, evs, nil, o.Vals[0], nil, nil)
	}
}
