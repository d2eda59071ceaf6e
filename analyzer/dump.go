package main

import (
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// find resolves "pkg:Func" or "pkg:Type.Method"; the root package is "".
func (p *Prog) find(spec string) *ssa.Function {
	i := strings.IndexByte(spec, ':')
	pkg, name := spec[:i], spec[i+1:]
	if pkg != "" {
		pkg = "/" + pkg
	}
	if j := strings.IndexByte(name, '.'); j >= 0 {
		return p.Method(pkg, name[:j], name[j+1:])
	}
	return p.Func(pkg, name)
}

func (ev *Event) String() string {
	var sb strings.Builder
	if ev.Star != nil {
		fmt.Fprintf(&sb, "STAR %s over %v: %d bodies", ev.Star.Kind, ev.Star.Over, len(ev.Star.Bodies))
		return sb.String()
	}
	fmt.Fprintf(&sb, "%s %s", ev.Kind, ev.Name)
	if ev.Recv != nil {
		fmt.Fprintf(&sb, " recv=%v", ev.Recv)
	}
	for _, a := range ev.Args {
		fmt.Fprintf(&sb, " %v", a)
	}
	for _, a := range ev.Data {
		if a != nil {
			fmt.Fprintf(&sb, " data=%v", a)
		}
	}
	if ev.Res != nil {
		fmt.Fprintf(&sb, " -> %v", ev.Res)
	}
	if ev.Defer {
		sb.WriteString(" (deferred)")
	}
	if len(ev.Locks) > 0 {
		fmt.Fprintf(&sb, " locks=%d", len(ev.Locks))
	}
	return sb.String()
}

func (e *Engine) dumpEvents(w io.Writer, evs []*Event, ind string) {
	for _, ev := range evs {
		fmt.Fprintf(w, "%s%s @%s\n", ind, ev, e.P.Pos(ev.Pos))
		if ev.Star != nil {
			for i, b := range ev.Star.Bodies {
				fmt.Fprintf(w, "%s body %d:\n", ind, i)
				if os.Getenv("WPK_BODIES") != "" {
					for _, f := range b.St.facts.list() {
						fmt.Fprintf(w, "%s   fact %s\n", ind, f)
					}
				}
				e.dumpEvents(w, b.St.Events(), ind+"    ")
			}
		}
	}
}

func (e *Engine) dumpFn(w io.Writer, fn *ssa.Function) {
	t0 := time.Now()
	outs := e.Run(fn, nil, nil)
	fmt.Fprintf(w, "%s: %d outcomes in %v, %d steps\n", fn, len(outs), time.Since(t0), e.steps)
	for i, o := range outs {
		fmt.Fprintf(w, "--- outcome %d panic=%v vals=%v\n", i, o.Panic, o.Vals)
		for _, f := range o.St.facts.list() {
			fmt.Fprintf(w, "   fact %s\n", f)
		}
		for a, v := range o.St.mem {
			if !freshRoot(addrRoot(a)) {
				fmt.Fprintf(w, "   mem %v = %v\n", a, v)
			}
		}
		e.dumpEvents(w, o.St.Events(), "   ")
	}
	for _, u := range e.Undecided {
		fmt.Fprintf(w, "UNDECIDED %s\n", u)
	}
}
