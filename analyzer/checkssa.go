package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constUsers lists the instructions that use a string constant.
func (c *Check) constUsers(s string) []constUse {
	var out []constUse
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) != s {
						continue
					}
					cmp := false
					if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
						cmp = true
					}
					out = append(out, constUse{fn, at(in.Pos(), fn), cmp})
				}
			}
		}
	}
	return out
}

// callers are the functions that mention a function (calls, closures, method values).
func (p *Prog) callers(fn *ssa.Function) map[*ssa.Function]bool {
	if p.callersOf == nil {
		p.callersOf = map[*ssa.Function]map[*ssa.Function]bool{}
		add := func(to, from *ssa.Function) {
			if p.callersOf[to] == nil {
				p.callersOf[to] = map[*ssa.Function]bool{}
			}
			p.callersOf[to][from] = true
		}
		for _, f := range p.AllFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							add(g, f)
							if g.Origin() != nil {
								add(g.Origin(), f)
							}
						}
					}
				}
			}
		}
	}
	return p.callersOf[fn]
}

// onlyReachedFrom tells that every static use of fn leads to the given function.
func (c *Check) onlyReachedFrom(fn *ssa.Function, spec string) bool {
	top := c.P.find(spec)
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == top || seen[f] {
			return true
		}
		seen[f] = true
		if f.Object() != nil && f.Object().Exported() && f.Synthetic == "" {
			return false
		}
		cs := c.P.callers(f)
		if f.Parent() != nil {
			if !rec(f.Parent()) {
				return false
			}
		} else if len(cs) == 0 {
			return f.Synthetic != "" || f.Object() == nil
		}
		for g := range cs {
			if !rec(g) {
				return false
			}
		}
		return true
	}
	return rec(fn)
}

// splitReadable: readers accept a header under construction when data is in another file.
func (c *Check) splitReadable() {
	fn := c.Fn(":Header.IsReady")
	if fn == nil {
		return
	}
	build := c.constStr("", "SignBuild")
	e := c.Engine()
	st := newState(e)
	args := e.Params(fn)
	outs := c.Run(e, fn, args, st)
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue
		}
		// paths that may be taken by a split package under construction
		s2 := o.St.clone()
		hdr := args[0]
		sig := strOfBytes(st.clone().readBytes(c.fieldAddr(hdr, "", "Header", "signature"), intConst(0, tyInt), intConst(24, tyInt)), intConst(24, tyInt))
		dat := st.clone().load(c.fieldAddr(hdr, "", "Header", "datoffset"), tyU64)
		if !s2.facts.Assume(eqT(sig, strConst(build)), true) || !s2.facts.Assume(eqT(dat, intConst(0, tyU64)), true) || !s2.facts.Consistent() {
			continue
		}
		c.Inst("readiness of split packages under construction")
		err := errVal(o)
		c.Must(err != nil && mustNil(s2, err), o.St, o.Pos, fn, "split under construction", "a split package under construction is not accepted by readers")
	}
	c.AtLeast("readiness of split packages under construction", 1)
}

func trimRepo(s string) string { return strings.TrimPrefix(s, ModPath+"/") }
