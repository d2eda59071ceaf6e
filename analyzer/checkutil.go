package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errTyp = types.Universe.Lookup("error").Type()

// fieldAddr is the address term of a field of a named repository type.
func (c *Check) fieldAddr(base *Term, pkg, typ, field string) *Term {
	n := c.P.Type(pkg, typ)
	if n == nil {
		c.Fail(token.NoPos, nil, "anchor "+typ, "type %s is not found", typ)
		return mk("nofield", typ+"."+field, types.NewPointer(tyInt), base)
	}
	if st, ok := under(n).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return faddr(base, st, i, n)
			}
		}
	}
	c.Fail(token.NoPos, nil, "anchor "+typ+"."+field, "field %s of %s is not found", field, typ)
	return mk("nofield", typ+"."+field, types.NewPointer(tyInt), base)
}

// constStr is the value of a package level string constant.
func (c *Check) constStr(pkg, name string) string {
	if o, ok := c.P.Pkgs[ModPath+pkg].Types.Scope().Lookup(name).(*types.Const); ok {
		return constant.StringVal(o.Val())
	}
	c.Fail(token.NoPos, nil, "anchor "+name, "constant %s is not found", name)
	return "?" + name
}

func (c *Check) constInt(pkg, name string) int64 {
	if o, ok := c.P.Pkgs[ModPath+pkg].Types.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constant.Int64Val(constant.ToInt(o.Val())); ok {
			return v
		}
	}
	c.Fail(token.NoPos, nil, "anchor "+name, "constant %s is not found", name)
	return -1
}

// isNil decides whether a value is nil on a path.
func isNil(st *State, t *Term) (isnil, known bool) {
	if t.Op == "nil" {
		return true, true
	}
	return st.facts.Decide(eqT(t, tNil))
}

func mustNil(st *State, t *Term) bool    { v, ok := isNil(st, t); return ok && v }
func mustNotNil(st *State, t *Term) bool { v, ok := isNil(st, t); return ok && !v }

// errVal is the error among results of an outcome.
func errVal(o *Outcome) *Term {
	for i := len(o.Vals) - 1; i >= 0; i-- {
		if isError(o.Vals[i].Typ) || o.Vals[i].Op == "nil" && i == len(o.Vals)-1 {
			return o.Vals[i]
		}
	}
	return nil
}

// splitErr takes an exit which hands on the error of a call apart into success and failure, as it is
// when the code tests the error first.
func splitErr(outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		err := errVal(&o)
		if o.Panic || o.St == nil || err == nil || err.Op == "nil" {
			res = append(res, o)
			continue
		}
		if _, ok := isNil(o.St, err); ok {
			res = append(res, o)
			continue
		}
		for _, v := range []bool{true, false} {
			p := o
			p.St = o.St.clone()
			if p.St.facts.Assume(eqT(err, tNil), v) {
				res = append(res, p)
			}
		}
	}
	return res
}

// globalVar tells that a value is what a package level variable holds.
func isGlobal(t *Term, name string) bool {
	for t.Op == "makeiface" || t.Op == "chiface" {
		t = t.Args[0]
	}
	if t.Op == "load" && t.Args[0].Op == "global" {
		a := t.Args[0].Aux
		return a == name || strings.HasSuffix(a, "/"+name)
	}
	return t.Op == "globalval" && strings.HasSuffix(t.Aux, name)
}

// lin64 is the value of an integer term modulo 2^64, conversions between 64-bit types ignored.
func lin64(t *Term) *LinForm {
	out := newLin()
	var rec func(t *Term, k *big.Int)
	rec = func(t *Term, k *big.Int) {
		if t.Op == "conv" {
			if w, _ := intKind(t.Typ); w == 64 && isInt(t.Args[0].Typ) {
				if w2, s := intKind(t.Args[0].Typ); w2 == 64 || !s {
					rec(t.Args[0], k)
					return
				}
			}
		}
		if v, ok := t.bigVal(); ok {
			out.C.Add(out.C, new(big.Int).Mul(v, k))
			return
		}
		l := ring(t, t.Typ)
		if len(l.M) == 1 && l.C.Sign() == 0 {
			for a, q := range l.M {
				if a == t {
					out.addTerm(t, new(big.Int).Mul(k, q))
					return
				}
			}
		}
		out.C.Add(out.C, new(big.Int).Mul(l.C, k))
		for a, q := range l.M {
			rec(a, new(big.Int).Mul(k, q))
		}
	}
	rec(t, big.NewInt(1))
	return out
}

var two64 = new(big.Int).Lsh(bigOne, 64)

// eq64 tells that two integer terms are the same 64-bit value.
func eq64(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	d := lin64(a)
	d.add(lin64(b), bigMinus)
	if new(big.Int).Mod(d.C, two64).Sign() == 0 {
		zero := true
		for _, k := range d.M {
			if new(big.Int).Mod(k, two64).Sign() != 0 {
				zero = false
			}
		}
		if zero {
			return true
		}
	}
	if st == nil {
		return false
	}
	if isInt(a.Typ) && isInt(b.Typ) && st.facts.ProveEq(a, b) {
		return true
	}
	return modZero(st, d)
}

// modZero tells that a linear form is a multiple of 2^64 by the known equations.
func modZero(st *State, d *LinForm) bool {
	var eqs []*LinForm
	for f, v := range st.facts.truth {
		if v && f.Op == "==" && isInt(f.Args[0].Typ) && isInt(f.Args[1].Typ) {
			shared := false
			e := lin64(f.Args[0])
			e.add(lin64(f.Args[1]), bigMinus)
			for m := range e.M {
				if _, ok := d.M[m]; ok {
					shared = true
				}
			}
			if shared {
				eqs = append(eqs, e)
			}
		}
	}
	for _, e := range eqs {
		for m, k := range e.M {
			n, ok := d.M[m]
			if !ok || k.CmpAbs(bigOne) != 0 {
				continue
			}
			x := d.clone()
			x.add(e, new(big.Int).Neg(new(big.Int).Mul(n, k)))
			zero := new(big.Int).Mod(x.C, two64).Sign() == 0
			for _, k := range x.M {
				zero = zero && new(big.Int).Mod(k, two64).Sign() == 0
			}
			if zero {
				return true
			}
		}
	}
	return false
}

func i64(n int64) *Term { return intConst(n, types.Typ[types.Int64]) }

// cat splits a constant-layout content into the bytes [o,o+n).
func dataAt(data *Term, o, n int64) *Term {
	if data == nil {
		return nil
	}
	if data.Op == "cat" {
		// cells and their widths
		var ws []int64
		for _, s := range strings.Split(strings.TrimSuffix(data.Aux, ","), ",") {
			var w int64
			fmt.Sscan(s, &w)
			ws = append(ws, w)
		}
		var p int64
		for i, w := range ws {
			if o >= p && o+n <= p+w {
				return subBytes2(data.Args[i], o-p, n, w)
			}
			p += w
		}
		return nil
	}
	if data.Op == "zeros" {
		return mk("zeros", fmt.Sprint(n), nil)
	}
	return subBytes(data, intConst(o, tyInt), intConst(n, tyInt))
}

// uintAt is the little endian integer at a place of a content.
func uintAt(data *Term, o, n int64, t types.Type) *Term {
	b := dataAt(data, o, n)
	if b == nil {
		return nil
	}
	return decode(b, n, t)
}

// ---- streams -------------------------------------------------------------------

// ioStep is an operation on a stream on one path.
type ioStep struct {
	Ev     *Event
	Op     string // seek, write, read
	Stream *Term
	Pos    *Term // position before, nil if unknown
	Data   *Term
	Len    *Term
	Body   *Body // inside of a loop
	Copy   *Term // source of io.Copy
	Whence int64
	Off    *Term
}

// streamOf unwraps a stream value.
func streamOf(t *Term) *Term {
	for t.Op == "makeiface" || t.Op == "chiface" || t.Op == "tassert" {
		t = t.Args[0]
	}
	return t
}

// ioSteps simulates the positions of all streams over the events of a path.
func ioSteps(st *State, start map[*Term]*Term) (steps []*ioStep, pos map[*Term]*Term) {
	pos = map[*Term]*Term{}
	for k, v := range start {
		pos[k] = v
	}
	var run func(evs []*Event, body *Body)
	run = func(evs []*Event, body *Body) {
		for _, ev := range evs {
			if ev.Star != nil {
				touched := map[*Term]bool{}
				for i := range ev.Star.Bodies {
					b := &ev.Star.Bodies[i]
					AllEvents(b.St.Events(), func(e2 *Event, _ *Body) {
						if s := ioKind(e2); s != nil {
							touched[s.Stream] = true
						}
					})
				}
				for t := range touched {
					delete(pos, t)
				}
				for i := range ev.Star.Bodies {
					b := &ev.Star.Bodies[i]
					save := map[*Term]*Term{}
					for k, v := range pos {
						save[k] = v
					}
					run(b.St.Events(), b)
					pos = save
				}
				for t := range touched {
					delete(pos, t)
				}
				continue
			}
			s := ioKind(ev)
			if s == nil {
				continue
			}
			s.Body = body
			s.Pos = pos[s.Stream]
			steps = append(steps, s)
			switch s.Op {
			case "seek":
				switch s.Whence {
				case 0:
					pos[s.Stream] = s.Off
					if body == nil && errNilOn(st, nil, ev) {
						st.facts.Assume(eqT(ev.result(0), convT(s.Off, types.Typ[types.Int64])), true)
					}
				case 1:
					if s.Pos != nil && s.Off.isInt(0) && body == nil && errNilOn(st, nil, ev) {
						st.facts.Assume(eqT(ev.result(0), convT(s.Pos, types.Typ[types.Int64])), true)
					}
					pos[s.Stream] = ev.result(0)
					if s.Off.isInt(0) {
						s.Pos = pos[s.Stream]
					}
				default:
					pos[s.Stream] = ev.result(0)
				}
			case "write", "read":
				if s.Pos != nil && s.Len != nil {
					pos[s.Stream] = addT(convT(s.Pos, types.Typ[types.Int64]), convT(s.Len, types.Typ[types.Int64]), types.Typ[types.Int64])
				} else {
					delete(pos, s.Stream)
				}
			}
		}
	}
	run(st.Events(), nil)
	return
}

// ioKind recognises operations on streams.
func ioKind(ev *Event) *ioStep {
	if ev.Kind != "call" {
		return nil
	}
	switch {
	case ev.Method == "Seek" && len(ev.Args) == 2:
		w, ok := ev.Args[1].intVal()
		if !ok {
			w = -1
		}
		return &ioStep{Ev: ev, Op: "seek", Stream: streamOf(ev.Recv), Whence: w, Off: ev.Args[0]}
	case (ev.Method == "Write" || ev.Method == "WriteString") && ev.Recv != nil && len(ev.Args) == 1:
		s := &ioStep{Ev: ev, Op: "write", Stream: streamOf(ev.Recv), Len: lenT(ev.Args[0])}
		if len(ev.Data) > 0 {
			s.Data = ev.Data[0]
		} else {
			s.Data = ev.Args[0]
		}
		return s
	case ev.Method == "WriteAt" && ev.Recv != nil:
		s := &ioStep{Ev: ev, Op: "writeat", Stream: streamOf(ev.Recv), Len: lenT(ev.Args[0]), Off: ev.Args[1]}
		if len(ev.Data) > 0 {
			s.Data = ev.Data[0]
		}
		return s
	case ev.Name == "io.WriteString":
		return &ioStep{Ev: ev, Op: "write", Stream: streamOf(ev.Args[0]), Len: lenT(ev.Args[1]), Data: ev.Args[1]}
	case ev.Name == "io.Copy", ev.Name == "io.CopyN", ev.Name == "io.CopyBuffer":
		return &ioStep{Ev: ev, Op: "write", Stream: streamOf(ev.Args[0]), Len: ev.result(0), Copy: streamOf(ev.Args[1])}
	case ev.Name == "io.ReadFull", ev.Name == "io.ReadAtLeast":
		return &ioStep{Ev: ev, Op: "read", Stream: streamOf(ev.Args[0]), Len: lenT(ev.Args[1])}
	case ev.Name == "io.ReadAll":
		return &ioStep{Ev: ev, Op: "read", Stream: streamOf(ev.Args[0])}
	case ev.Method == "Read" && ev.Recv != nil && len(ev.Args) == 1:
		return &ioStep{Ev: ev, Op: "read", Stream: streamOf(ev.Recv)}
	case ev.Method == "ReadAt" && ev.Recv != nil:
		return &ioStep{Ev: ev, Op: "readat", Stream: streamOf(ev.Recv), Off: ev.Args[1]}
	case ev.Method == "Truncate" && ev.Recv != nil && len(ev.Args) == 1:
		return &ioStep{Ev: ev, Op: "truncate", Stream: streamOf(ev.Recv), Off: ev.Args[0]}
	}
	return nil
}

// errsNil tells whether all errors of events before a given one are excluded on the path.
func errNilOn(st *State, b *Body, ev *Event) bool {
	s := st
	if b != nil {
		s = b.St
	}
	for _, t := range errOf(ev) {
		if !mustNil(s, t) {
			return false
		}
	}
	return true
}

// paramNamed finds parameter i of a function as a term.
func (e *Engine) param(fn *ssa.Function, i int) *Term { return e.Params(fn)[i] }

func at(p token.Pos, fn *ssa.Function) token.Pos {
	if p.IsValid() {
		return p
	}
	return fn.Pos()
}
