package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value of the abstract domain: it records where a value
// comes from. Two occurrences of the same *Term denote the same run-time value.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Typ  types.Type
	Args []*Term
	Obj  any
}

// LinForm is an integer linear combination of atoms.
type LinForm struct {
	C *big.Int
	M map[*Term]*big.Int
}

type interner struct {
	tab map[string]*Term
	n   int
}

var terms = &interner{tab: map[string]*Term{}}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		if a == nil {
			panic("nil argument of term " + op + " " + aux)
		}
		fmt.Fprintf(&sb, "|%d", a.ID)
	}
	k := sb.String()
	if t, ok := terms.tab[k]; ok {
		return t
	}
	terms.n++
	t := &Term{ID: terms.n, Op: op, Aux: aux, Typ: typ, Args: args}
	terms.tab[k] = t
	return t
}

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isError(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// intKind returns width in bits and signedness of an integer type (64-bit platform).
func intKind(t types.Type) (w int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

func typeRange(t types.Type) (lo, hi *big.Int, ok bool) {
	w, s := intKind(t)
	if w == 0 {
		return nil, nil, false
	}
	one := big.NewInt(1)
	if s {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(w-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(w-1)))
	} else {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one)
		lo = big.NewInt(0)
	}
	return lo, hi, true
}

var tyBool = types.Typ[types.Bool]
var tyInt = types.Typ[types.Int]
var tyU64 = types.Typ[types.Uint64]
var tyI64 = types.Typ[types.Int64]
var tyString = types.Typ[types.String]

func constTerm(v constant.Value, t types.Type) *Term {
	k := v.ExactString()
	kind := "i"
	switch v.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	case constant.Float:
		kind = "f"
	}
	if v.Kind() == constant.Int && t != nil {
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			kind = "f"
		}
	}
	r := mk("const", kind+k, t)
	if r.Obj == nil {
		r.Obj = v
	}
	return r
}

func intConst(n int64, t types.Type) *Term { return constTerm(constant.MakeInt64(n), t) }
func strConst(s string) *Term              { return constTerm(constant.MakeString(s), tyString) }

var (
	tTrue  = constTerm(constant.MakeBool(true), tyBool)
	tFalse = constTerm(constant.MakeBool(false), tyBool)
	tNil   = mk("nil", "", types.Typ[types.UntypedNil])
)

func boolTerm(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.Op == "const" }

// constVal returns the constant value of a constant term.
func (t *Term) constVal() (constant.Value, bool) {
	if t.Op == "const" {
		return t.Obj.(constant.Value), true
	}
	return nil, false
}

func (t *Term) intVal() (int64, bool) {
	if t.Op == "const" {
		if v := t.Obj.(constant.Value); v.Kind() == constant.Int {
			return constant.Int64Val(v)
		}
	}
	return 0, false
}

func (t *Term) bigVal() (*big.Int, bool) {
	if t.Op == "const" {
		if v := t.Obj.(constant.Value); v.Kind() == constant.Int {
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			return n, ok
		}
	}
	return nil, false
}

func (t *Term) strVal() (string, bool) {
	if t.Op == "const" {
		if v := t.Obj.(constant.Value); v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}

func (t *Term) isStr(s string) bool {
	v, ok := t.strVal()
	return ok && v == s
}

func (t *Term) isInt(n int64) bool {
	v, ok := t.intVal()
	return ok && v == n
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return strConst("")
		case u.Info()&types.IsInteger != 0:
			return intConst(0, t)
		case u.Info()&types.IsFloat != 0:
			return constTerm(constant.MakeFloat64(0), t)
		case u.Kind() == types.UnsafePointer:
			return tNil
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return tNil
	case *types.Interface:
		if _, tp := t.(*types.TypeParam); tp {
			return mk("zero", tstr(t), t)
		}
		return tNil
	}
	return mk("zero", tstr(t), t)
}

// fieldOf projects a field out of a struct value.
func fieldOf(v *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	switch v.Op {
	case "struct":
		return v.Args[i]
	case "zero":
		return zeroTerm(f.Type())
	}
	return mk("field", f.Name(), f.Type(), v)
}

// ---- linear arithmetic -------------------------------------------------

func sameClass(a, b types.Type) bool {
	wa, sa := intKind(a)
	wb, sb := intKind(b)
	return wa == wb && sa == sb && wa != 0
}

func newLin() *LinForm { return &LinForm{C: new(big.Int), M: map[*Term]*big.Int{}} }

func (l *LinForm) addTerm(t *Term, k *big.Int) {
	c, ok := l.M[t]
	if !ok {
		c = new(big.Int)
	}
	c = new(big.Int).Add(c, k)
	if c.Sign() == 0 {
		delete(l.M, t)
	} else {
		l.M[t] = c
	}
}

func (l *LinForm) add(o *LinForm, k *big.Int) {
	l.C = new(big.Int).Add(l.C, new(big.Int).Mul(o.C, k))
	for t, c := range o.M {
		l.addTerm(t, new(big.Int).Mul(c, k))
	}
}

func (l *LinForm) clone() *LinForm {
	r := newLin()
	r.C.Set(l.C)
	for t, c := range l.M {
		r.M[t] = c
	}
	return r
}

func (l *LinForm) atoms() []*Term {
	var ts []*Term
	for t := range l.M {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

func (l *LinForm) String() string {
	var sb strings.Builder
	for _, t := range l.atoms() {
		fmt.Fprintf(&sb, "%+d*%s ", l.M[t], t)
	}
	fmt.Fprintf(&sb, "%+d", l.C)
	return sb.String()
}

// ring returns the term as a linear form modulo the width of its type.
func ring(t *Term, typ types.Type) *LinForm {
	l := newLin()
	if v, ok := t.bigVal(); ok {
		l.C.Set(v)
		return l
	}
	if t.Op == "lin" && sameClass(t.Typ, typ) {
		return t.Obj.(*LinForm)
	}
	l.M[t] = big.NewInt(1)
	return l
}

func linTerm(l *LinForm, typ types.Type) *Term {
	if len(l.M) == 0 {
		c := new(big.Int).Set(l.C)
		if lo, hi, ok := typeRange(typ); ok && (c.Cmp(lo) < 0 || c.Cmp(hi) > 0) { // wrap
			w, s := intKind(typ)
			mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
			c.Mod(c, mod)
			if s && c.Cmp(hi) > 0 {
				c.Sub(c, mod)
			}
		}
		return constTerm(constant.Make(c), typ)
	}
	ats := l.atoms()
	if len(ats) == 1 && l.C.Sign() == 0 && l.M[ats[0]].Cmp(big.NewInt(1)) == 0 && (sameClass(ats[0].Typ, typ) || !isInt(ats[0].Typ)) {
		return ats[0]
	}
	w, s := intKind(typ)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d%v,%s", w, s, l.C)
	for _, a := range ats {
		fmt.Fprintf(&sb, ",%s", l.M[a])
	}
	t := mk("lin", sb.String(), typ, ats...)
	if t.Obj == nil {
		t.Obj = l
	}
	return t
}

func addT(a, b *Term, typ types.Type) *Term {
	l := ring(a, typ).clone()
	l.add(ring(b, typ), big.NewInt(1))
	return linTerm(l, typ)
}

func subT(a, b *Term, typ types.Type) *Term {
	l := ring(a, typ).clone()
	l.add(ring(b, typ), big.NewInt(-1))
	return linTerm(l, typ)
}

// ---- booleans ----------------------------------------------------------

func notT(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", tyBool, t)
}

// NonNil tells statically that a term can not be nil.
func NonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "faddr", "iaddr", "global", "func", "closure", "makeslice", "makemap", "makechan", "bound", "bytes":
		return true
	case "makeiface":
		return true
	case "res":
		if t.Aux == "0" && t.Args[0].Op == "call" {
			return nonNilResult[callName(t)]
		}
	case "pure":
		return nonNilResult[t.Aux]
	case "nonnil":
		return true
	case "load":
		// exported error variables of the standard library and of the repository are set once to errors.New
		if t.Args[0].Op == "global" && isError(t.Typ) {
			return true
		}
	case "slice":
		return NonNil(t.Args[0])
	case "join":
		for _, a := range t.Args {
			if !NonNil(a) {
				return false
			}
		}
		return len(t.Args) > 0
	}
	return false
}

func eqT(a, b *Term) *Term {
	if a == b {
		if b, ok := under(a.Typ).(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
			return tTrue
		}
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" {
		if NonNil(a) {
			return tFalse
		}
		return mk("==", "", tyBool, a, b)
	}
	va, ca := a.constVal()
	vb, cb := b.constVal()
	if ca && cb {
		if va.Kind() == vb.Kind() {
			return boolTerm(constant.Compare(va, token.EQL, vb))
		}
	}
	if ca {
		a, b = b, a
		va, vb, ca, cb = vb, va, cb, ca
	}
	if cb && vb.Kind() == constant.Bool {
		if constant.BoolVal(vb) {
			return a
		}
		return notT(a)
	}
	if isInt(a.Typ) && isInt(b.Typ) {
		l := ring(a, a.Typ).clone()
		l.add(ring(b, a.Typ), big.NewInt(-1))
		if len(l.M) == 0 {
			return boolTerm(l.C.Sign() == 0)
		}
	}
	// B2S-views: content equality
	if !cb && a.ID > b.ID {
		a, b = b, a
	}
	return mk("==", "", tyBool, a, b)
}

func ltT(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	va, ca := a.constVal()
	vb, cb := b.constVal()
	if ca && cb {
		return boolTerm(constant.Compare(va, token.LSS, vb))
	}
	if isInt(b.Typ) || isInt(a.Typ) {
		if cb && isUnsigned(a.Typ) && b.isInt(0) {
			return tFalse
		}
		// x < len-like zero
		if cb && b.isInt(0) && (a.Op == "len" || a.Op == "cap") {
			return tFalse
		}
	}
	return mk("<", "", tyBool, a, b)
}

func isUnsigned(t types.Type) bool {
	w, s := intKind(t)
	return w != 0 && !s
}

// ---- strings and slices -------------------------------------------------

func concatT(parts ...*Term) *Term {
	var flat []*Term
	for _, p := range parts {
		if p.Op == "concat" {
			flat = append(flat, p.Args...)
		} else {
			flat = append(flat, p)
		}
	}
	var out []*Term
	for _, p := range flat {
		if p.isStr("") {
			continue
		}
		if s, ok := p.strVal(); ok && len(out) > 0 {
			if q, ok := out[len(out)-1].strVal(); ok {
				out[len(out)-1] = strConst(q + s)
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return strConst("")
	case 1:
		return out[0]
	}
	return mk("concat", "", tyString, out...)
}

func lenT(x *Term) *Term {
	switch x.Op {
	case "const":
		if s, ok := x.strVal(); ok {
			return intConst(int64(len(s)), tyInt)
		}
	case "nil":
		return intConst(0, tyInt)
	case "concat":
		l := newLin()
		for _, p := range x.Args {
			l.add(ring(lenT(p), tyInt), big.NewInt(1))
		}
		return linTerm(l, tyInt)
	case "slice", "substr":
		return subT(x.Args[2], x.Args[1], tyInt)
	case "makeslice":
		return x.Args[0]
	case "uslice":
		return x.Args[1]
	case "seg":
		return x.Args[1]
	case "bytesof":
		return x.Args[1]
	case "str":
		return x.Args[1]
	case "b2s", "s2b", "bytes", "conv":
		if len(x.Args) == 1 && !isInt(x.Args[0].Typ) {
			return lenT(x.Args[0])
		}
	case "append":
		l := newLin()
		for _, p := range x.Args {
			l.add(ring(lenT(p), tyInt), big.NewInt(1))
		}
		return linTerm(l, tyInt)
	case "elems":
		return intConst(int64(len(x.Args)), tyInt)
	case "items":
		return lenT(x.Args[0])
	}
	if p, ok := under(x.Typ).(*types.Pointer); ok {
		if a, ok := under(p.Elem()).(*types.Array); ok {
			return intConst(a.Len(), tyInt)
		}
	}
	if a, ok := under(x.Typ).(*types.Array); ok {
		return intConst(a.Len(), tyInt)
	}
	return mk("len", "", tyInt, x)
}

func capT(x *Term) *Term {
	switch x.Op {
	case "nil":
		return intConst(0, tyInt)
	case "slice":
		return subT(x.Args[3], x.Args[1], tyInt)
	case "makeslice":
		return x.Args[1]
	case "uslice":
		return x.Args[1]
	}
	if p, ok := under(x.Typ).(*types.Pointer); ok {
		if a, ok := under(p.Elem()).(*types.Array); ok {
			return intConst(a.Len(), tyInt)
		}
	}
	if x.Op == "s2b" {
		return lenT(x.Args[0])
	}
	return mk("cap", "", tyInt, x)
}

// sliceT builds base[lo:hi:max]; nil bounds take the defaults. Slices of slices are flattened.
func sliceT(base, lo, hi, max *Term, typ types.Type) *Term {
	if isString(base.Typ) || base.Op == "concat" {
		if lo == nil {
			lo = intConst(0, tyInt)
		}
		dfl := hi == nil
		if hi == nil {
			hi = lenT(base)
		}
		if lo.isInt(0) && hi == lenT(base) {
			return base
		}
		if s, ok := base.strVal(); ok {
			a, oka := lo.intVal()
			b, okb := hi.intVal()
			if oka && okb && 0 <= a && a <= b && b <= int64(len(s)) {
				return strConst(s[a:b])
			}
		}
		if base.Op == "substr" {
			l0 := base.Args[1]
			h := addT(l0, hi, tyInt)
			if dfl {
				h = base.Args[2]
			}
			return sliceT(base.Args[0], addT(l0, lo, tyInt), h, nil, typ)
		}
		if base.Op == "concat" && dfl { // drop a known prefix
			if p := base.Args[0]; lenT(p) == lo {
				return concatT(base.Args[1:]...)
			}
		}
		return mk("substr", "", tyString, base, lo, hi)
	}
	if lo == nil {
		lo = intConst(0, tyInt)
	}
	if hi == nil {
		hi = lenT(base)
	}
	if max == nil {
		max = capT(base)
	}
	if base.Op == "nil" {
		return base
	}
	if base.Op == "slice" {
		l0 := base.Args[1]
		return sliceT(base.Args[0], addT(l0, lo, tyInt), addT(l0, hi, tyInt), addT(l0, max, tyInt), typ)
	}
	if _, ok := under(base.Typ).(*types.Slice); ok && lo.isInt(0) && hi == lenT(base) && max == capT(base) {
		return base
	}
	return mk("slice", "", typ, base, lo, hi, max)
}

// ---- printing ------------------------------------------------------------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Op {
	case "const":
		if s, ok := t.strVal(); ok {
			return fmt.Sprintf("%q", s)
		}
		return t.Obj.(constant.Value).String()
	case "nil":
		return "nil"
	case "param", "freevar":
		return t.Aux
	case "lin":
		l := t.Obj.(*LinForm)
		var sb strings.Builder
		for i, at := range t.Args {
			c := l.M[at]
			switch {
			case c.Cmp(big.NewInt(1)) == 0:
				if i > 0 {
					sb.WriteString("+")
				}
			case c.Cmp(big.NewInt(-1)) == 0:
				sb.WriteString("-")
			default:
				fmt.Fprintf(&sb, "%+d*", c)
			}
			sb.WriteString(at.str(d + 1))
		}
		if l.C.Sign() != 0 {
			fmt.Fprintf(&sb, "%+d", l.C)
		}
		return sb.String()
	case "faddr":
		return "&" + a(0) + "." + fieldName(t.Aux)
	case "iaddr":
		return "&" + a(0) + "[" + a(1) + "]"
	case "load":
		x := t.Args[0].str(d + 1)
		if strings.HasPrefix(x, "&") {
			return x[1:]
		}
		return "*" + x
	case "field":
		return a(0) + "." + t.Aux
	case "==", "<":
		return "(" + a(0) + t.Op + a(1) + ")"
	case "not":
		return "!" + a(0)
	case "slice":
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case "substr":
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case "res":
		return a(0) + "#" + t.Aux
	case "global":
		return "&" + t.Aux
	case "alloc":
		return "new@" + t.Aux
	case "loop":
		return "loop@" + t.Aux
	}
	var as []string
	for i := range t.Args {
		as = append(as, a(i))
	}
	n := t.Op
	if t.Aux != "" {
		n = t.Op + ":" + t.Aux
	}
	switch t.Op {
	case "pure", "call":
		n = t.Aux
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

func fieldName(aux string) string {
	return aux[strings.LastIndexByte(aux, '.')+1:]
}

// contains tells whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	return t.any(func(x *Term) bool { return x == sub })
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// strip removes value-preserving wrappers: integer conversions, interface boxing.
func strip(t *Term) *Term {
	for {
		switch t.Op {
		case "conv", "makeiface", "chiface", "tassert":
			t = t.Args[0]
			continue
		}
		return t
	}
}

// rootOf is the base object of an address, slice or boxed pointer.
func rootOf(t *Term) *Term {
	for {
		switch t.Op {
		case "faddr", "iaddr", "slice", "makeiface", "chiface", "conv", "slicedata", "uslice", "s2b", "b2s", "strdata", "arrptr":
			t = t.Args[0]
			continue
		}
		return t
	}
}

func faddr(base *Term, st *types.Struct, i int, owner types.Type) *Term {
	return mk("faddr", tstr(owner)+"."+st.Field(i).Name(), types.NewPointer(st.Field(i).Type()), base)
}

var _ = ssa.NaiveForm
