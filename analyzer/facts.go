package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Facts is the relational part of an abstract state: truth values of boolean
// terms and linear inequalities (form >= 0) between integer terms.
// Terms are immutable values, so a fact once established stays valid.
type Facts struct {
	truth map[*Term]bool
	lins  []*LinForm
	linat []*Term // atoms in lins, for relevance only
	memo  map[*Term]int8
	nest  map[*Term]bool
	wk    *int // work counter
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, memo: map[*Term]int8{}, nest: map[*Term]bool{}, wk: new(int)}
}

func (f *Facts) clone() *Facts {
	g := &Facts{truth: make(map[*Term]bool, len(f.truth)+2), lins: f.lins[:len(f.lins):len(f.lins)], memo: map[*Term]int8{}, nest: map[*Term]bool{}, wk: f.wk}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	return g
}

func (f *Facts) changed() {
	if len(f.memo) > 0 {
		f.memo = map[*Term]int8{}
	}
}

var bigOne = big.NewInt(1)
var bigMinus = big.NewInt(-1)

// memBound is the largest size of a memory object or stream that is taken into account.
var memBound = new(big.Int).Lsh(bigOne, 56)

// axioms gives the inequalities which hold for an atom by what it is.
func (f *Facts) axioms(t *Term) []*LinForm {
	var out []*LinForm
	ge := func(l *LinForm) { out = append(out, l) }
	one := func(c int64) *big.Int { return big.NewInt(c) }
	if isInt(t.Typ) {
		lo, hi, _ := typeRange(t.Typ)
		if t.Op == "len" || t.Op == "cap" || t.Op == "min" {
			lo, hi = new(big.Int), memBound
		}
		l := newLin()
		l.M[t] = one(1)
		l.C.Neg(lo)
		ge(l)
		l = newLin()
		l.M[t] = one(-1)
		l.C.Set(hi)
		ge(l)
	}
	rel := func(a *Term, ka int64, b *Term, kb int64, c int64) { // ka*a + kb*b + c >= 0
		l := newLin()
		if x := f.toInt(a); x != nil {
			l.add(x, one(ka))
		} else {
			return
		}
		if b != nil {
			if x := f.toInt(b); x != nil {
				l.add(x, one(kb))
			} else {
				return
			}
		}
		l.C.Add(l.C, one(c))
		ge(l)
	}
	switch t.Op {
	case "len":
		x := t.Args[0]
		if _, ok := under(x.Typ).(*types.Slice); ok {
			rel(capT(x), 1, t, -1, 0)
		}
		if x.Op == "res" && x.Args[0].Op == "call" {
			switch x.Args[0].Aux {
			}
		}
	case "cap":
		rel(t, 1, lenT(t.Args[0]), -1, 0)
	case "min":
		for _, a := range t.Args {
			rel(a, 1, t, -1, 0)
		}
	case "pure":
		switch t.Aux {
		case "strings.IndexByte", "strings.Index", "strings.LastIndexByte", "strings.LastIndex", "strings.IndexRune", "strings.IndexAny", "bytes.IndexByte":
			rel(t, 1, nil, 0, 1)
			rel(lenT(t.Args[0]), 1, t, -1, -1)
			rel(lenT(t.Args[0]), 1, t, -1, 0)
		}
	case "mod":
		if c, ok := t.Args[1].intVal(); ok && c > 0 {
			rel(t, -1, nil, 0, c-1)
			if isUnsigned(t.Typ) {
				rel(t, 1, nil, 0, 0)
				rel(t.Args[0], 1, t, -1, 0)
			} else {
				rel(t, 1, nil, 0, c-1)
			}
		}
	case "div":
		if c, ok := t.Args[1].intVal(); ok && c > 0 && isUnsigned(t.Typ) {
			rel(t.Args[0], 1, t, -c, 0)
			rel(t, c, t.Args[0], -1, c-1)
		}
	case "and":
		if c, ok := t.Args[1].intVal(); ok && c >= 0 {
			rel(t, -1, nil, 0, c)
			rel(t, 1, nil, 0, 0)
		}
	}
	if t.Op == "lin" || t.Op == "conv" {
		x := f.toInt(t)
		if _, self := x.M[t]; !self {
			l := x.clone()
			l.addTerm(t, bigMinus)
			ge(l)
			n := newLin()
			n.add(l, bigMinus)
			ge(n)
		}
	}
	if t.Op == "res" || t.Op == "pure" {
		if fn := resAxioms[callName(t)]; fn != nil && (t.Op == "pure" || t.Aux == "0") {
			fn(t, rel)
		}
	}
	if t.Op == "maplen" {
		rel(t, 1, nil, 0, 0)
	}
	if t.Op == "pure" && len(t.Args) > 0 {
		if fn := lenAxioms[t.Aux]; fn != nil {
			fn(t, rel)
		}
	}
	return out
}

// lenAxioms holds additional axioms registered by the models of functions.
var lenAxioms = map[string]func(t *Term, rel func(a *Term, ka int64, b *Term, kb int64, c int64)){}

// toInt renders an integer term as an exact linear form over atoms.
func (f *Facts) toInt(t *Term) *LinForm {
	if v, ok := t.bigVal(); ok {
		l := newLin()
		l.C.Set(v)
		return l
	}
	atom := func() *LinForm {
		l := newLin()
		l.M[t] = big.NewInt(1)
		return l
	}
	if f.nest[t] {
		return atom()
	}
	switch t.Op {
	case "lin":
		if r, ok := f.memo[t]; ok {
			if r < 0 {
				return atom()
			}
		}
		l := newLin()
		src := t.Obj.(*LinForm)
		l.C.Set(src.C)
		f.nest[t] = true
		for _, a := range src.atoms() {
			l.add(f.toInt(a), src.M[a])
		}
		ok := f.memo[t] > 0
		if !ok {
			lo, hi, _ := typeRange(t.Typ)
			// the canonical form may be off by a multiple of the modulus: only the exact one is used
			a := l.clone()
			a.C.Sub(a.C, lo)
			b := newLin()
			b.add(l, bigMinus)
			b.C.Add(b.C, hi)
			ok = f.proveGE(a) && f.proveGE(b)
		}
		delete(f.nest, t)
		if ok {
			f.memo[t] = 1
			return l
		}
		f.memo[t] = -1
		return atom()
	case "conv":
		x := t.Args[0]
		if !isInt(x.Typ) || !isInt(t.Typ) {
			return atom()
		}
		if r, ok := f.memo[t]; ok {
			if r < 0 {
				return atom()
			}
			return f.toInt(x)
		}
		f.nest[t] = true
		l := f.toInt(x)
		lo, hi, _ := typeRange(t.Typ)
		a := l.clone()
		a.C.Sub(a.C, lo)
		b := newLin()
		b.add(l, bigMinus)
		b.C.Add(b.C, hi)
		ok := f.proveGE(a) && f.proveGE(b)
		delete(f.nest, t)
		if ok {
			f.memo[t] = 1
			return l
		}
		f.memo[t] = -1
		return atom()
	case "len":
		if l := lenT(t.Args[0]); l != t {
			return f.toInt(l)
		}
	}
	return atom()
}

// proveGE tells whether l >= 0 follows from the facts.
func (f *Facts) proveGE(l *LinForm) bool {
	if len(l.M) == 0 {
		return l.C.Sign() >= 0
	}
	*f.wk++
	// refute l <= -1
	neg := newLin()
	neg.add(l, bigMinus)
	neg.C.Sub(neg.C, bigOne)
	return !f.feasible([]*LinForm{neg})
}

// feasible tells whether the facts together with extra inequalities may hold.
func (f *Facts) feasible(extra []*LinForm) bool {
	var cs []*LinForm
	have := map[*Term]bool{}
	var queue []*Term
	addc := func(l *LinForm) {
		cs = append(cs, l)
		for _, a := range l.atoms() {
			if !have[a] {
				have[a] = true
				queue = append(queue, a)
			}
		}
	}
	for _, l := range extra {
		addc(l)
	}
	used := make([]bool, len(f.lins))
	for round := 0; round < 6; round++ {
		n := len(cs)
		for len(queue) > 0 {
			a := queue[0]
			queue = queue[1:]
			for _, l := range f.axioms(a) {
				addc(l)
			}
		}
		for i, l := range f.lins {
			if used[i] {
				continue
			}
			rel := false
			for a := range l.M {
				if have[a] {
					rel = true
					break
				}
			}
			if rel {
				used[i] = true
				addc(l)
			}
		}
		if len(cs) == n && len(queue) == 0 {
			break
		}
		if len(cs) > 160 {
			break
		}
	}
	return lpFeasible(cs)
}

// lpFeasible decides rational feasibility of the conjunction of form >= 0
// by Fourier-Motzkin elimination, with an upper bound on the work (then: feasible).
func lpFeasible(cs []*LinForm) bool {
	type row struct {
		c *big.Int
		m map[*Term]*big.Int
	}
	norm := func(l *LinForm) *LinForm {
		g := new(big.Int)
		for _, k := range l.M {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Sign() == 0 || g.Cmp(bigOne) == 0 {
			return l
		}
		r := newLin()
		for t, k := range l.M {
			r.M[t] = new(big.Int).Quo(k, g)
		}
		// integer tightening: floor
		q, m := new(big.Int).DivMod(l.C, g, new(big.Int))
		_ = m
		r.C = q
		return r
	}
	key := func(l *LinForm) string {
		var b []byte
		for _, a := range l.atoms() {
			b = append(b, []byte(l.M[a].String())...)
			b = append(b, '*')
			b = append(b, []byte(itoa(a.ID))...)
			b = append(b, ';')
		}
		return string(b)
	}
	dedupe := func(in []*LinForm) ([]*LinForm, bool) {
		best := map[string]*LinForm{}
		var order []string
		for _, l := range in {
			l = norm(l)
			if len(l.M) == 0 {
				if l.C.Sign() < 0 {
					return nil, false
				}
				continue
			}
			k := key(l)
			if o, ok := best[k]; ok {
				if l.C.Cmp(o.C) < 0 {
					best[k] = l
				}
			} else {
				best[k] = l
				order = append(order, k)
			}
		}
		out := make([]*LinForm, 0, len(order))
		for _, k := range order {
			out = append(out, best[k])
		}
		return out, true
	}
	cs, ok := dedupe(cs)
	if !ok {
		return false
	}
	for {
		cnt := map[*Term][2]int{}
		for _, l := range cs {
			for t, k := range l.M {
				c := cnt[t]
				if k.Sign() > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[t] = c
			}
		}
		if len(cnt) == 0 {
			return true
		}
		var bestT *Term
		bestC := 1 << 30
		for t, c := range cnt {
			v := c[0]*c[1] - c[0] - c[1]
			if v < bestC || v == bestC && t.ID < bestT.ID {
				bestC, bestT = v, t
			}
		}
		var pos, neg, rest []*LinForm
		for _, l := range cs {
			k, ok := l.M[bestT]
			switch {
			case !ok:
				rest = append(rest, l)
			case k.Sign() > 0:
				pos = append(pos, l)
			default:
				neg = append(neg, l)
			}
		}
		if len(pos)*len(neg)+len(rest) > 600 {
			return true
		}
		for _, p := range pos {
			for _, n := range neg {
				r := newLin()
				r.add(p, new(big.Int).Neg(n.M[bestT]))
				r.add(n, p.M[bestT])
				rest = append(rest, r)
			}
		}
		if cs, ok = dedupe(rest); !ok {
			return false
		}
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// ProveGE proves a >= b + c for integer terms.
func (f *Facts) ProveGE(a, b *Term, c int64) bool {
	l := f.toInt(a).clone()
	l.add(f.toInt(b), bigMinus)
	l.C.Sub(l.C, big.NewInt(c))
	return f.proveGE(l)
}

// ProveEq proves equality of two integer terms.
func (f *Facts) ProveEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if isInt(a.Typ) && isInt(b.Typ) {
		return f.ProveGE(a, b, 0) && f.ProveGE(b, a, 0)
	}
	r, ok := f.Decide(eqT(a, b))
	return ok && r
}

// Decide evaluates a boolean term under the facts.
func (f *Facts) Decide(t *Term) (val, ok bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	if t.Op == "not" {
		v, ok := f.Decide(t.Args[0])
		return !v, ok
	}
	if v, ok := f.truth[t]; ok {
		return v, true
	}
	if m, ok := f.memo[t]; ok {
		switch m {
		case 3:
			return true, true
		case 4:
			return false, true
		default:
			return false, false
		}
	}
	v, ok := f.decide0(t)
	switch {
	case ok && v:
		f.memo[t] = 3
	case ok:
		f.memo[t] = 4
	default:
		f.memo[t] = 5
	}
	return v, ok
}

func (f *Facts) decide0(t *Term) (val, ok bool) {
	switch t.Op {
	case "==":
		a, b := t.Args[0], t.Args[1]
		if isInt(a.Typ) && isInt(b.Typ) {
			la, lb := f.toInt(a), f.toInt(b)
			d := la.clone()
			d.add(lb, bigMinus)
			if len(d.M) == 0 {
				return d.C.Sign() == 0, true
			}
			ge := f.proveGE(d)
			d2 := newLin()
			d2.add(d, bigMinus)
			le := f.proveGE(d2)
			if ge && le {
				return true, true
			}
			d.C.Sub(d.C, bigOne)
			if ge && f.proveGE(d) {
				return false, true
			}
			d2.C.Sub(d2.C, bigOne)
			if le && f.proveGE(d2) {
				return false, true
			}
			if x, ok := f.truth[eqT(a, b)]; ok {
				return x, true
			}
			return false, false
		}
		if b.Op == "nil" {
			// x known equal to something non-nil
			for k, v := range f.truth {
				if v && k.Op == "==" && (k.Args[0] == a || k.Args[1] == a) {
					o := k.Args[0]
					if o == a {
						o = k.Args[1]
					}
					if o != b && NonNil(o) {
						return false, true
					}
				}
				if v && k.Op == "tassertok" && k.Args[0] == a {
					return false, true
				}
			}
			if a.Op == "join" {
				all := true
				for _, x := range a.Args {
					if v, ok := f.Decide(eqT(x, tNil)); !ok || v {
						all = false
					}
				}
				if all {
					return false, true
				}
			}
			if a.Op == "chiface" || a.Op == "tassert" {
				return f.Decide(eqT(a.Args[0], tNil))
			}
			if a.Op == "b2s" {
				return false, false
			}
			if r, ok := nilRule(f, a); ok {
				return r, true
			}
			return false, false
		}
		if isString(a.Typ) {
			// equal strings have equal length
			if b.isConst() {
				for k, v := range f.truth {
					if v && k.Op == "==" && k.Args[0] == a && k.Args[1].isConst() {
						return k.Args[1] == b, true
					}
				}
			}
			la, lb := lenT(a), lenT(b)
			if v, ok := f.Decide(eqT(la, lb)); ok && !v {
				return false, true
			}
			if b.isStr("") {
				if v, ok := f.Decide(eqT(la, intConst(0, tyInt))); ok {
					return v, true
				}
			}
		}
		// both known equal to distinct constants, or through a common equal
		for k, v := range f.truth {
			if v && k.Op == "==" {
				var o *Term
				if k.Args[0] == a {
					o = k.Args[1]
				} else if k.Args[1] == a {
					o = k.Args[0]
				} else {
					continue
				}
				if o == b {
					return true, true
				}
				e := eqT(o, b)
				if e == tFalse || e == tTrue {
					return e == tTrue, true
				}
			}
		}
	case "<":
		a, b := t.Args[0], t.Args[1]
		if isInt(a.Typ) && isInt(b.Typ) {
			la, lb := f.toInt(a), f.toInt(b)
			d := lb.clone()
			d.add(la, bigMinus)
			d.C.Sub(d.C, bigOne)
			if f.proveGE(d) {
				return true, true
			}
			d2 := la.clone()
			d2.add(lb, bigMinus)
			if f.proveGE(d2) {
				return false, true
			}
		}
	case "tassertok":
		for k, v := range f.truth {
			if k.Op == "tassertok" && v && k.Args[0] == t.Args[0] && k.Aux != t.Aux {
				_, i1 := under(k.Obj.(types.Type)).(*types.Interface)
				_, i2 := under(t.Obj.(types.Type)).(*types.Interface)
				if !i1 && !i2 {
					return false, true
				}
			}
			if v && k.Op == "==" && k.Args[1].Op == "nil" && k.Args[0] == t.Args[0] {
				return false, true
			}
		}
	case "pure":
		switch t.Aux {
		case "strings.HasPrefix":
			s, p := t.Args[0], t.Args[1]
			if p.isStr("") || s == p {
				return true, true
			}
			if s.Op == "concat" && s.Args[0] == p {
				return true, true
			}
			if a, ok := s.strVal(); ok {
				if b, ok := p.strVal(); ok {
					return len(a) >= len(b) && a[:len(b)] == b, true
				}
			}
			if v, ok := f.Decide(ltT(lenT(s), lenT(p))); ok && v {
				return false, true
			}
		}
	}
	return false, false
}

// nilRule is set by the models: nilness of terms by what they are.
var nilRule = func(f *Facts, t *Term) (isnil, ok bool) { return false, false }

// written: a write without error has written everything.
func (f *Facts) written(err, none *Term) {
	if none != tNil || err.Op != "res" || err.Aux != "1" || err.Args[0].Op != "call" || !strings.HasSuffix(callName(err), ".Write") {
		return
	}
	if args := err.Args[0].Args; len(args) == 2 && isByteSlice(args[1].Typ) {
		f.Assume(eqT(mk("res", "0", tyInt, err.Args[0]), lenT(args[1])), true)
	}
}

// Assume adds a boolean term with given value; false is returned if it contradicts the facts.
func (f *Facts) Assume(t *Term, val bool) bool {
	if v, ok := f.Decide(t); ok {
		if v != val {
			return false
		}
		if t == tTrue || t == tFalse {
			return true
		}
		// keep it explicit
	}
	for t.Op == "not" {
		t, val = t.Args[0], !val
	}
	if t == tTrue || t == tFalse {
		return (t == tTrue) == val
	}
	f.truth[t] = val
	f.changed()
	switch t.Op {
	case "==":
		a, b := t.Args[0], t.Args[1]
		if val && !isInt(a.Typ) {
			f.written(a, b)
			f.written(b, a)
		}
		if isInt(a.Typ) && isInt(b.Typ) {
			d := f.toInt(a).clone()
			d.add(f.toInt(b), bigMinus)
			if val {
				n := newLin()
				n.add(d, bigMinus)
				f.addLin(d)
				f.addLin(n)
			} else {
				if f.proveGE(d) {
					d.C.Sub(d.C, bigOne)
					f.addLin(d)
				} else {
					n := newLin()
					n.add(d, bigMinus)
					if f.proveGE(n) {
						n.C.Sub(n.C, bigOne)
						f.addLin(n)
					}
				}
			}
		} else if isString(a.Typ) {
			if val {
				if e := eqT(lenT(a), lenT(b)); e != tTrue {
					if !f.Assume(e, true) {
						return false
					}
				}
			} else if b.isStr("") {
				if e := eqT(lenT(a), intConst(0, tyInt)); e != tFalse {
					if !f.Assume(e, false) {
						return false
					}
				}
			}
		}
		if val && b.isConst() && !isInt(a.Typ) || val && b.Op == "nil" {
			for k, v := range f.truth {
				if k != t && v && k.Op == "==" && k.Args[0] == a && eqT(k.Args[1], b) == tFalse {
					return false
				}
			}
		}
	case "<":
		a, b := t.Args[0], t.Args[1]
		if isInt(a.Typ) && isInt(b.Typ) {
			d := f.toInt(b).clone()
			d.add(f.toInt(a), bigMinus)
			if val {
				d.C.Sub(d.C, bigOne)
				f.addLin(d)
			} else {
				n := newLin()
				n.add(d, bigMinus)
				f.addLin(n)
			}
		}
	case "pure":
		if val {
			switch t.Aux {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
				f.addGE(lenT(t.Args[0]), lenT(t.Args[1]))
			}
		}
	}
	if h := assumeHook[t.Op]; h != nil {
		return h(f, t, val)
	}
	return true
}

var assumeHook = map[string]func(f *Facts, t *Term, val bool) bool{}

func (f *Facts) addGE(a, b *Term) {
	d := f.toInt(a).clone()
	d.add(f.toInt(b), bigMinus)
	f.addLin(d)
}

func (f *Facts) addLin(l *LinForm) {
	if len(l.M) == 0 {
		if l.C.Sign() < 0 {
			f.lins = append(f.lins, l)
			f.changed()
		}
		return
	}
	f.lins = append(f.lins, l)
	f.changed()
}

// Consistent tells whether the linear facts are satisfiable.
func (f *Facts) Consistent() bool {
	for _, l := range f.lins {
		if len(l.M) == 0 && l.C.Sign() < 0 {
			return false
		}
	}
	return true
}

// intersect keeps what holds in both.
func (f *Facts) intersect(g *Facts) *Facts {
	r := newFacts()
	r.wk = f.wk
	for k, v := range f.truth {
		if w, ok := g.truth[k]; ok && v == w {
			r.truth[k] = v
		} else if v2, ok := g.Decide(k); ok && v2 == v {
			r.truth[k] = v
		}
	}
	for k, v := range g.truth {
		if _, ok := r.truth[k]; ok {
			continue
		}
		if v2, ok := f.Decide(k); ok && v2 == v {
			r.truth[k] = v
		}
	}
	gset := map[*LinForm]bool{}
	for _, l := range g.lins {
		gset[l] = true
	}
	for _, l := range f.lins {
		if gset[l] || g.proveGE(l) {
			r.lins = append(r.lins, l)
			delete(gset, l)
		}
	}
	for _, l := range g.lins {
		if gset[l] && f.proveGE(l) {
			r.lins = append(r.lins, l)
		}
	}
	return r
}

func (f *Facts) list() []string {
	var out []string
	for k, v := range f.truth {
		s := k.String()
		if !v {
			s = "!" + s
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

var _ = constant.MakeBool
