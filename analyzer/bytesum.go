package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Integers which are put together from bytes, and bytes taken out of integers,
// by shifts: brought to the form which whole-width loads and stores have.

// byteForm gives the byte positions of an integer that is a sum of bytes.
func byteForm(l *LinForm) map[int]*Term {
	if l.C.Sign() != 0 || len(l.M) == 0 {
		return nil
	}
	m := map[int]*Term{}
	for a, k := range l.M {
		for a.Op == "conv" && isInt(a.Args[0].Typ) {
			w1, s1 := intKind(a.Args[0].Typ)
			w2, _ := intKind(a.Typ)
			if w2 < w1 {
				break
			}
			if s1 {
				return nil
			}
			a = a.Args[0]
		}
		a = oneByte(a)
		if a.Op != "dec" || strings.Contains(a.Aux, ":") || k.Sign() <= 0 {
			return nil
		}
		n := k.TrailingZeroBits()
		if n%8 != 0 || new(big.Int).Lsh(bigOne, n).Cmp(k) != 0 {
			return nil
		}
		var w int
		fmt.Sscan(a.Aux, &w)
		for i := 0; i < w; i++ {
			if _, ok := m[int(n/8)+i]; ok {
				return nil
			}
			m[int(n/8)+i] = nil
		}
		m[int(n/8)] = a
	}
	return m
}

// oneByte is a byte taken out of an integer, as a part of its representation.
func oneByte(a *Term) *Term {
	if a.Op != "conv" || !isInt(a.Typ) || !isInt(a.Args[0].Typ) {
		return a
	}
	if w, signed := intKind(a.Typ); w != 8 || signed {
		return a
	}
	v, k := a.Args[0], 0
	w, _ := intKind(v.Typ)
	if v.Op == "shr" {
		var n int
		fmt.Sscan(v.Aux, &n)
		if n%8 != 0 || n+8 > w {
			return a
		}
		v, k = v.Args[0], n/8
	}
	for v.Op == "conv" && isInt(v.Args[0].Typ) {
		w1, _ := intKind(v.Typ)
		w2, _ := intKind(v.Args[0].Typ)
		if w1 < 8*(k+1) || w2 < 8*(k+1) {
			break
		}
		v = v.Args[0]
	}
	w, _ = intKind(v.Typ)
	return mk("dec", "1", a.Typ, subBytes(encode(v, int64(w/8)), intConst(int64(k), tyInt), intConst(1, tyInt)))
}

// joinBits adds integers whose bits do not meet.
func joinBits(a, b *Term, typ types.Type) *Term {
	la, lb := ring(a, typ), ring(b, typ)
	s := la.clone()
	s.add(lb, bigOne)
	if byteForm(la) == nil || byteForm(lb) == nil || byteForm(s) == nil {
		return nil
	}
	return joinBytes(linTerm(s, typ), typ)
}

// joinBytes recognises a sum of adjacent bytes as one wider load.
func joinBytes(t *Term, typ types.Type) *Term {
	if !isInt(typ) {
		return t
	}
	l := ring(t, typ)
	if len(l.M) < 2 {
		return t
	}
	m := byteForm(l)
	if m == nil {
		return t
	}
	var ks []int
	for k, a := range m {
		if a != nil {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	if ks[0] != 0 || len(ks) < 2 {
		return t
	}
	var b *Term
	n := 0
	for _, k := range ks {
		if k != n {
			return t
		}
		var w int
		fmt.Sscan(m[k].Aux, &w)
		if b == nil {
			b = m[k].Args[0]
		} else if b = adjoin(b, n, m[k].Args[0], w); b == nil {
			return t
		}
		n += w
	}
	u := map[int]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n]
	if u == nil {
		return t
	}
	return convT(decode(b, int64(n), u), typ)
}

// adjoin is the content of two adjacent ranges.
func adjoin(a *Term, n int, b *Term, w int) *Term {
	whole := intConst(int64(n+w), tyInt)
	next := func(oa, ob *Term) bool { return subT(ob, oa, tyInt).isInt(int64(n)) }
	if a.Op == "content" && b.Op == "content" && a.Aux == b.Aux && a.Args[0] == b.Args[0] && next(a.Args[1], b.Args[1]) {
		return mk("content", a.Aux, nil, a.Args[0], a.Args[1], whole)
	}
	base := func(x *Term) (*Term, *Term) {
		if x.Op == "sub" {
			return x.Args[0], x.Args[1]
		}
		return x, intConst(0, tyInt)
	}
	ba, oa := base(a)
	bb, ob := base(b)
	if ba != bb || a == b || !next(oa, ob) {
		return nil
	}
	if ba.Op == "rd" && oa.isInt(0) {
		for _, x := range ba.Args[0].Args {
			if x.Typ != nil {
				if sl, ok := under(x.Typ).(*types.Slice); ok && isByteT(sl.Elem()) && lenT(x) == whole {
					return ba
				}
			}
		}
	}
	return subBytes(ba, oa, whole)
}

// piece is a range of bytes of an integer's representation.
func piece(v *Term) (u *Term, from, w int) {
	if v.Op != "le" {
		return nil, 0, 0
	}
	fmt.Sscan(v.Aux, &w)
	u = v.Args[0]
	strip := func() {
		for u.Op == "conv" && isInt(u.Typ) && isInt(u.Args[0].Typ) {
			if wt, _ := intKind(u.Typ); wt < 8*w {
				return
			}
			if wa, _ := intKind(u.Args[0].Typ); wa < 8*(w+from) {
				return
			}
			u = u.Args[0]
		}
	}
	strip()
	if u.Op == "shr" {
		var n int
		fmt.Sscan(u.Aux, &n)
		if wa, _ := intKind(u.Args[0].Typ); n%8 == 0 && n+8*w <= wa {
			from = n / 8
			u = u.Args[0]
			strip()
		}
	}
	return
}

// joinCells puts adjacent pieces of one integer together.
func joinCells(ws []int64, vs []*Term) ([]int64, []*Term) {
	var ow []int64
	var ov []*Term
	for i := 0; i < len(vs); {
		u, from, w := piece(vs[i])
		if u != nil && from == 0 {
			total, best := w, 0
			for j := i + 1; j < len(vs); j++ {
				u2, f2, w2 := piece(vs[j])
				if u2 != u || f2 != total {
					break
				}
				total += w2
				if total == 2 || total == 4 || total == 8 {
					best = j
				}
				if best == j {
					w = total
				}
			}
			if best > 0 {
				t := map[int]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[w]
				x := u
				if wu, _ := intKind(u.Typ); wu != 8*w {
					x = convT(u, t)
				}
				ow, ov = append(ow, int64(w)), append(ov, encode(x, int64(w)))
				i = best + 1
				continue
			}
		}
		ow, ov = append(ow, ws[i]), append(ov, vs[i])
		i++
	}
	return ow, ov
}
