package main

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The references to environment variables in paths.

// envSpec judges a function that expands references.
type envSpec struct {
	c    *Check
	fn   *ssa.Function
	text *Term
	env  *Term
}

// envFound tells what is known of a reference: 1 it is in the map, 2 it is in
// the process environment only, -1 it is in neither, 0 it is not known.
func (x *envSpec) envFound(st *State, key *Term) (n int, val *Term) {
	inMap := 0
	if isTrue(st, eqT(x.env, mk("nil", "", x.env.Typ))) || mustNil(st, x.env) {
		inMap = -1
	}
	for t, v := range st.facts.truth {
		if t.Op == "maphas" && t.Args[0] == x.env && t.Args[1] == key {
			inMap = -1
			if v {
				return 1, mk("mapget", t.Aux, tyString, t.Args...)
			}
		}
	}
	if inMap == 0 {
		return 0, nil
	}
	for t, v := range st.facts.truth {
		if t.Op == "res" && t.Aux == "1" && callName(t) == "os.LookupEnv" && callOf(t).Args[0] == key {
			if v {
				return 2, mk("res", "0", tyString, t.Args[0])
			}
			return -1, nil
		}
	}
	return 0, nil
}

// asks lists the keys which are looked up.
func (x *envSpec) asks(st *State, evs []*Event) (keys []*Term) {
	seen := map[*Term]bool{}
	add := func(k *Term) {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for t := range st.facts.truth {
		if t.Op == "maphas" && t.Args[0] == x.env {
			add(t.Args[1])
		}
	}
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "os.LookupEnv" {
			add(ev.Args[0])
		}
	}
	return
}

// order judges every question to the process environment.
func (x *envSpec) order(st *State, evs []*Event) {
	c := x.c
	for _, ev := range evs {
		if ev.Kind == "star" {
			for _, b := range ev.Star.Bodies {
				x.order(b.St, b.St.Events())
			}
			continue
		}
		if ev.Kind != "call" {
			continue
		}
		switch ev.Name {
		case "os.Getenv", "os.ExpandEnv", "os.Environ", "syscall.Getenv":
			c.FailT(st, ev.Pos, x.fn, "asks "+ev.Name, "%s is asked, which does not tell a missing variable from an empty one", ev.Name)
		case "os.LookupEnv":
			c.Inst("questions to the process environment")
			key := ev.Args[0]
			absent := isTrue(st, eqT(x.env, mk("nil", "", x.env.Typ))) || mustNil(st, x.env)
			for t, v := range st.facts.truth {
				if t.Op == "maphas" && t.Args[0] == x.env && t.Args[1] == key && !v {
					absent = true
				}
			}
			c.Must(absent, st, ev.Pos, x.fn, "map first", "the process environment is asked for %v which the given map may have", shortT(key))
		}
	}
}

// scanner is a loop over a path that knows which form of reference it is in.
type scanner struct {
	s                *Star
	idx, mode, start *Term
	code             [4]int64 // values of the mode for the three forms
	bodies           []scanBody
	judged           bool
	writer           *writer
}

type scanBody struct {
	*Body
	facts []*Term
	vals  []bool
}

// world gives values to the things a loop looks at.
type world struct {
	x     *envSpec
	vals  map[*Term]int64
	bytes map[int64]int64
	env   byteEnv
}

func (x *envSpec) world() *world {
	w := &world{x: x, vals: map[*Term]int64{}, bytes: map[int64]int64{}}
	w.env.more = w.more
	return w
}

func (w *world) more(t *Term) (*big.Int, bool) {
	if v, ok := w.vals[t]; ok {
		return big.NewInt(v), true
	}
	switch t.Op {
	case "dec":
		a := t.Args[0]
		if !strings.HasPrefix(t.Aux, "1") || a.Op != "sub" && a.Op != "content" || !a.Args[2].isInt(1) {
			return nil, false
		}
		if r := addrRoot(a.Args[0]); a.Args[0] != w.x.text && !((r.Op == "s2b" || r.Op == "bytes") && r.Args[0] == w.x.text) {
			return nil, false
		}
		if at, ok := w.env.eval(a.Args[1]); ok {
			if v, ok := w.bytes[at.Int64()]; ok {
				return big.NewInt(v), true
			}
		}
	case "load":
		a := t.Args[0]
		if a.Op != "iaddr" || a.Args[0].Op != "global" {
			return nil, false
		}
		at, ok := w.env.eval(a.Args[1])
		if !ok {
			return nil, false
		}
		switch a.Args[0].Aux {
		case "wpk/util.VarChar":
			return bigBool(varChar(at.Int64())), true
		case "wpk/util.VarCharFirst":
			return bigBool(varFirst(at.Int64())), true
		}
	}
	return nil, false
}

func bigBool(v bool) *big.Int {
	if v {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

func (w *world) num(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	v, ok := w.env.eval(t)
	if !ok {
		return 0, false
	}
	return v.Int64(), true
}

// after gives the value of a variable after an iteration.
func (w *world) after(b *Body, l *Term) (int64, bool) {
	n := b.Next[l]
	if n == nil {
		n = l
	}
	return w.num(n)
}

// possible lists the ways through the loop.
func (w *world) possible(sc *scanner) (bs []*Body) {
next:
	for i := range sc.bodies {
		b := &sc.bodies[i]
		for k, t := range b.facts {
			if r, ok := w.env.eval(t); ok && (r.Sign() != 0) != b.vals[k] {
				continue next
			}
		}
		bs = append(bs, b.Body)
	}
	return
}

func varFirst(b int64) bool { return b == '_' || 'A' <= b && b <= 'Z' || 'a' <= b && b <= 'z' }
func varChar(b int64) bool  { return varFirst(b) || '0' <= b && b <= '9' }

// scannerOf finds the roles of the variables of a loop.
func (x *envSpec) scannerOf(s *Star) *scanner {
	sc := &scanner{s: s}
	for i := range s.Bodies {
		b := scanBody{Body: &s.Bodies[i]}
		for t, v := range b.St.facts.truth {
			b.facts, b.vals = append(b.facts, t), append(b.vals, v)
		}
		sc.bodies = append(sc.bodies, b)
	}
	n := lenT(x.text)
	for l := range s.Init {
		all := len(s.Bodies) > 0
		for _, b := range s.Bodies {
			all = all && b.St.facts.truth[ltT(l, n)]
		}
		if all && sc.idx == nil {
			sc.idx = l
		}
		tested := map[string]bool{}
		for _, b := range s.Bodies {
			for t := range b.St.facts.truth {
				if t.Op == "==" && (t.Args[0] == l && t.Args[1].Op == "const" || t.Args[1] == l && t.Args[0].Op == "const") {
					tested[t.String()] = true
				}
			}
		}
		if len(tested) >= 2 {
			sc.mode = l
		}
	}
	for _, b := range s.Bodies {
		for _, k := range x.asks(b.St, b.St.Events()) {
			if k.Op == "substr" && k.Args[0] == x.text && s.Init[k.Args[1]] != nil {
				sc.start = k.Args[1]
			}
		}
	}
	if sc.idx == nil || sc.mode == nil || sc.start == nil || sc.idx == sc.mode {
		return nil
	}
	return sc
}

const (
	atIdx   = 1000
	atStart = 990
)

// opening gives how many bytes stand in front of the name in each form.
var opening = [4]int64{0, 1, 2, 1}

// entries judges how the loop finds references.
func (x *envSpec) entries(sc *scanner) bool {
	c := x.c
	why := ""
	judge := func(c0, c1, c2, r int64) {
		if why != "" {
			return
		}
		w := x.world()
		w.vals[sc.idx], w.vals[sc.mode], w.vals[lenT(x.text)] = atIdx, 0, atIdx+r
		for k, b := range []int64{c0, c1, c2} {
			if int64(k) < r {
				w.bytes[atIdx+int64(k)] = b
			}
		}
		form, may := 0, false
		switch {
		case c0 == '$' && r >= 2 && varFirst(c1):
			form = 1
		case c0 == '$' && r >= 3 && c1 == '{' && varFirst(c2):
			form, may = 2, r == 3
		case c0 == '%' && r >= 2 && varFirst(c1):
			form, may = 3, r == 2
		}
		seen := string([]byte{byte(c0), byte(c1), byte(c2)}[:min(r, 3)])
		bs := w.possible(sc)
		if len(bs) == 0 {
			why = fmt.Sprintf("%q is not handled", seen)
		}
		for _, b := range bs {
			m, ok1 := w.after(b, sc.mode)
			i, ok2 := w.after(b, sc.idx)
			if !ok1 || !ok2 {
				why = fmt.Sprintf("after %q it is not known how the search goes on", seen)
				return
			}
			if m == 0 && (form == 0 || may) {
				ok := i > atIdx
				for k := int64(atIdx + 1); k < i; k++ {
					v, known := w.bytes[k]
					ok = ok && known && v != '$' && v != '%'
				}
				if !ok {
					why = fmt.Sprintf("after %q the search goes on %d bytes further", seen, i-atIdx)
				}
				continue
			}
			if m == 0 || form == 0 {
				why = fmt.Sprintf("%q is taken for a reference: %v", seen, m != 0)
				return
			}
			from, ok := w.after(b, sc.start)
			if !ok || from != atIdx+opening[form] {
				why = fmt.Sprintf("the name of the reference %q does not begin after the sign", seen)
				return
			}
			if i != from && i != from+1 {
				why = fmt.Sprintf("after %q the search goes on %d bytes further", seen, i-atIdx)
				return
			}
			if sc.code[form] != 0 && sc.code[form] != m {
				why = fmt.Sprintf("%q is not always taken for the same form", seen)
				return
			}
			sc.code[form] = m
		}
		c.Inst("openings of references")
	}
	some := [][2]int64{{'A', 'B'}, {'{', 'A'}, {'{', '1'}, {'1', 'A'}}
	for r := int64(1); r <= 4; r++ {
		for b := int64(0); b < 256; b++ {
			for _, s := range some {
				judge(b, s[0], s[1], r)
			}
			judge('$', '{', b, r)
			for _, c2 := range []int64{'A', '1'} {
				judge('$', b, c2, r)
				judge('%', b, c2, r)
			}
		}
	}
	st := sc.s.Bodies[0].St
	c.Must(why == "", st, x.fn.Pos(), x.fn, "references", "references are found wrong: %s", why)
	if why == "" {
		distinct := sc.code[1] != 0 && sc.code[2] != 0 && sc.code[3] != 0 && sc.code[1] != sc.code[2] && sc.code[2] != sc.code[3] && sc.code[1] != sc.code[3]
		return c.Must(distinct, st, x.fn.Pos(), x.fn, "forms", "the forms of references are not told apart")
	}
	return false
}

// writer is what a scanner writes.
type writer struct {
	at, from *Term // where the next byte goes, and comes from
	root     *Term
	size     *Term
	flushed  bool // the text in front of a reference is written when it is found
}

// names judges what the loop does inside of references.
func (x *envSpec) names(sc *scanner, count, grown *Term, wr *writer) {
	c := x.c
	why := ""
	for form := 1; form <= 3; form++ {
		for b0 := int64(0); b0 < 256 && why == ""; b0++ {
			w := x.world()
			w.vals[sc.idx], w.vals[sc.mode], w.vals[sc.start], w.vals[lenT(x.text)] = atIdx, sc.code[form], atStart, atIdx+50
			w.bytes[atIdx] = b0
			open := int64(atStart - opening[form])
			if wr != nil {
				w.vals[wr.at], w.vals[wr.from] = 2000, open
				if !wr.flushed {
					w.vals[wr.from] = 900
				}
			}
			if count != nil {
				w.vals[count] = 0
			}
			if grown != nil {
				w.vals[grown] = 3000
			}
			end := int64(atIdx)
			done := form == 1 && !varChar(b0)
			if form == 2 && b0 == '}' || form == 3 && b0 == '%' {
				done, end = true, atIdx+1
			}
			in := fmt.Sprintf("in the form %s at %q", [4]string{"", "$VAR", "${VAR}", "%VAR%"}[form], string(rune(b0)))
			bs := w.possible(sc)
			if len(bs) == 0 {
				why = in + " nothing is done"
			}
			kinds := map[int]bool{}
			for _, b := range bs {
				if why != "" {
					break
				}
				m, ok1 := w.after(b, sc.mode)
				i, ok2 := w.after(b, sc.idx)
				if !ok1 || !ok2 {
					why = in + " it is not known how the search goes on"
					break
				}
				keys := slices.DeleteFunc(x.asks(b.St, b.St.Events()), func(k *Term) bool {
					return ringVar(k, sc.s) == nil
				})
				found, val := 0, (*Term)(nil)
				switch {
				case !done && len(keys) > 0:
					why = in + " a name is looked up that is not complete"
				case !done && varChar(b0):
					if m != sc.code[form] || i != atIdx+1 {
						why = in + " the name ends"
					}
					if s, ok := w.after(b, sc.start); !ok || s != atStart {
						why = in + " the name begins elsewhere"
					}
				case !done:
					if m != 0 || i != atIdx && (i != atIdx+1 || b0 == '$' || b0 == '%') {
						why = in + " the search goes on wrong"
					}
				default:
					if m != 0 || i != end && (i != end+1 || b0 == '$' || b0 == '%' || end > atIdx) {
						why = in + " the search goes on wrong"
						break
					}
					if len(keys) != 1 {
						why = fmt.Sprintf("%s %d names are looked up", in, len(keys))
						break
					}
					lo, ok1 := w.num(keys[0].Args[1])
					hi, ok2 := w.num(keys[0].Args[2])
					if keys[0].Op != "substr" || keys[0].Args[0] != x.text || !ok1 || !ok2 || lo != atStart || hi != atIdx {
						why = fmt.Sprintf("%s %v is looked up", in, shortT(keys[0]))
						break
					}
					found, val = x.envFound(b.St, keys[0])
					if found == 0 {
						why = in + " it is not known whether the name is found"
						break
					}
					kinds[found] = true
				}
				if found > 0 {
					w.vals[lenT(val)] = 37
				}
				if why == "" && count != nil && found > 0 {
					if n, ok := w.after(b, count); !ok || n == 0 {
						why = in + " a value that is found is not counted"
					}
				}
				if why == "" && grown != nil {
					want := int64(3000)
					if found > 0 {
						want += 37 - (end - open)
					}
					if n, ok := w.after(b, grown); !ok || n != want {
						why = fmt.Sprintf("%s the size of the result changes by %d instead of %d", in, n-3000, want-3000)
					}
				}
				if why == "" && wr != nil {
					why = x.writes(w, b, wr, found, val, open, end, in)
				}
				if val != nil {
					delete(w.vals, lenT(val))
				}
			}
			if why == "" && done && len(kinds) < 3 {
				why = in + " a name is not looked up in the map and the process environment"
			}
			c.Inst("bytes inside of references")
		}
	}
	c.Must(why == "", sc.s.Bodies[0].St, x.fn.Pos(), x.fn, "names", "references are not replaced right: %s", why)
}

// writes judges what is written in an iteration.
func (x *envSpec) writes(w *world, b *Body, wr *writer, found int, val *Term, open, end int64, in string) string {
	at, _ := w.num(wr.at)
	from, _ := w.num(wr.from)
	start := from
	out, cur, why := x.copies(w, b.St.Events(), wr, at, from, found, val, open, end)
	if why != "" {
		return in + " " + why
	}
	n, ok1 := w.after(b, wr.at)
	f, ok2 := w.after(b, wr.from)
	if !ok1 || !ok2 {
		return in + " it is not known what is written next"
	}
	if n != out || f != cur {
		return fmt.Sprintf("%s the place of the next bytes is not what was written (%d for %d, %d for %d)", in, n-at, out-at, f-start, cur-start)
	}
	return ""
}

// copies follows what is written: pieces of the path in their order, and the
// value found in place of its reference.
func (x *envSpec) copies(w *world, evs []*Event, wr *writer, at, from int64, found int, val *Term, open, end int64) (int64, int64, string) {
	put := false
	for _, ev := range evs {
		if ev.Kind != "store" || addrRoot(ev.Args[0]) != wr.root {
			continue
		}
		if ev.Name != "copy" {
			return 0, 0, "single bytes are written"
		}
		dst, src := ev.Args[0], ev.Args[1]
		to := int64(0)
		if dst.Op == "slice" {
			v, ok := w.num(dst.Args[1])
			if !ok {
				return 0, 0, fmt.Sprintf("bytes are written at %v", shortT(dst.Args[1]))
			}
			to = v
		} else if dst != wr.root {
			return 0, 0, fmt.Sprintf("bytes are written at %v", shortT(dst))
		}
		if to != at {
			return 0, 0, "bytes are not written behind each other"
		}
		if src == val && val != nil || src.Op == "s2b" && src.Args[0] == val && val != nil {
			if from != open || put {
				return 0, 0, "the value is not written in place of its reference"
			}
			n, _ := w.num(lenT(val))
			at, from, put = at+n, end, true
			continue
		}
		lo, hi, ok := x.piece(w, src)
		if !ok {
			return 0, 0, fmt.Sprintf("%v is written", shortT(src))
		}
		if lo != from || hi < lo {
			return 0, 0, "pieces of the path are left out or repeated"
		}
		at, from = at+hi-lo, hi
	}
	if found > 0 && !put {
		return 0, 0, "the value is not written"
	}
	return at, from, ""
}

// piece gives the part of the path that a term is.
func (x *envSpec) piece(w *world, t *Term) (lo, hi int64, ok bool) {
	whole := func(t *Term) bool {
		return t == x.text || (t.Op == "s2b" || t.Op == "bytes") && t.Args[0] == x.text
	}
	if whole(t) {
		hi, ok = w.num(lenT(x.text))
		return
	}
	if (t.Op == "slice" || t.Op == "substr") && whole(t.Args[0]) {
		lo, ok1 := w.num(t.Args[1])
		hi, ok2 := w.num(t.Args[2])
		return lo, hi, ok1 && ok2
	}
	return
}

// writerOf finds the roles of the variables that tell what is written.
func (x *envSpec) writerOf(s *Star) *writer {
	wr := &writer{}
	for _, b := range s.Bodies {
		for _, ev := range b.St.Events() {
			if ev.Kind != "store" || ev.Name != "copy" {
				continue
			}
			wr.root = addrRoot(ev.Args[0])
			if d := ev.Args[0]; d.Op == "slice" && s.Init[d.Args[1]] != nil {
				wr.at = d.Args[1]
			}
			if p := ev.Args[1]; p.Op == "slice" && s.Init[p.Args[1]] != nil {
				wr.from = p.Args[1]
			}
		}
	}
	if wr.at == nil || wr.from == nil || wr.root.Op != "makeslice" {
		return nil
	}
	wr.size = lenT(wr.root)
	return wr
}

// outside judges what is written while no reference is open.
func (x *envSpec) outside(sc *scanner, grown *Term, wr *writer) {
	c := x.c
	why := ""
	for _, flushed := range []bool{true, false} {
		why = ""
		if wr != nil {
			wr.flushed = flushed
		}
		for _, s := range []string{"abcd", "$abc", "${ab", "%abc", "$12a", "%12a", "${12"} {
			w := x.world()
			w.vals[sc.idx], w.vals[sc.mode], w.vals[lenT(x.text)] = atIdx, 0, atIdx+50
			for i := range s {
				w.bytes[atIdx+int64(i)] = int64(s[i])
			}
			if wr != nil {
				w.vals[wr.at], w.vals[wr.from] = 2000, 900
			}
			if grown != nil {
				w.vals[grown] = 3000
			}
			for _, b := range w.possible(sc) {
				in := fmt.Sprintf("at %q", s)
				if grown != nil {
					if n, ok := w.after(b, grown); !ok || n != 3000 {
						why = in + " the size of the result changes"
					}
				}
				if wr == nil || why != "" {
					continue
				}
				if why = x.writes(w, b, wr, 0, nil, 0, 0, in); why != "" {
					continue
				}
				m, _ := w.after(b, sc.mode)
				if f, _ := w.after(b, wr.from); m != 0 && flushed && f != atIdx {
					why = in + " the text in front of the reference is not written"
				}
			}
		}
		if why == "" || wr == nil {
			break
		}
	}
	c.Must(why == "", sc.s.Bodies[0].St, x.fn.Pos(), x.fn, "text", "the text around references is not kept: %s", why)
}

// tables judges the tables of the bytes that names are made of.
func (x *envSpec) tables() {
	c := x.c
	for name, want := range map[string]func(int64) bool{"VarCharFirst": varFirst, "VarChar": varChar} {
		g := c.globalOf("/util", name)
		if g == nil {
			continue
		}
		made := c.madeBy(g)
		if made == nil {
			continue
		}
		e := c.Engine()
		e.Access = func(*Term) bool { return true }
		outs := e.Run(made, nil, nil)
		c.Analysed(made, outs)
		why := ""
		for i := range outs {
			o := &outs[i]
			set := map[int64]bool{}
			for _, ev := range o.St.Events() {
				switch {
				case ev.Kind == "store" && ev.Args[0].Op == "iaddr":
					if k, ok := ev.Args[0].Args[1].intVal(); ok && ev.Args[1] == tTrue {
						set[k] = true
					} else {
						why = "a place is not known"
					}
				case ev.Kind == "star":
					why2 := c.marks(ev.Star, set)
					if why == "" {
						why = why2
					}
				}
			}
			for b := int64(0); b < 256 && why == ""; b++ {
				if set[b] != want(b) {
					why = fmt.Sprintf("%q is in it: %v", string(rune(b)), set[b])
				}
			}
			c.Inst("tables of characters")
			c.Must(why == "", o.St, made.Pos(), made, name, "the table %s does not list what names are made of: %s", name, why)
		}
	}
}

// marks collects the places a loop marks in a table.
func (c *Check) marks(s *Star, set map[int64]bool) string {
	var l *Term
	for v := range s.Init {
		if _, ok := s.Init[v].intVal(); ok {
			l = v
		}
	}
	if l == nil {
		return "a loop is not over a range"
	}
	first, down, why := c.strides(s, l)
	from, ok := first.intVal()
	if why != "" || down || !ok {
		return "a loop is not over a range"
	}
	env := &byteEnv{idx: l}
	val := from
	env.more = func(t *Term) (*big.Int, bool) {
		if t == l {
			return big.NewInt(val), true
		}
		return nil, false
	}
	for ; val < from+300; val++ {
		any := false
		for _, b := range s.Bodies {
			if !env.possible(&b) {
				continue
			}
			any = true
			for _, ev := range b.St.Events() {
				if ev.Kind != "store" || ev.Args[0].Op != "iaddr" {
					continue
				}
				k, ok := env.eval(ev.Args[0].Args[1])
				if !ok || ev.Args[1] != tTrue {
					return "a place is not known"
				}
				set[k.Int64()] = true
			}
		}
		if !any {
			return ""
		}
	}
	return "a loop does not end"
}

// globalOf finds a package level variable.
func (c *Check) globalOf(pkg, name string) *ssa.Global {
	for _, p := range c.P.SSA.AllPackages() {
		if p != nil && strings.HasSuffix(p.Pkg.Path(), pkg) {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

// madeBy finds the function whose result a package level variable is.
func (c *Check) madeBy(g *ssa.Global) (fn *ssa.Function) {
	init := g.Pkg.Func("init")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if call, ok := s.Val.(*ssa.Call); ok {
					fn = call.Call.StaticCallee()
				}
			}
		}
	}
	return
}

func init() {
	register("C44", "abstract interpretation of the expansion of environment references: order of the questions on every path, decision tables of the search loops over all byte values, inductive accounting of what is written",
		"Every question to the process environment must follow a failed one to the given map for the same name. The loops that look for references are read as transition systems: for each byte value, form and remaining length the transition is compared with the three documented forms; every complete reference is looked up by exactly its name; what is written is proved to be the path in its order with each found reference replaced by its value, and the size of the result to be what is written, by induction over the transitions. At the end of the path an open $VAR is looked up as well.",
		[]string{"the process environment does not change while a path is expanded"},
		func(c *Check) {
			c.Rule("references are looked up in the map first")
			fn := c.Fn("util:Envfmt")
			if fn == nil {
				return
			}
			e := c.Engine()
			e.Access = func(a *Term) bool { return true }
			e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == fnPkg(fn) }
			e.Threshold = 200
			ps := e.Params(fn)
			x := &envSpec{c: c, fn: fn, text: ps[0], env: ps[1]}
			outs := e.Run(fn, ps, nil)
			c.Analysed(fn, outs)
			for i := range outs {
				if o := &outs[i]; !o.Panic {
					x.order(o.St, o.St.Events())
				}
			}
			c.Rule("references are found in every form at every place")
			x.tables()
			x.judge(outs)
			c.AtLeast("questions to the process environment", 1)
		})
}

// judge goes through the outcomes.
func (x *envSpec) judge(outs []Outcome) {
	c := x.c
	judged := map[*Star]*scanner{}
	for i := range outs {
		o := &outs[i]
		if o.Panic {
			continue
		}
		var read, write *scanner
		var wr *writer
		for _, ev := range o.St.Events() {
			if ev.Kind != "star" {
				continue
			}
			sc := judged[ev.Star]
			if sc == nil {
				sc = x.scannerOf(ev.Star)
			}
			if sc == nil {
				continue
			}
			judged[ev.Star] = sc
			if sc.writer == nil {
				sc.writer = x.writerOf(ev.Star)
			}
			if sc.writer != nil {
				write, wr = sc, sc.writer
			} else if read == nil {
				read = sc
			}
		}
		if read == nil {
			continue // made in another way
		}
		count, grown := x.tallies(outs, read, o, wr)
		for _, sc := range []*scanner{read, write} {
			if sc == nil || sc.judged {
				continue
			}
			sc.judged = true
			good := true
			for l, init := range sc.s.Init {
				first := l == sc.idx || l == sc.mode || sc == write && (l == wr.at || l == wr.from)
				good = c.Must(!first || init.isInt(0), o.St, x.fn.Pos(), x.fn, "begin", "a search does not begin at the begin of the path and outside of references") && good
			}
			if !good || !x.entries(sc) {
				continue
			}
			c.Inst("searches")
			if sc == read {
				x.outside(sc, grown, nil)
				x.names(sc, count, grown, nil)
			} else {
				x.outside(sc, nil, wr)
				x.names(sc, nil, nil, wr)
			}
		}
		never := count != nil // a count is never negative
		for _, n := range []int64{0, 1, 2, 50} {
			w := x.world()
			w.vals[count] = n
			possible := true
			for t, v := range o.St.facts.truth {
				if r, ok := w.env.eval(t); ok && (r.Sign() != 0) != v {
					possible = false
				}
			}
			never = never && !possible
		}
		if !never {
			x.ends(o, read, write, wr, grown)
		}
	}
}

// tallies finds the variables which tell whether anything is found, and how
// long the result gets.
func (x *envSpec) tallies(outs []Outcome, read *scanner, o *Outcome, wr *writer) (count, grown *Term) {
	for i := range outs {
		if p := &outs[i]; !p.Panic && len(p.Vals) == 1 && p.Vals[0] == x.text {
			for t, v := range p.St.facts.truth {
				if v && t.Op == "==" && read.s.Init[t.Args[0]] != nil && t.Args[1].isInt(0) && t.Args[0] != read.mode {
					count = t.Args[0]
				}
			}
		}
	}
	if wr != nil {
		for l := range read.s.Init {
			if l != read.idx && l != read.start && l != read.mode && wr.size.any(func(t *Term) bool { return t == l }) {
				grown = l
			}
		}
	}
	return
}

// ends judges what is done behind the loops.
func (x *envSpec) ends(o *Outcome, read, write *scanner, wr *writer, grown *Term) {
	c := x.c
	if read.code[1] == 0 || write != nil && write.code[1] == 0 {
		return
	}
	open := func(sc *scanner) (found int, val *Term, why string) {
		v, known := truth(o.St, eqT(sc.mode, intConst(sc.code[1], sc.mode.Typ)))
		if !known {
			return 0, nil, "it is not known whether the path ends with $VAR"
		}
		if !v {
			return 0, nil, ""
		}
		w := x.world()
		w.vals[sc.idx], w.vals[sc.start], w.vals[lenT(x.text)] = atIdx, atStart, atIdx
		for _, k := range x.asks(o.St, nil) {
			if k.Op != "substr" || k.Args[0] != x.text || !k.any(func(t *Term) bool { return t == sc.start }) {
				continue
			}
			lo, ok1 := w.num(k.Args[1])
			hi, ok2 := w.num(k.Args[2])
			if !ok1 || !ok2 || lo != atStart || hi != atIdx {
				return 0, nil, fmt.Sprintf("%v is looked up at the end", shortT(k))
			}
			if found, val = x.envFound(o.St, k); found != 0 {
				return found, val, ""
			}
		}
		return 0, nil, "$VAR at the end of the path is not looked up"
	}
	found, val, why := open(read)
	if !c.Must(why == "", o.St, o.Pos, x.fn, "end", "%s", why) {
		return
	}
	c.Inst("ends of paths")
	if write == nil {
		c.Must(o.Vals[0] != x.text || found <= 0, o.St, o.Pos, x.fn, "end found", "a path that ends with a known $VAR is returned as it is")
		return
	}
	found2, val2, why := open(write)
	if !c.Must(why == "", o.St, o.Pos, x.fn, "end", "%s", why) {
		return
	}
	if found2 != found {
		return // both searches go the same way
	}
	w := x.world()
	for _, sc := range []*scanner{read, write} {
		w.vals[sc.idx], w.vals[sc.start], w.vals[lenT(x.text)] = atIdx, atStart, atIdx
	}
	w.vals[wr.at], w.vals[wr.from] = 2000, 900
	if found != 0 && wr.flushed {
		w.vals[wr.from] = atStart - 1
	}
	if grown != nil {
		w.vals[grown] = 3000
	}
	want := int64(3000)
	if found > 0 {
		w.vals[lenT(val)], w.vals[lenT(val2)] = 37, 37
		want += 37 - (atIdx - atStart + 1)
	}
	if n, ok := w.num(wr.size); grown != nil && (!ok || n != want) {
		c.FailT(o.St, o.Pos, x.fn, "end size", "the size of the result changes by %d instead of %d at the end of the path", n-3000, want-3000)
	}
	var evs []*Event
	behind := false
	for _, ev := range o.St.Events() {
		if behind {
			evs = append(evs, ev)
		}
		behind = behind || ev.Kind == "star" && ev.Star == write.s
	}
	_, from, why := x.copies(w, evs, wr, 2000, w.vals[wr.from], found2, val2, atStart-1, atIdx)
	if why == "" && from != atIdx {
		why = "the rest of the path is not written"
	}
	c.Must(why == "", o.St, o.Pos, x.fn, "end written", "at the end of the path %s", why)
}
