package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// byteEnv evaluates terms about one byte of a text: the byte at one place has a given value.
type byteEnv struct {
	more func(*Term) (*big.Int, bool) // values that are known besides
	idx  *Term                        // the place
	val  int64
}

// eval gives the value of an integer term, or of a condition as 0 or 1.
func (b *byteEnv) eval(t *Term) (*big.Int, bool) {
	if v, ok := t.bigVal(); ok {
		return v, true
	}
	if b.more != nil {
		if v, ok := b.more(t); ok {
			return v, true
		}
	}
	if v, ok := t.constVal(); ok && v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return big.NewInt(1), true
		}
		return big.NewInt(0), true
	}
	bit := func(v bool) (*big.Int, bool) {
		if v {
			return big.NewInt(1), true
		}
		return big.NewInt(0), true
	}
	switch t.Op {
	case "dec":
		if a := t.Args[0]; strings.HasPrefix(t.Aux, "1") && (a.Op == "sub" || a.Op == "content") && a.Args[1] == b.idx && a.Args[2].isInt(1) {
			return big.NewInt(b.val), true
		}
		if a := t.Args[0]; strings.HasPrefix(t.Aux, "1") && a.Op == "sub" && a.Args[1].isInt(0) && a.Args[2].isInt(1) && a.Args[0].Op == "content" && a.Args[0].Args[1] == b.idx {
			return big.NewInt(b.val), true
		}
		return nil, false
	case "conv":
		v, ok := b.eval(t.Args[0])
		if !ok {
			return nil, false
		}
		lo, hi, ok := typeRange(t.Typ)
		if !ok || v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			w, s := intKind(t.Typ)
			if w == 0 || s {
				return nil, false
			}
			v = new(big.Int).Mod(v, new(big.Int).Lsh(bigOne, uint(w)))
		}
		return v, true
	case "lin":
		l := t.Obj.(*LinForm)
		sum := new(big.Int).Set(l.C)
		for a, k := range l.M {
			v, ok := b.eval(a)
			if !ok {
				return nil, false
			}
			sum.Add(sum, new(big.Int).Mul(v, k))
		}
		if w, s := intKind(t.Typ); w > 0 && !s {
			sum.Mod(sum, new(big.Int).Lsh(bigOne, uint(w)))
		}
		return sum, true
	case "!":
		v, ok := b.eval(t.Args[0])
		if !ok {
			return nil, false
		}
		return bit(v.Sign() == 0)
	case "shr":
		v, ok := b.eval(t.Args[0])
		n := uint(0)
		fmt.Sscan(t.Aux, &n)
		if !ok {
			return nil, false
		}
		return new(big.Int).Rsh(v, n), true
	case "ite":
		c, ok := b.eval(t.Args[0])
		if !ok {
			return nil, false
		}
		if c.Sign() != 0 {
			return b.eval(t.Args[1])
		}
		return b.eval(t.Args[2])
	}
	if len(t.Args) != 2 {
		return nil, false
	}
	x, ok1 := b.eval(t.Args[0])
	y, ok2 := b.eval(t.Args[1])
	if !ok1 || !ok2 {
		return nil, false
	}
	switch t.Op {
	case "==":
		return bit(x.Cmp(y) == 0)
	case "<":
		return bit(x.Cmp(y) < 0)
	case "<=":
		return bit(x.Cmp(y) <= 0)
	case "and":
		return new(big.Int).And(x, y), true
	case "bit|":
		return new(big.Int).Or(x, y), true
	case "bit^":
		return new(big.Int).Xor(x, y), true
	case "bit&^":
		return new(big.Int).AndNot(x, y), true
	case "mod":
		if y.Sign() > 0 {
			return new(big.Int).Rem(x, y), true
		}
	case "div":
		if y.Sign() > 0 {
			return new(big.Int).Quo(x, y), true
		}
	}
	return nil, false
}

// byteMap tells how a text was made from another one byte by byte.
type byteMap [256]int64

func identity() (m byteMap) {
	for i := range m {
		m[i] = int64(i)
	}
	return
}

// bytesOf decides that a text is made from s by replacing every byte on its own, and how.
func (c *Check) bytesOf(o *Outcome, t, s *Term) (byteMap, string) {
	m := identity()
	if t == s {
		return m, ""
	}
	if t.Op == "pure" || t.Op == "call" || t.Op == "res" {
		name, as := callName(t), callOf(t).Args
		if name == "(*strings.Builder).String" || name == "(*bytes.Buffer).String" {
			return c.builtOf(o, t, s)
		}
		if name == "wpk/util.ToSlash" { // as the engine writes strings.ReplaceAll
			m, why := c.bytesOf(o, as[0], s)
			for i := range m {
				if m[i] == '\\' {
					m[i] = '/'
				}
			}
			return m, why
		}
		if name == "strings.Clone" {
			return c.bytesOf(o, as[0], s)
		}
		if name == "strings.ReplaceAll" || name == "strings.Replace" && as[3].Op == "const" {
			if n, ok := as[len(as)-1].intVal(); name == "strings.Replace" && (!ok || n >= 0) {
				return m, "only some places are replaced"
			}
			from, ok1 := as[1].strVal()
			to, ok2 := as[2].strVal()
			if !ok1 || !ok2 || len(from) != 1 || len(to) != 1 {
				return m, fmt.Sprintf("%v changes more than single bytes", shortT(t))
			}
			m, why := c.bytesOf(o, as[0], s)
			for i := range m {
				if m[i] == int64(from[0]) {
					m[i] = int64(to[0])
				}
			}
			return m, why
		}
		return m, fmt.Sprintf("%v is not known to replace single bytes only", shortT(t))
	}
	if t.Op != "str" && t.Op != "b2s" {
		return m, fmt.Sprintf("%v is not made byte by byte", shortT(t))
	}
	content := t.Args[0]
	buf := content
	for buf.Op == "sub" || buf.Op == "content" {
		buf = buf.Args[0]
	}
	if content.Op == "sub" && content.Args[0] == s || buf == s {
		if content == s || content.Args[1].isInt(0) && content.Args[2] == lenT(s) {
			return m, ""
		}
	}
	root := addrRoot(buf)
	for _, ev := range o.St.Events() {
		if ev.Kind != "star" {
			continue
		}
		hit := false
		for l := range ev.Star.Init {
			hit = hit || l == root
		}
		for _, b := range ev.Star.Bodies {
			for l := range b.Next {
				hit = hit || l == root
			}
			AllEvents(b.St.Events(), func(x *Event, _ *Body) {
				hit = hit || x.Kind == "store" && addrRoot(x.Args[0]) == root
			})
		}
		if !hit {
			continue
		}
		if t.Args[1] != lenT(buf) && t.Args[1] != lenT(s) && !o.St.facts.ProveEq(t.Args[1], lenT(s)) {
			return m, "the result may have another length"
		}
		if root.Op == "bytes" && root.Args[0] != s {
			first, why := c.bytesOf(o, root.Args[0], s)
			if why != "" {
				return m, why
			}
			then, why := c.replaces(o, ev.Star, root, root.Args[0])
			for i := range m {
				if m[i] = first[i]; m[i] >= 0 {
					m[i] = then[m[i]]
				}
			}
			return m, why
		}
		if init := ev.Star.Init[root]; init != nil {
			if at := addrRoot(init); (at.Op == "s2b" || at.Op == "bytes") && at.Args[0] != s { // what another loop has made
				first, why := c.bytesOf(o, at.Args[0], s)
				if why != "" {
					return m, why
				}
				then, why := c.replaces(o, ev.Star, root, at.Args[0])
				for i := range m {
					if m[i] = first[i]; m[i] >= 0 {
						m[i] = then[m[i]]
					}
				}
				return m, why
			}
		}
		return c.replaces(o, ev.Star, root, s)
	}
	return m, fmt.Sprintf("%v is not made in a loop over the text", shortT(t))
}

// replaces judges a loop that replaces bytes of a text in a buffer.
func (c *Check) replaces(o *Outcome, s *Star, buf, text *Term) (m byteMap, why string) {
	for i := range m {
		m[i] = -1
	}
	// where the loop is
	var idx *Term
	for _, b := range s.Bodies {
		AllEvents(b.St.Events(), func(ev *Event, _ *Body) {
			if (ev.Kind == "load" || ev.Kind == "store") && ev.Args[0].Op == "iaddr" && idx == nil && ringVar(ev.Args[0].Args[1], s) != nil {
				idx = ev.Args[0].Args[1]
			}
		})
	}
	if idx == nil {
		idx = c.placeOf(s, text)
	}
	if idx == nil {
		return m, "the loop does not go over the bytes"
	}
	first, down, why := c.strides(s, idx)
	if why != "" {
		return m, why
	}
	var before *[256]bool // bytes that may stand in front of the loop's start
	switch {
	case down:
		if !o.St.facts.ProveEq(first, subT(lenT(text), intConst(1, idx.Typ), idx.Typ)) || !isTrue(o.St, ltT(idx, intConst(0, idx.Typ))) {
			return m, "the loop does not go over all bytes"
		}
	case !isFalse(o.St, ltT(idx, lenT(text))) && !o.St.facts.ProveGE(idx, lenT(text), 0):
		return m, "the loop does not go over all bytes"
	case !first.isInt(0):
		if before = c.passed(o.St, text, first); before == nil {
			return m, "the loop does not go over all bytes"
		}
	}
	// the buffer
	isAcc := s.Init[buf] != nil
	appends := false
	for _, b := range s.Bodies {
		if n := b.Next[buf]; n != nil && n.Op == "append" {
			appends = true
		}
	}
	if appends && !o.St.facts.ProveEq(lenT(s.Init[buf]), intConst(0, idx.Typ)) {
		return m, "the buffer is not empty at first"
	}
	var flag *Term
	if isAcc && !appends {
		// made when the first byte is replaced: what tells that
		for l, init := range s.Init {
			if !isFalse(o.St, init) && init != tFalse && (l != buf || init.Op != "nil") {
				continue
			}
			good := true
			for _, b := range s.Bodies {
				stores, copies := c.touches(&b, buf)
				now := b.Next[l]
				was, known := latch(b.St, l)
				set := (now == nil || now == l) && known && was
				if v, k := latch(b.St, now); k && v {
					set = true
				}
				switch {
				case copies:
					good = good && known && !was && set
				case stores:
					good = good && known && was && set
				default:
					good = good && (now == nil || now == l || set && known && was)
				}
			}
			if good {
				flag = l
			}
		}
		if flag == nil {
			return m, "the text itself may be overwritten, or replaced bytes may be lost"
		}
		if flag == buf { // there is none as long as nothing is replaced
			if !mustNotNil(o.St, buf) {
				return m, "there may be no buffer"
			}
		} else if fr := s.Init[buf]; fr != nil {
			at := addrRoot(fr)
			if !(at.Op == "s2b" && at.Args[0] == text || at.Op == "bytes" && at.Args[0] == text) {
				return m, fmt.Sprintf("the buffer starts as %v", shortT(fr))
			}
		}
	} else if !isAcc && buf.Op != "bytes" && buf.Op != "makeslice" {
		return m, "the text itself is overwritten"
	}
	if buf.Op == "bytes" && buf.Args[0] != text {
		return m, "the buffer is a copy of another text"
	}
	if before != nil {
		if appends || buf.Op == "makeslice" {
			return m, "the bytes in front of the loop are left out"
		}
		for x, may := range before {
			if may {
				m[x] = int64(x)
			}
		}
	}
	for x := int64(0); x < 256; x++ {
		env := &byteEnv{idx: idx, val: x}
		for _, b := range s.Bodies {
			if !env.possible(&b) {
				continue
			}
			got := x
			if buf.Op == "makeslice" {
				got = 0
			}
			if appends {
				n := b.Next[buf]
				if n == nil || n.Op != "append" {
					return m, "bytes are left out"
				}
				// buffer, piece
				last := n.Args[len(n.Args)-1]
				if len(n.Args) > 2 || last.Op != "seg" || !last.Args[1].isInt(1) {
					return m, "something else than one byte is added"
				}
				v, ok := env.eval(mk("dec", "1", types.Typ[types.Uint8], last.Args[0]))
				if last.Args[0].Op == "le" || !ok {
					v, ok = env.eval(decode(last.Args[0], 1, types.Typ[types.Uint8]))
				}
				if !ok {
					return m, fmt.Sprintf("%v is added", shortT(last))
				}
				got = v.Int64()
			}
			for _, ev := range b.St.Events() {
				if ev.Kind == "star" {
					return m, "the loop contains another one"
				}
				if ev.Kind != "store" {
					continue
				}
				a := ev.Args[0]
				r := addrRoot(a)
				if r != buf && !(isAcc && r.Op == "bytes" && r.Args[0] == text) {
					if r.Op == "s2b" || r.Op == "param" {
						return m, "the text itself is overwritten"
					}
					continue
				}
				if a.Op != "iaddr" || a.Args[1] != idx {
					return m, "bytes at other places are replaced"
				}
				v, ok := env.eval(ev.Args[1])
				if !ok {
					return m, fmt.Sprintf("%v is stored", shortT(ev.Args[1]))
				}
				got = v.Int64()
			}
			if m[x] >= 0 && m[x] != got {
				return m, fmt.Sprintf("the byte %d becomes %d or %d", x, m[x], got)
			}
			m[x] = got
		}
		if m[x] < 0 {
			return m, fmt.Sprintf("the byte %d is not handled", x)
		}
	}
	return m, ""
}

// latch tells whether a flag, or a buffer which is made on demand, is known to be set or not.
func latch(st *State, l *Term) (set, known bool) {
	if l == nil || l.Typ == nil {
		return false, false
	}
	if _, ok := under(l.Typ).(*types.Slice); ok {
		n, known := isNil(st, l)
		return !n, known
	}
	if b, ok := under(l.Typ).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return truth(st, l)
	}
	return false, false
}

// untaken tells that a way through a loop was never taken, as it sets a flag
// that nothing resets and that is not set at the end.
func untaken(st *State, s *Star, b *Body) bool {
	for l := range s.Init {
		if v, k := latch(st, l); !k || v {
			continue
		}
		stays := true
		for i := range s.Bodies {
			x := &s.Bodies[i]
			n := x.Next[l]
			v, k := latch(x.St, n)
			stays = stays && (n == nil || n == l || k && v)
		}
		if !stays {
			continue
		}
		if v, k := latch(b.St, b.Next[l]); k && v {
			return true
		}
		if v, k := latch(b.St, l); k && v {
			return true
		}
	}
	return false
}

// touches tells whether an iteration stores into the buffer and whether it makes a new one.
func (c *Check) touches(b *Body, buf *Term) (stores, copies bool) {
	n := b.Next[buf]
	copies = n != nil && n != buf
	AllEvents(b.St.Events(), func(ev *Event, _ *Body) {
		stores = stores || ev.Kind == "store" && (addrRoot(ev.Args[0]) == buf || copies && addrRoot(ev.Args[0]) == addrRoot(n))
	})
	return
}

func init() {
	register("C46", "abstract interpretation of the path utilities: per-byte decision tables of the normalisers over all 256 byte values, case analysis of the joining functions",
		"Each normaliser is interpreted; the loop that makes its result is proved to visit every position once and to write at that position only, into a copy of the text; its decision table is evaluated from the path conditions and stored values of the loop for each of the 256 byte values and compared with the replacement it is for. For the joining functions every path is classified by what is known of the parts: one empty or \".\" gives the other; else the result is the parts, of which only a separator at the joint may be left out or added, with exactly one separator at the joint.",
		[]string{"the separator of file paths is that of the platform the code is built for here"},
		func(c *Check) {
			lower := func(m byteMap) byteMap {
				for i := 'A'; i <= 'Z'; i++ {
					m[i] = int64(i) + 32
				}
				return m
			}
			slash := func(m byteMap) byteMap { m['\\'] = '/'; return m }
			upper := identity()
			for i := 'a'; i <= 'z'; i++ {
				upper[i] = int64(i) - 32
			}
			for _, x := range []struct {
				name string
				want byteMap
			}{{"ToSlash", slash(identity())}, {"ToLower", lower(identity())}, {"ToUpper", upper}, {"ToKey", lower(slash(identity()))}} {
				c.Rule("normalisers replace exactly the bytes they are for")
				fn := c.Fn("util:" + x.name)
				if fn == nil {
					continue
				}
				e := c.Engine()
				e.Access = func(*Term) bool { return true }
				e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == fnPkg(fn) || takesFunc(f) }
				for _, n := range []string{"ToSlash", "ToLower", "ToUpper", "ToKey"} {
					e.NoDefault["wpk/util."+n] = true
				}
				s := e.Params(fn)[0]
				outs := e.Run(fn, []*Term{s}, nil)
				c.Analysed(fn, outs)
				for i := range outs {
					o := &outs[i]
					if !c.Must(!o.Panic, o.St, o.Pos, fn, "panic", "%s may panic", x.name) {
						continue
					}
					c.Inst("normalisations")
					m, why := c.bytesOf(o, o.Vals[0], s)
					if !c.Must(why == "", o.St, o.Pos, fn, "bytes", "%s: %s", x.name, why) {
						continue
					}
					diff := ""
					for b := range m {
						if m[b] != x.want[b] && !c.absent(o.St, s, b) && !c.absent(o.St, o.Vals[0], int(m[b])) && diff == "" {
							diff = fmt.Sprintf("the byte %d (%q) becomes %d and not %d", b, string(rune(b)), m[b], x.want[b])
						}
					}
					for range m {
						c.Inst("byte values")
					}
					c.Must(diff == "", o.St, o.Pos, fn, "table", "%s: %s", x.name, diff)
				}
			}
			c.joins("JoinPath", false)
			c.joins("JoinFilePath", true)
			c.AtLeast("normalisations", 4)
			c.AtLeast("byte values", 1024)
			c.AtLeast("joints", 6)
			c.AtLeast("other parts", 4)
		})
}

// placeOf finds where a loop looks at a text.
func (c *Check) placeOf(s *Star, text *Term) (idx *Term) {
	holds := func(x *Term) bool {
		r := addrRoot(x)
		if text.Op == "str" { // of what a buffer holds by then
			for x != text.Args[0] && x.Op == "sub" {
				x = x.Args[0]
			}
			return x == text.Args[0] || x == text
		}
		return x == text || (r.Op == "bytes" || r.Op == "s2b") && r.Args[0] == text
	}
	look := func(t *Term) {
		t.any(func(x *Term) bool {
			if (x.Op == "sub" || x.Op == "content") && x.Args[2].isInt(1) && idx == nil && holds(x.Args[0]) && s.Init[ringVar(x.Args[1], s)] != nil {
				idx = x.Args[1]
			}
			return false
		})
	}
	for _, b := range s.Bodies {
		for t := range b.St.facts.truth {
			look(t)
		}
		AllEvents(b.St.Events(), func(ev *Event, _ *Body) {
			for _, a := range ev.Args {
				look(a)
			}
		})
		for _, n := range b.Next {
			if n != nil {
				look(n)
			}
		}
	}
	return
}

// ringVar gives the variable of a loop that a term is made of.
func ringVar(t *Term, s *Star) (v *Term) {
	for l := range s.Init {
		if t.any(func(x *Term) bool { return x == l }) {
			v = l
		}
	}
	return
}

// strides tells where a loop begins that goes place by place.
func (c *Check) strides(s *Star, idx *Term) (first *Term, down bool, why string) {
	l := ringVar(idx, s)
	if l == nil {
		return nil, false, "the loop does not go over the bytes"
	}
	d, ok := subT(idx, l, idx.Typ).intVal()
	if !ok {
		return nil, false, "the loop does not go over the bytes one by one"
	}
	up, down := true, true
	for _, b := range s.Bodies {
		n := b.Next[l]
		if n == nil {
			n = l
		}
		k, ok := subT(n, l, idx.Typ).intVal()
		up, down = up && ok && k == 1, down && ok && k == -1
	}
	if up == down {
		return nil, false, "the loop does not go over the bytes one by one"
	}
	return addT(s.Init[l], intConst(d, idx.Typ), idx.Typ), down, ""
}

// passed gives the bytes a text may contain in front of a place,
// where a search has stopped.
func (c *Check) passed(st *State, text, at *Term) *[256]bool {
	if callName(at) == "strings.IndexByte" {
		if as := callOf(at).Args; as[0] == text {
			if b, ok := as[1].intVal(); ok && b >= 0 && b < 256 && isFalse(st, ltT(at, intConst(0, at.Typ))) {
				var may [256]bool
				for i := range may {
					may[i] = int64(i) != b
				}
				return &may
			}
		}
	}
	var may *[256]bool
	for _, ev := range st.Events() {
		if ev.Kind != "star" {
			continue
		}
		idx := c.placeOf(ev.Star, text)
		if idx == nil || idx != at && !st.facts.ProveEq(idx, at) {
			continue
		}
		first, down, why := c.strides(ev.Star, idx)
		if why != "" || down || !first.isInt(0) {
			continue
		}
		if may == nil {
			may = new([256]bool)
			for i := range may {
				may[i] = true
			}
		}
		for i := range may {
			env := &byteEnv{idx: idx, val: int64(i)}
			any := false
			for _, b := range ev.Star.Bodies {
				any = any || env.possible(&b) && !untaken(st, ev.Star, &b)
			}
			may[i] = may[i] && any
		}
	}
	return may
}

// possible tells that a way through a loop may be taken.
func (b *byteEnv) possible(x *Body) bool {
	for t, v := range x.St.facts.truth {
		if r, ok := b.eval(t); ok && (r.Sign() != 0) != v {
			return false
		}
	}
	return true
}

// builtOf decides that a text is built from s byte by byte, and how.
func (c *Check) builtOf(o *Outcome, t, s *Term) (m byteMap, why string) {
	recv := callOf(t).Args[0]
	var loop *Star
	var gives *Event
	writes := func(ev *Event) bool {
		return ev.Kind == "call" && (ev.Recv == recv || len(ev.Args) > 0 && ev.Args[0] == recv) && strings.HasPrefix(ev.Method, "Write")
	}
	for _, ev := range o.St.Events() {
		switch {
		case ev.Kind == "call" && ev.Recv == recv && ev.result(0) == t:
			gives = ev
		case ev.Kind == "star":
			any := false
			for _, b := range ev.Star.Bodies {
				AllEvents(b.St.Events(), func(x *Event, _ *Body) {
					any = any || x.Recv == recv && x.Method != "Len" && x.Method != "Cap"
				})
			}
			if any && (loop != nil || gives != nil) {
				return m, "the text is built in several loops"
			}
			if any {
				loop = ev.Star
			}
		case ev.Recv == recv && ev.Method != "Grow" && ev.Method != "Len" && ev.Method != "Cap" && gives == nil:
			return m, "more is built than the bytes of the text"
		}
	}
	if loop == nil || gives == nil || !freshRoot(addrRoot(recv)) {
		return m, "the text is not built in a loop"
	}
	idx := c.placeOf(loop, s)
	if idx == nil {
		return m, "the loop does not go over the bytes"
	}
	first, down, why := c.strides(loop, idx)
	if why != "" {
		return m, why
	}
	if down || !first.isInt(0) || !isFalse(o.St, ltT(idx, lenT(s))) && !o.St.facts.ProveGE(idx, lenT(s), 0) {
		return m, "the loop does not go over all bytes"
	}
	for x := range m {
		m[x] = -1
		env := &byteEnv{idx: idx, val: int64(x)}
		for _, b := range loop.Bodies {
			if !env.possible(&b) {
				continue
			}
			n := 0
			AllEvents(b.St.Events(), func(ev *Event, in *Body) {
				if !writes(ev) {
					return
				}
				n++
				if v, ok := env.eval(ev.Args[len(ev.Args)-1]); !ok || ev.Method != "WriteByte" || in != nil {
					why = fmt.Sprintf("%v is added", shortT(ev.Args[len(ev.Args)-1]))
				} else if got := v.Int64(); m[x] >= 0 && m[x] != got {
					why = fmt.Sprintf("the byte %d becomes %d or %d", x, m[x], got)
				} else {
					m[x] = got
				}
			})
			if n != 1 {
				why = fmt.Sprintf("the byte %d becomes %d bytes", x, n)
			}
			if why != "" {
				return
			}
		}
		if m[x] < 0 {
			return m, fmt.Sprintf("the byte %d is not handled", x)
		}
	}
	return
}

// absent tells that a text is known not to contain a byte.
func (c *Check) absent(st *State, s *Term, b int) bool {
	if may := c.passed(st, s, lenT(s)); may != nil && !may[b] {
		return true
	}
	for _, ev := range st.Events() {
		if ev.Kind != "star" {
			continue
		}
		idx := c.placeOf(ev.Star, s)
		if idx != nil && (isFalse(st, ltT(idx, lenT(s))) || st.facts.ProveGE(idx, lenT(s), 0)) {
			if may := c.passed(st, s, idx); may != nil && !may[b] {
				return true
			}
		}
	}
	one := strConst(string([]byte{byte(b)}))
	for t, v := range st.facts.truth {
		if t.Op == "<" && v && t.Args[1].isInt(0) && callName(t.Args[0]) == "strings.IndexByte" {
			if as := callOf(t.Args[0]).Args; as[0] == s && as[1].isInt(int64(b)) {
				return true
			}
		}
		if (callName(t) == "strings.Contains" || callName(t) == "strings.ContainsRune") && !v {
			if as := callOf(t).Args; as[0] == s && (as[1] == one || as[1].isInt(int64(b))) {
				return true
			}
		}
	}
	return false
}

// joins judges a function that joins two parts of a path.
func (c *Check) joins(name string, file bool) {
	c.Rule("paths are joined with exactly one separator")
	fn := c.Fn("util:" + name)
	if fn == nil {
		return
	}
	e := c.Engine()
	e.Inline = func(f *ssa.Function) bool { return fnPkg(f) == fnPkg(fn) }
	as := e.Params(fn)
	d, b := as[0], as[1]
	outs := e.Run(fn, as, nil)
	c.Analysed(fn, outs)
	one := intConst(1, tyInt)
	for i := range outs {
		o := &outs[i]
		if !c.Must(!o.Panic, o.St, o.Pos, fn, "panic", "%s may panic", name) {
			continue
		}
		st := o.St
		none := func(t *Term) (bool, bool) { // empty or "."
			e1, k1 := truth(st, eqT(t, strConst("")))
			if n, k := truth(st, eqT(lenT(t), intConst(0, tyInt))); k && !k1 {
				e1, k1 = n, k
			}
			e2, k2 := truth(st, eqT(t, strConst(".")))
			if k1 && e1 || k2 && e2 {
				return true, true
			}
			return false, k1 && k2
		}
		nd, kd := none(d)
		nb, kb := none(b)
		r := o.Vals[0]
		if nd && kd || nb && kb {
			c.Inst("other parts")
			good := kd && nd && c.sameText(st, r, b) || kb && nb && c.sameText(st, r, d)
			c.Must(good, st, o.Pos, fn, "other", "%s of an empty part gives %v and not the other part", name, shortT(r))
			continue
		}
		c.Must(kd && kb, st, o.Pos, fn, "empty", "%s gives %v also if one of the parts is empty or \".\"", name, shortT(r))
		c.Inst("joints")
		mark := int64('/')
		if name == "JoinFilePath" {
			mark = c.osConst("os", "PathSeparator", '/')
		}
		// separators at the joint
		sep := func(t *Term, first bool) (bool, bool) {
			at := intConst(0, tyInt)
			if !first {
				at = subT(lenT(t), one, tyInt)
			}
			ch := decode(subBytes(t, at, one), 1, types.Typ[types.Uint8])
			if v, ok := truth(st, eqT(ch, intConst(mark, ch.Typ))); ok && (v || mark == '/') {
				return v, true
			}
			for x, v := range st.facts.truth {
				if callName(x) == "os.IsPathSeparator" && len(callOf(x).Args) == 1 && bare(callOf(x).Args[0]) == ch {
					return v, true
				}
				n := callName(x)
				if (n == "strings.HasPrefix" && first || n == "strings.HasSuffix" && !first) && callOf(x).Args[0] == t && callOf(x).Args[1].isStr(string(rune(mark))) {
					return v, true
				}
			}
			return false, false
		}
		parts := []*Term{r}
		if r.Op == "concat" {
			parts = r.Args
		}
		count, known := 0, true
		state := 0 // what was met: 0 nothing, 1 the first part, 2 the second
		good := true
		why := ""
		for _, p := range parts {
			s, isConst := p.strVal()
			hd, kd := sep(d, false)
			hb, kb := sep(b, true)
			switch {
			case isConst:
				good = good && state == 1 && strings.Trim(s, string(rune(mark))) == ""
				count += len(s)
			case p == d && state == 0:
				state = 1
				known = known && kd
				if hd {
					count++
				}
			case p == b && state == 1:
				state = 2
				known = known && kb
				if hb {
					count++
				}
			case state == 0 && (p.Op == "slice" || p.Op == "substr") && p.Args[0] == d && p.Args[1].isInt(0) && st.facts.ProveEq(p.Args[2], subT(lenT(d), one, tyInt)):
				state = 1
				good = good && kd && hd
			case state == 1 && (p.Op == "slice" || p.Op == "substr") && p.Args[0] == b && p.Args[1].isInt(1) && st.facts.ProveEq(p.Args[2], lenT(b)):
				state = 2
				good = good && kb && hb
			case state == 0 && callName(p) == "strings.TrimSuffix" && callOf(p).Args[0] == d && callOf(p).Args[1].isStr(string(rune(mark))):
				state = 1
			case state == 1 && callName(p) == "strings.TrimPrefix" && callOf(p).Args[0] == b && callOf(p).Args[1].isStr(string(rune(mark))):
				state = 2
			default:
				good = false
				why = fmt.Sprintf(" (%v)", shortT(p))
			}
		}
		if c.Must(good && state == 2, st, o.Pos, fn, "parts", "%s gives %v, which is not made of the two parts%s", name, shortT(r), why) {
			c.Must(known && count == 1, st, o.Pos, fn, "separator", "%s gives %v, which need not have exactly one separator at the joint", name, shortT(r))
		}
	}
}

// osConst gives a constant of the standard library as of the platform under analysis.
func (c *Check) osConst(pkg, name string, or int64) int64 {
	var find func(ps []*types.Package, seen map[*types.Package]bool) *types.Package
	find = func(ps []*types.Package, seen map[*types.Package]bool) *types.Package {
		for _, p := range ps {
			if seen[p] {
				continue
			}
			seen[p] = true
			if p.Path() == pkg {
				return p
			}
			if q := find(p.Imports(), seen); q != nil {
				return q
			}
		}
		return nil
	}
	var roots []*types.Package
	for _, p := range c.P.Pkgs {
		roots = append(roots, p.Types)
	}
	if p := find(roots, map[*types.Package]bool{}); p != nil {
		if k, ok := p.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				return v
			}
		}
	}
	return or
}

// sameText tells whether two texts are equal on a path.
func (c *Check) sameText(st *State, a, b *Term) bool {
	return a == b || isTrue(st, eqT(a, b))
}
