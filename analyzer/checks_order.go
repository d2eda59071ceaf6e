package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nothing depends on the order of walks over maps.

// unorderedWalks are calls which hand entries to a callback in no stable order.
var unorderedWalks = map[string]bool{
	"(*" + luaPkg + ".LTable).ForEach": true, "(*sync.Map).Range": true,
}

// unorderedLists are calls whose result has no stable order.
var unorderedLists = map[string]bool{
	"(reflect.Value).MapKeys": true, "maps.Keys": true, "maps.Values": true, "maps.All": true,
	"golang.org/x/exp/maps.Keys": true, "golang.org/x/exp/maps.Values": true,
}

// region is code that is run once for each entry, in any order.
type region struct {
	c      *Check
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool // nil: the whole function
	header *ssa.BasicBlock
	keys   map[ssa.Value]bool // which are different in each run
	depth  int
	bound  map[*ssa.FreeVar]ssa.Value
	why    string
	pos    token.Pos
	lists  []ssa.Value // collected in no order: phis or cells
	exits  bool        // it may be left early
	cut    bool        // when is decided by the entries before
	effs   int         // effects which are not the same for all entries
	owned  map[ssa.Value]bool
	ops    map[ssa.Value]token.Token // what is done with what is kept
}

func (r *region) in(b *ssa.BasicBlock) bool { return r.blocks == nil || r.blocks[b] }

func (r *region) fail(pos token.Pos, format string, a ...any) {
	if r.why == "" {
		r.why, r.pos = fmt.Sprintf(format, a...), pos
	}
}

// isKey tells that a value is an image of the key of the entry that no other
// entry has.
func (r *region) isKey(v ssa.Value) bool {
	if r.keys[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.ChangeType:
		return r.isKey(v.X)
	case *ssa.Convert:
		return r.isKey(v.X)
	case *ssa.MakeInterface:
		return r.isKey(v.X)
	case *ssa.ChangeInterface:
		return r.isKey(v.X)
	case *ssa.TypeAssert:
		return r.isKey(v.X)
	case *ssa.Extract:
		return r.keys[v] || r.isKey2(v)
	case *ssa.BinOp:
		_, cx := v.X.(*ssa.Const)
		_, cy := v.Y.(*ssa.Const)
		return v.Op == token.ADD && (cx && r.isKey(v.Y) || cy && r.isKey(v.X))
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && r.in(a.Block()) && a.Parent() == r.fn {
			n, good := 0, true
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					n++
					good = good && r.isKey(s.Val)
				}
			}
			return n == 1 && good
		}
	}
	return false
}

func (r *region) isKey2(v *ssa.Extract) bool {
	t, ok := v.Tuple.(*ssa.TypeAssert)
	return ok && v.Index == 0 && r.isKey(t.X)
}

// outside tells that a value is the same for all entries.
func (r *region) outside(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.Parameter:
		return !r.keys[v] && (r.blocks != nil || r.keys == nil || !r.fed(v))
	case *ssa.MakeInterface:
		return r.outside(v.X)
	case ssa.Instruction:
		return r.blocks != nil && !r.blocks[v.Block()]
	}
	return false
}

// fed tells that a parameter of a function that is called for each entry may
// depend on the entry.
func (r *region) fed(p *ssa.Parameter) bool { return r.depth == 0 || !r.keys[nil] }

// carried tells that a value depends on the entries before.
func (r *region) carried(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if p, ok := v.(*ssa.Phi); ok && r.header != nil && p.Block() == r.header {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && r.written(u.X) {
		return true
	}
	if l, ok := v.(*ssa.Lookup); ok && r.updated(l.X) && !r.isKey(l.Index) {
		return true
	}
	if k, ok := v.(*ssa.Call); ok {
		if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && r.updated(k.Call.Args[0]) {
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !r.in(in.Block()) || in.Parent() != r.fn {
		return false
	}
	if _, ok := v.(*ssa.Alloc); ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if r.carried(*op, seen) {
			return true
		}
	}
	return false
}

// written tells that memory from outside of the region is written in it.
func (r *region) written(addr ssa.Value) bool {
	for _, b := range r.fn.Blocks {
		if !r.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == addr && !r.own(addr) {
				return true
			}
		}
	}
	return false
}

// updated tells that entries are put in a map from outside, or removed.
func (r *region) updated(m ssa.Value) bool {
	same := func(a ssa.Value) bool {
		if a == m {
			return true
		}
		x, ok1 := a.(*ssa.UnOp)
		y, ok2 := m.(*ssa.UnOp)
		return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && samePlace(x.X, y.X)
	}
	for _, b := range r.fn.Blocks {
		if !r.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if same(in.Map) && !r.own(in.Map) {
					return true
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && same(in.Call.Args[0]) && !r.own(in.Call.Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// own tells that memory is made for each entry anew.
func (r *region) own(addr ssa.Value) bool {
	for {
		if r.owned[addr] {
			return true
		}
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
		case *ssa.IndexAddr:
			addr = a.X
		case *ssa.Slice:
			addr = a.X
		case *ssa.Alloc:
			return a.Parent() == r.fn && r.in(a.Block())
		case *ssa.MakeSlice:
			return r.in(a.Block())
		case *ssa.MakeMap:
			return r.in(a.Block())
		default:
			return false
		}
	}
}

// gathers judges how a value that is kept from entry to entry is changed:
// every way must be one where the order does not matter, or a list that grows.
func (r *region) gathers(old, v ssa.Value, at wayTo, sets map[string]bool, seen map[ssa.Value]bool) (list bool, why string) {
	if v == old || seen[v] || r.sameCell(old, v) {
		return false, ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		sets[v.String()] = true
		return false, ""
	case *ssa.Phi:
		if r.header != nil && v.Block() == r.header {
			break
		}
		for i, e := range v.Edges {
			l, why := r.gathers(old, e, wayTo{v.Block().Preds[i], v.Block()}, sets, seen)
			if why != "" {
				return false, why
			}
			list = list || l
		}
		return
	case *ssa.BinOp:
		b, isB := v.Type().Underlying().(*types.Basic)
		sum := v.Op == token.ADD || v.Op == token.MUL || v.Op == token.OR || v.Op == token.AND || v.Op == token.XOR
		if isB && b.Info()&types.IsInteger != 0 && sum || isB && b.Info()&types.IsInteger != 0 && v.Op == token.SUB {
			x, y := v.X, v.Y
			if v.Op != token.SUB && !r.leads(old, x) {
				x, y = y, x
			}
			op := v.Op
			if op == token.SUB {
				op = token.ADD
			}
			if was, ok := r.ops[old]; ok && was != op {
				return false, "what is kept is changed by several operations"
			}
			if r.leads(old, x) && !r.carried(y, map[ssa.Value]bool{}) {
				if r.ops == nil {
					r.ops = map[ssa.Value]token.Token{}
				}
				r.ops[old] = op
				_, why := r.gathers(old, x, at, map[string]bool{}, seen)
				return false, why
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if r.leads(old, v.Call.Args[0]) && (len(v.Call.Args) < 2 || !r.carried(v.Call.Args[1], map[ssa.Value]bool{})) {
					_, why := r.gathers(old, v.Call.Args[0], at, sets, seen)
					return true, why
				}
			case "min", "max":
				for _, a := range v.Call.Args {
					if r.leads(old, a) {
						return false, ""
					}
				}
			}
		}
	case *ssa.Convert:
		return r.gathers(old, v.X, at, sets, seen)
	}
	if r.outside(v) {
		sets[v.Name()] = true
		return false, ""
	}
	if r.extreme(old, v, at) {
		return false, ""
	}
	return false, "the last entry decides on it"
}

// wayTo is a way from a block to another.
type wayTo struct{ from, to *ssa.BasicBlock }

// extreme tells that a value is kept on an edge only after a comparison with
// the one kept before: the largest or the least stays.
func (r *region) extreme(old, v ssa.Value, at wayTo) bool {
	return r.extremeOf(func(x ssa.Value) bool { return r.same(old, x) }, v, at)
}

// best tells that an entry of a map is the largest or least of its values.
func (r *region) best(in *ssa.MapUpdate) bool {
	return r.extremeOf(func(x ssa.Value) bool {
		if e, ok := x.(*ssa.Extract); ok {
			x = e.Tuple
		}
		l, ok := x.(*ssa.Lookup)
		return ok && (l.X == in.Map || sameExpr(l.X, in.Map)) && (l.Index == in.Key || sameExpr(l.Index, in.Key))
	}, in.Value, wayTo{in.Block(), nil})
}

func (r *region) extremeOf(old func(ssa.Value) bool, v ssa.Value, at wayTo) bool {
	compared := false
	seen := map[*ssa.BasicBlock]bool{}
	var onEdge func(e wayTo) bool
	var inBlock func(b *ssa.BasicBlock) bool
	onEdge = func(e wayTo) bool {
		if i, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If); ok && e.to != nil {
			if r.compares(i.Cond, old, v) {
				compared = true
				return true
			}
			if b, ok := i.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				taken := token.NEQ
				if e.from.Succs[0] == e.to {
					taken = token.EQL
				}
				_, c := b.Y.(*ssa.Const)
				if c && b.Op == taken && r.kept(b.X) || c && old(b.X) && (b.Op == token.EQL) == (e.from.Succs[0] == e.to) {
					return true
				}
			}
			cond := i.Cond
			if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
				cond = n.X
			}
			if r.kept(cond) || old(cond) {
				return true
			}
		}
		return inBlock(e.from)
	}
	inBlock = func(b *ssa.BasicBlock) bool {
		if seen[b] || b == r.header || !r.in(b) || len(b.Preds) == 0 {
			return false
		}
		seen[b] = true
		for _, p := range b.Preds {
			if !onEdge(wayTo{p, b}) {
				return false
			}
		}
		return true
	}
	return onEdge(at) && compared
}

// compares tells that a condition compares a value with the one kept before.
func (r *region) compares(cond ssa.Value, old func(ssa.Value) bool, v ssa.Value) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return old(b.X) && sameExpr(b.Y, v) || old(b.Y) && sameExpr(b.X, v)
	}
	return false
}

func (r *region) same(old, v ssa.Value) bool { return v == old || r.sameCell(old, v) }

// kept tells that a value is one kept from entry to entry.
func (r *region) kept(v ssa.Value) bool {
	if p, ok := v.(*ssa.Phi); ok && r.header != nil && p.Block() == r.header {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && r.written(u.X)
}

// sameExpr tells that two values are the same expression.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		f, ok1 := x.Call.Value.(*ssa.Builtin)
		g, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && f.Name() == "len" && g.Name() == "len" && sameExpr(x.Call.Args[0], y.Call.Args[0])
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && sameExpr(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op == token.MUL && samePlace(x.X, y.X)
	}
	return false
}

// control judges a condition inside: what depends on it must not depend on the
// entries before.
func (r *region) control(in *ssa.If) {
	if !r.carried(in.Cond, map[ssa.Value]bool{}) {
		return
	}
	b := in.Block()
	if r.blocks != nil && (!r.blocks[b.Succs[0]] || !r.blocks[b.Succs[1]]) {
		r.cut = true
		return
	}
	// the key looked up
	var key ssa.Value
	cond := in.Cond
	for cond != nil && key == nil {
		switch x := cond.(type) {
		case *ssa.UnOp:
			cond = x.X
			if x.Op == token.MUL {
				cond = nil
			}
		case *ssa.Extract:
			cond = x.Tuple
		case *ssa.Lookup:
			key = x.Index
			cond = nil
		default:
			cond = nil
		}
	}
	for _, s := range b.Succs {
		if len(s.Preds) != 1 {
			continue
		}
		for _, d := range r.fn.Blocks {
			if !r.in(d) || !s.Dominates(d) {
				continue
			}
			for _, x := range d.Instrs {
				var vals []ssa.Value
				switch x := x.(type) {
				case *ssa.Store:
					if r.own(x.Addr) {
						continue
					}
					if cmp, ok := in.Cond.(*ssa.BinOp); ok && r.compares(cmp, func(o ssa.Value) bool { return r.same(x.Addr, o) }, x.Val) {
						continue
					}
					if r.idempotent(x.Addr, x.Val) {
						continue
					}
					vals = []ssa.Value{x.Val}
				case *ssa.MapUpdate:
					if r.own(x.Map) || r.best(x) {
						continue
					}
					vals = []ssa.Value{x.Key, x.Value}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "append" && b.Name() != "print" && b.Name() != "println" {
						continue
					}
					vals = x.Call.Args
				case *ssa.BinOp:
					lead := false
					for _, p := range r.phis() {
						lead = lead || r.leads(p, x.X) || r.leads(p, x.Y)
					}
					if bt, ok := x.Type().Underlying().(*types.Basic); !lead || ok && bt.Kind() == types.Bool || ok && bt.Kind() == types.UntypedBool {
						continue
					}
					vals = []ssa.Value{x.X, x.Y}
				case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Return:
					r.fail(x.Pos(), "it depends on the entries before")
					return
				default:
					continue
				}
				for _, v := range vals {
					if key == nil || !r.only(v, key, map[ssa.Value]bool{}) {
						pos := x.Pos()
						if !pos.IsValid() {
							pos = in.Cond.Pos()
						}
						r.fail(pos, "it depends on the entries before")
						return
					}
				}
			}
		}
	}
}

// idempotent tells that every store to a cell stores the same constant.
func (r *region) idempotent(addr, v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	for _, b := range r.fn.Blocks {
		if r.in(b) {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == addr {
					if c, ok := s.Val.(*ssa.Const); !ok || c.String() != k.String() {
						return false
					}
				}
			}
		}
	}
	return true
}

func (r *region) phis() (res []*ssa.Phi) {
	if r.header != nil {
		for _, in := range r.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				res = append(res, p)
			}
		}
	}
	return
}

// only tells that a value depends on the entry by nothing but a key.
func (r *region) only(v, key ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || v == key || seen[v] || sameExpr(v, key) {
		return true
	}
	seen[v] = true
	if r.keys[v] {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
		return true
	case *ssa.Parameter:
		return false
	case *ssa.Next, *ssa.Lookup:
		return false
	case *ssa.Phi:
		if r.header != nil && v.Block() == r.header {
			return true // what was kept before
		}
	case *ssa.Alloc:
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if !r.only(u.Val, key, seen) {
					return false
				}
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if s, ok := w.(*ssa.Store); ok && !r.only(s.Val, key, seen) {
						return false
					}
				}
			}
		}
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if !r.in(in.Block()) {
		return true
	}
	for _, op := range in.Operands(nil) {
		if !r.only(*op, key, seen) {
			return false
		}
	}
	return true
}

// leads tells that a value is made from the one kept before.
func (r *region) leads(old, v ssa.Value) bool {
	if v == old || r.sameCell(old, v) {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return r.leads(old, v.X) || r.leads(old, v.Y)
	case *ssa.Phi:
		if r.header != nil && v.Block() == r.header {
			return false
		}
		for _, e := range v.Edges {
			if r.leads(old, e) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return r.leads(old, v.Call.Args[0])
		}
	case *ssa.Convert:
		return r.leads(old, v.X)
	}
	return false
}

// sameCell tells that a value was read from the cell that is written.
func (r *region) sameCell(addr, v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	return samePlace(addr, u.X)
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && samePlace(x.X, y.X)
}

// effects judges everything that is done for an entry.
func (r *region) effects() {
	if r.depth > 4 {
		r.fail(r.fn.Pos(), "calls are nested too deep")
		return
	}
	for _, b := range r.fn.Blocks {
		if !r.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			r.effect(in)
		}
		if r.blocks == nil {
			continue
		}
		for _, s := range b.Succs {
			if !r.blocks[s] && b != r.header {
				r.exits = true
			}
		}
	}
	if r.blocks == nil {
		return
	}
	if r.exits && r.effs > 0 {
		r.fail(r.header.Instrs[0].Pos(), "the walk is left before all entries were used")
	}
	// what is used behind the loop
	for b := range r.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if p, ok := in.(*ssa.Phi); ok && b == r.header {
				r.carry(p)
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() != nil && !r.blocks[u.Block()] {
					if _, ok := u.(*ssa.DebugRef); !ok && !r.early(v, u) {
						r.fail(u.Pos(), "what is found first is used: %v", describe(v))
					}
				}
			}
		}
	}
}

// early allows values which are the same whichever entry stopped the walk.
func (r *region) early(v ssa.Value, u ssa.Instruction) bool { return r.outside(v) }

func describe(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok {
		return strings.TrimSpace(in.String())
	}
	return v.Name()
}

// carry judges a variable that is kept from entry to entry.
func (r *region) carry(p *ssa.Phi) {
	list, why := false, ""
	sets := map[string]bool{}
	for i, e := range p.Edges {
		if r.blocks[p.Block().Preds[i]] {
			l, w := r.gathers(p, e, wayTo{p.Block().Preds[i], p.Block()}, sets, map[ssa.Value]bool{})
			if w != "" {
				why = w
			}
			list = list || l
		}
	}
	used := false
	for _, u := range *p.Referrers() {
		used = used || u.Block() != nil && !r.blocks[u.Block()]
	}
	switch {
	case why != "" || len(sets) > 1:
		// whether it is used inside is seen where it is used
		if used {
			r.fail(p.Pos(), "the last entry decides on %s", p.Comment)
		}
	case list:
		r.lists = append(r.lists, p)
	}
	if used && (r.cut || r.exits && (list || len(sets) == 0)) {
		r.fail(p.Pos(), "the walk is left early with %s", p.Comment)
	}
}

// effect judges an instruction.
func (r *region) effect(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		if r.own(in.Addr) {
			return
		}
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok && r.isKey(ia.Index) && !r.carried(in.Val, map[ssa.Value]bool{}) {
			return
		}
		sets := map[string]bool{}
		list, why := r.gathers(in.Addr, in.Val, wayTo{in.Block(), nil}, sets, map[ssa.Value]bool{})
		if len(sets) == 0 {
			r.effs++
		}
		switch {
		case why != "" || len(sets) > 1:
			r.fail(in.Pos(), "the last entry decides on %s", in.Addr.Name())
		case list:
			r.lists = append(r.lists, in.Addr)
		}
	case *ssa.If:
		r.control(in)
	case *ssa.MapUpdate:
		if !r.own(in.Map) {
			r.effs++
		}
		switch {
		case r.own(in.Map):
		case r.isKey(in.Key) && !r.carried(in.Value, map[ssa.Value]bool{}):
		case r.outside(in.Value):
		case r.counts(in), r.best(in):
		default:
			r.fail(in.Pos(), "entries of a map are overwritten in the order of the walk")
		}
	case *ssa.Send:
		r.fail(in.Pos(), "entries are sent in the order of the walk")
	case *ssa.Go, *ssa.Defer:
		r.fail(in.Pos(), "functions are started in the order of the walk")
	case *ssa.Return:
		if r.blocks == nil {
			return
		}
		for _, v := range in.Results {
			if !r.outside(v) {
				r.fail(in.Pos(), "what is found first is returned")
			}
		}
	case *ssa.Call:
		r.call(in)
	}
}

// counts tells that an entry of a map is a sum.
func (r *region) counts(in *ssa.MapUpdate) bool {
	b, ok := in.Value.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	bt, ok := b.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	for _, x := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if l, ok := x[0].(*ssa.Lookup); ok && l.X == in.Map && l.Index == in.Key && !r.carried(x[1], map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// keyed are calls that put a value at a key: the place of the key.
var keyed = map[string]int{
	"(*" + luaPkg + ".LState).SetField": 2, "(*" + luaPkg + ".LState).SetGlobal": 1, "(*" + luaPkg + ".LState).SetTable": 2,
	"(*" + luaPkg + ".LState).RawSet": 2, "(*" + luaPkg + ".LTable).RawSet": 1, "(*" + luaPkg + ".LTable).RawSetString": 1,
	"(*" + luaPkg + ".LTable).RawSetH": 1, "(*" + luaPkg + ".LTable).RawSetInt": 1,
}

// call judges a call.
func (r *region) call(in *ssa.Call) {
	com := in.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			r.fail(in.Pos(), "entries are printed in the order of the walk")
		case "copy":
			if !r.own(com.Args[0]) {
				r.fail(in.Pos(), "the last entry decides on what is copied")
			}
		}
		return
	}
	if com.IsInvoke() {
		switch com.Method.Name() {
		case "Name", "Len", "Size", "IsDir", "Error", "String", "Type", "Mode", "ModTime", "Less", "Unwrap", "Is":
			return
		}
		r.fail(in.Pos(), "%s is called in the order of the walk", com.Method.Name())
		return
	}
	fn := com.StaticCallee()
	if fn == nil {
		r.fail(in.Pos(), "a function is called in the order of the walk")
		return
	}
	name := cname(fn)
	if fn.Origin() != nil {
		name = cname(fn.Origin())
	}
	if k, ok := keyed[name]; ok {
		r.effs++
		if k >= len(com.Args) || !r.isKey(com.Args[k]) || r.carried(com.Args[len(com.Args)-1], map[ssa.Value]bool{}) {
			r.fail(in.Pos(), "entries of a table are set in the order of the walk")
		}
		return
	}
	pkg := ""
	if p := fnPkg(fn); p != nil {
		pkg = p.Path()
	}
	if pkg == luaPkg && (strings.HasPrefix(fn.Name(), "New") || fn.Name() == "String" || fn.Name() == "Type" || strings.HasPrefix(fn.Name(), "LVAs")) {
		return
	}
	switch pkg {
	case "strings", "strconv", "path", "path/filepath", "unicode", "unicode/utf8", "errors", "math", "math/bits", "bytes", "sort", "slices", "cmp", "time", "encoding/hex", "encoding/binary", "mime":
		if com.Signature().Recv() == nil || pkg == "time" {
			return
		}
	case "fmt":
		if strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf" {
			return
		}
	}
	if !r.c.P.InRepo(fn) || len(fn.Blocks) == 0 {
		r.fail(in.Pos(), "%s is called in the order of the walk", name)
		return
	}
	sub := &region{c: r.c, fn: fn, keys: map[ssa.Value]bool{}, owned: map[ssa.Value]bool{}, depth: r.depth + 1}
	for i, a := range com.Args {
		if i < len(fn.Params) {
			sub.keys[fn.Params[i]] = r.isKey(a)
			sub.owned[fn.Params[i]] = r.own(a)
		}
	}
	var binds []ssa.Value
	if mc, ok := com.Value.(*ssa.MakeClosure); ok {
		binds = mc.Bindings
		for i, a := range binds {
			sub.owned[fn.FreeVars[i]] = r.own(a)
		}
	}
	r.c.Analysed(fn, nil)
	sub.effects()
	r.effs += sub.effs
	for _, l := range sub.lists {
		at := ssa.Value(nil)
		for i, p := range fn.Params {
			if l == p && i < len(com.Args) {
				at = com.Args[i]
			}
		}
		for i, f := range fn.FreeVars {
			if l == f && i < len(binds) {
				at = binds[i]
			}
		}
		if at == nil {
			sub.fail(fn.Pos(), "a list grows in the order of the walk")
		} else {
			r.lists = append(r.lists, at)
		}
	}
	if sub.why != "" {
		r.fail(in.Pos(), "%s: %s", cname(fn), sub.why)
	}
}

// sorted decides that a list is put in order before it is used.
func (c *Check) sorted(v ssa.Value, from func(ssa.Instruction) bool, depth int) (why string, pos token.Pos) {
	if depth > 4 {
		return "it is not known whether the list is sorted", v.Pos()
	}
	type use struct {
		in   ssa.Instruction
		sort bool
		why  string
	}
	var uses []use
	var visit func(v ssa.Value, seen map[ssa.Value]bool)
	visit = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			if from != nil && !from(in) || in.Parent() != nil && in.Block() == in.Parent().Recover {
				continue
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				if in.Addr == v {
					continue
				}
				if in.Val == v {
					if a, ok := in.Addr.(*ssa.Alloc); ok && !a.Heap {
						visit(a, seen)
						continue
					}
				}
			case *ssa.MakeClosure:
				// a comparison that looks at the list
				continue
			case *ssa.MakeInterface:
				visit(in, seen)
				continue
			case *ssa.ChangeType:
				visit(in, seen)
				continue
			case *ssa.Convert:
				visit(in, seen)
				continue
			case *ssa.UnOp:
				if in.Op == token.MUL {
					visit(in, seen)
					continue
				}
			case *ssa.Phi:
				visit(in, seen)
				continue
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if ok, why := c.putsInOrder(in, v, depth); ok {
					uses = append(uses, use{in, why == "", why})
					continue
				}
			case *ssa.BinOp: // comparison with nil
				continue
			}
			uses = append(uses, use{in: in})
		}
	}
	visit(v, map[ssa.Value]bool{})
	for _, u := range uses {
		if u.sort {
			continue
		}
		if u.why != "" {
			return u.why, u.in.Pos()
		}
		ok := false
		for _, s := range uses {
			if s.sort && before(s.in, u.in) {
				ok = true
			}
		}
		if ok {
			continue
		}
		if ret, isRet := u.in.(*ssa.Return); isRet {
			if why, pos := c.returned(ret, v, depth); why != "" {
				return why, pos
			}
			continue
		}
		return "the list is used before it is sorted", u.in.Pos()
	}
	return "", token.NoPos
}

// before tells that an instruction is always run before another one.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// returned judges the uses of a list in the callers of the function that gives it.
func (c *Check) returned(ret *ssa.Return, v ssa.Value, depth int) (string, token.Pos) {
	at := -1
	for i, x := range ret.Results {
		if x == v {
			at = i
		}
	}
	sites, known := c.callSites(ret.Parent())
	if len(sites) == 0 || at < 0 || !known {
		return "the list is returned without being sorted", ret.Pos()
	}
	for _, call := range sites {
		var list ssa.Value = call
		if len(ret.Results) > 1 {
			list = nil
			for _, u := range *call.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == at {
					list = e
				}
			}
			if list == nil {
				continue
			}
		}
		if why, pos := c.sorted(list, nil, depth+1); why != "" {
			return why, pos
		}
	}
	return "", token.NoPos
}

// putsInOrder tells that a call sorts a list; and why not well.
func (c *Check) putsInOrder(call *ssa.Call, v ssa.Value, depth int) (bool, string) {
	fn := call.Call.StaticCallee()
	if fn == nil {
		return false, ""
	}
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	pkg := ""
	if p := fnPkg(fn); p != nil {
		pkg = p.Path()
	}
	switch pkg {
	case "sort", "slices":
		switch name {
		case "Strings", "Ints", "Float64s", "Sort", "Stable", "Sorted":
			return true, ""
		case "Slice", "SliceStable", "SortFunc", "SortStableFunc", "SortedFunc":
			var f *ssa.Function
			switch x := call.Call.Args[len(call.Call.Args)-1].(type) {
			case *ssa.MakeClosure:
				f, _ = x.Fn.(*ssa.Function)
			case *ssa.Function:
				f = x
			}
			if f != nil && !totalOrder(f) {
				return true, "the list is sorted by what several elements may have in common"
			}
			return true, ""
		case "IsSorted", "StringsAreSorted", "SliceIsSorted", "Contains", "Max", "Min", "Index":
			return name == "Contains" || name == "Max" || name == "Min", ""
		}
	}
	if !c.P.InRepo(fn) || len(fn.Blocks) == 0 {
		return false, ""
	}
	for i, a := range call.Call.Args {
		if a == v && i < len(fn.Params) {
			if why, _ := c.sorted(fn.Params[i], nil, depth+1); why == "" && c.sorts1(fn.Params[i]) {
				return true, ""
			}
		}
	}
	return false, ""
}

// sorts1 tells that a function sorts a list it gets.
func (c *Check) sorts1(p *ssa.Parameter) bool {
	for _, u := range *p.Referrers() {
		switch u := u.(type) {
		case *ssa.Call:
			if ok, why := c.putsInOrder(u, p, 3); ok && why == "" {
				return true
			}
		case *ssa.MakeInterface:
			for _, w := range *u.Referrers() {
				if k, ok := w.(*ssa.Call); ok {
					if ok, why := c.putsInOrder(k, u, 3); ok && why == "" {
						return true
					}
				}
			}
		}
	}
	return false
}

// totalOrder tells that a comparison compares elements themselves, or a name,
// at least in the end.
func totalOrder(f *ssa.Function) bool {
	var own func(v ssa.Value) bool
	own = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return false
			}
			switch a := v.X.(type) {
			case *ssa.IndexAddr:
				return true
			case *ssa.FieldAddr:
				return isString(v.Type()) && own2(a.X)
			}
			return false
		case *ssa.Field:
			return isString(v.Type()) && own(v.X)
		case *ssa.Call:
			if v.Call.IsInvoke() {
				return (v.Call.Method.Name() == "Name" || v.Call.Method.Name() == "String") && own(v.Call.Value)
			}
			fn := v.Call.StaticCallee()
			return fn != nil && len(v.Call.Args) == 1 && (fn.Name() == "Name" || fn.Name() == "String") && own(v.Call.Args[0])
		case *ssa.Convert:
			return own(v.X)
		case *ssa.ChangeType:
			return own(v.X)
		case *ssa.MakeInterface:
			return own(v.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				if (in.Op == token.LSS || in.Op == token.GTR) && own(in.X) && own(in.Y) {
					return true
				}
			case *ssa.Call:
				if fn := in.Call.StaticCallee(); fn != nil && len(in.Call.Args) == 2 {
					n := fn.Name()
					if fn.Origin() != nil {
						n = fn.Origin().Name()
					}
					if n == "Compare" && own(in.Call.Args[0]) && own(in.Call.Args[1]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func own2(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.IndexAddr, *ssa.Parameter:
		return true
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.IndexAddr)
		return ok
	}
	return false
}

func init() {
	register("C45", "dataflow over every walk over a hash map: which effects of an iteration depend on those before",
		"Every walk over a map in the library, the scripting module and the commands is found in the intermediate representation: range loops, callbacks of table and map walks, lists of keys. For each, every effect of an iteration is proved to be independent of the order: it lands at a place that belongs to the key alone, or it is a sum, count or constant, or it adds to a list that is sorted by a total order before any other use, also when the list is returned; nothing found first or last is returned, kept, written, raised or reported.",
		[]string{"tables of the scripting engine walked by Next keep the order of their keys"},
		func(c *Check) {
			c.Rule("nothing observable follows the order of a walk over a map")
			for _, fn := range c.P.Fns {
				if !c.P.InRepo(fn) || len(fn.Blocks) == 0 {
					continue
				}
				c.Inst("functions")
				c.Analysed(fn, nil)
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						switch in := in.(type) {
						case *ssa.Range:
							if _, ok := in.X.Type().Underlying().(*types.Map); ok {
								c.mapWalk(fn, in)
							}
						case *ssa.Call:
							c.otherWalk(fn, in)
						}
					}
				}
			}
			c.AtLeast("functions", 100)
		})
}

// mapWalk judges a range loop over a map.
func (c *Check) mapWalk(fn *ssa.Function, rg *ssa.Range) {
	c.Inst("walks over maps")
	c.Site(rg.Pos())
	for _, u := range *rg.Referrers() {
		next, ok := u.(*ssa.Next)
		if !ok {
			continue
		}
		h := next.Block()
		r := &region{c: c, fn: fn, header: h, blocks: naturalLoop(h), keys: map[ssa.Value]bool{}}
		for _, x := range *next.Referrers() {
			if e, ok := x.(*ssa.Extract); ok && e.Index == 1 {
				r.keys[e] = true
			}
		}
		if len(r.blocks) == 0 { // left in the first iteration
			for _, x := range *next.Referrers() {
				if e, ok := x.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
					c.Fail(rg.Pos(), fn, "walk", "only one entry is taken from a map")
					return
				}
			}
			c.Holds()
			return
		}
		r.effects()
		c.finish(r, rg.Pos(), func(in ssa.Instruction) bool { return !r.blocks[in.Block()] })
	}
}

// naturalLoop gives the blocks of the loop with a header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]bool{}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if res[b] {
			return
		}
		res[b] = true
		if b != h {
			for _, p := range b.Preds {
				add(p)
			}
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			res[h] = true
			add(p)
		}
	}
	return res
}

// finish reports on a region.
func (c *Check) finish(r *region, pos token.Pos, from func(ssa.Instruction) bool) {
	if r.why != "" {
		at := r.pos
		if !at.IsValid() {
			at = pos
		}
		c.Fail(at, r.fn, "walk", "%s", r.why)
		return
	}
	seen := map[ssa.Value]bool{}
	for _, l := range r.lists {
		if seen[l] {
			continue
		}
		seen[l] = true
		c.Inst("lists")
		if why, at := c.sorted(l, from, 0); why != "" {
			if !at.IsValid() {
				at = pos
			}
			c.Fail(at, r.fn, "list", "entries are collected in the order of the walk, and %s", why)
			return
		}
	}
	c.Holds()
}

// otherWalk judges calls that walk over maps.
func (c *Check) otherWalk(fn *ssa.Function, call *ssa.Call) {
	callee := call.Call.StaticCallee()
	if callee == nil {
		return
	}
	name := cname(callee)
	if callee.Origin() != nil {
		name = cname(callee.Origin())
	}
	switch {
	case unorderedLists[name]:
		c.Inst("walks over maps")
		c.Site(call.Pos())
		if why, at := c.sorted(call, nil, 0); why != "" {
			c.Fail(at, fn, "list", "the keys of a map are listed in no order, and %s", why)
			return
		}
		c.Holds()
	case unorderedWalks[name]:
		c.Inst("walks over maps")
		c.Site(call.Pos())
		var f *ssa.Function
		var binds []ssa.Value
		switch x := call.Call.Args[len(call.Call.Args)-1].(type) {
		case *ssa.MakeClosure:
			f, _ = x.Fn.(*ssa.Function)
			binds = x.Bindings
		case *ssa.Function:
			f = x
		}
		if f == nil || len(f.Blocks) == 0 {
			c.Fail(call.Pos(), fn, "walk", "entries are handed in no order to a function which is not known")
			return
		}
		r := &region{c: c, fn: f, keys: map[ssa.Value]bool{}}
		if len(f.Params) > 0 {
			r.keys[f.Params[0]] = true
		}
		r.effects()
		for i, l := range r.lists {
			for k, fv := range f.FreeVars {
				if l == fv {
					r.lists[i] = binds[k]
				}
			}
		}
		r.fn = fn
		c.finish(r, call.Pos(), func(in ssa.Instruction) bool {
			if _, ok := in.(*ssa.MakeClosure); ok {
				return false
			}
			return before(call, in) && in != call
		})
	}
}

// callSites gives the calls of a function; known: it is not used otherwise.
func (c *Check) callSites(fn *ssa.Function) (sites []*ssa.Call, known bool) {
	known = true
	for f := range c.P.callers(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g != fn && g.Origin() != fn {
						continue
					}
					call, ok := in.(*ssa.Call)
					if ok && call.Call.Value == *op {
						sites = append(sites, call)
					} else {
						known = false
					}
				}
			}
		}
	}
	return
}
