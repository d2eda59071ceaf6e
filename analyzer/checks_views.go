package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership of byte memory: which values address the bytes of a string.
type own uint8

const (
	ownAny   own = iota // unknown, not the memory of a string
	ownNew              // allocated here
	ownNil              // nil
	ownTrue             // a flag that is set
	ownFalse            // a flag that is not
	ownHead             // address of a string header
	ownStr              // bytes of a string
	ownSub              // bytes of a string, with more of them in the capacity
	ownPar              // ownPar+k: memory of parameter k
)

const ownMax = 24 // parameters

func isPar(o own) bool { return o >= ownPar }

// ownJoin is a value that is at least as dangerous.
func ownJoin(a, b own) own {
	if a == b {
		return a
	}
	rank := func(o own) int {
		switch {
		case o == ownSub:
			return 4
		case o == ownStr:
			return 3
		case isPar(o):
			return 2
		case o == ownHead:
			return 1
		}
		return 0
	}
	if rank(a) < rank(b) {
		a, b = b, a
	}
	if rank(a) == 0 {
		return ownAny
	}
	return a
}

// viewSum is what callers need to know of a function.
type viewSum struct {
	writes  map[int]token.Pos // parameters whose memory is written
	appends map[int]token.Pos // parameters whose spare capacity is written
	stored  map[int]bool      // parameters that are put into the table
	res     []map[own]bool
}

type viewFrame struct {
	fn  *ssa.Function
	pos token.Pos
}

type viewFlow struct {
	frames []viewFrame
	table  bool // the memory of stored tagsets is watched, not that of strings
	what   string
	c      *Check
	sums   map[*ssa.Function]*viewSum
	cells  map[string]own // what is stored in fields, variables and captured cells
	dirty  bool
	final  bool
	sites  map[token.Pos]bool
	hidden map[*ssa.Function]bool // closures examined where they are called
	lives  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	parts  map[string]ssa.Value
	funcs  map[*ssa.Parameter]ssa.Value
	stack  map[*ssa.Function]bool
	binds  map[*ssa.FreeVar]ssa.Value
}

// viewable are the values through which bytes can be written.
func viewable(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Slice:
		return isByteT(u.Elem())
	case *types.Pointer:
		if b, ok := under(u.Elem()).(*types.Basic); ok {
			return b.Info()&types.IsNumeric != 0
		}
		switch a := under(u.Elem()).(type) {
		case *types.Array:
			return isByteT(a.Elem())
		case *types.Slice:
			return false
		}
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// ownKey is a value, or the content of a variable.
type ownKey struct {
	v    ssa.Value
	cell bool
}

type ownState map[ownKey]own

func (s ownState) key() string {
	var ks []string
	for v, o := range s {
		ks = append(ks, fmt.Sprintf("%p%v=%d", v.v, v.cell, o))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s ownState) clone() ownState {
	n := ownState{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

func (s ownState) set(v ssa.Value, o own) { s.put(ownKey{v, false}, o) }
func (s ownState) put(k ownKey, o own) {
	if o == ownAny {
		delete(s, k)
		return
	}
	s[k] = o
}

// cell is the variable a value addresses, if nothing but direct loads and stores access it.
func (w *viewFlow) cell(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.FreeVar:
			b := w.binds[x]
			if b == nil {
				return nil
			}
			v = b
			continue
		case *ssa.Alloc:
			if w.plainAddr(x, 0) {
				return x
			}
		}
		break
	}
	return nil
}

func (w *viewFlow) plainAddr(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != v || x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if w.sums[x.Fn.(*ssa.Function)] == nil || !w.inlined(x) {
				return false
			}
			for i, b := range x.Bindings {
				if b == v && !w.plainAddr(x.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// inlined tells that a closure is only ever called where it is visible.
func (w *viewFlow) inlined(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			for k, a := range x.Call.Args {
				f := x.Call.StaticCallee()
				if a == m && (f == nil || w.sums[f] != nil) && !w.onlyCalls(f, k) {
					return false // functions of other packages are taken to call it before they return
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// onlyCalls tells that a function does nothing but call its parameter.
func (w *viewFlow) onlyCalls(fn *ssa.Function, k int) bool {
	if fn == nil || w.sums[fn] == nil || k >= len(fn.Params) {
		return false
	}
	for _, r := range *fn.Params[k].Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if a == fn.Params[k] {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (w *viewFlow) cellOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Alloc:
		return fmt.Sprintf("var %p", v)
	case *ssa.Global:
		return "global " + v.String()
	case *ssa.FieldAddr:
		if p, ok := under(v.X.Type()).(*types.Pointer); ok {
			return fmt.Sprintf("field %s.%d", p.Elem(), v.Field)
		}
	case *ssa.IndexAddr:
		return fmt.Sprintf("element of %s", v.X.Type())
	case *ssa.FreeVar:
		if b := w.binds[v]; b != nil {
			return w.cellOf(b)
		}
		return fmt.Sprintf("var %p", v)
	}
	return "pointer to " + v.Type().String()
}

func (w *viewFlow) put(cell string, o own) {
	if o != ownStr && o != ownSub {
		return
	}
	if n := ownJoin(w.cells[cell], o); n != w.cells[cell] {
		w.cells[cell], w.dirty = n, true
	}
}

func (w *viewFlow) val(st ownState, v ssa.Value) own {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return ownNil
		}
		if k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) {
				return ownTrue
			}
			return ownFalse
		}
		return ownAny
	}
	return st[ownKey{v, false}]
}

// writersOf are the arguments an external function fills.
func writtenArgs(com *ssa.CallCommon) (out []int) {
	name, method := "", ""
	var sig = com.Signature()
	if com.IsInvoke() {
		method = com.Method.Name()
	} else if f := com.StaticCallee(); f != nil {
		name = f.String()
		method = f.Name()
	}
	off := 0
	if !com.IsInvoke() && sig.Recv() != nil {
		off = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if sl, ok := under(p.Type()).(*types.Slice); !ok || sig.Variadic() && i == sig.Params().Len()-1 && !isByteT(sl.Elem()) {
			continue
		}
		n := strings.ToLower(p.Name())
		switch {
		case strings.HasPrefix(method, "Read") && !strings.HasPrefix(name, "os.ReadFile"),
			strings.HasPrefix(method, "Put") && strings.Contains(name, "binary"),
			n == "dst" || n == "out" || n == "dest",
			strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || strings.HasPrefix(name, "slices.Delete") || strings.HasPrefix(name, "slices.Replace") || strings.HasPrefix(name, "slices.Insert") || strings.HasPrefix(name, "slices.Compact"),
			strings.HasPrefix(name, "sort."):
			out = append(out, i+off)
		}
	}
	return
}

func (w *viewFlow) bad(fn *ssa.Function, pos token.Pos, format string, a ...any) {
	if !w.final {
		return
	}
	msg := fmt.Sprintf(format, a...)
	for i := len(w.frames) - 1; i >= 0; i-- {
		msg += " in " + cname(fn) + " (" + w.c.P.Pos(at(pos, fn)) + ")"
		fn, pos = w.frames[i].fn, w.frames[i].pos
	}
	w.c.Fail(at(pos, fn), fn, "write", "%s", msg)
}

// wrote handles a write through a value.
func (w *viewFlow) wrote(fn *ssa.Function, sum *viewSum, o own, pos token.Pos, what string) {
	if w.final {
		w.sites[pos] = true
	}
	switch {
	case o == ownStr || o == ownSub:
		w.bad(fn, pos, "%s through %s", what, w.what)
	case isPar(o):
		k := int(o-ownPar) % ownMax
		if _, ok := sum.writes[k]; !ok {
			sum.writes[k] = pos
			w.dirty = true
		}
	}
}

// analyse examines a function for arbitrary arguments.
func (w *viewFlow) analyse(fn *ssa.Function) {
	if fn.Parent() != nil && w.hidden[fn] {
		return // examined where it is called
	}
	sum := w.sums[fn]
	init := ownState{}
	exported := fn.Object() != nil && fn.Object().Exported()
	for k, p := range fn.Params {
		if !viewable(p.Type()) || k >= ownMax {
			continue
		}
		o := ownPar + own(k)
		if n, ok := types.Unalias(p.Type()).(*types.Named); ok && exported && !w.table && n.Obj().Name() == "TagRaw" {
			o = ownStr // a tag made of a string
		}
		init.set(p, o)
	}
	for _, r := range w.walk(fn, sum, init, 0) {
		for i, o := range r.res {
			if o == ownTrue || o == ownFalse || o == ownNil {
				o = ownNew
			}
			if !sum.res[i][o] {
				sum.res[i][o] = true
				w.dirty = true
			}
		}
	}
}

type ownRet struct {
	st  ownState
	res []own
}

// walk follows all paths of a function; the state may hold values of callers too.
func (w *viewFlow) walk(fn *ssa.Function, sum *viewSum, init ownState, depth int) (rets []ownRet) {
	type item struct {
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		st   ownState
	}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	done := map[string]bool{}
	work := []item{{fn.Blocks[0], nil, init}}
	live := w.lives[fn]
	if live == nil {
		live = liveIn(fn)
		w.lives[fn] = live
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		b, st := it.b, it.st.clone()
		// phis are assigned in parallel
		if it.pred != nil {
			k := -1
			for i, p := range b.Preds {
				if p == it.pred {
					k = i
				}
			}
			nv := map[ssa.Value]own{}
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					nv[phi] = w.val(st, phi.Edges[k])
				}
			}
			for v, o := range nv {
				st.set(v, o)
			}
		}
		for v := range st {
			if !v.cell && v.v.Parent() == fn && !live[b][v.v] {
				if phi, ok := v.v.(*ssa.Phi); !ok || phi.Block() != b {
					delete(st, v)
				}
			}
		}
		if seen[b] == nil {
			seen[b] = map[string]bool{}
		}
		if len(seen[b]) > 256 { // give up the flags
			for v, o := range st {
				if o == ownTrue || o == ownFalse || o == ownNil || o == ownNew {
					delete(st, v)
				}
			}
		}
		key := st.key()
		if seen[b][key] {
			continue
		}
		seen[b][key] = true
		states := []ownState{st}
		for _, in := range b.Instrs {
			var next []ownState
			for _, st := range states {
				next = append(next, w.step(fn, sum, st, in, depth)...)
			}
			states = next
		}
		for _, st := range states {
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				for i, s := range b.Succs {
					n := st.clone()
					if assumeFlag(w, n, t.Cond, i == 0) {
						work = append(work, item{s, b, n})
					}
				}
			case *ssa.Return:
				r := ownRet{st: st.clone()}
				for _, v := range t.Results {
					r.res = append(r.res, w.val(st, v))
				}
				for v := range r.st {
					if v.v.Parent() == fn {
						delete(r.st, v)
					}
				}
				k := r.st.key() + fmt.Sprint(r.res)
				if !done[k] {
					done[k] = true
					rets = append(rets, r)
				}
			default:
				for _, s := range b.Succs {
					work = append(work, item{s, b, st})
				}
			}
		}
	}
	return
}

// assumeFlag refines flags by a branch; false if it cannot be taken.
func assumeFlag(w *viewFlow, st ownState, cond ssa.Value, want bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return assumeFlag(w, st, x.X, !want)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := want == (x.Op == token.EQL)
			a, b := w.val(st, x.X), w.val(st, x.Y)
			if a == ownNil {
				a, b = b, a
			}
			if b == ownNil && viewable(x.X.Type()) {
				if a == ownNil {
					return eq
				}
				if a == ownNew && eq {
					return false
				}
				return true
			}
			if (b == ownTrue || b == ownFalse) && (a == ownTrue || a == ownFalse) {
				return eq == (a == b)
			}
			if viewable(x.X.Type()) && (a == ownNew && (b == ownStr || b == ownSub) || b == ownNew && (a == ownStr || a == ownSub)) {
				return !eq
			}
		}
	}
	switch w.val(st, cond) {
	case ownTrue:
		return want
	case ownFalse:
		return !want
	}
	if _, ok := cond.(*ssa.Const); !ok {
		o := ownFalse
		if want {
			o = ownTrue
		}
		st.set(cond, o)
		if ld, ok := cond.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if a := w.cell(ld.X); a != nil {
				if x := st[ownKey{a, true}]; x == ownAny {
					st.put(ownKey{a, true}, o)
				}
			}
		}
	}
	return true
}

func (w *viewFlow) step(fn *ssa.Function, sum *viewSum, st ownState, in ssa.Instruction, depth int) []ownState {
	v, isV := in.(ssa.Value)
	set := func(o own) { st.set(v, o) }
	if _, phi := in.(*ssa.Phi); isV && !phi {
		delete(st, ownKey{v, false})
	}
	one := []ownState{st}
	switch x := in.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			switch w.val(st, x.X) {
			case ownTrue:
				set(ownFalse)
			case ownFalse:
				set(ownTrue)
			}
		case token.MUL:
			if w.val(st, x.X) == ownHead {
				set(ownStr)
			} else if a := w.cell(x.X); a != nil {
				set(st[ownKey{a, true}])
			} else if viewable(x.Type()) {
				set(w.cells[w.cellOf(x.X)])
				if w.table && w.stored(fn, x.X) {
					set(ownStr)
					if w.final {
						w.c.Inst("loads of stored tagsets")
					}
				}
			}
		}
	case *ssa.ChangeType:
		set(w.val(st, x.X))
	case *ssa.Convert:
		o := w.val(st, x.X)
		if viewable(x.Type()) && viewable(x.X.Type()) {
			set(o)
			if p, ok := under(x.X.Type()).(*types.Pointer); ok && o == ownAny {
				if b, ok := under(p.Elem()).(*types.Basic); ok && b.Kind() == types.String {
					set(ownHead)
				}
			}
		} else if p, ok := under(x.X.Type()).(*types.Pointer); ok {
			if b, ok := under(p.Elem()).(*types.Basic); ok && b.Kind() == types.String {
				set(ownHead)
			}
		} else if o == ownHead {
			set(ownHead)
		} else if viewable(x.Type()) {
			set(ownNew)
		}
	case *ssa.MakeSlice, *ssa.Alloc:
		if a, ok := in.(*ssa.Alloc); ok {
			if w.cell(a) != nil {
				switch t := under(a.Type().(*types.Pointer).Elem()).(type) {
				case *types.Basic:
					if t.Info()&types.IsBoolean != 0 {
						st.put(ownKey{a, true}, ownFalse)
					}
				case *types.Slice, *types.Pointer:
					st.put(ownKey{a, true}, ownNil)
				}
				return one
			}
			if w.cells[w.cellOf(a)] != ownAny {
				return one
			}
		}
		set(ownNew)
	case *ssa.Slice:
		o := w.val(st, x.X)
		if o == ownStr && x.High != nil && x.Max == nil {
			o = ownSub
		}
		if o == ownSub && x.Max != nil && x.Max == x.High {
			o = ownStr
		}
		if isPar(o) && int(o-ownPar) < ownMax && x.High != nil && x.Max == nil {
			o += ownMax
		}
		if o == ownNil {
			o = ownAny
		}
		set(o)
	case *ssa.SliceToArrayPointer:
		set(w.val(st, x.X))
	case *ssa.IndexAddr:
		if o := w.val(st, x.X); o == ownStr || o == ownSub || isPar(o) || o == ownNew {
			set(o)
		}
	case *ssa.FieldAddr:
		if w.val(st, x.X) == ownHead {
			set(ownHead)
		}
	case *ssa.Extract:
		if o, ok := st[ownKey{w.part(x.Tuple, x.Index), false}]; ok {
			set(o)
		}
	case *ssa.TypeAssert:
		if viewable(x.Type()) {
			set(w.cells["interface"])
		}
	case *ssa.MakeInterface:
		w.put("interface", w.val(st, x.X))
	case *ssa.Lookup:
		if viewable(x.Type()) {
			set(w.cells["element of "+x.X.Type().String()])
		}
	case *ssa.MapUpdate:
		w.put("element of "+x.Map.Type().String(), w.val(st, x.Value))
	case *ssa.Store:
		if a := w.cell(x.Addr); a != nil {
			st.put(ownKey{a, true}, w.val(st, x.Val))
			return one
		}
		o := w.val(st, x.Addr)
		if o == ownStr || o == ownSub || isPar(o) {
			w.wrote(fn, sum, o, x.Pos(), "a store")
		} else if o == ownHead {
			// the header of a string variable is replaced, not its bytes
		} else if w.final {
			w.c.Holds()
		}
		w.put(w.cellOf(x.Addr), w.val(st, x.Val))
		if w.table && viewable(x.Val.Type()) && w.stored(fn, x.Addr) {
			if w.final {
				w.c.Inst("stores of tagsets")
			}
			w.keep(sum, st, x.Val)
		}
	case *ssa.Call:
		return w.call(fn, sum, st, &x.Call, x, x.Pos(), depth)
	case *ssa.Defer:
		w.call(fn, sum, st, &x.Call, nil, x.Pos(), depth)
	case *ssa.Go:
		w.call(fn, sum, st, &x.Call, nil, x.Pos(), depth)
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			w.binds[x.Fn.(*ssa.Function).FreeVars[i]] = b
		}
	}
	return one
}

// part names a component of a tuple.
func (w *viewFlow) part(t ssa.Value, i int) ssa.Value {
	k := fmt.Sprintf("%p.%d", t, i)
	if w.parts[k] == nil {
		w.parts[k] = &tuplePart{Value: t}
	}
	return w.parts[k]
}

type tuplePart struct{ ssa.Value }

// result is the ownership of a result of a call for arbitrary flags.
func (w *viewFlow) result(st ownState, com *ssa.CallCommon, f *ssa.Function, i int) own {
	r := ownAny
	first := true
	for o := range w.sums[f].res[i] {
		if isPar(o) {
			k := int(o - ownPar)
			sub := k >= ownMax
			k %= ownMax
			o = ownAny
			if k < len(com.Args) {
				o = w.val(st, com.Args[k])
			}
			if sub && o == ownStr {
				o = ownSub
			}
		}
		if first {
			r, first = o, false
		} else {
			r = ownJoin(r, o)
		}
	}
	return r
}

// target is the function of the repository that a call calls.
func (w *viewFlow) target(com *ssa.CallCommon) *ssa.Function {
	v := com.Value
	if com.IsInvoke() {
		return nil
	}
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Function:
			if w.sums[x] != nil {
				return x
			}
			return nil
		case *ssa.MakeClosure:
			v = x.Fn
			continue
		case *ssa.Parameter:
			if b := w.funcs[x]; b != nil {
				v = b
				continue
			}
		case *ssa.UnOp:
			if a := w.cell(x.X); a != nil && x.Op == token.MUL {
				var only ssa.Value
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok {
						only = s.Val
						n++
					}
				}
				if n == 1 {
					v = only
					continue
				}
			}
		}
		return nil
	}
	return nil
}

func (w *viewFlow) call(fn *ssa.Function, sum *viewSum, st ownState, com *ssa.CallCommon, res *ssa.Call, pos token.Pos, depth int) []ownState {
	one := []ownState{st}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "StringData":
			st.set(res, ownStr)
			if w.table {
				delete(st, ownKey{res, false})
			} else if w.final {
				w.c.Inst("byte views of strings")
			}
		case "Slice", "SliceData", "Add":
			o := w.val(st, com.Args[0])
			st.set(res, o)
		case "copy":
			w.wrote(fn, sum, w.val(st, com.Args[0]), pos, "copying")
		case "clear":
			w.wrote(fn, sum, w.val(st, com.Args[0]), pos, "clearing")
		case "append":
			o := w.val(st, com.Args[0])
			if o == ownSub || isPar(o) && int(o-ownPar) >= ownMax {
				w.wrote(fn, sum, o, pos, "appending in place")
			} else if isPar(o) {
				if _, ok := sum.appends[int(o-ownPar)%ownMax]; !ok {
					sum.appends[int(o-ownPar)%ownMax] = pos
					w.dirty = true
				}
			}
			if _, lit := com.Args[1].(*ssa.Slice); lit && o == ownStr {
				o = ownNew // bytes of a string have no spare capacity
			}
			if o == ownNil {
				o = ownNew
			}
			st.set(res, o)
		}
		return one
	}
	if f := w.target(com); f != nil {
		// a call with something to tell is followed, others are summarised
		follow := len(f.FreeVars) > 0
		for k, a := range com.Args {
			o := w.val(st, a)
			follow = follow || o == ownStr || o == ownSub || o == ownHead || isPar(o)
			if k < len(f.Params) {
				if t := w.targetValue(a); t != nil {
					w.funcs[f.Params[k]] = t
					follow = true
				}
			}
		}
		if follow && depth < 6 && !w.stack[f] && len(f.Blocks) < 40 && len(com.Args) == len(f.Params) {
			w.stack[f] = true
			w.frames = append(w.frames, viewFrame{fn, pos})
			in := st.clone()
			for k, a := range com.Args {
				in.set(f.Params[k], w.val(st, a))
			}
			var out []ownState
			for _, r := range w.walk(f, sum, in, depth+1) {
				if res != nil {
					if len(r.res) == 1 {
						r.st.set(res, r.res[0])
					} else {
						for i, o := range r.res {
							r.st.set(w.part(res, i), o)
						}
					}
				}
				out = append(out, r.st)
			}
			delete(w.stack, f)
			w.frames = w.frames[:len(w.frames)-1]
			return out
		}
		s := w.sums[f]
		for k, a := range com.Args {
			o := w.val(st, a)
			if _, ok := s.writes[k]; ok {
				w.wrote(fn, sum, o, pos, "a write made by "+cname(f)+" of its argument")
			}
			if s.stored[k] {
				w.keep(sum, st, a)
			}
			if _, ok := s.appends[k]; ok {
				if o == ownSub || isPar(o) && int(o-ownPar) >= ownMax {
					w.wrote(fn, sum, o, pos, "appending in place made by "+cname(f))
				} else if isPar(o) {
					if _, ok := sum.appends[int(o-ownPar)%ownMax]; !ok {
						sum.appends[int(o-ownPar)%ownMax] = pos
						w.dirty = true
					}
				}
			}
		}
		if res != nil {
			for i := range w.sums[f].res {
				o := w.result(st, com, f, i)
				if len(w.sums[f].res) == 1 {
					st.set(res, o)
				} else {
					st.set(w.part(res, i), o)
				}
			}
		}
		return one
	}
	for _, k := range writtenArgs(com) {
		if k < len(com.Args) {
			w.wrote(fn, sum, w.val(st, com.Args[k]), pos, "a write made by "+com.String())
		}
	}
	// functions that are given a function call it any number of times
	states := []ownState{st}
	for _, a := range com.Args {
		f, _ := w.targetValue(a).(*ssa.Function)
		if m, ok := w.targetValue(a).(*ssa.MakeClosure); ok {
			f = m.Fn.(*ssa.Function)
		}
		if f == nil || w.sums[f] == nil || w.stack[f] || depth > 6 {
			continue
		}
		seen := map[string]bool{}
		for _, s := range states {
			seen[s.key()] = true
		}
		w.stack[f] = true
		w.frames = append(w.frames, viewFrame{fn, pos})
		for i := 0; i < len(states) && len(states) < 64; i++ {
			in := states[i].clone()
			for _, p := range f.Params {
				in.set(p, ownAny)
			}
			for _, r := range w.walk(f, sum, in, depth+1) {
				if k := r.st.key(); !seen[k] {
					seen[k] = true
					states = append(states, r.st)
				}
			}
		}
		delete(w.stack, f)
		w.frames = w.frames[:len(w.frames)-1]
	}
	return states
}

// targetValue is a function value that is known.
func (w *viewFlow) targetValue(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x
	case *ssa.Function:
		return x
	case *ssa.Parameter:
		return w.funcs[x]
	}
	return nil
}

// stored tells that an address is in the file table, or that of the description.
func (w *viewFlow) stored(fn *ssa.Function, addr ssa.Value) bool {
	f, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if n, ok := types.Unalias(f.Type().(*types.Pointer).Elem()).(*types.Named); !ok || n.Obj().Name() != "TagsetRaw" {
		return false
	}
	if n := namedOf(f.X.Type()); n != nil && n.Obj().Name() == "FTT" && isRepoPkg(n.Obj().Pkg()) {
		return true
	}
	for ; fn != nil; fn = fn.Parent() {
		if r := fn.Signature.Recv(); r != nil {
			if n := namedOf(r.Type()); n != nil && n.TypeArgs().Len() > 0 && isRepoPkg(n.Obj().Pkg()) {
				return true
			}
		}
	}
	return false
}

// keep marks memory that is in the table from now on.
func (w *viewFlow) keep(sum *viewSum, st ownState, v ssa.Value) {
	if o := st[ownKey{v, false}]; isPar(o) {
		if k := int(o-ownPar) % ownMax; !sum.stored[k] {
			sum.stored[k] = true
			w.dirty = true
		}
		for k, x := range st {
			if x == o {
				st[k] = ownStr
			}
		}
	}
	if _, ok := v.(*ssa.Const); !ok && viewable(v.Type()) {
		st.set(v, ownStr)
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if a := w.cell(ld.X); a != nil {
			st.put(ownKey{a, true}, ownStr)
		}
	}
}

// newFlow examines all functions of the repository.
func (c *Check) newFlow(table bool, what string) {
	w := &viewFlow{table: table, what: what, c: c, sums: map[*ssa.Function]*viewSum{}, cells: map[string]own{}, sites: map[token.Pos]bool{}, binds: map[*ssa.FreeVar]ssa.Value{}, hidden: map[*ssa.Function]bool{}, lives: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, parts: map[string]ssa.Value{}, funcs: map[*ssa.Parameter]ssa.Value{}, stack: map[*ssa.Function]bool{}}
	for _, fn := range c.P.Fns {
		s := &viewSum{writes: map[int]token.Pos{}, appends: map[int]token.Pos{}, stored: map[int]bool{}}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			s.res = append(s.res, map[own]bool{})
		}
		w.sums[fn] = s
	}
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					for i, v := range m.Bindings {
						w.binds[m.Fn.(*ssa.Function).FreeVars[i]] = v
					}
					if w.inlined(m) {
						w.hidden[m.Fn.(*ssa.Function)] = true
					}
				}
			}
		}
	}
	for round := 0; round < 40; round++ {
		w.dirty = false
		for _, fn := range c.P.Fns {
			w.analyse(fn)
		}
		if !w.dirty {
			break
		}
	}
	w.final = true
	for _, fn := range c.P.Fns {
		w.analyse(fn)
		c.Analysed(fn, nil)
	}
	var poss []token.Pos
	for p := range w.sites {
		poss = append(poss, p)
	}
	for _, p := range poss {
		c.Site(p)
	}

}

// liveIn are the values a block or a later one uses.
func liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			add := func(v ssa.Value) {
				if v != nil && !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					for k, p := range b.Preds {
						if v := phi.Edges[k]; !live[p][v] {
							live[p][v] = true
							changed = true
						}
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					add(*op)
				}
			}
			for _, s := range b.Succs {
				for v := range live[s] {
					if in, ok := v.(ssa.Instruction); ok && in.Block() == s {
						if _, phi := v.(*ssa.Phi); phi {
							continue
						}
					}
					add(v)
				}
			}
		}
	}
	return live
}

func init() {
	register("C20", "path-sensitive ownership dataflow over SSA with interprocedural write summaries",
		"Every function of the repository is analysed by a path-sensitive dataflow over its SSA form which tracks for every byte slice and pointer whether it addresses the bytes of a string (results of unsafe.StringData and of reinterpreted string headers, whatever passes them on: slices, conversions, fields, variables, captured cells, maps, results and parameters of functions, and tags given to exported functions), and flags that tell whether a private copy was made. Every store, copy, clear, append within capacity and every call of a function that writes its argument (by summaries for the repository, by signature for the standard library) must not reach such memory on any path.",
		[]string{"functions of the standard library that do not read into or decode into an argument only read it"},
		func(c *Check) {
			c.Rule("bytes of a string are never written")
			c.newFlow(false, "a byte view of a string")
			c.AtLeast("byte views of strings", 1)
		})
}

func namedOf(t types.Type) *types.Named {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}
