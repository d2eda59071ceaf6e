package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const luaPkg = "github.com/yuin/gopher-lua"

var defaultModels = map[string]Model{}

func fork(st *State, c *Term) (yes, no *State) {
	if v, ok := st.facts.Decide(c); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	n := st.clone()
	if !st.facts.Assume(c, true) {
		st = nil
	}
	if !n.facts.Assume(c, false) {
		n = nil
	}
	return st, n
}

func splitBool(st *State, r *Term) (on, quit []*State) {
	y, n := fork(st, r)
	if y != nil {
		on = append(on, y)
	}
	if n != nil {
		quit = append(quit, n)
	}
	return
}

// emit records the call as an event with result terms of its own.
func (c *Call) emit() *Term {
	ct := c.callTerm()
	c.st.add(c.event(ct))
	return ct
}

func pureRes(name string, i int, t types.Type, args ...*Term) *Term {
	return mk("res", fmt.Sprint(i), t, mk("pure", name, nil, args...))
}

func init() {
	dm := defaultModels
	// ---- locks
	lockModel := func(kind, mode string) Model {
		return func(c *Call) ([]Outcome, bool) {
			st := c.st
			ev := &Event{Kind: kind, Name: mode, Method: c.Method, Recv: c.Recv, Args: []*Term{c.Recv}, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr}
			st.add(ev)
			ls := append([]LockRec{}, st.locks...)
			if kind == "lock" {
				st.locks = append(ls, LockRec{c.Recv, mode, c.Pos})
				if c.e.OnLock != nil {
					c.e.OnLock(c, mode)
				}
			} else {
				found := false
				for i := len(ls) - 1; i >= 0; i-- {
					if ls[i].Addr == c.Recv && ls[i].Mode == mode {
						ls = append(ls[:i], ls[i+1:]...)
						found = true
						break
					}
				}
				if !found {
					st.add(&Event{Kind: "badunlock", Name: mode, Recv: c.Recv, Pos: c.Pos, Fn: c.fr.fn})
				}
				st.locks = ls
			}
			return []Outcome{{St: st}}, true
		}
	}
	for _, m := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		dm[m+".Lock"] = lockModel("lock", "W")
		dm[m+".Unlock"] = lockModel("unlock", "W")
	}
	dm["(*sync.RWMutex).RLock"] = lockModel("lock", "R")
	dm["(*sync.RWMutex).RUnlock"] = lockModel("unlock", "R")
	dm["(sync.Locker).Lock"] = lockModel("lock", "W")
	dm["(sync.Locker).Unlock"] = lockModel("unlock", "W")

	// ---- strings
	dm["wpk/util.ToSlash"] = func(c *Call) ([]Outcome, bool) { return c.ret(toSlash(c.Args[0])) }
	dm["path/filepath.ToSlash"] = func(c *Call) ([]Outcome, bool) { return c.ret(c.Args[0]) } // identity on the analysed platform
	dm["path/filepath.FromSlash"] = dm["path/filepath.ToSlash"]
	dm["strings.ReplaceAll"] = func(c *Call) ([]Outcome, bool) {
		if c.Args[1].isStr("\\") && c.Args[2].isStr("/") {
			return c.ret(toSlash(c.Args[0]))
		}
		return nil, false
	}
	dm["strings.Replace"] = func(c *Call) ([]Outcome, bool) {
		if n, ok := c.Args[3].intVal(); ok && n < 0 && c.Args[1].isStr("\\") && c.Args[2].isStr("/") {
			return c.ret(toSlash(c.Args[0]))
		}
		return nil, false
	}
	dm["wpk/util.JoinPath"] = func(c *Call) ([]Outcome, bool) { return c.ret(joinPath(c.Args[0], c.Args[1])) }
	dm["wpk/util.ToLower"] = pure1("wpk/util.ToLower")
	dm["wpk/util.ToUpper"] = pure1("wpk/util.ToUpper")
	dm["wpk/util.ToKey"] = pure1("wpk/util.ToKey")
	dm["wpk/util.PathName"] = pure1("wpk/util.PathName")
	dm["wpk/util.JoinFilePath"] = pure1("wpk/util.JoinFilePath")
	dm["wpk/util.Envfmt"] = pure1("wpk/util.Envfmt")
	index := func(c *Call) ([]Outcome, bool) {
		var b int64
		switch x := c.Args[1]; {
		case x.Op == "const":
			if s, ok := x.strVal(); ok && len(s) == 1 {
				b = int64(s[0])
			} else if n, ok := x.intVal(); ok && n < 128 {
				b = n
			} else {
				return nil, false
			}
		default:
			return nil, false
		}
		t := mk("pure", "strings.IndexByte", tyInt, c.Args[0], intConst(b, types.Typ[types.Uint8]))
		return c.ret(t)
	}
	dm["strings.IndexByte"] = index
	dm["strings.Index"] = index
	dm["strings.IndexRune"] = index
	dm["strings.Contains"] = func(c *Call) ([]Outcome, bool) {
		os, ok := index(c)
		if !ok {
			return nil, false
		}
		return c.ret(notT(ltT(os[0].Vals[0], intConst(0, tyInt))))
	}
	dm["strings.ContainsRune"] = dm["strings.Contains"]
	dm["strings.Cut"] = func(c *Call) ([]Outcome, bool) {
		sep, ok := c.Args[1].strVal()
		if !ok || len(sep) != 1 {
			return nil, false
		}
		s := c.Args[0]
		i := mk("pure", "strings.IndexByte", tyInt, s, intConst(int64(sep[0]), types.Typ[types.Uint8]))
		no, yes := fork(c.st, ltT(i, intConst(0, tyInt)))
		var os []Outcome
		if yes != nil {
			os = append(os, Outcome{St: yes, Vals: []*Term{sliceT(s, nil, i, nil, tyString), sliceT(s, addT(i, intConst(1, tyInt), tyInt), nil, nil, tyString), tTrue}})
		}
		if no != nil {
			os = append(os, Outcome{St: no, Vals: []*Term{s, strConst(""), tFalse}})
		}
		return os, true
	}
	hasPrefix := func(s, p *Term) *Term { return foldPure(mk("pure", "strings.HasPrefix", tyBool, s, p)) }
	dm["strings.CutPrefix"] = func(c *Call) ([]Outcome, bool) {
		s, p := c.Args[0], c.Args[1]
		yes, no := fork(c.st, hasPrefix(s, p))
		var os []Outcome
		if yes != nil {
			os = append(os, Outcome{St: yes, Vals: []*Term{sliceT(s, lenT(p), nil, nil, tyString), tTrue}})
		}
		if no != nil {
			os = append(os, Outcome{St: no, Vals: []*Term{s, tFalse}})
		}
		return os, true
	}
	dm["strings.TrimPrefix"] = func(c *Call) ([]Outcome, bool) {
		os, _ := dm["strings.CutPrefix"](c)
		for i := range os {
			os[i].Vals = os[i].Vals[:1]
		}
		return os, true
	}
	// the whole pattern is always checked, whatever the name is
	match := func(c *Call) ([]Outcome, bool) {
		p := mk("pure", "path.Match", c.Sig.Results(), c.All...)
		c.st.add(c.event(p))
		return c.ret(mk("res", "0", tyBool, p), mk("pure", "path.Match.err", c.resT(1), c.Args[0]))
	}
	dm["path.Match"] = match
	dm["path/filepath.Match"] = match
	// ---- containers
	sm := "(*wpk/util.SeqMap)."
	valT := func(c *Call) types.Type { // value type of the container
		if n, ok := elemOf(c.Recv.Typ).(*types.Named); ok && n.TypeArgs().Len() == 2 {
			return n.TypeArgs().At(1)
		}
		return nil
	}
	dm[sm+"Has"] = func(c *Call) ([]Outcome, bool) {
		_, ok := c.e.mapLookup(c.st, c.Recv, c.Args[0], valT(c))
		ct := c.emit()
		_ = ct
		return c.ret(ok)
	}
	dm[sm+"Peek"] = func(c *Call) ([]Outcome, bool) {
		v, ok := c.e.mapLookup(c.st, c.Recv, c.Args[0], valT(c))
		c.emit()
		return c.ret(v, ok)
	}
	put := func(c *Call, k, v *Term) {
		st := c.st
		cs := st.bytes[c.Recv]
		st.bytes[c.Recv] = append(cs[:len(cs):len(cs)], rng{k, nil, v})
		st.bver[c.Recv] = st.step(c.Instr, 5)
	}
	dm[sm+"Poke"] = func(c *Call) ([]Outcome, bool) {
		c.emit()
		put(c, c.Args[0], c.Args[1])
		return c.ret()
	}
	dm[sm+"Push"] = func(c *Call) ([]Outcome, bool) {
		_, ok := c.e.mapLookup(c.st, c.Recv, c.Args[0], valT(c))
		had, free := fork(c.st, ok)
		var os []Outcome
		if had != nil {
			c2 := *c
			c2.st = had
			c2.emit()
			os = append(os, Outcome{St: had, Vals: []*Term{tTrue}})
		}
		if free != nil {
			c2 := *c
			c2.st = free
			c2.emit()
			put(&c2, c.Args[0], c.Args[1])
			os = append(os, Outcome{St: free, Vals: []*Term{tFalse}})
		}
		return os, true
	}
	dm[sm+"Delete"] = func(c *Call) ([]Outcome, bool) {
		v, ok := c.e.mapLookup(c.st, c.Recv, c.Args[0], valT(c))
		c.emit()
		put(c, c.Args[0], tNilMapDel)
		return c.ret(v, ok)
	}
	dm[sm+"Pop"] = func(c *Call) ([]Outcome, bool) {
		ct := c.emit()
		delete(c.st.bytes, c.Recv)
		c.st.hav[c.Recv] = true
		c.st.bver[c.Recv] = c.st.step(c.Instr, 6)
		return c.ret(c.results(ct)...)
	}
	dm[sm+"Init"] = func(c *Call) ([]Outcome, bool) {
		c.emit()
		delete(c.st.bytes, c.Recv)
		c.st.bver[c.Recv] = c.st.step(c.Instr, 6)
		return c.ret()
	}
	dm[sm+"Len"] = func(c *Call) ([]Outcome, bool) {
		c.emit()
		return c.ret(mk("maplen", fmt.Sprint(c.st.bver[c.Recv]), tyInt, c.Recv))
	}
	dm[sm+"Range"] = func(c *Call) ([]Outcome, bool) {
		c.emit()
		sig, _ := under(c.Args[0].Typ).(*types.Signature)
		if sig == nil {
			return nil, false
		}
		ended, left, _, outs := c.e.iterate(c, "range", c.Recv, c.Args[0], func(st *State) []*Term {
			t := fmt.Sprint(st.step(c.Instr, 8))
			k := mk("rkey", t, sig.Params().At(0).Type(), c.Recv)
			v := mk("rval", t, sig.Params().At(1).Type(), c.Recv)
			// the entry is one of the container's
			st.facts.Assume(mk("ranged", t, tyBool, c.Recv, k, v), true)
			return []*Term{k, v}
		}, func(st *State, res []*Term) ([]*State, []*State) { return splitBool(st, res[0]) })
		for _, s := range ended {
			s.push(&Event{Kind: "rangeend", Recv: c.Recv, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr, Locks: s.locks})
			outs = append(outs, Outcome{St: s})
		}
		for _, s := range left {
			s.push(&Event{Kind: "rangestop", Recv: c.Recv, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr, Locks: s.locks})
			outs = append(outs, Outcome{St: s})
		}
		return outs, true
	}
	// ---- callbacks of libraries
	walk := func(c *Call) ([]Outcome, bool) {
		fnT := c.Args[len(c.Args)-1]
		sig, _ := under(fnT.Typ).(*types.Signature)
		if sig == nil {
			return nil, false
		}
		c.emit()
		errT := types.Universe.Lookup("error").Type()
		wsig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", errT)), false)
		ended, left, vals, outs := c.e.iterate(c, "walk", nil, fnT, func(st *State) []*Term {
			t := st.step(c.Instr, 9)
			ct := mk("call", fmt.Sprintf("walk error#%d", t), wsig.Results())
			ct.Obj = "walk error"
			st.add(&Event{Kind: "call", Name: "walk error", Method: "walk error", Res: ct, NRes: 1, Sig: wsig, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr})
			return []*Term{mk("walkpath", fmt.Sprint(t), tyString), mk("walkent", fmt.Sprint(t), sig.Params().At(1).Type()), mk("res", "0", errT, ct)}
		}, func(st *State, res []*Term) (on, quit []*State) {
			y, n := fork(st, eqT(res[0], tNil))
			if y != nil {
				on = append(on, y)
			}
			if n != nil {
				quit = append(quit, n)
			}
			return
		})
		for _, s := range ended {
			outs = append(outs, Outcome{St: s, Vals: []*Term{tNil}})
		}
		for i, s := range left {
			v := vals[i][0]
			skip := v.any(func(x *Term) bool {
				return x.Op == "load" && x.Args[0].Op == "global" && strings.Contains(x.Args[0].Aux, "Skip")
			}) && (v.Op == "load" || v.Op == "join")
			if skip {
				sk := s
				if v.Op == "join" {
					sk = s.clone()
				}
				sk.push(&Event{Kind: "walkskip", Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr, Locks: sk.locks})
				outs = append(outs, Outcome{St: sk, Vals: []*Term{tNil}})
				if v.Op == "load" {
					continue
				}
			}
			outs = append(outs, Outcome{St: s, Vals: []*Term{v}})
		}
		return outs, true
	}
	dm["io/fs.WalkDir"] = walk
	dm["path/filepath.WalkDir"] = walk
	dm["path/filepath.Walk"] = walk
	dm["(*"+luaPkg+".LTable).ForEach"] = func(c *Call) ([]Outcome, bool) {
		sig, _ := under(c.Args[0].Typ).(*types.Signature)
		if sig == nil {
			return nil, false
		}
		c.emit()
		ended, _, _, outs := c.e.iterate(c, "foreach", c.Recv, c.Args[0], func(st *State) []*Term {
			t := fmt.Sprint(st.step(c.Instr, 8))
			return []*Term{mk("rkey", t, sig.Params().At(0).Type(), c.Recv), mk("rval", t, sig.Params().At(1).Type(), c.Recv)}
		}, nil)
		for _, s := range ended {
			outs = append(outs, Outcome{St: s})
		}
		return outs, true
	}
	sortModel := func(c *Call) ([]Outcome, bool) {
		ct := c.callTerm()
		ev := c.event(ct)
		c.st.add(ev)
		l := c.Args[0]
		for l.Op == "makeiface" {
			l = l.Args[0]
		}
		r := addrRoot(l)
		// the same elements in another order
		for b := range c.st.mem {
			if b.Op == "iaddr" && addrRoot(b) == r {
				delete(c.st.mem, b)
			}
		}
		c.st.hav[r] = true
		c.st.bver[r] = c.st.hist
		return []Outcome{{St: c.st, Vals: c.results(ct)}}, true
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc"} {
		dm[n] = sortModel
	}
	dm["slices.Clone"] = func(c *Call) ([]Outcome, bool) {
		a := c.Args[0]
		if sl, ok := under(a.Typ).(*types.Slice); !ok || isByteT(sl.Elem()) {
			return nil, false
		}
		return c.ret(mk("append", "", a.Typ, mk("items", fmt.Sprint(c.st.bver[addrRoot(a)]), a.Typ, a)))
	}
	dm["slices.Delete"] = func(c *Call) ([]Outcome, bool) {
		s, i, j := c.Args[0], c.Args[1], c.Args[2]
		c.st.add(&Event{Kind: "copy", Name: "slices.Delete", Method: "copy", Args: []*Term{s, s}, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr})
		r, _ := byteBase(s)
		c.st.dropUnder(r)
		// the elements move down in place
		n := subT(lenT(s), subT(j, i, tyInt), tyInt)
		dst := sliceT(s, i, n, nil, s.Typ)
		src := sliceT(s, j, lenT(s), nil, s.Typ)
		c.st.mem[cellT("copyof", r)] = mk("copied", fmt.Sprint(c.st.bver[addrRoot(src)]), dst.Typ, src, lenT(dst), dst)
		return c.ret(sliceT(s, intConst(0, tyInt), n, nil, s.Typ))
	}
	// ---- tag constructors and tagsets
	for _, n := range []string{"StrTag", "BoolTag", "ByteTag", "Uint16Tag", "Uint32Tag", "Uint64Tag", "UintTag", "UintLenTag", "NumberTag", "UnixmsTag", "TimeTag"} {
		dm["wpk."+n] = pure1("wpk." + n)
	}
	tr := "(wpk.TagRaw)."
	for _, n := range []string{"TagStr", "TagBool", "TagByte", "TagUint16", "TagUint32", "TagUint64", "TagUint", "TagNumber", "TagTime", "TagUnixms"} {
		n := n
		dm[tr+n] = func(c *Call) ([]Outcome, bool) {
			v, ok := rawGet(n, c.Recv, c.resT(0))
			return c.ret(v, ok)
		}
		dm["(wpk.TagsetRaw)."+n] = func(c *Call) ([]Outcome, bool) {
			v, ok := tsGet(c.Recv, c.Args[0], n, c.resT(0))
			return c.ret(v, ok)
		}
	}
	ts := "(wpk.TagsetRaw)."
	dm["wpk.CopyTagset"] = func(c *Call) ([]Outcome, bool) {
		c.st.add(&Event{Kind: "tscopy", Name: "CopyTagset", Args: []*Term{c.Args[0]}, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr})
		return c.ret(mk("pure", "wpk.CopyTagset", c.resT(0), c.Args[0]))
	}
	dm[ts+"Has"] = func(c *Call) ([]Outcome, bool) {
		_, ok := tsLookup(c.Recv, c.Args[0])
		return c.ret(ok)
	}
	dm[ts+"Get"] = func(c *Call) ([]Outcome, bool) {
		v, ok := tsLookup(c.Recv, c.Args[0])
		if ok == tFalse {
			v = tNil
		}
		return c.ret(v, ok)
	}
	edit := func(n string, okResult bool) Model {
		return func(c *Call) ([]Outcome, bool) {
			c.st.add(&Event{Kind: "tsedit", Name: n, Method: n, Recv: c.Recv, Args: c.Args, Pos: c.Pos, Fn: c.fr.fn, Instr: c.Instr})
			p := mk("pure", ts+n, nil, c.All...)
			t := mk("res", "0", c.resT(0), p)
			if !okResult {
				return c.ret(t)
			}
			ok := mk("res", "1", tyBool, p)
			if n == "AddOk" {
				_, h := tsLookup(c.Recv, c.Args[0])
				ok = notT(h)
			} else if n == "DelOk" {
				_, ok = tsLookup(c.Recv, c.Args[0])
			} else if n == "SetOk" {
				_, h := tsLookup(c.Recv, c.Args[0])
				ok = notT(h)
			}
			return c.ret(t, ok)
		}
	}
	dm[ts+"Put"] = edit("Put", false)
	dm[ts+"AddOk"] = edit("AddOk", true)
	dm[ts+"Add"] = edit("AddOk", false)
	dm[ts+"SetOk"] = edit("SetOk", true)
	dm[ts+"Set"] = edit("SetOk", false)
	dm[ts+"DelOk"] = edit("DelOk", true)
	dm[ts+"Del"] = edit("DelOk", false)
	uint16c := func(n int64) *Term { return intConst(n, types.Typ[types.Uint16]) }
	dm[ts+"Path"] = func(c *Call) ([]Outcome, bool) {
		v, _ := tsGet(c.Recv, uint16c(3), "TagStr", tyString)
		return c.ret(v)
	}
	dm[ts+"Size"] = func(c *Call) ([]Outcome, bool) {
		v, _ := tsGet(c.Recv, uint16c(2), "TagUint", types.Typ[types.Uint])
		return c.ret(convT(v, types.Typ[types.Int64]))
	}
	dm[ts+"Pos"] = func(c *Call) ([]Outcome, bool) {
		o, _ := tsGet(c.Recv, uint16c(1), "TagUint", types.Typ[types.Uint])
		s, _ := tsGet(c.Recv, uint16c(2), "TagUint", types.Typ[types.Uint])
		return c.ret(o, s)
	}
	dm[ts+"Num"] = pure1(ts + "Num")
	for _, n := range []string{"Name", "Mode", "ModTime", "Type", "AccessTime", "ChangeTime", "BirthTime"} {
		dm[ts+n] = pure1(ts + n)
	}
	// ---- iterators
	ti := "(*wpk.TagsetIterator)."
	cur := func(c *Call) *Term {
		a := cellT("tsi", c.Recv)
		if v, ok := c.st.mem[a]; ok {
			return v
		}
		v := intConst(0, tyInt)
		c.st.mem[a] = v
		return v
	}
	over := func(c *Call) *Term {
		n, _ := elemOf(c.Recv.Typ).(*types.Named)
		if n == nil {
			return c.Recv
		}
		s := under(n).(*types.Struct)
		return c.st.load(faddr(c.Recv, s, 0, n), s.Field(0).Type())
	}
	dm[ti+"Next"] = func(c *Call) ([]Outcome, bool) {
		cur(c)
		o := over(c)
		ct := mk("call", fmt.Sprintf("%s#%d", c.Name, c.st.step(c.Instr, 5)), c.Sig.Results(), o)
		ct.Obj = c.Name
		c.st.add(c.event(ct))
		r := mk("res", "0", tyBool, ct)
		c.st.mem[cellT("tsi", c.Recv)] = mk("tsiat", "", tyInt, ct)
		return c.ret(r)
	}
	dm[ti+"TID"] = func(c *Call) ([]Outcome, bool) { return c.ret(mk("tsitid", "", c.resT(0), over(c), cur(c))) }
	dm[ti+"Tag"] = func(c *Call) ([]Outcome, bool) { return c.ret(mk("tsitag", "", c.resT(0), over(c), cur(c))) }
	dm[ti+"TagLen"] = func(c *Call) ([]Outcome, bool) {
		return c.ret(lenT(mk("tsitag", "", c.Recv.Typ, over(c), cur(c))))
	}
	dm[ti+"Failed"] = func(c *Call) ([]Outcome, bool) {
		return c.ret(mk("tsifailed", "", tyBool, over(c), cur(c)))
	}
	dm[ti+"Passed"] = func(c *Call) ([]Outcome, bool) {
		return c.ret(mk("tsipassed", "", tyBool, over(c), cur(c)))
	}
	dm[ti+"Reset"] = func(c *Call) ([]Outcome, bool) {
		c.st.mem[cellT("tsi", c.Recv)] = intConst(0, tyInt)
		return c.ret()
	}
	// ---- readers
	full := func(c *Call) ([]Outcome, bool) {
		ct := c.callTerm()
		buf := c.Args[1]
		ev := c.event(ct)
		c.st.setSliceBytes(buf, mk("rd", "", nil, ct))
		c.st.add(ev)
		vals := c.results(ct)
		yes := c.st
		no := c.st.clone()
		var os []Outcome
		if yes.facts.Assume(eqT(vals[1], tNil), true) {
			yes.facts.Assume(eqT(vals[0], lenT(buf)), true)
			os = append(os, Outcome{St: yes, Vals: []*Term{vals[0], vals[1]}})
		}
		if no.facts.Assume(eqT(vals[1], tNil), false) {
			no.facts.Assume(ltT(vals[0], intConst(0, tyInt)), false)
			no.facts.Assume(notT(ltT(lenT(buf), vals[0])), true)
			os = append(os, Outcome{St: no, Vals: vals})
		}
		return os, true
	}
	dm["io.ReadFull"] = full
	resAxioms["(io.Seeker).Seek"] = nonNegRes
	resAxioms["(*os.File).Seek"] = nonNegRes
	resAxioms["io.Copy"] = nonNegRes
	resAxioms["(io.Writer).Write"] = nonNegRes
	resAxioms["(io/fs.FileInfo).Size"] = nonNegRes
	resAxioms["(io.Reader).Read"] = nonNegRes
}

var resAxioms = map[string]func(t *Term, rel func(a *Term, ka int64, b *Term, kb int64, c int64)){}

func nonNegRes(t *Term, rel func(a *Term, ka int64, b *Term, kb int64, c int64)) {
	rel(t, 1, nil, 0, 0)
}

func pure1(name string) Model {
	return func(c *Call) ([]Outcome, bool) {
		var all []*Term
		for _, a := range c.All {
			all = append(all, c.st.frozen(a))
		}
		return c.ret(mk("pure", name, c.resT(0), all...))
	}
}

func toSlash(s *Term) *Term {
	if v, ok := s.strVal(); ok {
		return strConst(strings.ReplaceAll(v, "\\", "/"))
	}
	if isSlashed(s) {
		return s
	}
	if s.Op == "concat" {
		var ps []*Term
		for _, p := range s.Args {
			ps = append(ps, toSlash(p))
		}
		return concatT(ps...)
	}
	return mk("pure", "wpk/util.ToSlash", tyString, s)
}

// isSlashed tells that a string has no backslashes by construction.
func isSlashed(s *Term) bool {
	switch s.Op {
	case "const":
		v, _ := s.strVal()
		return !strings.Contains(v, "\\")
	case "pure":
		return s.Aux == "wpk/util.ToSlash"
	case "concat":
		for _, p := range s.Args {
			if !isSlashed(p) {
				return false
			}
		}
		return true
	case "substr":
		return isSlashed(s.Args[0])
	case "join":
		for _, p := range s.Args {
			if !isSlashed(p) {
				return false
			}
		}
		return true
	}
	return false
}

func joinPath(dir, base *Term) *Term {
	if dir.isStr("") || dir.isStr(".") {
		return base
	}
	if base.isStr("") || base.isStr(".") {
		return dir
	}
	return mk("pure", "wpk/util.JoinPath", tyString, dir, base)
}

// ---- algebra of tagsets -------------------------------------------------------

const tsPfx = "(wpk.TagsetRaw)."

// tsLookup finds a tag: its value and the condition of its presence.
func tsLookup(ts, tid *Term) (val, has *Term) {
	rawT := types.Type(nil)
	t := ts
	for {
		if t.Op == "nil" || lenT(t).isInt(0) {
			return tNil, tFalse
		}
		if t.Op == "pure" && t.Aux == "wpk.CopyTagset" {
			t = t.Args[0]
			continue
		}
		if t.Op == "res" && t.Aux == "0" && t.Args[0].Op == "pure" && strings.HasPrefix(t.Args[0].Aux, tsPfx) {
			p := t.Args[0]
			op := p.Aux[len(tsPfx):]
			if op != "Put" && op != "SetOk" && op != "AddOk" && op != "DelOk" {
				break
			}
			same := eqT(p.Args[1], tid)
			if same == tFalse {
				t = p.Args[0]
				continue
			}
			if same != tTrue {
				break
			}
			switch op {
			case "SetOk":
				return p.Args[2], tTrue
			case "Put", "AddOk":
				v, h := tsLookup(p.Args[0], tid)
				if h == tTrue {
					return v, tTrue
				}
				if h == tFalse {
					return p.Args[2], tTrue
				}
				// present either way
				return mk("pure", tsPfx+"Get", rawT, t, tid), tTrue
			}
			break
		}
		break
	}
	if ts != t {
		return mk("pure", tsPfx+"Get", rawT, t, tid), mk("pure", tsPfx+"Has", tyBool, t, tid)
	}
	return mk("pure", tsPfx+"Get", rawT, ts, tid), mk("pure", tsPfx+"Has", tyBool, ts, tid)
}

// rawGet converts a raw tag by the accessor of given name.
func rawGet(n string, raw *Term, typ types.Type) (val, ok *Term) {
	if raw.Op == "pure" {
		switch {
		case n == "TagStr" && raw.Aux == "wpk.StrTag":
			return raw.Args[0], tTrue
		case n == "TagUint" && raw.Aux == "wpk.UintTag":
			return raw.Args[0], tTrue
		case n == "TagTime" && (raw.Aux == "wpk.TimeTag" || raw.Aux == "wpk.UnixmsTag"):
			return mk("pure", "timeof", typ, raw), tTrue
		}
	}
	if n == "TagStr" {
		return mk("pure", "(wpk.TagRaw).TagStr", tyString, raw), tTrue
	}
	p := mk("pure", "(wpk.TagRaw)."+n, nil, raw)
	return mk("res", "0", typ, p), mk("res", "1", tyBool, p)
}

func tsGet(ts, tid *Term, n string, typ types.Type) (val, ok *Term) {
	raw, has := tsLookup(ts, tid)
	if has == tFalse {
		return zeroTerm(typ), tFalse
	}
	v, c := rawGet(n, raw, typ)
	if has == tTrue {
		return v, c
	}
	// absent tags give zero values
	if raw.Op == "pure" && raw.Aux == tsPfx+"Get" {
		p := mk("pure", tsPfx+n, nil, raw.Args...)
		return mk("res", "0", typ, p), mk("res", "1", tyBool, p)
	}
	return v, c
}

// globalInit gives the value of a package level variable which never changes.
func (e *Engine) globalInit(a *Term, t types.Type) *Term {
	if e.GlobalVal == nil || a.Op != "global" {
		return nil
	}
	g, _ := a.Obj.(*ssa.Global)
	if g == nil || !e.Immut[g] {
		return nil
	}
	return e.GlobalVal(g, t)
}

// immutableGlobals are package level variables which are only assigned by initialisers.
func (p *Prog) immutableGlobals() map[*ssa.Global]bool {
	if p.immut != nil {
		return p.immut
	}
	m := map[*ssa.Global]bool{}
	for _, sp := range p.SP {
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m[g] = true
			}
		}
	}
	for _, fn := range p.Fns {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok {
					_ = ld
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !onlyLoads(in.(ssa.Value), 0) {
							m[g] = false
						}
					default:
						m[g] = false
					}
				}
			}
		}
	}
	p.immut = m
	return m
}

func onlyLoads(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 5 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !onlyLoads(r.(ssa.Value), d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
