package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packing is one way through a script operation that packs a file.
type packing struct {
	e     *Engine
	name  string
	fn    *ssa.Function
	st    *State
	evs   []*Event // of the operation
	pack  *Event   // the call that packs the content
	ts    *Term    // the tagset finally stored
	auto  []layer  // edits before and after the tags of the script are merged, from the last to the first
	base  *Term    // the tagset packing gave
	given []*Term  // the tagsets after the tags given by the script were merged
}

type layer struct {
	op, ts, base, tid, val *Term
}

// packings interprets the operations of package objects that pack a file, with some conditions
// known to hold or not.
func (c *Check) packings(api *scriptAPI, known map[*Term]bool, free ...*Term) []*packing {
	own := c.Fn("luawpk:InitLuaVM")
	table := func(f *ssa.Function) bool {
		n := 0
		for _, p := range f.Params {
			s := p.Type().String()
			if s == "*"+luaPkg+".LTable" || strings.HasSuffix(s, "wpk.TagsetRaw") {
				n++
			} else if it, ok := under(p.Type()).(*types.Interface); strings.HasSuffix(s, "Package") || ok && hasMethod(it, "Read") {
				return false
			}
		}
		res := f.Signature.Results()
		return n >= 2 && res.Len() > 0 && strings.HasSuffix(res.At(0).Type().String(), "wpk.TagsetRaw")
	}
	api.e.Inline = func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" {
			return true
		}
		if fnPkg(f) == fnPkg(own) {
			return !table(f)
		}
		return false
	}
	api.e.NoInv = true
	packer := func(cl *Call) ([]Outcome, bool) {
		ct := cl.emit()
		return cl.ret(cl.results(ct)...)
	}
	// functions of another package do not reach the unexported fields of the package object
	for _, n := range []string{"PackData", "PackFile"} {
		api.e.Models["(*wpk.Package)."+n] = packer
		api.e.Models["(*wpk.FTT)."+n] = packer
	}
	for _, f := range c.P.AllFns {
		if fnPkg(f) == fnPkg(own) && table(f) {
			api.e.Models[cname(f)] = packer
		}
	}
	api.e.Part = func(st *State) string {
		s := ""
		for _, t := range free {
			v, ok := truth(st, t)
			s += fmt.Sprint(v, ok)
		}
		return s
	}
	defer func() { api.e.Part = nil }()
	var out []*packing
	for _, name := range []string{"putdata", "putfile"} {
		f := api.Methods[name]
		if f == nil || f.Op != "func" && f.Op != "closure" {
			continue
		}
		fn := f.Obj.(*ssa.Function)
		st := api.St.clone()
		for t, v := range known {
			st.facts.Assume(t, v)
		}
		outs := api.run(f, st)
		c.Analysed(fn, outs)
		for i := range outs {
			o := &outs[i]
			if o.Panic {
				continue
			}
			p := &packing{e: api.e, name: name, fn: fn, st: o.St, evs: api.since(o.St)}
			p.walk()
			out = append(out, p)
		}
	}
	return out
}

func (p *packing) walk() {
	for _, ev := range p.evs {
		if ev.Kind != "call" {
			continue
		}
		if ev.Method == "PackData" || ev.Method == "PackFile" {
			p.pack = ev
		}
		if p.pack != nil && (ev.Method == "SetupTagset" || ev.Method == "SetTagset" || ev.Method == "Poke") {
			if a := ev.Args[len(ev.Args)-1]; a.Typ != nil && strings.HasSuffix(a.Typ.String(), "wpk.TagsetRaw") {
				p.ts = a
			}
		}
	}
	if p.pack == nil || p.ts == nil {
		return
	}
	t := p.ts
	for {
		switch {
		case t.Op == "pure" && t.Aux == "wpk.CopyTagset":
			t = t.Args[0]
			continue
		case t.Op == "res" && t.Aux == "0" && t.Args[0].Op == "pure" && strings.HasPrefix(t.Args[0].Aux, tsPfx) && len(t.Args[0].Args) > 1:
			l := layer{op: t.Args[0], ts: t, base: t.Args[0].Args[0], tid: t.Args[0].Args[1]}
			if len(t.Args[0].Args) > 2 {
				l.val = t.Args[0].Args[2]
			}
			p.auto = append(p.auto, l)
			t = l.base
			continue
		case t.Op == "res" && t.Aux == "0" && callOf(t) != p.pack.Res && t.Args[0].Op == "call":
			p.given = append(p.given, t)
			var next *Term
			for _, a := range t.Args[0].Args {
				if a.Typ != nil && strings.HasSuffix(a.Typ.String(), "wpk.TagsetRaw") {
					next = a
				}
			}
			if next != nil {
				t = next
				continue
			}
		}
		break
	}
	p.base = t
}

// reader is the reader the content was packed from.
func (p *packing) reader() *Term {
	for _, a := range p.pack.Args {
		if a.Typ != nil {
			if it, ok := under(a.Typ).(*types.Interface); ok && hasMethod(it, "Read") {
				return a
			}
		}
	}
	return nil
}

// plainly is a value without the interface it is wrapped in.
func plainly(t *Term) *Term {
	for t != nil && (t.Op == "makeiface" || t.Op == "changeiface") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// algorithm is a checksum or signature a script can switch on.
type algorithm struct {
	prop, tag string
	maker     string // the constructor of the hash
	inner     string // for signatures: the constructor of the hash function used
	table     string // for checksums: the polynomial
}

var algorithms = []algorithm{
	{"crc32", "TIDcrc32c", "hash/crc32.New", "", "2197175160"},
	{"crc64", "TIDcrc64iso", "hash/crc64.New", "", "15564440312192434176"},
	{"md5", "TIDmd5", "crypto/hmac.New", "crypto/md5.New", ""},
	{"sha1", "TIDsha1", "crypto/hmac.New", "crypto/sha1.New", ""},
	{"sha224", "TIDsha224", "crypto/hmac.New", "crypto/sha256.New224", ""},
	{"sha256", "TIDsha256", "crypto/hmac.New", "crypto/sha256.New", ""},
	{"sha384", "TIDsha384", "crypto/hmac.New", "crypto/sha512.New384", ""},
	{"sha512", "TIDsha512", "crypto/hmac.New", "crypto/sha512.New", ""},
}

// readsWhole tells that a call reads the whole packed content: from its start and without
// anything having been taken from it since.
func (p *packing) readsWhole(copying *Event, from *Term) string {
	r, packed := plainly(from), plainly(p.reader())
	var last, made *Event
	for _, ev := range p.evs {
		if ev == copying {
			break
		}
		if ev.Kind != "call" {
			continue
		}
		if ev.Res != nil && callOf(r) == ev.Res {
			made = ev
			continue
		}
		if plainly(ev.Recv) == r {
			last = ev
		}
		for _, a := range ev.Args {
			if plainly(a) == r && ev.Recv != r {
				last = ev
			}
		}
	}
	if r != packed {
		same := made != nil && callOf(packed) != nil && callName(packed) == callName(r) && len(r.Args) > 0 && len(callOf(r).Args) == 1 && len(callOf(packed).Args) == 1 && callOf(r).Args[0] == callOf(packed).Args[0]
		if !same {
			return "is not taken from the packed content"
		}
		if last == nil && (callName(r) == "strings.NewReader" || callName(r) == "bytes.NewReader") {
			return ""
		}
	}
	if last == nil || last.Method != "Seek" || !last.Args[0].isInt(0) || !last.Args[1].isInt(0) {
		return "is not taken from the first byte on"
	}
	if !errNilOn(p.st, nil, last) {
		return "is taken after a failed seek"
	}
	return ""
}

// digest tells what is wrong with a value as the digest of the packed content.
func (p *packing) digest(val *Term, alg *algorithm, secret *Term) string {
	var sum, made *Event
	for _, ev := range p.evs {
		if ev.Kind == "call" && ev.Res != nil && ev.Res == callOf(val) {
			sum = ev
		}
	}
	if sum == nil || sum.Method != "Sum" || len(sum.Args) != 1 || !(sum.Args[0].Op == "nil" || lenT(sum.Args[0]).isInt(0)) || val.Aux != "0" {
		return "is not the plain result of a hash"
	}
	h := plainly(sum.Recv)
	for _, ev := range p.evs {
		if ev.Kind == "call" && ev.Res != nil && ev.Res == callOf(h) {
			made = ev
		}
	}
	if made == nil || callName(h) != alg.maker {
		return "is computed with " + callName(h) + " and not with " + alg.maker
	}
	if alg.inner != "" {
		if !p.makes(made.Args[0], alg.inner) {
			return "is not a signature with " + alg.inner
		}
		if secret == nil || !secret.contains(made.Args[1]) {
			return "is not keyed with the secret of the package"
		}
	} else {
		t := made.Args[0]
		if t.Op != "pure" || t.Aux != strings.Replace(alg.maker, "New", "MakeTable", 1) || t.Args[0].String() != alg.table {
			return "does not use the polynomial of the algorithm"
		}
	}
	var copying *Event
	on := false
	for _, ev := range p.evs {
		if ev == made {
			on = true
			continue
		}
		if ev == sum {
			break
		}
		if !on || ev.Kind != "call" {
			continue
		}
		uses := plainly(ev.Recv) == h
		for _, a := range ev.Args {
			uses = uses || plainly(a) == h
		}
		if !uses || ev.Method == "Size" || ev.Method == "BlockSize" {
			continue
		}
		if ev.Name != "io.Copy" && ev.Name != "io.CopyBuffer" || plainly(ev.Args[0]) != h || copying != nil {
			return "also covers other data (" + ev.Name + ")"
		}
		copying = ev
	}
	if copying == nil {
		return "does not cover the content"
	}
	if !errNilOn(p.st, nil, copying) {
		return "is used after the content could not be read"
	}
	return p.readsWhole(copying, copying.Args[1])
}

// makes tells that a function value creates hashes as a function of the library does.
func (p *packing) makes(f *Term, name string) bool {
	fn, ok := f.Obj.(*ssa.Function)
	if !ok {
		return false
	}
	if f.Op == "func" && fn.String() == name {
		return true
	}
	if f.Op == "closure" || f.Op == "func" && len(fn.Blocks) > 0 && fnPkg(fn) == fnPkg(p.fn) {
		outs := p.e.invoke(fn, nil, f.Args, p.st.clone(), &frame{})
		for i := range outs {
			if outs[i].Panic || len(outs[i].Vals) != 1 || callName(plainly(outs[i].Vals[0])) != name {
				return false
			}
		}
		return len(outs) > 0
	}
	return false
}

// onTag are the edits by which the operation itself changes a tag.
func (p *packing) onTag(tid *Term) []layer {
	var out []layer
	for _, l := range p.auto {
		if eqT(l.tid, tid) != tFalse {
			out = append(out, l)
		}
	}
	return out
}

// present tells that the tag is known to be present without the operation.
func (p *packing) present(tid *Term) bool {
	for _, t := range append([]*Term{p.base, p.ts}, p.given...) {
		if _, has := tsLookup(t, tid); isTrue(p.st, has) {
			return true
		}
	}
	for _, g := range p.given {
		for _, a := range g.Args[0].Args {
			if a.Typ != nil && strings.HasSuffix(a.Typ.String(), "wpk.TagsetRaw") {
				if _, has := tsLookup(a, tid); isTrue(p.st, has) {
					return true
				}
			}
		}
	}
	return false
}

// value is what the getter of a property gives.
func (c *Check) value(api *scriptAPI, prop string) *Term {
	f := api.Props[prop][0]
	if f == nil || f.Op != "func" && f.Op != "closure" {
		return nil
	}
	for _, o := range api.run(f, api.St.clone()) {
		if vs := api.pushed(o.St); !o.Panic && len(vs) == 1 {
			return unboxed(vs[0])
		}
	}
	return nil
}

func init() {
	register("C39", "abstract interpretation of the packing operations of the scripting module with all switches symbolic: provenance of each digest in the stored tagset, typestate of the reader and the hash",
		"The script operations that pack data and files are interpreted from the state the registration leaves, the adjustments of tags inlined, with every switch of the package object symbolic (the switch of an algorithm is the value the getter of its property gives). On every path that does not raise the tagset finally stored is followed back edit by edit to the result of packing. For each algorithm: if the operation puts its tag, the switch is known to be on and the tag known to be absent before, and the value is the sum of a hash of exactly this algorithm (hash function or polynomial; keyed with the value of the property secret) into which nothing was copied but, once, the reader of the packed content, whose last use before is a successful seek to its start; if it does not, the switch is known to be off or the tag known to be there already.",
		[]string{"the hash functions, hmac, Seek and Copy of the library do what they are documented to do", "the packed file does not change while it is packed"},
		func(c *Check) {
			c.Rule("automatic digests are exactly those switched on and cover the packed content")
			own := c.Fn("luawpk:InitLuaVM")
			for _, api := range c.script() {
				secret := c.value(api, "secret")
				switches := map[string]*Term{}
				for _, a := range algorithms {
					switches[a.prop] = c.value(api, a.prop)
					c.Must(switches[a.prop] != nil, api.St, own.Pos(), own, a.prop, "the switch %q cannot be read", a.prop)
				}
				if len(c.viol) > 0 {
					return
				}
				seen := map[string]int{}
				judge := func(p *packing) {
					st := p.st
					pos := p.fn.Pos()
					if p.pack != nil {
						pos = p.pack.Pos
					}
					if !c.Must(p.pack != nil && p.ts != nil && callOf(p.base) == p.pack.Res, st, pos, p.fn, "stored", "%s ends without storing the tags of the packed file", p.name) {
						return
					}
					c.Inst("packing paths")
					for i := range algorithms {
						a := &algorithms[i]
						tid := tidT(c.constInt("", a.tag))
						ls := p.onTag(tid)
						pos, fn := pos, p.fn
						for _, ev := range p.evs {
							if len(ls) > 0 && ev.Kind == "tsedit" && ev.Recv == ls[0].base && ev.Args[0] == ls[0].tid {
								pos, fn = ev.Pos, ev.Fn
							}
						}
						if len(ls) == 0 {
							c.Inst("digests left out")
							c.Must(isFalse(st, switches[a.prop]) || p.present(tid), st, pos, fn, "missing "+a.prop, "%s: no digest is stored although %q may be switched on and the tag absent", p.name, a.prop)
							continue
						}
						seen[p.name+a.prop]++
						c.Inst("digests")
						l := ls[len(ls)-1]
						c.Must(len(ls) == 1 && l.val != nil, st, pos, fn, "edits "+a.prop, "%s: the tag of %q is edited more than once", p.name, a.prop)
						if l.val == nil {
							continue
						}
						c.Must(isTrue(st, switches[a.prop]), st, pos, fn, "switch "+a.prop, "%s: the tag of %q is put although it may be switched off", p.name, a.prop)
						_, has := tsLookup(l.base, tid)
						c.Must(isFalse(st, has) || strings.HasSuffix(l.op.Aux, ".AddOk"), st, pos, fn, "kept "+a.prop, "%s: the tag of %q is put although the file may have one already", p.name, a.prop)
						msg := p.digest(l.val, a, secret)
						c.Must(msg == "", st, pos, fn, "value "+a.prop, "%s: the value stored for %q %s", p.name, a.prop, msg)
					}
				}
				all := map[*Term]bool{}
				for prop, v := range map[string]bool{"automime": true, "autofid": false} {
					if t := c.value(api, prop); t != nil {
						all[t] = v
					}
				}
				for _, a := range algorithms {
					all[switches[a.prop]] = true
				}
				for _, p := range c.packings(api, all) {
					judge(p)
				}
				for i := range algorithms {
					for j := 0; j < i; j++ {
						known := map[*Term]bool{}
						for t := range all {
							known[t] = false
						}
						delete(known, switches[algorithms[i].prop])
						delete(known, switches[algorithms[j].prop])
						for _, p := range c.packings(api, known, switches[algorithms[i].prop], switches[algorithms[j].prop]) {
							judge(p)
						}
					}
				}
				for _, n := range []string{"putdata", "putfile"} {
					for _, a := range algorithms {
						c.Must(seen[n+a.prop] > 0, api.St, own.Pos(), own, "never "+n+a.prop, "%s never stores a digest for %q", n, a.prop)
					}
				}
				break
			}
			c.AtLeast("digests", 16)
			c.AtLeast("digests left out", 16)
		})
}
