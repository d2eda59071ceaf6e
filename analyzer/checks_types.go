package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// imported finds an interface of a package which the given one imports directly or not.
func (c *Check) imported(path, name string) *types.Interface {
	var found types.Object
	seen := map[*types.Package]bool{}
	var rec func(p *types.Package)
	rec = func(p *types.Package) {
		if seen[p] || found != nil {
			return
		}
		seen[p] = true
		if p.Path() == path {
			found = p.Scope().Lookup(name)
			return
		}
		for _, i := range p.Imports() {
			rec(i)
		}
	}
	for _, p := range c.P.Pkgs {
		rec(p.Types)
	}
	if found == nil {
		return nil
	}
	it, _ := found.Type().Underlying().(*types.Interface)
	return it
}

func (c *Check) implements(t types.Type, what string, pos token.Pos, fn *ssa.Function, ifaces ...string) {
	for _, name := range ifaces {
		i := strings.LastIndex(name, ".")
		it := c.imported(name[:i], name[i+1:])
		if !c.Must(it != nil, nil, pos, fn, "interface "+name, "interface %s is not found", name) {
			continue
		}
		c.Inst("implemented interfaces")
		if types.Implements(t, it) {
			c.Must(true, nil, pos, fn, what+" "+name, "")
			continue
		}
		m, wrong := types.MissingMethod(t, it, true)
		why := "misses"
		if wrong {
			why = "has another form of"
		}
		c.Must(false, nil, pos, fn, what+" "+name, "%s does not implement %s: it %s method %v", t, name, why, m)
	}
}

// dynamicTypes are the types of values that a function returns as an interface.
func dynamicTypes(fn *ssa.Function, index int) (out []types.Type) {
	seen := map[ssa.Value]bool{}
	done := map[*ssa.Function]bool{}
	var val func(v ssa.Value)
	var of func(fn *ssa.Function, i int)
	val = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			if !types.IsInterface(x.X.Type()) {
				out = append(out, x.X.Type())
			}
		case *ssa.ChangeInterface:
			val(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				val(e)
			}
		case *ssa.UnOp: // cell of a named result
			for _, r := range *x.X.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x.X {
					val(s.Val)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				_ = fv
			}
			if al, ok := x.X.(*ssa.Alloc); ok { // stores within closures
				for _, r := range *al.Referrers() {
					mc, ok := r.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					for i, b := range mc.Bindings {
						if b != al {
							continue
						}
						fv := mc.Fn.(*ssa.Function).FreeVars[i]
						for _, r := range *fv.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
								val(s.Val)
							}
						}
					}
				}
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if f := call.Common().StaticCallee(); f != nil {
					of(f, x.Index)
				}
			}
		case *ssa.Call:
			if f := x.Common().StaticCallee(); f != nil {
				of(f, 0)
			}
		}
	}
	of = func(fn *ssa.Function, i int) {
		if done[fn] || fn.Blocks == nil {
			return
		}
		done[fn] = true
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				val(r.Results[i])
			}
		}
	}
	of(fn, index)
	return
}

func init() {
	register("C31", "type checking: method sets against the interfaces of the standard library, dynamic types of returned interfaces",
		"The type-checked program is queried. The method sets of pointers to package and union are checked against every file system interface of the standard library, those of directories against directory file, entry and information, those of tagsets against information, entry and time specification. The types of nested files and accessors are discovered in all packages of the module (every implementation of the opener of tagsets, and the concrete types that flow into the results of opening by dataflow over the intermediate representation) and checked for reader, reader at offset, seeker, closer and file. The interfaces of the library for nested files and accessors are checked to include these. Concrete types that flow into the results of opening a directory and of selecting a subdirectory are checked to be directory files and complete file systems.",
		nil,
		func(c *Check) {
			all := []string{"io/fs.FS", "io/fs.SubFS", "io/fs.StatFS", "io/fs.GlobFS", "io/fs.ReadDirFS", "io/fs.ReadFileFS"}
			file := []string{"io/fs.File", "io.Reader", "io.ReaderAt", "io.Seeker", "io.Closer"}
			dirfile := []string{"io/fs.ReadDirFile"}
			c.Rule("types implement the interfaces of the standard library")
			ptr := func(name string, ifaces []string, value bool) {
				n := c.P.Type("", name)
				if !c.Must(n != nil, nil, 0, nil, "type "+name, "type %s is not found", name) {
					return
				}
				var t types.Type = n
				if !value && !types.IsInterface(n) {
					t = types.NewPointer(n)
				}
				c.implements(t, name, n.Obj().Pos(), nil, ifaces...)
			}
			ptr("Package", all, false)
			ptr("Package", []string{"io.Closer"}, false)
			ptr("Union", all, false)
			ptr("Union", []string{"io.Closer"}, false)
			ptr("PackDirFile", append([]string{"io/fs.FileInfo", "io/fs.DirEntry"}, dirfile...), false)
			ptr("UnionDir", append([]string{"io/fs.FileInfo", "io/fs.DirEntry"}, dirfile...), false)
			ptr("TagsetRaw", []string{"io/fs.FileInfo", "io/fs.DirEntry", "gopkg.in/djherbis/times.v1.Timespec"}, true)
			ptr("RFile", file, true)
			ptr("Tagger", []string{"io.Closer"}, true)
			ptr("CompleteFS", all, true)

			c.Rule("each access module opens readable files and can be closed")
			tagger, _ := under(c.P.Type("", "Tagger")).(*types.Interface)
			rfile, _ := under(c.P.Type("", "RFile")).(*types.Interface)
			mods := map[string]bool{}
			for _, pkg := range []string{"bulk", "mmap", "fsys"} {
				fn := c.Fn(pkg + ":MakeTagger")
				if fn == nil {
					continue
				}
				ts := dynamicTypes(fn, 0)
				c.Analysed(fn, nil)
				c.Must(len(ts) > 0, nil, fn.Pos(), fn, "accessor", "the type of the accessor is not known")
				for _, t := range ts {
					c.Inst("accessors")
					mods[pkg] = true
					c.Must(types.Implements(t, tagger), nil, fn.Pos(), fn, "accessor", "%s is not an opener of tagsets", t)
					c.implements(t, "accessor", fn.Pos(), fn, "io.Closer")
					ms := c.P.SSA.MethodSets.MethodSet(t)
					sel := ms.Lookup(nil, "OpenTagset")
					if sel == nil {
						continue
					}
					open := c.P.SSA.MethodValue(sel)
					fs := dynamicTypes(open, 0)
					c.Analysed(open, nil)
					c.Must(len(fs) > 0, nil, open.Pos(), open, "file", "the type of the opened files is not known")
					for _, f := range fs {
						c.Inst("kinds of nested files")
						c.Must(types.Implements(f, rfile), nil, open.Pos(), open, "file", "%s is not a nested file", f)
						c.implements(f, "file", open.Pos(), open, file...)
					}
				}
			}
			c.AtLeast("accessors", 3)
			c.AtLeast("kinds of nested files", 3)

			c.Rule("opened directories and views are what they have to be")
			dir := c.imported("io/fs", "ReadDirFile")
			for _, spec := range []string{":Package.Open", ":Union.Open", ":FTT.OpenDir"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				n := 0
				c.Analysed(fn, nil)
				for _, t := range dynamicTypes(fn, 0) {
					n++
					c.Inst("opened objects")
					c.Must(types.Implements(t, dir) || types.Implements(t, rfile), nil, fn.Pos(), fn, "opened", "%s is neither a directory nor a nested file", t)
				}
				c.Must(n > 0, nil, fn.Pos(), fn, "directory", "no type of an opened directory is known")
			}
			for _, spec := range []string{":Package.Sub", ":Union.Sub"} {
				fn := c.Fn(spec)
				if fn == nil {
					continue
				}
				ts := dynamicTypes(fn, 0)
				c.Analysed(fn, nil)
				c.Must(len(ts) > 0, nil, fn.Pos(), fn, "view", "no type of a view is known")
				for _, t := range ts {
					c.Inst("views")
					c.implements(t, "view", fn.Pos(), fn, all...)
				}
			}
			c.AtLeast("views", 2)
			c.AtLeast("implemented interfaces", 40)
		})
}
