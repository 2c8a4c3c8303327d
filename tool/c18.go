package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C18"] = property{"static analysis: call graph reachability (class hierarchy analysis, calls made back by the standard library included) of operations which create, alter or remove files, from the reading and from the writing interface; path sensitive tracking of the path and handle a writer is given", rulesC18}
}

// harmless are the operations of package os which change no file.
var harmless = map[string]bool{"os.Open": true, "(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).Seek": true, "(*os.File).Close": true,
	"(*os.File).Stat": true, "(*os.File).Name": true, "(*os.File).ReadDir": true, "(*os.File).Readdir": true, "(*os.File).Readdirnames": true, "(*os.File).WriteTo": true,
	"os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "os.ReadDir": true, "os.Getwd": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true,
	"os.Getpid": true, "os.Hostname": true, "os.Getpagesize": true, "os.TempDir": true, "os.Readlink": true, "os.SameFile": true, "os.Exit": true, "os.Executable": true,
	"os.IsExist": true, "os.IsNotExist": true, "os.IsPermission": true, "os.IsTimeout": true, "os.IsPathSeparator": true,
	"io/ioutil.ReadAll": true, "io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "io/ioutil.NopCloser": true}

// fileOp tells whether an outside function works on the file system, and whether it may change it.
func fileOp(e extCall) (is, changes bool) {
	n := strings.TrimPrefix(e.name, "(*")
	n = strings.TrimPrefix(n, "(")
	pk := n
	if i := strings.LastIndex(n, "/"); i >= 0 {
		if j := strings.IndexAny(n[i:], ".)"); j >= 0 {
			pk = n[:i+j]
		}
	} else if j := strings.IndexAny(n, ".)"); j >= 0 {
		pk = n[:j]
	}
	switch {
	case pk == "os" || pk == "io/ioutil":
	case pk == "syscall" || strings.HasPrefix(pk, "golang.org/x/sys") || pk == "os/exec" || pk == "plugin":
		return true, true
	default:
		return false, false
	}
	if harmless[e.name] {
		return true, false
	}
	if strings.HasPrefix(e.name, "(os.File") && !strings.HasPrefix(e.name, "(os.File)") || strings.HasPrefix(e.name, "(io/fs") || strings.HasPrefix(e.name, "(os.FileInfo") {
		return true, false // about a file only
	}
	if strings.HasPrefix(e.name, "(*os.PathError)") || strings.HasPrefix(e.name, "(os.Signal)") {
		return true, false
	}
	if e.name == "os.OpenFile" && e.at != nil && len(e.at.Common().Args) > 1 {
		if v, ok := constInt(e.at.Common().Args[1]); ok && v == 0 {
			return true, false
		}
	}
	return true, true
}

// appends are what a writer needs: creating its file and adding to it.
var appends = map[string]bool{"os.Create": true, "os.OpenFile": true, "(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).Sync": true, "(*os.File).ReadFrom": true}

func rulesC18(c *Check) {
	g := c.W.callGraph()
	rule := "reading changes no file"
	roots := append(c.W.methodsOf("orc", "Reader"), c.W.methodsOf("orc", "BatchReader")...)
	roots = append(roots, c.W.methodsOf("orc/column", "Reader")...)
	roots = append(roots, c.W.fn("orc", "NewOSFileReader"), c.W.fn("orc/io", "OpenFileForRead"))
	from := g.reach(roots)
	fileOps(c, g, rule, from, nil)
	c.atLeast(rule, 3)

	rule = "writing changes the file given only"
	wroots := append(c.W.methodsOf("orc", "Writer"), c.W.methodsOf("orc/column", "Writer")...)
	wroots = append(wroots, c.W.fn("orc", "NewOSFileWriter"), c.W.fn("orc/io", "OpenFileForWrite"))
	wfrom := g.reach(wroots)
	fileOps(c, g, rule, wfrom, appends)
	c.atLeast(rule, 2)

	// anything else of the packages, such as helpers used by neither
	rule = "no file is changed elsewhere"
	rest := map[*ssa.Function]*ssa.Function{}
	for _, fn := range c.W.Funcs {
		if _, a := from[fn]; a {
			continue
		}
		if _, a := wfrom[fn]; a {
			continue
		}
		if !strings.HasPrefix(c.W.rel(fn.Pkg.Pkg), "orc") {
			continue
		}
		rest[fn] = nil
		c.ob(rule, short(fn))
	}
	fileOps(c, g, rule, rest, nil)

	writerPath(c)
	fileWrites(c)
}

func fileOps(c *Check, g *callGraph, rule string, from map[*ssa.Function]*ssa.Function, allowed map[string]bool) {
	n := 0
	for _, fn := range c.W.Funcs {
		if _, ok := from[fn]; !ok {
			continue
		}
		c.funcs[fn.String()] = true
		n++
		for _, e := range g.ext[fn] {
			is, changes := fileOp(e)
			if !is || strings.HasSuffix(e.name, ".init") {
				continue
			}
			c.sites++
			con := short(fn) + " " + e.name
			c.expect(!changes || allowed[e.name], rule, con, e.at.Pos(), "%s is reached: %s", e.name, chain(from, fn))
		}
	}
	c.expect(n > 0 || rule == "no file is changed elsewhere", rule, "functions", 0, "no function found")
}

// writerPath: the only file created is the one at the path handed in, and it is what the writer writes to.
func writerPath(c *Check) {
	rule := "the file created is the one asked for"
	fn := c.W.fn("orc", "NewOSFileWriter")
	if fn == nil {
		c.fail(rule, "NewOSFileWriter", 0, "not found")
		return
	}
	en := c.W.newEngine()
	en.Opaque = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Parent() != nil {
			return false
		}
		switch c.W.rel(f.Pkg.Pkg) {
		case "orc/column", "orc/common", "orc/stream", "orc/encoding", "orc/api":
			return true
		}
		return false
	}
	s := c.run(en, rule, fn, nil, nil)
	if s == nil {
		return
	}
	var path *engine.Term
	for i, p := range fn.Params {
		if p.Type().String() == "string" {
			path = s.Params[i]
		}
	}
	c.ob(rule, "NewOSFileWriter")
	for _, p := range s.Paths {
		n := 0
		deep(p.Events, func(e *engine.Event, in *engine.Loop) {
			if e.Kind != "call" || !appends[e.Callee] || !strings.HasPrefix(e.Callee, "os.") {
				return
			}
			n++
			c.expect(len(e.Args) > 0 && e.Args[0] == path && in == nil, rule, "path", e.Pos, "%s is given %v, not the path of the writer", e.Name, e.Args)
		})
		if failed(en, p) != yes {
			c.expect(n == 1, rule, "NewOSFileWriter", p.RetPos, "%d files are created", n)
		}
	}
	c.atLeast(rule, 2)
}

// fileWrites: a file hands what it is asked to write to its own handle.
func fileWrites(c *Check) {
	rule := "writes go to the handle of the file"
	for _, t := range c.W.implementers("orc/io", "File") {
		fn := c.W.method(t, "Write")
		en := c.W.newEngine()
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := t.Obj().Name() + ".Write"
		c.ob(rule, con)
		for _, p := range s.Paths {
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind != "call" || !strings.HasPrefix(e.Callee, "(*os.File)") && !strings.HasPrefix(e.Callee, "os.") {
					return
				}
				c.expect(e.Recv != nil && base(e.Recv) == s.Params[0], rule, con, e.Pos, "%s is used on something else than the file's own handle", e.Name)
			})
		}
	}
	c.atLeast(rule, 2)
}
