package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What functions of other modules do with memory they are given. Nothing is known of those not listed:
// they keep and change it.

// packages whose functions neither keep nor change what they are given
var innocent = []string{"fmt", "strings", "errors", "github.com/pkg/errors", "math", "math/bits", "unicode", "unicode/utf8", "strconv",
	"log", "github.com/sirupsen/logrus", "time", "hash/crc32", "reflect", "os", "path", "path/filepath"}

// external applies the effect of a call which leaves the module.
func (g *regions) external(s *effects, c ssa.CallInstruction, args []refset) {
	cc := c.Common()
	name, pkg, meth := "", "", ""
	recv := ""
	if cc.IsInvoke() {
		meth = cc.Method.Name()
		recv = types.TypeString(cc.Value.Type(), nil)
		if cc.Method.Pkg() != nil {
			pkg = cc.Method.Pkg().Path()
		}
		name = meth
	} else {
		f := cc.StaticCallee()
		name = f.Name()
		if o := f.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		} else if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		}
		if r := f.Signature.Recv(); r != nil {
			meth = name
			recv = types.TypeString(r.Type(), nil)
		}
	}
	// methods of the module which are called back with what is given
	g.back(s, c, args)
	arg := func(i int) refset {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	n := cc.Signature().Results().Len()
	give := func(r refset) {
		for k := 0; k < n; k++ {
			s.result(c, k, n, r)
		}
	}
	fresh := func() ref {
		r := ref{g.alloc(c), ""}
		give(refset{r: true})
		return r
	}
	changes := func(i int) {
		o, fd, el := "", "", ""
		k := i
		if cc.IsInvoke() {
			k--
		}
		if k >= 0 && k < len(cc.Args) {
			o, fd, el = placeOf(cc.Args[k])
		}
		g.change(s, arg(i), o, fd, el, c.Pos(), s.fn)
	}
	both := func(x, y refset) refset {
		out := refset{}
		for r := range x {
			out[r] = true
		}
		for r := range y {
			out[r] = true
		}
		return out
	}
	if meth != "" {
		switch {
		case recv == "*bytes.Buffer" || recv == "*bufio.Writer" || recv == "*bufio.Reader" || recv == "*strings.Builder" || recv == "*bytes.Reader":
			changes(0)
			switch meth {
			case "Bytes", "Next", "AvailableBuffer", "Peek":
				give(arg(0))
			case "Read", "ReadAt":
				changes(1)
			case "ReadBytes":
				fresh()
			case "ReadFrom", "WriteTo", "ReadRune", "ReadString", "String":
			case "Reset":
				if len(args) > 1 {
					g.store(s, c, arg(0), arg(1), c.Pos(), s.fn)
				}
			}
			return
		case strings.HasPrefix(g.relType(recv), "pb/"): // messages
			switch {
			case strings.HasPrefix(meth, "Get"):
				give(s.load(arg(0)))
			case meth == "Reset" || strings.HasPrefix(meth, "XXX_Unm"):
				changes(0)
			case meth == "String" || strings.HasPrefix(meth, "XXX_Size") || meth == "Enum":
				fresh()
			default:
				fresh()
			}
			return
		case strings.HasPrefix(pkg, "encoding/binary"):
			if strings.HasPrefix(meth, "Put") {
				changes(1)
			} else if strings.HasPrefix(meth, "Append") {
				changes(1)
				give(both(refset{fresh(): true}, arg(1)))
			}
			return
		case meth == "Write" || meth == "WriteString" || meth == "WriteByte" || meth == "Sum64" || meth == "Sum32": // io.Writer must not keep or change it
			changes(0)
			return
		case meth == "Read" || meth == "ReadAt":
			changes(0)
			changes(1)
			return
		case meth == "ReadByte" || meth == "Close" || meth == "Flush" || meth == "Seek" || meth == "Error" || meth == "String" || meth == "Stat" || meth == "Size" || meth == "Name":
			changes(0)
			if n > 0 {
				fresh()
			}
			return
		case innocentPkg(pkg):
			fresh()
			return
		}
		g.unknown(s, c, args)
		return
	}
	switch {
	case pkg == "bytes":
		switch name {
		case "NewBuffer", "NewReader":
			r := fresh()
			s.add(s.cell(r), arg(0))
			give(both(refset{r: true}, arg(0)))
		case "NewBufferString", "Clone", "Repeat", "Join", "ToUpper", "ToLower", "Replace", "ReplaceAll", "Map":
			fresh()
		default:
			give(arg(0))
			give(arg(1))
		}
	case pkg == "io" || pkg == "io/ioutil":
		switch name {
		case "ReadFull", "ReadAtLeast":
			changes(0)
			changes(1)
		case "Copy", "CopyN", "CopyBuffer":
			changes(0)
			changes(1)
			changes(3)
		case "ReadAll":
			fresh()
		case "WriteString":
			changes(0)
		default:
			r := fresh()
			for _, a := range args {
				s.add(s.cell(r), a)
			}
		}
	case pkg == "sort" || pkg == "math/rand" || pkg == "crypto/rand":
		changes(0)
		if strings.HasPrefix(name, "Search") {
			return
		}
		give(arg(0))
	case pkg == "slices":
		switch {
		case strings.HasPrefix(name, "Sort") || name == "Reverse":
			changes(0)
		case name == "Clone":
			r := fresh()
			s.add(s.cell(r), s.load(arg(0)))
		case name == "Contains" || strings.HasPrefix(name, "Index") || name == "Equal" || strings.HasPrefix(name, "BinarySearch"):
		default:
			changes(0)
			give(both(refset{fresh(): true}, arg(0)))
		}
	case pkg == "encoding/binary":
		switch {
		case strings.HasPrefix(name, "Put"):
			changes(0)
		case name == "Read":
			changes(0)
			changes(2)
		case name == "Write":
			changes(0)
		case strings.HasPrefix(name, "Append"):
			changes(0)
			give(both(refset{fresh(): true}, arg(0)))
		}
	case strings.HasSuffix(pkg, "/proto"):
		switch name {
		case "Unmarshal", "UnmarshalMerge":
			changes(1)
		case "Marshal", "Clone", "MarshalTextString", "CompactTextString", "Size", "Equal":
			fresh()
		case "String", "Uint64", "Int64", "Bool", "Int32", "Uint32", "Float64":
			fresh()
		default:
			g.unknown(s, c, args)
		}
	case strings.Contains(pkg, "snappy") || strings.Contains(pkg, "lz4") || strings.Contains(pkg, "zstd"):
		changes(0)
		give(both(refset{fresh(): true}, arg(0)))
	case strings.HasPrefix(pkg, "compress/") || pkg == "bufio":
		r := fresh()
		for _, a := range args {
			s.add(s.cell(r), a)
		}
	case pkg == "unsafe":
		g.unknown(s, c, args)
	case innocentPkg(pkg):
		fresh()
	default:
		if name == "init" {
			return
		}
		g.unknown(s, c, args)
	}
}

func innocentPkg(p string) bool {
	for _, x := range innocent {
		if p == x {
			return true
		}
	}
	return false
}

func (g *regions) relType(recv string) string {
	return strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(recv, "*"), modPath), "/")
}

// back applies the methods of the module which a function outside may call with what it is given: those of
// the interface of its parameters, each with the bytes given besides.
func (g *regions) back(s *effects, c ssa.CallInstruction, args []refset) {
	cc := c.Common()
	if cc.IsInvoke() {
		return
	}
	f := cc.StaticCallee()
	sig := f.Signature
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	for i := 0; i+off < len(cc.Args) && i < sig.Params().Len(); i++ {
		it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 {
			continue
		}
		a := cc.Args[i+off]
		for k := 0; k < it.NumMethods(); k++ {
			m := it.Method(k)
			var fs []*ssa.Function
			if mi, ok := a.(*ssa.MakeInterface); ok {
				fs = g.cg.method(mi.X.Type(), m.Name(), m.Pkg())
			} else if at, ok := a.Type().Underlying().(*types.Interface); ok {
				fs = g.cg.methods(at, m.Name(), m.Pkg())
			}
			for _, t := range fs {
				if !g.analysed(t) {
					continue
				}
				as := []refset{g.read(s, a)}
				for j := 1; j < len(t.Params); j++ {
					x := refset{}
					for q := range cc.Args {
						if q != i+off && types.Identical(cc.Args[q].Type(), t.Params[j].Type()) {
							for r := range g.read(s, cc.Args[q]) {
								x[r] = true
							}
						}
					}
					as = append(as, x)
				}
				g.quiet(s, c, t, as)
			}
		}
	}
}

// quiet is apply without results.
func (g *regions) quiet(s *effects, c ssa.CallInstruction, f *ssa.Function, args []refset) {
	v, _ := c.(*ssa.Call)
	var keep refset
	if v != nil {
		keep = refset{}
		for r := range s.refsOf(v) {
			keep[r] = true
		}
	}
	n := s.n
	g.apply(s, c, f, args)
	if v != nil {
		grown := len(s.val[v]) - len(keep)
		s.val[v] = keep
		s.n -= grown
		if s.n < n {
			s.n = n
		}
	}
}
