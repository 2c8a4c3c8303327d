package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"goorcvet/engine"
)

func init() {
	properties["C10"] = property{"static analysis: reference flow from package level variables (through fields, calls, closures and results) to instructions which change memory; search for started goroutines and callbacks; path sensitive ownership of file handles by streams and of positions by handles", rulesC10}
}

func rulesC10(c *Check) {
	sharedState(c)
	ownActivity(c)
	ownHandles(c)
	ownClones(c)
	sharedHandle(c)
	freshObjects(c)
}

// shared follows references to memory all of the package can reach.
type shared struct {
	c      *Check
	rule   string
	con    string
	g      *callGraph
	seen   map[sharedKey]bool
	queue  []sharedKey
	fields map[string]bool
	byFld  map[string][]ssa.Instruction // accesses by struct type and field
	exempt map[*ssa.Function]bool
}

// sharedKey: a value which is a reference to shared memory, or (hold) memory of its own holding such references.
type sharedKey struct {
	v    ssa.Value
	hold bool
}

func isLogger(t types.Type) bool {
	return strings.Contains(t.String(), "sirupsen/logrus.")
}

// refs tells whether values of a type give access to memory that can be changed.
func refs(t types.Type) bool { return refs1(t, 0) }

func refs1(t types.Type, d int) bool {
	if d > 6 || isLogger(t) || types.Identical(t, errType) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func sharedState(c *Check) {
	rule := "no state shared by the package is changed"
	g := c.W.callGraph()
	byFld := map[string][]ssa.Instruction{}
	uses := map[*ssa.Global][]ssa.Instruction{}
	exempt := onlyInit(c.W, g)
	for _, fn := range c.W.Funcs {
		if exempt[fn] {
			continue
		}
		c.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok {
						uses[gl] = append(uses[gl], in)
					}
				}
				if k := fieldKey(in); k != "" {
					byFld[k] = append(byFld[k], in)
				}
			}
		}
	}
	// every variable of the module, and any of outside which is used
	all := map[*ssa.Global]bool{}
	for n, p := range c.W.Pkgs {
		if strings.HasPrefix(n, "pb") {
			continue
		}
		for _, m := range p.Members {
			if gl, ok := m.(*ssa.Global); ok && !strings.HasPrefix(gl.Name(), "init$guard") {
				all[gl] = true
			}
		}
	}
	for gl := range uses {
		all[gl] = true
	}
	var order []*ssa.Global
	for gl := range all {
		order = append(order, gl)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	for _, gl := range order {
		con := strings.ReplaceAll(gl.String(), modPath+"/", "")
		c.ob(rule, con)
		s := &shared{c: c, rule: rule, con: con, g: g, seen: map[sharedKey]bool{}, fields: map[string]bool{}, byFld: byFld, exempt: exempt}
		if isLogger(gl.Type()) || c.W.rel(gl.Pkg.Pkg) == "" {
			for _, in := range uses[gl] {
				if st, ok := in.(*ssa.Store); ok && st.Addr == gl {
					c.fail(rule, con, in.Pos(), "the variable is set in %s", short(in.Parent()))
				}
			}
			continue
		}
		for _, in := range uses[gl] {
			c.sites++
			s.use(sharedKey{gl, false}, in)
		}
		for len(s.queue) > 0 {
			k := s.queue[0]
			s.queue = s.queue[1:]
			if k.v.Referrers() == nil {
				continue
			}
			for _, in := range *k.v.Referrers() {
				if !s.exempt[in.Parent()] {
					s.use(k, in)
				}
			}
		}
	}
	c.atLeast(rule, 4)
}

// onlyInit are the functions which run while the program starts and at no other time.
func onlyInit(w *World, g *callGraph) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range w.Funcs {
		for _, s := range g.succ[f] {
			callers[s] = append(callers[s], f)
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			r[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Funcs {
			if r[f] || len(callers[f]) == 0 || f.Signature.Recv() != nil || token.IsExported(f.Name()) {
				continue
			}
			ok := true
			for _, p := range callers[f] {
				if !r[p] {
					ok = false
				}
			}
			if ok {
				r[f] = true
				changed = true
			}
		}
	}
	return r
}

func fieldKey(v interface{}) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return fieldOf(p.Elem(), x.Field)
		}
	case *ssa.Field:
		return fieldOf(x.X.Type(), x.Field)
	}
	return ""
}

func fieldOf(t types.Type, i int) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}

func (s *shared) push(v ssa.Value, hold bool) {
	if !refs(v.Type()) {
		return
	}
	k := sharedKey{v, hold}
	if !s.seen[k] {
		s.seen[k] = true
		s.queue = append(s.queue, k)
	}
}

func (s *shared) bad(in ssa.Instruction, format string, a ...interface{}) {
	s.c.fail(s.rule, s.con, in.Pos(), "in "+short(in.Parent())+" "+format, a...)
}

func (s *shared) use(k sharedKey, in ssa.Instruction) {
	v := k.v
	switch x := in.(type) {
	case *ssa.Store:
		if x.Addr == v && !k.hold {
			s.bad(in, "it, or memory reached from it, is set")
		}
		if x.Val == v {
			s.escape(x.Addr, k.hold)
		}
	case *ssa.MapUpdate:
		if x.Map == v && !k.hold {
			s.bad(in, "a map reached from it is changed")
		}
		if x.Value == v || x.Key == v {
			s.push(x.Map, true)
		}
	case *ssa.Send:
		if x.Chan == v {
			s.bad(in, "a channel reached from it is used")
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// what own memory holds is shared, at whatever depth it was put
			s.push(x, false)
		} else if x.Op == token.ARROW && x.X == v {
			s.bad(in, "a channel reached from it is used")
		}
	case *ssa.FieldAddr:
		s.pushAddr(x, k.hold)
	case *ssa.IndexAddr:
		if x.X == v {
			s.pushAddr(x, k.hold)
		}
	case *ssa.Slice:
		s.push(x, k.hold)
	case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		s.push(in.(ssa.Value), k.hold)
	case *ssa.Convert:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			s.bad(in, "an unsafe pointer is made of it")
		}
		if _, ok := v.Type().Underlying().(*types.Basic); !ok {
			if _, isStr := x.Type().Underlying().(*types.Basic); !isStr {
				s.push(x, k.hold)
			}
		}
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok {
			for i, b := range x.Bindings {
				if b == v && i < len(f.FreeVars) {
					s.pushAddr(f.FreeVars[i], k.hold)
				}
			}
		}
	case *ssa.Return:
		for _, ci := range s.g.pred[in.Parent()] {
			if cv, ok := ci.(ssa.Value); ok && !s.exempt[ci.Parent()] {
				if tp, isT := cv.Type().(*types.Tuple); isT {
					for i, r := range x.Results {
						if r == v && i < tp.Len() {
							for _, ref := range *cv.Referrers() {
								if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
									s.push(ex, k.hold)
								}
							}
						}
					}
				} else {
					s.push(cv, k.hold)
				}
			}
		}
	case ssa.CallInstruction:
		s.call(k, x)
	}
}

// pushAddr follows an address, whatever it points to.
func (s *shared) pushAddr(v ssa.Value, hold bool) {
	k := sharedKey{v, hold}
	if !s.seen[k] {
		s.seen[k] = true
		s.queue = append(s.queue, k)
	}
}

// escape: a reference is put where addr points to.
func (s *shared) escape(addr ssa.Value, hold bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		key := fieldKey(a)
		if key != "" && !s.fields[key] {
			s.fields[key] = true
			for _, in := range s.byFld[key] {
				switch y := in.(type) {
				case *ssa.FieldAddr:
					// the field itself may be set, what it holds may not be changed
					s.pushAddr(y, true)
				case *ssa.Field:
					s.push(y, false)
				}
			}
		}
	case *ssa.IndexAddr:
		s.pushAddr(a.X, true)
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Phi, *ssa.Parameter, *ssa.UnOp:
		s.pushAddr(a, true)
	case *ssa.Global:
		s.pushAddr(a, true)
	}
}

// reads are functions of outside which leave alone what they are handed.
func reads(n string) bool {
	for _, p := range []string{"fmt.", "errors.", "github.com/pkg/errors.", "strings.", "strconv.", "github.com/golang/protobuf/proto.Marshal", "github.com/golang/protobuf/proto.Size", "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "bytes.NewReader",
		"google.golang.org/protobuf/proto.Marshal", "reflect.DeepEqual", "sort.Search", "sort.IntsAreSorted", "math", "unicode", "(*sync.Mutex)", "(*sync.RWMutex)", "(*sync.Pool)", "(*regexp.Regexp)", "(time."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.Contains(n, "sirupsen/logrus") {
		return true
	}
	for _, m := range []string{").Write", ").WriteString", ").Error", ").String", ").GoString"} {
		if strings.HasSuffix(n, m) {
			return true // by contract data is not changed
		}
	}
	return false
}

func (s *shared) call(k sharedKey, ci ssa.CallInstruction) {
	cc := ci.Common()
	v := k.v
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if cc.Args[0] == v {
				if !k.hold {
					s.bad(ci, "it is appended to, which may write to its memory")
				}
				if cv, ok := ci.(ssa.Value); ok {
					s.push(cv, k.hold)
				}
			}
			for _, a := range cc.Args[1:] {
				if a == v {
					if cv, ok := ci.(ssa.Value); ok {
						if sl, ok := a.Type().Underlying().(*types.Slice); ok && refs(sl.Elem()) {
							s.push(cv, true)
						}
					}
				}
			}
		case "copy", "delete", "clear":
			if cc.Args[0] == v && !k.hold {
				s.bad(ci, "it is changed by %s", b.Name())
			}
		case "close":
			s.bad(ci, "a channel is closed")
		}
		return
	}
	fs := s.g.callees(ci)
	for _, f := range fs {
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, a := range args {
			if a == v && i < len(f.Params) {
				s.pushAddr(f.Params[i], k.hold)
			}
		}
	}
	if len(fs) > 0 && !cc.IsInvoke() {
		return
	}
	for _, e := range s.g.external(ci, func(*ssa.Function) {}) {
		if e.at != ci {
			continue
		}
		if cc.IsInvoke() && len(fs) > 0 {
			return
		}
		uses := cc.IsInvoke() && cc.Value == v
		for _, a := range cc.Args {
			if a == v {
				uses = true
			}
		}
		if uses && !reads(e.name) && !k.hold {
			s.bad(ci, "it is handed to %s, which may change it", e.name)
		}
		return
	}
}

// ownActivity: nothing goes on behind the caller's back.
func ownActivity(c *Check) {
	rule := "no activity is started"
	g := c.W.callGraph()
	for _, fn := range c.W.Funcs {
		if !strings.HasPrefix(c.W.rel(fn.Pkg.Pkg), "orc") {
			continue
		}
		c.ob(rule, short(fn))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					c.fail(rule, short(fn), in.Pos(), "a goroutine is started")
				}
			}
		}
		for _, e := range g.ext[fn] {
			switch e.name {
			case "time.AfterFunc", "runtime.SetFinalizer", "runtime.AddCleanup", "os/signal.Notify", "(*golang.org/x/sync/errgroup.Group).Go", "(*sync.WaitGroup).Go", "context.AfterFunc":
				c.fail(rule, short(fn), e.at.Pos(), "%s starts something of its own", e.name)
			}
		}
	}
	c.atLeast(rule, 200)
}

// ownHandles: a stream reads from a handle opened for it alone.
func ownHandles(c *Check) {
	rule := "each stream reads from a handle of its own"
	for _, t := range c.W.implementers(colPkg, "Reader") {
		fn := c.W.method(t, "InitStream")
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		en := c.W.colEngine()
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := t.Obj().Name()
		n := 0
		for _, p := range good(en, fn, s) {
			owner := map[*engine.Term]*engine.Event{}
			deep(p.Events, func(e *engine.Event, in *engine.Loop) {
				if e.Kind != "call" || !strings.Contains(e.Callee, "/orc/stream.New") {
					return
				}
				for _, a := range e.Args {
					if !c.W.isFile(a.Typ) {
						continue
					}
					x := engine.StripIface(a)
					ev, _ := x.Any.(*engine.Event)
					ok := x.Op == "res" && ev != nil && ev.Name == "Clone" && in == nil
					c.expect(ok, rule, con, e.Pos, "the stream of %s is given %v, not a clone of the column's handle", e.Name, a)
					if ok {
						c.expect(owner[x] == nil, rule, con, e.Pos, "two streams share the handle of one clone")
						owner[x] = e
						n++
					}
				}
			})
			// the handle is not kept for other use
			for a, v := range p.Writes {
				if x := engine.StripIface(v); owner[x] != nil && engine.Root(a) == s.Params[0] {
					c.fail(rule, con, p.RetPos, "the stream's handle is kept in %v too", a)
				}
			}
		}
		c.expect(n > 0, rule, con, fnPos(fn), "no stream with a handle is made")
	}
	c.atLeast(rule, 10)
}

func (w *World) isFile(t types.Type) bool {
	if t == nil {
		return false
	}
	if typeIs(t, "orc/io.File") {
		return true
	}
	p := w.Pkgs["orc/io"]
	if p == nil || p.Type("File") == nil {
		return false
	}
	it := p.Type("File").Type().Underlying().(*types.Interface)
	return types.Implements(t, it)
}

// ownClones: a clone has a position of its own.
func ownClones(c *Check) {
	rule := "a clone is another handle"
	for _, t := range c.W.implementers("orc/io", "File") {
		fn := c.W.method(t, "Clone")
		en := c.W.newEngine()
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := t.Obj().Name()
		c.ob(rule, con)
		for _, p := range good(en, fn, s) {
			obj := engine.StripIface(p.Ret[0])
			if !c.expect(obj.Op == "alloc", rule, con, p.RetPos, "%v is returned, not a new object", obj) {
				continue
			}
			allFields(obj.Typ, func(path []int, v *types.Var) {
				pt, ok := v.Type().Underlying().(*types.Pointer)
				if _, isI := v.Type().Underlying().(*types.Interface); !ok && !isI {
					return
				}
				_ = pt
				a, ft := addrOf(en, obj, obj.Typ, path)
				val := engine.StripIface(en.Load(p.St, a, ft))
				if val.Op == "nil" {
					return
				}
				c.expect(base(val) != s.Params[0], rule, con, p.RetPos, "the clone shares %s with the original", v.Name())
				if typeStr := v.Type().String(); typeStr == "*os.File" {
					ev, _ := val.Any.(*engine.Event)
					c.expect(val.Op == "res" && ev != nil && strings.HasPrefix(ev.Callee, "os.Open"), rule, con, p.RetPos, "the clone's handle is %v, not one just opened", val)
				}
			})
		}
	}
	c.atLeast(rule, 2)
}

// sharedHandle: the handle shared by a reader's columns and batch readers is positioned before each use.
func sharedHandle(c *Check) {
	rule := "a shared handle is positioned before it is read"
	fns := []*ssa.Function{}
	for _, fn := range c.W.Funcs {
		switch c.W.rel(fn.Pkg.Pkg) {
		case "orc", "orc/column":
			if fn.Synthetic == "" && fn.Parent() == nil && readsFile(c.W, fn) {
				fns = append(fns, fn)
			}
		}
	}
	for _, fn := range fns {
		en := c.W.newEngine()
		en.Opaque = func(f *ssa.Function) bool {
			if f.Pkg == nil || f.Parent() != nil {
				return false
			}
			switch c.W.rel(f.Pkg.Pkg) {
			case "orc/common", "orc/stream", "orc/encoding", "orc/io", "orc/api":
				return true
			}
			return false
		}
		s := c.run(en, rule, fn, nil, nil)
		if s == nil {
			continue
		}
		con := short(fn)
		c.ob(rule, con)
		for _, p := range s.Paths {
			at := map[*engine.Term]bool{}
			var walk func(evs []*engine.Event)
			walk = func(evs []*engine.Event) {
				for _, e := range evs {
					if e.Kind == "loop" {
						for _, it := range e.Loop.Iters {
							walk(it.Events)
						}
						continue
					}
					if e.Kind != "call" {
						continue
					}
					if e.Name == "Seek" && e.Recv != nil && c.W.isFile(e.Recv.Typ) && len(e.Args) == 2 {
						if w, ok := e.Args[1].IntVal(); ok && (w == 0 || w == 2) {
							at[engine.StripIface(e.Recv)] = true
						}
						continue
					}
					for _, a := range append([]*engine.Term{e.Recv}, e.Args...) {
						if a == nil || !readEvent(e) {
							continue
						}
						if x := engine.StripIface(a); c.W.isFile(x.Typ) || c.W.isFile(a.Typ) {
							c.sites++
							c.expect(at[x], rule, con, e.Pos, "%s reads from wherever the handle was left", e.Name)
						}
					}
				}
			}
			walk(p.Events)
		}
	}
	c.atLeast(rule, 3)
}

func readEvent(e *engine.Event) bool {
	switch e.Name {
	case "Read", "ReadFull", "ReadAll", "ReadAtLeast", "Copy", "CopyN", "CopyBuffer", "ReadFrom", "ReadByte":
		return true
	}
	return false
}

// readsFile: the function itself reads from a file handle.
func readsFile(w *World, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Read" && w.isFile(cc.Value.Type()) {
				return true
			}
			if f := cc.StaticCallee(); f != nil && f.Pkg != nil && w.rel(f.Pkg.Pkg) == "" {
				for _, a := range cc.Args {
					x := a
					if ch, ok := a.(*ssa.ChangeInterface); ok {
						x = ch.X
					}
					if w.isFile(x.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// freshObjects: what is made for a caller is made for it alone.
func freshObjects(c *Check) {
	rule := "what is handed out is new"
	check := func(en *engine.Engine, fn *ssa.Function, s *engine.Summary) {
		if s == nil {
			return
		}
		con := short(fn)
		c.ob(rule, con)
		for _, p := range good(en, fn, s) {
			if len(p.Ret) == 0 {
				continue
			}
			obj := engine.StripIface(p.Ret[0])
			if obj.Op == "nil" && failed(en, p) == maybe {
				continue
			}
			c.expect(obj.Op == "alloc", rule, con, p.RetPos, "%v is handed out, not an object made by this call", obj)
		}
	}
	for _, n := range []string{"NewOSFileReader", "NewOSFileWriter"} {
		fn := c.W.fn("orc", n)
		if fn == nil {
			c.fail(rule, n, 0, "not found")
			continue
		}
		en := c.W.fileEngine()
		en.InRepo = func(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }
		check(en, fn, c.run(en, rule, fn, nil, nil))
	}
	for _, t := range c.W.implementers("orc", "Reader") {
		fn := c.W.method(t, "CreateBatchReader")
		en := c.W.fileEngine()
		check(en, fn, c.run(en, rule, fn, nil, nil))
	}
	for _, n := range []string{"NewReader", "NewWriter"} {
		en := c.W.colEngine()
		fn := c.W.fn(colPkg, n)
		if fn == nil {
			c.fail(rule, n, 0, "not found")
			continue
		}
		check(en, fn, c.run(en, rule, fn, nil, nil))
	}
	for _, n := range []string{"OpenFileForRead", "OpenFileForWrite"} {
		fn := c.W.fn("orc/io", n)
		en := c.W.newEngine()
		if fn == nil {
			c.fail(rule, n, 0, "not found")
			continue
		}
		check(en, fn, c.run(en, rule, fn, nil, nil))
	}
	c.atLeast(rule, 6)
}
