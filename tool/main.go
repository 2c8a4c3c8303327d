package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// rules of a property, with the technique in a few words.
type property struct {
	technique string
	rules     func(c *Check)
}

var properties = map[string]property{}

func main() {
	args := os.Args[1:]
	if len(args) > 1 && args[0] == "-dump" {
		dump(args[1:])
		return
	}
	if len(args) == 1 && args[0] == "-roles" {
		w, _ := loadWorld(repoDir())
		for _, n := range []string{"stripeWriter.flushOut", "writer.writeFileTail", "stripeWriter.write", "stripeWriter.forward", "newWriter", "newStripeReader"} {
			fmt.Println(n, w.fnNamed("orc", n), w.byRole("orc", n))
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(args) > 1 && args[1] == "-thorough" {
		tier = "thorough"
	}
	if len(args) == 0 {
		fmt.Println("usage: goorcvet PROPERTY|all [-thorough]")
		os.Exit(2)
	}
	start := time.Now()
	w, err := loadWorld(repoDir())
	ids := strings.Split(args[0], ",")
	if args[0] == "all" {
		ids = nil
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		p, ok := properties[id]
		if !ok {
			fmt.Println("no such property", id)
			os.Exit(2)
		}
		c := newCheck(w, id, tier)
		if w == nil {
			c.W = &World{Repo: repoDir(), Fset: token.NewFileSet()}
		}
		switch {
		case err != nil:
			c.fail("load", "packages", token.NoPos, "%v", err)
		case len(w.Errs) > 0:
			c.fail("load", "packages", token.NoPos, "the source does not type-check: %s", strings.Join(w.Errs, "; "))
		default:
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.fail("internal", "panic", token.NoPos, "%v", r)
						if os.Getenv("GOORCVET_DEBUG") != "" {
							debug.PrintStack()
						}
					}
				}()
				p.rules(c)
			}()
		}
		if c.finish(start, p.technique) != 0 {
			code = 1
		}
		start = time.Now()
	}
	os.Exit(code)
}

func dump(args []string) {
	w, err := loadWorld(repoDir())
	if err != nil {
		panic(err)
	}
	for _, e := range w.Errs {
		fmt.Println(e)
	}
	i := strings.LastIndex(args[0], ":")
	fn := w.fn(args[0][:i], args[0][i+1:])
	if fn == nil {
		fmt.Println("not found")
		return
	}
	en := w.newEngine()
	mode := ""
	if len(args) > 1 {
		mode = args[1]
	}
	if strings.Contains(mode, "f") {
		en = w.fileEngine()
	}
	en.TrackStores = strings.Contains(mode, "s")
	if strings.Contains(mode, "c") {
		en.Opaque = opaqueStreams
	}
	if len(args) > 2 {
		old := en.Opaque
		en.Opaque = func(f *ssa.Function) bool {
			for _, n := range strings.Split(args[2], ",") {
				if f.Name() == n {
					return true
				}
			}
			return old != nil && old(f)
		}
	}
	s := en.Run(fn, nil, nil)
	for _, p := range s.Paths {
		fmt.Println("*", p)
	}
	fmt.Println(len(s.Paths), s.Complete, s.Problems, en.Steps)
}

func repoDir() string {
	if r := os.Getenv("GOORCVET_REPO"); r != "" {
		return r
	}
	return "/repo"
}
