package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C73", Min: 4, Pkgs: []string{cachePkg, "internal/queue/utils"},
		Technique: "Path-sensitive typestate over the iterations of the listing: a queue is passed over only where its list is empty or its name does not match",
		Note:      "All paths of ListQueues of the in-memory cache, for every pool of the package pool. gobwas/glob is trusted to match what it compiled: without separators * matches every name. The listing of the Redis cache is decided by C22 and C23.",
		Run:       runC73})
}

func runC73(c *Ctx) {
	impls := c.memImpls()
	n := 0
	for _, impl := range impls {
		fn := c.P.methodOf(impl, "ListQueues")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		n++
		pos := c.P.Pos(fn.Pos())
		const pattern = "$2"
		listed := newBatch("w73", func(*Engine, *State, *Term) bool { return false })
		skip := func(st *State, why string) { st.ghost["skip"] = why }
		isList := func(t *Term) bool { return t.Typ != nil && strings.HasSuffix(t.Typ.String(), "container/list.List") }
		appended := func(e *Engine, st *State, x *Term, site ssa.Instruction) {
			if x.IsNil() || x.Op == "elems" {
				return
			}
			k := st.mem[e.T.mk("c73:key", "", nil)]
			if k == nil || strip(x) != strip(k) {
				c.Bad("lists-queue-names", c.at(site), "the listing contains %s, not the name of the queue", Canon(x))
			} else {
				c.OK("lists-queue-names", "")
			}
			c.Expect(st.ghost["match"] == "1", "lists-matching-queues", "", c.at(site), "a queue may be listed although its name does not match the pattern (%s)", e.trailStr(st))
			c.Expect(st.ghost["len"] == "1", "lists-non-empty-queues", "", c.at(site), "a queue without messages may be listed (%s)", e.trailStr(st))
			listed.done(st)
		}
		c.Explore(fn, &Opts{Event: func(*CallInfo) bool { return false },
			Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
				if strings.HasSuffix(ci.Name, "container/list.List).Len") {
					set := func(v string) func(*State) {
						return func(s *State) {
							s.ghost["len"] = v
							if v == "0" {
								skip(s, "empty")
							}
						}
					}
					switch st.ghost["len"] {
					case "0":
						return []*Outcome{{Res: e.T.Int(0)}}, true
					case "1":
						return []*Outcome{{Res: e.T.Int(1)}}, true
					}
					return []*Outcome{{Res: e.T.Int(0), Apply: set("0")}, {Res: e.T.Int(1), Apply: set("1")}}, true
				}
				if strings.HasSuffix(ci.Name, "gobwas/glob.Glob).Match") || strings.HasSuffix(ci.Name, "gobwas/glob/match.Matcher).Match") {
					g := callTerm(e, st, strip(ci.Args[0]))
					for g.Op == "ext" {
						g = callTerm(e, st, g.Args[0])
					}
					whole := g.Op == "call" && (strings.HasSuffix(g.Str, "gobwas/glob.MustCompile") || strings.HasSuffix(g.Str, "gobwas/glob.Compile")) && len(g.Args) > 0 && Canon(g.Args[0]) == pattern
					c.Expect(whole, "matched-against-the-pattern", "", c.at(ci.Site), "names are matched with %s, not with the pattern asked for", Canon(g))
					sep := whole && len(g.Args) > 1 && !g.Args[1].IsNil() && len(e.Elems(st, g.Args[1])) > 0
					c.Expect(!sep, "any-name-matches-the-star", "", c.at(ci.Site), "with separators a * does not match every queue name")
					k := st.mem[e.T.mk("c73:key", "", nil)]
					c.Expect(k != nil && strip(ci.Args[1]) == strip(k), "matched-against-the-pattern", "name", c.at(ci.Site), "the pattern is matched with %s, not with the name of the queue", Canon(ci.Args[1]))
					return []*Outcome{
						{Res: e.T.Bool(true), Apply: func(s *State) { s.ghost["match"] = "1" }},
						{Res: e.T.Bool(false), Apply: func(s *State) { s.ghost["match"] = "0"; skip(s, "no match") }}}, true
				}
				return nil, false
			},
			OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
				if kind != "item" {
					return
				}
				st.mem[e.T.mk("c73:key", "", nil)] = k
				for _, g := range []string{"skip", "match", "len"} {
					delete(st.ghost, g)
				}
				listed.seen(e, st)
			},
			OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
				if op, ok := x.Cond.(*ssa.BinOp); ok && (op.Op == token.EQL || op.Op == token.NEQ) {
					for _, a := range []ssa.Value{op.X, op.Y} {
						if t := strip(e.val(st, a)); isList(t) || a.Type().String() == "*container/list.List" {
							if !t.IsNil() && e.nilness(st, t) == 1 {
								skip(st, "no list")
							}
						}
					}
				}
				return true
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				c.Expect(st.ghost["w73"] == "", "listing-goes-on", "", pos, "the listing may stop before the last queue (%s)", e.trailStr(st))
			},
			OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				if back && st.ghost["skip"] != "" && st.ghost["w73"] == "seen" {
					delete(st.ghost, "w73")
				}
				listed.header(e, st, b, back)
			},
			OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
				for _, x := range elems {
					appended(e, st, x, site)
				}
			}}, nil)
		if !listed.flush(c, "every-queue-listed", "", "a queue with messages whose name matches may be missing from the listing") {
			c.Bad("anchor:loop", pos, "the listing of the in-memory cache lists nothing")
		}
	}
	if n == 0 {
		c.Bad("anchor:ListQueues", cachePkg, "no in-memory cache found")
	}
}
