package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

// c02graph injects faults into graph batches and imports. A batch that returns no error has
// applied exactly the elements it did not report as failed; one that returns an error, nothing.
func c02graph(c *Case) {
	r := c.R
	g := newGWorld(c, "cosine", 3)
	g.Index = r.Intn(2) == 0
	g.open()
	defer g.S.Close()
	for i := 0; i < 30; i++ {
		g.Step()
	}
	rounds, size := 12, func(n int) int { return 2 + r.Intn(n) }
	if c.Idx%10 == 9 {
		// batches of hundreds, so that a fault comes late in them
		rounds, size = 6, func(int) int { return 80 + r.Intn(500) }
		for i := 0; i < 500; i++ {
			g.NIDs = append(g.NIDs, fmt.Sprint("big", i))
			g.EIDs = append(g.EIDs, fmt.Sprint("bige", i))
		}
		var nodes []*graph.GraphNode
		for _, id := range g.NIDs[:400] {
			n := g.newNode(id)
			nodes = append(nodes, n)
			g.putNode(n)
		}
		_, err := g.G.UpsertNodesBatch(bg, nodes)
		g.ok(err, "UpsertNodesBatch")
		c.Count("big_graph_cases", 1)
	}
	for round := 0; round < rounds; round++ {
		before := g.dump()
		searchBefore := g.searchSig()
		op := r.Intn(6)
		var name string
		var when, cond string
		var run func(ctx context.Context) (*graph.BatchResult, error)
		var apply func()                 // model change of a complete run
		var good int                     // elements expected to succeed without fault
		var applyBut func(victim string) // model change when only victim failed
		switch op {
		case 0:
			name = "UpsertNodesBatch"
			var nodes []*graph.GraphNode
			for _, id := range subset(r, g.NIDs, size(5)) {
				nodes = append(nodes, g.newNode(id))
			}
			good = len(nodes)
			v := pick(r, nodes)
			when, cond = "BEFORE INSERT ON graph_nodes", eqCond("new.id", v.ID)
			run = func(ctx context.Context) (*graph.BatchResult, error) { return g.G.UpsertNodesBatch(ctx, nodes) }
			apply = func() {
				for _, n := range nodes {
					g.putNode(n)
				}
			}
			applyBut = func(string) {
				for _, n := range nodes {
					if n != v {
						g.putNode(n)
					}
				}
			}
		case 1:
			name = "UpsertEdgesBatch"
			ids := sortedKeys(g.Nodes)
			if len(ids) == 0 {
				continue
			}
			var edges []*graph.GraphEdge
			for _, id := range subset(r, g.EIDs, size(5)) {
				edges = append(edges, g.newEdge(id, pick(r, ids), pick(r, ids)))
			}
			good = len(edges)
			v := pick(r, edges)
			when, cond = "BEFORE INSERT ON graph_edges", eqCond("new.id", v.ID)
			run = func(ctx context.Context) (*graph.BatchResult, error) { return g.G.UpsertEdgesBatch(ctx, edges) }
			apply = func() {
				for _, n := range edges {
					g.putEdge(n)
				}
			}
			applyBut = func(string) {
				for _, n := range edges {
					if n != v {
						g.putEdge(n)
					}
				}
			}
		case 2, 3:
			ids := sortedKeys(g.Nodes)
			if len(ids) < 2 {
				continue
			}
			ids = subset(r, ids, size(3))
			good = len(ids)
			name = "DeleteNodesBatch"
			run = func(ctx context.Context) (*graph.BatchResult, error) { return g.G.DeleteNodesBatch(ctx, ids) }
			var n *graph.GraphNode
			if op == 3 {
				name = "ExecuteBatch"
				n = g.newNode("fresh")
				run = func(ctx context.Context) (*graph.BatchResult, error) {
					return g.G.ExecuteBatch(ctx, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{n}, NodeDeletes: ids})
				}
				good++
			}
			when, cond = pick(r, []string{"BEFORE", "AFTER"})+" DELETE ON graph_nodes", eqCond("old.id", pick(r, ids))
			apply = func() {
				if n != nil {
					g.putNode(n)
				}
				for _, id := range ids {
					g.dropNode(id)
				}
			}
		case 4: // all four kinds of changes; the last of them fails
			ids := sortedKeys(g.Edges)
			if len(ids) < 2 {
				continue
			}
			ids = subset(r, ids, size(3))
			n, m := g.newNode("fresh"), g.newNode("fresh2")
			e := g.newEdge("fresh-edge", n.ID, m.ID)
			good = len(ids) + 3
			name = "ExecuteBatch"
			run = func(ctx context.Context) (*graph.BatchResult, error) {
				return g.G.ExecuteBatch(ctx, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{n, m}, EdgeUpserts: []*graph.GraphEdge{e}, EdgeDeletes: ids})
			}
			when, cond = pick(r, []string{"BEFORE", "AFTER"})+" DELETE ON graph_edges", eqCond("old.id", pick(r, ids))
			apply = func() {
				g.putNode(n)
				g.putNode(m)
				g.putEdge(e)
				for _, id := range ids {
					delete(g.Edges, id)
				}
			}
		default:
			ids := sortedKeys(g.Edges)
			if len(ids) < 2 {
				continue
			}
			ids = subset(r, ids, size(3))
			good = len(ids)
			name = "DeleteEdgesBatch"
			run = func(ctx context.Context) (*graph.BatchResult, error) { return g.G.DeleteEdgesBatch(ctx, ids) }
			when, cond = pick(r, []string{"BEFORE", "AFTER"})+" DELETE ON graph_edges", eqCond("old.id", pick(r, ids))
			apply = func() {
				for _, id := range ids {
					delete(g.Edges, id)
				}
			}
		}
		ctx, cancel := context.WithCancel(bg)
		kind := r.Intn(4)
		var undo func()
		var err error
		label := []string{"ABORT", "FAIL", "error", "cancel"}[kind]
		switch kind {
		case 0, 1:
			undo, err = armRaise(g.S.GetDB(), when, cond, label)
		case 2:
			undo, err = arm(g.S.GetDB(), when, cond, func() error { return errors.New("injected") })
		default:
			undo, err = arm(g.S.GetDB(), when, cond, func() error { cancel(); return nil })
		}
		c.Must(err, "arm")
		c.Op("%s with %s at %s %s", name, label, when, cond)
		if kind < 3 {
			ctx = bg // nothing but the operation itself ends its transaction
		}
		res, opErr := run(ctx)
		cancel()
		idle(c, g.S.GetDB(), name)
		undo()
		c.Count("fault_"+label, 1)
		c.Seen("fault_site", name+"/"+when+"/"+label)
		c.Nontrivial()
		switch {
		case opErr != nil:
			after := g.dump()
			c.Check(before == after, "partial-effect:"+name, "%s failed (%v) after %s at %s %s, but its effect is visible: %s", name, opErr, label, when, cond, firstDiff(before, after))
			s := g.searchSig()
			c.Check(searchBefore == s, "partial-effect:"+name, "%s failed (%v), but vector search changed: %s", name, opErr, firstDiff(searchBefore, s))
		case kind == 3: // too late to stop it
			apply()
		default:
			c.Check(applyBut != nil && res != nil && res.FailedCount == 1 && res.SuccessCount == good-1 && len(res.Errors) == 1, "fault-swallowed:"+name, "%s reported %+v although one of %d elements failed with %s", name, res, good, label)
			applyBut("")
		}
		g.CheckGraph()
		if r.Intn(3) == 0 && opErr != nil {
			c.Op("%s without fault", name)
			res, err := run(bg)
			g.ok(err, name)
			g.batchResult(name, res, good, 0)
			apply()
			g.CheckGraph()
		}
	}
	g.close()
}

// searchSig renders vector search results through the graph index.
func (g *GWorld) searchSig() string {
	if !g.Index {
		return ""
	}
	s := ""
	for i, id := range sortedKeys(g.Nodes) {
		if i > 60 {
			break
		}
		res, err := g.G.HNSWSearch(bg, g.Nodes[id].Vector, 3, -2)
		g.ok(err, "HNSWSearch")
		s += fmt.Sprintf("%q:", id)
		for _, x := range res {
			s += fmt.Sprintf(" %q=%.9g", x.Node.ID, x.VectorScore)
		}
		s += "\n"
	}
	return s
}
