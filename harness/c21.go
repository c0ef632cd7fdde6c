package main

import (
	"fmt"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C21", Level: "exploration",
		Rule: "a case is one random history of graph writes with the whole stored graph and a set of random traversals compared with the reference graph; non-trivial when some traversal was cut by its limit and some went deeper than one step",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 900), 0, c21history)
			r.Parallel("dense", r.N(24, 240), 0, c21dense)
			r.Parallel("large", r.N(4, 24), 0, c21large)
		}})
}

func c21history(c *Case) {
	g := newGWorld(c, sims[c.Idx%3], 1+c.R.Intn(4))
	g.Index = c.Idx%4 == 3
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	var cut, deep bool
	for i := 0; i < 60; i++ {
		g.Step()
		if i%4 == 3 {
			g.CheckGraph()
			g.lookups()
			for j := 0; j < 6; j++ {
				g.traverse(&cut, &deep)
			}
		}
	}
	g.reopen()
	g.CheckGraph()
	if cut && deep {
		c.Nontrivial()
	}
	g.close()
}

// c21dense: bigger graphs, long chains and hubs.
func c21dense(c *Case) {
	r := c.R
	g := newGWorld(c, "cosine", 2)
	g.NIDs, g.EIDs = nil, nil
	g.open()
	defer g.S.Close()
	n := 20 + r.Intn(30)
	var nodes []*graph.GraphNode
	for i := 0; i < n; i++ {
		g.NIDs = append(g.NIDs, fmt.Sprint("n", i))
		x := g.newNode(g.NIDs[i])
		x.NodeType = pick(r, []string{"a", "b", "A"})
		nodes = append(nodes, x)
		g.putNode(x)
	}
	var edges []*graph.GraphEdge
	add := func(a, b int) {
		e := g.newEdge(fmt.Sprint("e", len(edges)), g.NIDs[a], g.NIDs[b])
		g.EIDs = append(g.EIDs, e.ID)
		edges = append(edges, e)
		g.putEdge(e)
	}
	for i := 1; i < n; i++ {
		switch c.Idx % 4 {
		case 0: // chain
			add(i-1, i)
		case 1: // hub
			if r.Intn(2) == 0 {
				add(0, i)
			} else {
				add(i, 0)
			}
		case 2: // tree with back edges
			add((i-1)/2, i)
			if r.Intn(3) == 0 {
				add(i, r.Intn(i+1))
			}
		default: // random, parallel edges and self loops
			for j := 0; j < 3; j++ {
				add(r.Intn(n), r.Intn(n))
			}
		}
	}
	res, err := g.G.UpsertNodesBatch(bg, nodes)
	g.ok(err, "UpsertNodesBatch")
	g.batchResult("UpsertNodesBatch", res, n, 0)
	res, err = g.G.UpsertEdgesBatch(bg, edges)
	g.ok(err, "UpsertEdgesBatch")
	g.batchResult("UpsertEdgesBatch", res, len(edges), 0)
	g.CheckGraph()
	var cut, deep bool
	for i := 0; i < 40; i++ {
		g.traverse(&cut, &deep)
		if i == 20 {
			for j := 0; j < 4; j++ {
				id := pick(r, g.NIDs)
				if _, ok := g.Nodes[id]; ok {
					g.ok(g.G.DeleteNode(bg, id), "DeleteNode")
					g.dropNode(id)
				}
			}
			g.CheckGraph()
		}
	}
	g.lookups()
	if cut && deep {
		c.Nontrivial()
	}
	g.close()
}

// c21large: more elements than any plausible internal batch, page or parameter list holds.
func c21large(c *Case) {
	r := c.R
	g := newGWorld(c, "cosine", 2)
	g.Index = c.Idx%4 == 3
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	n := pick(r, []int{1001, 1100, 1300}) + r.Intn(20)
	g.bigGraph(n, c.Idx)
	c.Op("%d nodes, %d edges, shape %d", len(g.Nodes), len(g.Edges), c.Idx%4)
	all := func() {
		ns, err := g.G.GetNodesBatch(bg, append([]string{"no such node"}, g.NIDs...))
		g.ok(err, "GetNodesBatch")
		g.nodeSet("GetNodesBatch", ns, func(*graph.GraphNode) bool { return true })
		es, err := g.G.GetEdgesBatch(bg, append([]string{"no such edge"}, g.EIDs...))
		g.ok(err, "GetEdgesBatch")
		g.edgeSet("GetEdgesBatch", es, func(*graph.GraphEdge) bool { return true })
		ns, err = g.G.GetAllNodes(bg, nil)
		g.ok(err, "GetAllNodes")
		g.nodeSet("GetAllNodes", ns, func(*graph.GraphNode) bool { return true })
		ns, err = g.G.GetAllNodes(bg, &graph.GraphFilter{NodeTypes: []string{"a"}})
		g.ok(err, "GetAllNodes")
		g.nodeSet("GetAllNodes of a type", ns, func(n *graph.GraphNode) bool { return n.NodeType == "a" })
		sub, err := g.G.Subgraph(bg, g.NIDs)
		g.ok(err, "Subgraph")
		g.nodeSet("Subgraph", sub.Nodes, func(*graph.GraphNode) bool { return true })
		g.edgeSet("Subgraph", sub.Edges, func(*graph.GraphEdge) bool { return true })
		hub, err := g.G.GetEdges(bg, g.NIDs[0], "both")
		g.ok(err, "GetEdges")
		g.edgeSet("the edges of the hub", hub, func(e *graph.GraphEdge) bool { return e.FromNodeID == g.NIDs[0] || e.ToNodeID == g.NIDs[0] })
		for _, o := range []graph.TraversalOptions{{MaxDepth: 2000, Direction: "both"}, {MaxDepth: 1, Direction: "both"}, {MaxDepth: 2000, Direction: "out"}, {MaxDepth: 2000, Limit: 1000}, {MaxDepth: 2, NodeTypes: []string{"a"}}} {
			g.neighbours(g.NIDs[0], o, new(bool), new(bool))
		}
		c.Count("large_reads", 1)
	}
	all()
	g.reopen()
	all()
	del := subset(r, g.NIDs[1:], n-50)
	if c.Idx%2 == 0 {
		c.Op("DeleteNodesBatch of %d", len(del))
		res, err := g.G.DeleteNodesBatch(bg, del)
		g.ok(err, "DeleteNodesBatch")
		g.batchResult("DeleteNodesBatch", res, len(del), 0)
	} else {
		eids := subset(r, g.EIDs, len(g.EIDs)-20)
		c.Op("DeleteEdgesBatch of %d", len(eids))
		res, err := g.G.DeleteEdgesBatch(bg, eids)
		g.ok(err, "DeleteEdgesBatch")
		g.batchResult("DeleteEdgesBatch", res, len(eids), 0)
		for _, id := range eids {
			delete(g.Edges, id)
		}
		all()
		c.Op("ExecuteBatch deleting %d nodes", len(del))
		res, err = g.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeDeletes: del})
		g.ok(err, "ExecuteBatch")
		g.batchResult("ExecuteBatch", res, len(del), 0)
	}
	for _, id := range del {
		g.dropNode(id)
	}
	all()
	g.CheckGraph()
	c.Nontrivial()
	g.close()
}

// bigGraph stores n nodes and at least as many edges: a hub, a chain, a tree or a random graph.
func (g *GWorld) bigGraph(n, shape int) {
	r := g.R
	g.NIDs, g.EIDs = nil, nil
	var nodes []*graph.GraphNode
	for i := 0; i < n; i++ {
		g.NIDs = append(g.NIDs, fmt.Sprint("n", i))
		x := g.newNode(g.NIDs[i])
		x.NodeType = pick(r, []string{"a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "b"})
		nodes = append(nodes, x)
		g.putNode(x)
	}
	var edges []*graph.GraphEdge
	add := func(a, b int) {
		e := g.newEdge(fmt.Sprint("e", len(edges)), g.NIDs[a], g.NIDs[b])
		g.EIDs = append(g.EIDs, e.ID)
		edges = append(edges, e)
		g.putEdge(e)
	}
	for i := 1; i < n; i++ {
		switch shape % 4 {
		case 0: // hub
			if i%7 == 0 {
				add(i, 0)
			} else {
				add(0, i)
			}
		case 1: // chain with a few short cuts back
			add(i-1, i)
			if r.Intn(50) == 0 {
				add(i, r.Intn(i))
			}
		case 2: // tree
			add((i-1)/3, i)
		default:
			add(r.Intn(i), i)
			add(r.Intn(n), r.Intn(n))
		}
	}
	add(0, 0)
	res, err := g.G.UpsertNodesBatch(bg, nodes)
	g.ok(err, "UpsertNodesBatch")
	g.batchResult("UpsertNodesBatch", res, n, 0)
	res, err = g.G.UpsertEdgesBatch(bg, edges)
	g.ok(err, "UpsertEdgesBatch")
	g.batchResult("UpsertEdgesBatch", res, len(edges), 0)
}

// lookups checks the point and list queries.
func (g *GWorld) lookups() {
	c, r := g.c, g.R
	for _, id := range g.NIDs {
		n, err := g.G.GetNode(bg, id)
		want, ok := g.Nodes[id]
		if !ok {
			c.Check(err != nil, "phantom-node", "GetNode(%q) of a missing node succeeded", id)
			continue
		}
		g.ok(err, "GetNode")
		d := diffNode(n, want)
		c.Check(d == "", "node-content", "GetNode(%q): %s", id, d)
		c.Check(!n.CreatedAt.IsZero() && !n.UpdatedAt.IsZero(), "node-content", "GetNode(%q): no timestamps", id)
	}
	ids := append(subset(r, g.NIDs, r.Intn(8)), "no such node")
	got, err := g.G.GetNodesBatch(bg, ids)
	g.ok(err, "GetNodesBatch")
	g.nodeSet("GetNodesBatch", got, func(n *graph.GraphNode) bool { return inStrs(ids, n.ID) })
	eids := append(subset(r, g.EIDs, r.Intn(8)), "no such edge")
	ge, err := g.G.GetEdgesBatch(bg, eids)
	g.ok(err, "GetEdgesBatch")
	g.edgeSet("GetEdgesBatch", ge, func(e *graph.GraphEdge) bool { return inStrs(eids, e.ID) })
	types := subset(r, nodeTypes, 1+r.Intn(2))
	got, err = g.G.GetAllNodes(bg, &graph.GraphFilter{NodeTypes: types})
	g.ok(err, "GetAllNodes")
	g.nodeSet(fmt.Sprintf("GetAllNodes of types %q", types), got, func(n *graph.GraphNode) bool { return inStrs(types, n.NodeType) })
	ids = subset(r, g.NIDs, r.Intn(8))
	if len(ids) > 0 {
		ids = append(ids, ids[0], "no such node")
	}
	in := append([]string(nil), ids...)
	sub, err := g.G.Subgraph(bg, ids)
	c.Op("Subgraph %q", ids)
	g.ok(err, "Subgraph")
	c.Check(fmt.Sprint(in) == fmt.Sprint(ids), "argument-modified", "Subgraph changed its argument")
	g.nodeSet("Subgraph", sub.Nodes, func(n *graph.GraphNode) bool { return inStrs(ids, n.ID) })
	g.edgeSet("Subgraph", sub.Edges, func(e *graph.GraphEdge) bool { return inStrs(ids, e.FromNodeID) && inStrs(ids, e.ToNodeID) })
}

func (g *GWorld) nodeSet(what string, got []*graph.GraphNode, f func(*graph.GraphNode) bool) {
	seen := map[string]bool{}
	for _, n := range got {
		want, ok := g.Nodes[n.ID]
		g.c.Check(ok && f(want) && !seen[n.ID], "node-set", "%s: node %q should not be listed (again)", what, n.ID)
		seen[n.ID] = true
		d := diffNode(n, want)
		g.c.Check(d == "", "node-content", "%s: node %q: %s", what, n.ID, d)
	}
	for id, n := range g.Nodes {
		g.c.Check(!f(n) || seen[id], "node-set", "%s: node %q missing", what, id)
	}
}

// bfs returns the distance of every node reachable from start.
func (g *GWorld) bfs(start, dir string, types []string) map[string]int {
	adj := map[string][]string{}
	for _, e := range g.Edges {
		if len(types) > 0 && !inStrs(types, e.EdgeType) {
			continue
		}
		if dir != "in" {
			adj[e.FromNodeID] = append(adj[e.FromNodeID], e.ToNodeID)
		}
		if dir != "out" {
			adj[e.ToNodeID] = append(adj[e.ToNodeID], e.FromNodeID)
		}
	}
	dist := map[string]int{start: 0}
	for q := []string{start}; len(q) > 0; q = q[1:] {
		for _, n := range adj[q[0]] {
			if _, ok := dist[n]; !ok {
				dist[n] = dist[q[0]] + 1
				q = append(q, n)
			}
		}
	}
	return dist
}

func (g *GWorld) traverse(cut, deep *bool) {
	r := g.R
	start := pick(r, g.NIDs)
	if len(g.Nodes) > 0 && r.Intn(8) > 0 {
		start = pick(r, sortedKeys(g.Nodes))
	}
	o := graph.TraversalOptions{MaxDepth: pick(r, []int{-1, 0, 1, 1, 2, 2, 3, 4, 50}), Direction: pick(r, []string{"out", "in", "both", "", "out", "both"})}
	if r.Intn(3) == 0 {
		o.EdgeTypes = subset(r, edgeTypes, 1+r.Intn(3))
	}
	if r.Intn(3) == 0 {
		o.NodeTypes = subset(r, append([]string{"a", "b", "A"}, nodeTypes...), 1+r.Intn(3))
	}
	if r.Intn(2) == 0 {
		o.Limit = 1 + r.Intn(6)
	}
	g.neighbours(start, o, cut, deep)
}

func (g *GWorld) neighbours(start string, o graph.TraversalOptions, cut, deep *bool) {
	c := g.c
	c.Op("Neighbors %q %+v", start, o)
	got, err := g.G.Neighbors(bg, start, o)
	g.ok(err, "Neighbors")
	depth := o.MaxDepth
	if depth <= 0 {
		depth = 1
	}
	dist := g.bfs(start, o.Direction, o.EdgeTypes)
	var want []int
	for id, d := range dist {
		if d > 0 && d <= depth && (len(o.NodeTypes) == 0 || inStrs(o.NodeTypes, g.Nodes[id].NodeType)) {
			want = append(want, d)
			*deep = *deep || d > 1
		}
	}
	sort.Ints(want)
	if o.Limit > 0 && len(want) > o.Limit {
		want = want[:o.Limit]
		*cut = true
	}
	var gotD []int
	seen := map[string]bool{start: true}
	for _, n := range got {
		m, ok := g.Nodes[n.ID]
		c.Check(ok && !seen[n.ID], "neighbours", "Neighbors returned %q, which is missing, the start or already listed", n.ID)
		seen[n.ID] = true
		d := diffNode(n, m)
		c.Check(d == "", "node-content", "Neighbors: node %q: %s", n.ID, d)
		c.Check(len(o.NodeTypes) == 0 || inStrs(o.NodeTypes, m.NodeType), "neighbours", "node %q of type %q not requested", n.ID, m.NodeType)
		dd, ok := dist[n.ID]
		c.Check(ok && dd <= depth, "neighbours", "node %q is not within %d steps (distance %d, reachable %v)", n.ID, depth, dd, ok)
		gotD = append(gotD, dd)
	}
	sort.Ints(gotD)
	c.Check(fmt.Sprint(gotD) == fmt.Sprint(want), "neighbours", "Neighbors of %q with %+v found nodes at distances %v, want %v", start, o, gotD, want)
	c.Count("traversals", 1)
	c.Count("nodes_reached", len(gotD))
}
