package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

// GWorld is a graph store and its reference graph in lockstep.
type GWorld struct {
	BeforeClose func() // lets go of what the case itself holds
	c           *Case
	R           *rand.Rand
	Cfg         core.Config
	Sim         string
	Dim         int
	S           *core.SQLiteStore
	G           *graph.GraphStore
	Nodes       map[string]*graph.GraphNode
	Edges       map[string]*graph.GraphEdge
	NIDs        []string
	EIDs        []string
	Index       bool // HNSW index enabled
	// generation limits
	SafeText bool // texts every export format can carry
	NoWeird  bool // plain ids
	Style    int
	Shared   bool // others use the same graph
}

func newGWorld(c *Case, sim string, dim int) *GWorld {
	g := &GWorld{c: c, R: c.R, Sim: sim, Dim: dim, Nodes: map[string]*graph.GraphNode{}, Edges: map[string]*graph.GraphEdge{}}
	g.Cfg = mkConfig(dbPath(c), "flat", dim, sim)
	g.NIDs = pool(c.R, "n", 14, 0.4)
	g.EIDs = pool(c.R, "e", 24, 0.3)
	return g
}

func (g *GWorld) open() {
	s, err := core.NewWithConfig(g.Cfg)
	g.c.Check(err == nil, "open-failed", "open: %v", err)
	g.c.Check(s.Init(bg) == nil, "open-failed", "init failed")
	g.S = s
	g.G = graph.NewGraphStore(s)
	g.ok(g.G.InitGraphSchema(bg), "InitGraphSchema")
	if g.Index {
		g.ok(g.G.EnableHNSWIndex(g.Dim), "EnableHNSWIndex")
	}
}

func (g *GWorld) close() {
	if g.S != nil {
		if g.BeforeClose != nil {
			g.BeforeClose()
		}
		idle(g.c, g.S.GetDB(), "the operations of this case")
		g.ok(g.S.Close(), "Close")
		g.S, g.G = nil, nil
	}
}

func (g *GWorld) reopen() { g.c.Op("reopen"); g.close(); g.open() }

func (g *GWorld) ok(err error, op string) {
	g.c.Check(err == nil, "unexpected-error:"+op, "%s: %v", op, err)
}

var (
	nodeTypes = []string{"person", "doc", "Doc", "", "a'b"}
	edgeTypes = []string{"knows", "cites", "", "x\"y", "Knows"}
)

func (g *GWorld) text() string {
	r := g.R
	if r.Intn(4) > 0 {
		return sentence(r, vocab, r.Intn(5))
	}
	if g.SafeText {
		return pick(r, []string{"", "<a & b> \"c\" 'd'", "tab\there", "line\nbreak", "cr\r\nlf", "日本語 ünï 🙂", "]]>", "<!-- x -->", "&amp;", "  padded  ", "{\"json\": [1]}", "\u2028 sep", "x" + string(rune(0x85)) + "y"})
	}
	return pick(r, []string{"", "o'brien", "semi;colon--", "\"q\"", "日本語", "line\nbreak", "\x01ctl", "null", "%_"})
}

func (g *GWorld) props() map[string]interface{} {
	r := g.R
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	}
	m := map[string]interface{}{}
	for i := 0; i < 1+r.Intn(3); i++ {
		k := pick(r, []string{"k", "name", "a.b", "K", "ключ", "<k>"})
		var v interface{}
		switch r.Intn(7) {
		case 0:
			v = g.text()
		case 1:
			v = float64(r.Intn(1000)) / 8
		case 2:
			v = r.Intn(2) == 0
		case 3:
			v = nil
		case 4:
			v = []interface{}{"a", 1.5, nil}
		case 5:
			v = map[string]interface{}{"in": g.text()}
		default:
			v = -1e300 * r.Float64()
		}
		m[k] = v
	}
	return m
}

func (g *GWorld) newNode(id string) *graph.GraphNode {
	return &graph.GraphNode{ID: id, Vector: randVec(g.R, g.Dim, g.Style), Content: g.text(), NodeType: pick(g.R, nodeTypes), Properties: g.props()}
}

func (g *GWorld) newEdge(id, from, to string) *graph.GraphEdge {
	r := g.R
	e := &graph.GraphEdge{ID: id, FromNodeID: from, ToNodeID: to, EdgeType: pick(r, edgeTypes), Properties: g.props()}
	switch r.Intn(6) {
	case 0:
	case 1:
		e.Weight = float64(1 + r.Intn(5))
	case 2:
		e.Weight = math.Exp(r.NormFloat64() * 10)
	case 3:
		e.Weight = -r.Float64()
	case 4:
		e.Weight = 1e-300 * (1 + r.Float64())
	default:
		e.Weight = r.Float64()
	}
	if r.Intn(3) == 0 {
		e.Vector = randVec(r, 1+r.Intn(4), 0)
	}
	return e
}

func cpNode(n *graph.GraphNode) *graph.GraphNode {
	c := *n
	c.Vector = append([]float32(nil), n.Vector...)
	c.Properties = normProps(n.Properties)
	return &c
}

func cpEdge(e *graph.GraphEdge) *graph.GraphEdge {
	c := *e
	c.Vector = append([]float32(nil), e.Vector...)
	c.Properties = normProps(e.Properties)
	if c.Weight == 0 {
		c.Weight = 1
	}
	return &c
}

func normProps(m map[string]interface{}) map[string]interface{} {
	if len(m) == 0 {
		return nil
	}
	b, _ := json.Marshal(m)
	var o map[string]interface{}
	json.Unmarshal(b, &o)
	return o
}

func propsStr(m map[string]interface{}) string {
	if len(m) == 0 {
		return "{}"
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func diffNode(a, want *graph.GraphNode) string {
	switch {
	case a == nil:
		return "nil"
	case a.ID != want.ID:
		return fmt.Sprintf("id %q want %q", a.ID, want.ID)
	case a.Content != want.Content:
		return fmt.Sprintf("content %q want %q", a.Content, want.Content)
	case a.NodeType != want.NodeType:
		return fmt.Sprintf("type %q want %q", a.NodeType, want.NodeType)
	case !bitsEq(a.Vector, want.Vector):
		return fmt.Sprintf("vector %v want %v", a.Vector, want.Vector)
	case propsStr(a.Properties) != propsStr(want.Properties):
		return fmt.Sprintf("properties %s want %s", propsStr(a.Properties), propsStr(want.Properties))
	}
	return ""
}

func diffEdge(a, want *graph.GraphEdge) string {
	switch {
	case a == nil:
		return "nil"
	case a.ID != want.ID || a.FromNodeID != want.FromNodeID || a.ToNodeID != want.ToNodeID:
		return fmt.Sprintf("%q:%q->%q want %q:%q->%q", a.ID, a.FromNodeID, a.ToNodeID, want.ID, want.FromNodeID, want.ToNodeID)
	case a.EdgeType != want.EdgeType:
		return fmt.Sprintf("type %q want %q", a.EdgeType, want.EdgeType)
	case a.Weight != want.Weight:
		return fmt.Sprintf("weight %v want %v", a.Weight, want.Weight)
	case len(a.Vector) != len(want.Vector) || len(a.Vector) > 0 && !bitsEq(a.Vector, want.Vector):
		return fmt.Sprintf("vector %v want %v", a.Vector, want.Vector)
	case propsStr(a.Properties) != propsStr(want.Properties):
		return fmt.Sprintf("properties %s want %s", propsStr(a.Properties), propsStr(want.Properties))
	}
	return ""
}

func (g *GWorld) putNode(n *graph.GraphNode) { g.Nodes[n.ID] = cpNode(n) }
func (g *GWorld) putEdge(e *graph.GraphEdge) { g.Edges[e.ID] = cpEdge(e) }
func (g *GWorld) dropNode(id string) {
	delete(g.Nodes, id)
	for k, e := range g.Edges {
		if e.FromNodeID == id || e.ToNodeID == id {
			delete(g.Edges, k)
		}
	}
}

func (g *GWorld) edgeOK(e *graph.GraphEdge) bool {
	_, a := g.Nodes[e.FromNodeID]
	_, b := g.Nodes[e.ToNodeID]
	return e.ID != "" && a && b
}

// badNode returns an element every write path must refuse.
func (g *GWorld) badNode(id string) (*graph.GraphNode, string) {
	r := g.R
	switch r.Intn(6) {
	case 0:
		return nil, "nil node"
	case 1:
		n := g.newNode("")
		return n, "empty id"
	case 2:
		n := g.newNode(id)
		n.Vector = nil
		return n, "no vector"
	case 3:
		n := g.newNode(id)
		n.Vector[r.Intn(len(n.Vector))] = float32(math.NaN())
		return n, "NaN vector"
	case 4:
		n := g.newNode(id)
		n.Vector[r.Intn(len(n.Vector))] = float32(math.Inf(1))
		return n, "infinite vector"
	default:
		n := g.newNode(id)
		n.Properties = map[string]interface{}{"f": func() {}}
		return n, "unencodable property"
	}
}

func (g *GWorld) badEdge(id string) (*graph.GraphEdge, string) {
	r := g.R
	a, b := pick(r, g.NIDs), pick(r, g.NIDs)
	switch r.Intn(7) {
	case 0:
		return nil, "nil edge"
	case 1:
		return g.newEdge("", a, b), "empty id"
	case 2:
		return g.newEdge(id, "", b), "empty from"
	case 3:
		return g.newEdge(id, a, "no such node"), "missing target"
	case 4:
		return g.newEdge(id, "no such node", b), "missing source"
	case 5:
		e := g.newEdge(id, a, b)
		e.Weight = pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
		return e, "weight not finite"
	default:
		e := g.newEdge(id, a, b)
		e.Properties = map[string]interface{}{"f": func() {}}
		return e, "unencodable property"
	}
}

func (g *GWorld) anyNodes() (string, string) {
	if len(g.Nodes) > 0 && g.R.Intn(8) > 0 {
		k := sortedKeys(g.Nodes)
		return pick(g.R, k), pick(g.R, k)
	}
	return pick(g.R, g.NIDs), pick(g.R, g.NIDs)
}

// Step performs one random write and updates the reference graph.
func (g *GWorld) Step() {
	c, r := g.c, g.R
	switch x := r.Intn(100); {
	case x < 24:
		if r.Intn(10) == 0 {
			n, why := g.badNode(pick(r, g.NIDs))
			c.Op("UpsertNode with %s", why)
			c.Check(g.G.UpsertNode(bg, n) != nil, "accepted-invalid:UpsertNode", "node with %s accepted", why)
			return
		}
		n := g.newNode(pick(r, g.NIDs))
		c.Op("UpsertNode %q type %q props %s", n.ID, n.NodeType, propsStr(n.Properties))
		m := cpNode(n) // what was asked for, whatever the call does to its argument
		g.ok(g.G.UpsertNode(bg, n), "UpsertNode")
		g.putNode(m)
		for i := range n.Vector {
			n.Vector[i] = 77
		}
	case x < 50:
		if r.Intn(10) == 0 {
			e, why := g.badEdge(pick(r, g.EIDs))
			c.Op("UpsertEdge with %s", why)
			c.Check(g.G.UpsertEdge(bg, e) != nil, "accepted-invalid:UpsertEdge", "edge with %s accepted", why)
			return
		}
		a, b := g.anyNodes()
		e := g.newEdge(pick(r, g.EIDs), a, b)
		c.Op("UpsertEdge %q %q->%q w %v", e.ID, a, b, e.Weight)
		m := cpEdge(e)
		err := g.G.UpsertEdge(bg, e)
		if g.edgeOK(m) {
			g.ok(err, "UpsertEdge")
			g.putEdge(m)
		} else {
			c.Check(err != nil, "dangling-edge", "edge %q->%q accepted although an endpoint does not exist", a, b)
		}
	case x < 58:
		id := pick(r, g.NIDs)
		_, have := g.Nodes[id]
		c.Op("DeleteNode %q", id)
		err := g.G.DeleteNode(bg, id)
		c.Check((err == nil) == have, "delete-result", "DeleteNode(%q) = %v, exists %v", id, err, have)
		if have {
			g.dropNode(id)
		}
	case x < 64:
		id := pick(r, g.EIDs)
		_, have := g.Edges[id]
		c.Op("DeleteEdge %q", id)
		err := g.G.DeleteEdge(bg, id)
		c.Check((err == nil) == have, "delete-result", "DeleteEdge(%q) = %v, exists %v", id, err, have)
		delete(g.Edges, id)
	case x < 72:
		nodes, apply, want := g.nodeBatch(r.Intn(6))
		c.Op("UpsertNodesBatch of %d (%d good)", len(nodes), want)
		res, err := g.G.UpsertNodesBatch(bg, nodes)
		g.ok(err, "UpsertNodesBatch")
		g.batchResult("UpsertNodesBatch", res, want, len(nodes)-want)
		apply()
	case x < 80:
		edges, apply, want := g.edgeBatch(r.Intn(6), nil)
		c.Op("UpsertEdgesBatch of %d (%d good)", len(edges), want)
		res, err := g.G.UpsertEdgesBatch(bg, edges)
		g.ok(err, "UpsertEdgesBatch")
		g.batchResult("UpsertEdgesBatch", res, want, len(edges)-want)
		apply()
	case x < 84:
		ids := subset(r, g.NIDs, 1+r.Intn(3))
		n := 0
		for _, id := range ids {
			if _, ok := g.Nodes[id]; ok {
				n++
			}
		}
		c.Op("DeleteNodesBatch %q", ids)
		res, err := g.G.DeleteNodesBatch(bg, ids)
		g.ok(err, "DeleteNodesBatch")
		g.batchResult("DeleteNodesBatch", res, n, len(ids)-n)
		for _, id := range ids {
			g.dropNode(id)
		}
	case x < 88:
		ids := subset(r, g.EIDs, 1+r.Intn(4))
		n := 0
		for _, id := range ids {
			if _, ok := g.Edges[id]; ok {
				n++
			}
			delete(g.Edges, id)
		}
		c.Op("DeleteEdgesBatch %q", ids)
		res, err := g.G.DeleteEdgesBatch(bg, ids)
		g.ok(err, "DeleteEdgesBatch")
		g.batchResult("DeleteEdgesBatch", res, n, len(ids)-n)
	case x < 97:
		ops, apply, okN, bad := g.mixedBatch()
		c.Op("ExecuteBatch +n%d -n%q +e%d -e%q", len(ops.NodeUpserts), ops.NodeDeletes, len(ops.EdgeUpserts), ops.EdgeDeletes)
		res, err := g.G.ExecuteBatch(bg, ops)
		g.ok(err, "ExecuteBatch")
		g.batchResult("ExecuteBatch", res, okN, bad)
		apply()
	default:
		if !g.Shared {
			g.reopen()
		}
	}
}

func (g *GWorld) batchResult(op string, res *graph.BatchResult, okN, bad int) {
	g.c.Check(res != nil && res.SuccessCount == okN && res.FailedCount == bad, "batch-result:"+op, "%s reported %+v, want %d done and %d failed", op, res, okN, bad)
}

// subset picks n distinct elements.
func subset[T any](r *rand.Rand, s []T, n int) []T {
	p := r.Perm(len(s))
	if n > len(p) {
		n = len(p)
	}
	var o []T
	for _, i := range p[:n] {
		o = append(o, s[i])
	}
	return o
}

func (g *GWorld) nodeBatch(n int) (nodes []*graph.GraphNode, apply func(), good int) {
	var put []*graph.GraphNode
	for i := 0; i < n; i++ {
		if g.R.Intn(6) == 0 {
			b, _ := g.badNode(pick(g.R, g.NIDs))
			nodes = append(nodes, b)
			continue
		}
		x := g.newNode(pick(g.R, g.NIDs)) // an id may occur twice: the later wins
		nodes = append(nodes, x)
		put = append(put, cpNode(x))
	}
	return nodes, func() {
		for _, x := range put {
			g.putNode(x)
		}
	}, len(put)
}

// edgeBatch generates edges judged against the node set after the given change.
func (g *GWorld) edgeBatch(n int, exists func(id string) bool) (edges []*graph.GraphEdge, apply func(), good int) {
	if exists == nil {
		exists = func(id string) bool { _, ok := g.Nodes[id]; return ok }
	}
	var put []*graph.GraphEdge
	for i := 0; i < n; i++ {
		if g.R.Intn(7) == 0 {
			b, _ := g.badEdge(pick(g.R, g.EIDs))
			edges = append(edges, b)
			continue
		}
		a, b := g.anyNodes()
		e := g.newEdge(pick(g.R, g.EIDs), a, b)
		edges = append(edges, e)
		if exists(a) && exists(b) {
			put = append(put, cpEdge(e))
		}
	}
	return edges, func() {
		for _, e := range put {
			g.putEdge(e)
		}
	}, len(put)
}

func (g *GWorld) mixedBatch() (*graph.BatchGraphOperation, func(), int, int) {
	r := g.R
	ops := &graph.BatchGraphOperation{}
	nodes, applyN, goodN := g.nodeBatch(r.Intn(4))
	ops.NodeUpserts = nodes
	okN, bad := goodN, len(nodes)-goodN
	after := map[string]bool{}
	for id := range g.Nodes {
		after[id] = true
	}
	for _, n := range nodes {
		if n != nil && n.ID != "" && len(n.Vector) > 0 && g.validNode(n) {
			after[n.ID] = true
		}
	}
	if r.Intn(2) == 0 {
		ops.NodeDeletes = subset(r, g.NIDs, r.Intn(3))
		for _, id := range ops.NodeDeletes {
			if after[id] {
				okN++
			} else {
				bad++
			}
			delete(after, id)
		}
	}
	edges, applyE, goodE := g.edgeBatch(r.Intn(5), func(id string) bool { return after[id] })
	ops.EdgeUpserts = edges
	okN += goodE
	bad += len(edges) - goodE
	if r.Intn(2) == 0 {
		ops.EdgeDeletes = subset(r, g.EIDs, r.Intn(4))
	}
	// which edges exist when the edge deletes run
	edgeAfter := map[string]bool{}
	for id, e := range g.Edges {
		if after[e.FromNodeID] && after[e.ToNodeID] && !inStrs(ops.NodeDeletes, e.FromNodeID) && !inStrs(ops.NodeDeletes, e.ToNodeID) {
			edgeAfter[id] = true
		}
	}
	for _, e := range edges {
		if e != nil && e.ID != "" && g.validEdge(e) && after[e.FromNodeID] && after[e.ToNodeID] {
			edgeAfter[e.ID] = true
		}
	}
	for _, id := range ops.EdgeDeletes {
		if edgeAfter[id] {
			okN++
		} else {
			bad++
		}
	}
	return ops, func() {
		applyN()
		for _, id := range ops.NodeDeletes {
			g.dropNode(id)
		}
		applyE()
		for _, id := range ops.EdgeDeletes {
			delete(g.Edges, id)
		}
	}, okN, bad
}

func (g *GWorld) validNode(n *graph.GraphNode) bool {
	for _, v := range n.Vector {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
			return false
		}
	}
	_, err := json.Marshal(n.Properties)
	return err == nil
}

func (g *GWorld) validEdge(e *graph.GraphEdge) bool {
	_, err := json.Marshal(e.Properties)
	return err == nil && !math.IsNaN(e.Weight) && !math.IsInf(e.Weight, 0)
}

func inStrs(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// CheckGraph compares everything stored with the reference graph.
func (g *GWorld) CheckGraph() { g.checkGraphOf(g.G, "") }

func (g *GWorld) checkGraphOf(G *graph.GraphStore, where string) {
	c := g.c
	all, err := G.GetAllNodes(bg, nil)
	g.ok(err, "GetAllNodes")
	c.Check(len(all) == len(g.Nodes), "node-set", "%sGetAllNodes returned %d nodes, want %d", where, len(all), len(g.Nodes))
	seen := map[string]bool{}
	for _, n := range all {
		want, ok := g.Nodes[n.ID]
		c.Check(ok && !seen[n.ID], "node-set", "%snode %q listed but not in the graph or listed twice", where, n.ID)
		seen[n.ID] = true
		d := diffNode(n, want)
		c.Check(d == "", "node-content", "%snode %q: %s", where, n.ID, d)
	}
	total := 0
	for id := range g.Nodes {
		out, err := G.GetEdges(bg, id, "out")
		g.ok(err, "GetEdges")
		g.edgeSet(where+"out of "+id, out, func(e *graph.GraphEdge) bool { return e.FromNodeID == id })
		total += len(out)
		in, err := G.GetEdges(bg, id, "in")
		g.ok(err, "GetEdges")
		g.edgeSet(where+"into "+id, in, func(e *graph.GraphEdge) bool { return e.ToNodeID == id })
		both, err := G.GetEdges(bg, id, pick(g.R, []string{"both", ""}))
		g.ok(err, "GetEdges")
		g.edgeSet(where+"at "+id, both, func(e *graph.GraphEdge) bool { return e.FromNodeID == id || e.ToNodeID == id })
	}
	c.Check(total == len(g.Edges), "edge-set", "%s%d edges stored, want %d", where, total, len(g.Edges))
}

func (g *GWorld) edgeSet(what string, got []*graph.GraphEdge, f func(*graph.GraphEdge) bool) {
	seen := map[string]bool{}
	for _, e := range got {
		want, ok := g.Edges[e.ID]
		g.c.Check(ok && f(want) && !seen[e.ID], "edge-set", "%s: edge %q should not be listed (again)", what, e.ID)
		seen[e.ID] = true
		d := diffEdge(e, want)
		g.c.Check(d == "", "edge-content", "%s: edge %q: %s", what, e.ID, d)
	}
	for id, e := range g.Edges {
		g.c.Check(!f(e) || seen[id], "edge-set", "%s: edge %q missing", what, id)
	}
}

func (g *GWorld) sortedEdges() []string {
	k := sortedKeys(g.Edges)
	sort.Strings(k)
	return k
}

func (g *GWorld) dump() string {
	d, err := tableDump(g.S.GetDB(), "graph_nodes", "graph_edges")
	g.c.Must(err, "dump")
	return d
}
