package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C24", Level: "exploration",
		Rule: "a case is one random history of graph writes (with or without the graph index) with judged vector and hybrid searches every few steps; non-trivial when a search was cut to K and another combined vector and graph scores",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 900), 0, c24history)
			r.Parallel("index", r.N(16, 160), 0, c24index)
			r.Parallel("large", r.N(6, 36), 0, c24large)
		}})
}

func c24history(c *Case) {
	g := newGWorld(c, sims[c.Idx%3], 1+c.R.Intn(4))
	g.Index = c.Idx/3%2 == 1
	g.Style = c.Idx / 6 % 4
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	c.Op("similarity %s dim %d index %v style %d", g.Sim, g.Dim, g.Index, g.Style)
	var cut, both bool
	for i := 0; i < 70; i++ {
		g.Step()
		if !g.Index && i == 50 && c.Idx%5 == 0 {
			g.ok(g.G.EnableHNSWIndex(g.Dim), "EnableHNSWIndex")
			g.Index = true
		}
		if i%5 != 4 {
			continue
		}
		for j := 0; j < 4; j++ {
			g.hybrid(&cut, &both)
			g.graphVector()
			g.similarIn()
			g.hnswSearch()
			g.hnswHybrid()
		}
	}
	if cut && both {
		c.Nontrivial()
	}
	g.close()
}

func (g *GWorld) qvec() []float32 {
	if len(g.Nodes) > 0 && g.R.Intn(3) == 0 {
		return cpVec(g.Nodes[pick(g.R, sortedKeys(g.Nodes))].Vector)
	}
	return randVec(g.R, g.Dim, g.Style)
}

type gcand struct {
	id           string
	v, gs        float64
	scores       []float64 // admissible combined scores
	scale        float64
	dist         int
	vectorPassed bool
}

// node checks one returned node against the reference graph.
func (g *GWorld) resultNode(op string, n *graph.GraphNode, seen map[string]bool) {
	g.c.Check(n != nil, "nil-node", "%s returned a result without a node", op)
	m, ok := g.Nodes[n.ID]
	g.c.Check(ok && !seen[n.ID], "stale-node", "%s returned %q, which does not exist or was already returned", op, n.ID)
	seen[n.ID] = true
	d := diffNode(n, m)
	g.c.Check(d == "", "node-content", "%s: node %q: %s", op, n.ID, d)
}

// judge compares ranked results with the exact candidate scores (each candidate may have several admissible scores).
func (g *GWorld) judge(op string, got []*graph.HybridResult, score func(*graph.HybridResult) float64, cand []gcand, k int, exact bool) {
	c := g.c
	by := map[string]*gcand{}
	for i := range cand {
		by[cand[i].id] = &cand[i]
	}
	want := len(cand)
	if k > 0 && want > k {
		want = k
	}
	seen := map[string]bool{}
	minGot := math.Inf(1)
	for i, r := range got {
		g.resultNode(op, r.Node, seen)
		x := by[r.Node.ID]
		c.Check(x != nil, "wrong-candidate", "%s returned %q, which does not qualify", op, r.Node.ID)
		ok := false
		for _, s := range x.scores {
			ok = ok || near(score(r), s, x.scale)
		}
		c.Check(ok, "wrong-score", "%s scored %q %v, want one of %v", op, r.Node.ID, score(r), x.scores)
		c.Check(near(r.VectorScore, x.v, x.scale), "wrong-score", "%s: vector score of %q is %v, want %v", op, r.Node.ID, r.VectorScore, x.v)
		c.Check(math.Abs(r.GraphScore-x.gs) < 1e-9, "wrong-score", "%s: graph score of %q is %v, want %v", op, r.Node.ID, r.GraphScore, x.gs)
		c.Check(i == 0 || score(got[i-1]) >= score(r), "order", "%s: results not ordered by score", op)
		minGot = math.Min(minGot, score(r))
	}
	c.Check(len(got) == want, "result-count", "%s returned %d results, want %d (k=%d)", op, len(got), want, k)
	if exact && len(got) < len(cand) {
		for _, x := range cand {
			if seen[x.id] {
				continue
			}
			lo := math.Inf(1)
			for _, s := range x.scores {
				lo = math.Min(lo, s)
			}
			c.Check(lo <= minGot || near(lo, minGot, x.scale), "not-top-k", "%s left out %q with score %v but returned one with %v", op, x.id, lo, minGot)
		}
	}
	c.Count("searches", 1)
	c.Count("results", len(got))
}

// clear of the threshold?
func clearOf(cand []gcand, thr float64) bool {
	for _, x := range cand {
		if near(x.v, thr, x.scale) {
			return false
		}
	}
	return true
}

func (g *GWorld) hybrid(cut, both *bool) {
	c, r := g.c, g.R
	q := &graph.HybridQuery{TopK: pick(r, []int{0, 1, 2, 3, 5, 100})}
	mode := r.Intn(3)
	if mode != 1 {
		q.Vector = g.qvec()
	}
	if mode != 0 {
		a, _ := g.anyNodes()
		if _, ok := g.Nodes[a]; ok || r.Intn(4) == 0 {
			q.StartNodeID = a
		}
	}
	if r.Intn(2) == 0 {
		f := &graph.GraphFilter{MaxDepth: pick(r, []int{0, 1, 2, 3, 9})}
		if r.Intn(2) == 0 {
			f.NodeTypes = subset(r, nodeTypes, 1+r.Intn(3))
		}
		if r.Intn(2) == 0 {
			f.EdgeTypes = subset(r, edgeTypes, 1+r.Intn(3))
		}
		q.GraphFilter = f
	}
	switch r.Intn(4) {
	case 0:
		q.Weights = graph.HybridWeights{VectorWeight: 1}
	case 1:
		q.Weights = graph.HybridWeights{VectorWeight: r.Float64(), GraphWeight: r.Float64(), EdgeWeight: r.Float64()}
	case 2:
		q.Weights = graph.HybridWeights{VectorWeight: 0.2, GraphWeight: 0.8}
	}
	if g.Style == 0 && r.Intn(3) == 0 {
		q.Threshold = r.NormFloat64()
	}
	w := [3]float64{q.Weights.VectorWeight, q.Weights.GraphWeight, q.Weights.EdgeWeight}
	if t := w[0] + w[1] + w[2]; t == 0 {
		w = [3]float64{.5, .3, .2}
	} else if math.Abs(t-1) > 0.001 {
		w = [3]float64{w[0] / t, w[1] / t, w[2] / t}
	}
	// reference
	typeOK := func(id string) bool {
		return q.GraphFilter == nil || len(q.GraphFilter.NodeTypes) == 0 || inStrs(q.GraphFilter.NodeTypes, g.Nodes[id].NodeType)
	}
	depth := 3
	var et []string
	if q.GraphFilter != nil {
		if q.GraphFilter.MaxDepth > 0 {
			depth = q.GraphFilter.MaxDepth
		}
		et = q.GraphFilter.EdgeTypes
	}
	dist := map[string]int{}
	prods := map[string]map[float64]bool{}
	if _, ok := g.Nodes[q.StartNodeID]; ok {
		dist = g.bfs(q.StartNodeID, "out", et)
		prods[q.StartNodeID] = map[float64]bool{1: true}
		for d := 1; d <= depth; d++ {
			for _, e := range g.Edges {
				if dist[e.ToNodeID] != d || len(et) > 0 && !inStrs(et, e.EdgeType) {
					continue
				}
				if dd, ok := dist[e.FromNodeID]; !ok || dd != d-1 {
					continue
				}
				if prods[e.ToNodeID] == nil {
					prods[e.ToNodeID] = map[float64]bool{}
				}
				for p := range prods[e.FromNodeID] {
					prods[e.ToNodeID][p*e.Weight] = true
				}
			}
		}
	}
	var cand []gcand
	for id, n := range g.Nodes {
		if !typeOK(id) {
			continue
		}
		x := gcand{id: id, dist: -1}
		if len(q.Vector) > 0 {
			x.v = refSim(g.Sim, q.Vector, n.Vector)
			x.scale = scaleOf(g.Sim, q.Vector, n.Vector)
			x.vectorPassed = q.Threshold == 0 || x.v >= q.Threshold
		}
		if d, ok := dist[id]; ok && d <= depth {
			x.dist = d
			x.gs = 1 / float64(d+1)
		}
		if !x.vectorPassed && x.dist < 0 {
			continue
		}
		base := x.v*w[0] + x.gs*w[1]
		if x.dist >= 0 {
			for p := range prods[id] {
				x.scores = append(x.scores, base+p*w[2])
				x.scale = math.Max(x.scale, math.Abs(p))
			}
		} else {
			x.scores = []float64{base}
		}
		x.scale = math.Max(x.scale, 1)
		cand = append(cand, x)
	}
	if q.Threshold != 0 {
		for _, n := range g.Nodes {
			if len(q.Vector) > 0 && near(refSim(g.Sim, q.Vector, n.Vector), q.Threshold, scaleOf(g.Sim, q.Vector, n.Vector)) {
				return
			}
		}
	}
	before := fmt.Sprintf("%+v %+v", *q, q.GraphFilter)
	c.Op("HybridSearch %s", before)
	res, err := g.G.HybridSearch(bg, q)
	g.ok(err, "HybridSearch")
	c.Check(before == fmt.Sprintf("%+v %+v", *q, q.GraphFilter), "argument-modified", "HybridSearch changed the query: %s -> %+v", before, *q)
	for _, x := range res {
		if x.Node == nil {
			continue
		}
		for _, y := range cand {
			if y.id == x.Node.ID {
				c.Check(x.Distance == y.dist, "distance", "HybridSearch: distance of %q is %d, want %d", y.id, x.Distance, y.dist)
			}
		}
	}
	score := func(r *graph.HybridResult) float64 { return r.CombinedScore }
	if g.Index && q.TopK > 0 && len(q.Vector) > 0 && (q.Threshold != 0 || len(g.Nodes) > 50) {
		g.soundOnly("HybridSearch", res, score, cand, q.TopK)
	} else {
		g.judge("HybridSearch", res, score, cand, q.TopK, !g.Index)
	}
	if q.TopK > 0 && len(cand) > q.TopK {
		*cut = true
	}
	if len(q.Vector) > 0 && len(dist) > 1 {
		*both = true
	}
}

// soundOnly judges what was returned and not what is missing.
func (g *GWorld) soundOnly(op string, got []*graph.HybridResult, score func(*graph.HybridResult) float64, cand []gcand, k int) {
	c := g.c
	by := map[string]*gcand{}
	for i := range cand {
		by[cand[i].id] = &cand[i]
	}
	seen := map[string]bool{}
	c.Check(k <= 0 || len(got) <= k, "result-count", "%s returned %d results for k=%d", op, len(got), k)
	for i, r := range got {
		g.resultNode(op, r.Node, seen)
		x := by[r.Node.ID]
		c.Check(x != nil, "wrong-candidate", "%s returned %q, which does not qualify", op, r.Node.ID)
		ok := false
		for _, s := range x.scores {
			ok = ok || near(score(r), s, x.scale)
		}
		c.Check(ok, "wrong-score", "%s scored %q %v, want one of %v", op, r.Node.ID, score(r), x.scores)
		c.Check(i == 0 || score(got[i-1]) >= score(r), "order", "%s: results not ordered by score", op)
	}
	c.Count("searches", 1)
}

func (g *GWorld) graphVector() {
	c, r := g.c, g.R
	start, _ := g.anyNodes()
	q := g.qvec()
	o := graph.TraversalOptions{MaxDepth: pick(r, []int{0, 1, 2, 5}), Direction: pick(r, []string{"out", "in", "both", ""}), Limit: pick(r, []int{0, 0, 1, 2, 4})}
	if r.Intn(3) == 0 {
		o.NodeTypes = subset(r, nodeTypes, 2)
	}
	if r.Intn(3) == 0 {
		o.EdgeTypes = subset(r, edgeTypes, 2)
	}
	depth := o.MaxDepth
	if depth <= 0 {
		depth = 1
	}
	var cand []gcand
	for id, d := range g.bfs(start, o.Direction, o.EdgeTypes) {
		n, ok := g.Nodes[id]
		if !ok || d > depth || d > 0 && len(o.NodeTypes) > 0 && !inStrs(o.NodeTypes, n.NodeType) {
			continue
		}
		s := refSim(g.Sim, q, n.Vector)
		cand = append(cand, gcand{id: id, v: s, scores: []float64{s}, scale: scaleOf(g.Sim, q, n.Vector)})
	}
	c.Op("GraphVectorSearch %q %+v", start, o)
	res, err := g.G.GraphVectorSearch(bg, start, q, o)
	g.ok(err, "GraphVectorSearch")
	g.judge("GraphVectorSearch", res, func(r *graph.HybridResult) float64 { return r.CombinedScore }, cand, o.Limit, true)
}

func (g *GWorld) similarIn() {
	r := g.R
	id, _ := g.anyNodes()
	o := core.SearchOptions{TopK: pick(r, []int{0, 1, 3, 50})}
	if r.Intn(2) == 0 && g.Style == 0 {
		o.Threshold = r.NormFloat64() / 2
	}
	g.similarK(id, o)
}

func (g *GWorld) similarK(id string, o core.SearchOptions) {
	c := g.c
	c.Op("SimilarityInGraph %q %+v", id, o)
	res, err := g.G.SimilarityInGraph(bg, id, o)
	me, ok := g.Nodes[id]
	if !ok {
		c.Check(err != nil, "missing-node", "SimilarityInGraph of a missing node succeeded")
		return
	}
	g.ok(err, "SimilarityInGraph")
	var cand []gcand
	for x, n := range g.Nodes {
		if x == id {
			continue
		}
		s := refSim(g.Sim, me.Vector, n.Vector)
		sc := scaleOf(g.Sim, me.Vector, n.Vector)
		if o.Threshold != 0 && near(s, o.Threshold, sc) {
			return
		}
		if o.Threshold == 0 || s >= o.Threshold {
			cand = append(cand, gcand{id: x, v: s, scores: []float64{s}, scale: sc})
		}
	}
	g.judge("SimilarityInGraph", res, func(r *graph.HybridResult) float64 { return r.CombinedScore }, cand, o.TopK, true)
}

func (g *GWorld) hnswSearch() {
	c, r := g.c, g.R
	q := g.qvec()
	k := pick(r, []int{0, -1, 1, 2, 5, 100})
	thr := pick(r, []float64{-1e300, -1e300, 0, 0.5})
	c.Op("HNSWSearch %v %d %v", q, k, thr)
	res, err := g.G.HNSWSearch(bg, q, k, thr)
	if !g.Index {
		c.Check(err != nil, "no-index", "HNSWSearch without an index succeeded")
		return
	}
	g.ok(err, "HNSWSearch")
	if k <= 0 {
		c.Check(len(res) == 0, "result-count", "HNSWSearch with k=%d returned %d results", k, len(res))
		return
	}
	var cand []gcand
	for id, n := range g.Nodes {
		s := refSim(g.Sim, q, n.Vector)
		sc := scaleOf(g.Sim, q, n.Vector)
		if s >= thr || near(s, thr, sc) {
			cand = append(cand, gcand{id: id, v: s, scores: []float64{s}, scale: sc})
		}
	}
	score := func(r *graph.HybridResult) float64 { return r.TotalScore }
	if thr < -1e299 {
		g.judge("HNSWSearch", res, score, cand, k, false)
		if len(res) > 0 {
			i := r.Intn(len(res))
			s := res[i].TotalScore
			again, err := g.G.HNSWSearch(bg, q, k, s)
			g.ok(err, "HNSWSearch")
			g.reaches("HNSWSearch", res, again, i, score)
		}
	} else {
		g.soundOnly("HNSWSearch", res, score, cand, k)
	}
}

// reaches: a threshold equal to a result's score keeps that result and every better one.
func (g *GWorld) reaches(op string, all, again []*graph.HybridResult, i int, score func(*graph.HybridResult) float64) {
	got := map[string]bool{}
	for _, x := range again {
		got[x.Node.ID] = true
		g.c.Check(score(x) >= score(all[i]), "threshold", "%s with threshold %v returned %q scored %v", op, score(all[i]), x.Node.ID, score(x))
	}
	for _, x := range all {
		g.c.Check(score(x) < score(all[i]) || got[x.Node.ID], "threshold", "%s with threshold %v lost %q scored %v", op, score(all[i]), x.Node.ID, score(x))
	}
	g.c.Count("exact_thresholds", 1)
}

func (g *GWorld) hnswHybrid() {
	c, r := g.c, g.R
	if !g.Index {
		return
	}
	a, b := g.anyNodes()
	q := &graph.HybridQuery{Vector: g.qvec(), TopK: pick(r, []int{0, 1, 3, 100}), VectorWeight: pick(r, []float64{0, 1, 0.5}), GraphWeight: pick(r, []float64{0, 1, 0.5}),
		CenterNodes: pick(r, [][]string{nil, {a}, {a, b}, {"no such node", b}}), VectorThreshold: -1e300, TotalThreshold: pick(r, []float64{-1e300, 0.3})}
	c.Op("HNSWHybridSearch %+v", *q)
	res, err := g.G.HNSWHybridSearch(bg, q)
	g.ok(err, "HNSWHybridSearch")
	if q.TopK <= 0 {
		c.Check(len(res) == 0, "result-count", "HNSWHybridSearch with K=0 returned %d results", len(res))
		return
	}
	gs := map[string]float64{}
	for _, ctr := range q.CenterNodes {
		if _, ok := g.Nodes[ctr]; !ok {
			continue
		}
		for id, d := range g.bfs(ctr, "out", nil) {
			gs[id] = math.Max(gs[id], 1/float64(d+1))
		}
	}
	var cand []gcand
	for id, n := range g.Nodes {
		v := refSim(g.Sim, q.Vector, n.Vector)
		t := q.VectorWeight*v + q.GraphWeight*gs[id]
		sc := math.Max(1, scaleOf(g.Sim, q.Vector, n.Vector))
		if t >= q.TotalThreshold || near(t, q.TotalThreshold, sc) {
			cand = append(cand, gcand{id: id, v: v, gs: gs[id], scores: []float64{t}, scale: sc})
		}
	}
	score := func(r *graph.HybridResult) float64 { return r.TotalScore }
	if q.TotalThreshold < -1e299 {
		g.judge("HNSWHybridSearch", res, score, cand, q.TopK, false)
		if len(res) > 0 {
			i := r.Intn(len(res))
			q2 := *q
			q2.TotalThreshold = res[i].TotalScore
			again, err := g.G.HNSWHybridSearch(bg, &q2)
			g.ok(err, "HNSWHybridSearch")
			g.reaches("HNSWHybridSearch", res, again, i, score)
			q2 = *q
			q2.VectorThreshold = res[i].VectorScore
			again, err = g.G.HNSWHybridSearch(bg, &q2)
			g.ok(err, "HNSWHybridSearch")
			g.reaches("HNSWHybridSearch", res, again, i, func(r *graph.HybridResult) float64 { return r.VectorScore })
		}
	} else {
		g.soundOnly("HNSWHybridSearch", res, score, cand, q.TopK)
	}
}

// c24index: a larger indexed graph: every node finds itself, and the index follows updates and deletes.
func c24index(c *Case) {
	r := c.R
	g := newGWorld(c, pick(r, []string{"cosine", "euclid"}), 6+r.Intn(10))
	g.Index = true
	g.NIDs, g.EIDs = nil, nil
	n := 120 + r.Intn(150)
	if c.Idx%4 == 3 {
		n = 1500 + r.Intn(100) // more than a thousand are left when the index is built anew
	}
	node := func(id string) *graph.GraphNode {
		x := g.newNode(id)
		if g.Sim == "euclid" { // lengths matter
			f := float32(0.2 + 3*r.Float64())
			for i := range x.Vector {
				x.Vector[i] *= f
			}
		}
		return x
	}
	for i := 0; i < n; i++ {
		g.NIDs = append(g.NIDs, fmt.Sprint("n", i))
	}
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	var ns []*graph.GraphNode
	for _, id := range g.NIDs {
		x := node(id)
		ns = append(ns, x)
		g.putNode(x)
	}
	_, err := g.G.UpsertNodesBatch(bg, ns)
	g.ok(err, "UpsertNodesBatch")
	for round := 0; round < 3; round++ {
		for _, id := range subset(r, g.NIDs, n/4) {
			if _, ok := g.Nodes[id]; ok && r.Intn(2) == 0 {
				g.ok(g.G.DeleteNode(bg, id), "DeleteNode")
				g.dropNode(id)
			} else {
				x := node(id)
				m := cpNode(x)
				g.ok(g.G.UpsertNode(bg, x), "UpsertNode")
				g.putNode(m)
				for i := range x.Vector {
					x.Vector[i] = -x.Vector[i]
				}
			}
		}
		if round == 2 {
			g.reopen()
		}
		for _, k := range []int{60, 101, n / 2, n, 5000} {
			q := g.qvec()
			res, err := g.G.HNSWSearch(bg, q, k, -1e300)
			g.ok(err, "HNSWSearch")
			seen := map[string]bool{}
			for i, x := range res {
				g.resultNode("HNSWSearch", x.Node, seen)
				c.Check(i == 0 || res[i-1].TotalScore >= x.TotalScore, "order", "HNSWSearch results not ordered")
			}
			c.Check(len(res) == min(k, len(g.Nodes)), "result-count", "HNSWSearch for %d results returned %d, %d nodes exist", k, len(res), len(g.Nodes))
		}
		var hit, total int
		for _, id := range subset(r, sortedKeys(g.Nodes), 40) {
			q := g.Nodes[id].Vector
			k := 5 + r.Intn(10)
			res, err := g.G.HNSWSearch(bg, q, k, -1e300)
			g.ok(err, "HNSWSearch")
			seen := map[string]bool{}
			for i, x := range res {
				g.resultNode("HNSWSearch", x.Node, seen)
				s := refSim(g.Sim, q, g.Nodes[x.Node.ID].Vector)
				c.Check(near(x.TotalScore, s, scaleOf(g.Sim, q, g.Nodes[x.Node.ID].Vector)), "wrong-score", "HNSWSearch scored %q %v, want %v", x.Node.ID, x.TotalScore, s)
				c.Check(i == 0 || res[i-1].TotalScore >= x.TotalScore, "order", "HNSWSearch results not ordered")
			}
			c.Check(len(res) == min(k, len(g.Nodes)), "result-count", "HNSWSearch returned %d of %d", len(res), k)
			type sc struct {
				id string
				s  float64
			}
			var all []sc
			for x, nd := range g.Nodes {
				all = append(all, sc{x, refSim(g.Sim, q, nd.Vector)})
			}
			sort.Slice(all, func(i, j int) bool { return all[i].s > all[j].s })
			for _, x := range all[:len(res)] {
				total++
				if seen[x.id] {
					hit++
				}
			}
		}
		c.Count("recall_hits", hit)
		c.Count("recall_total", total)
		c.Op("round %d with %d nodes, %s: recall %d of %d", round, len(g.Nodes), g.Sim, hit, total)
		c.Check(float64(hit) >= 0.85*float64(total), "recall", "HNSWSearch recall %d of %d", hit, total)
		g.evict((c.Idx + round) % 6)
	}
	c.Nontrivial()
	g.close()
}

// evict removes, or moves away, everything near one point in one go: the next nearest nodes take its place.
func (g *GWorld) evict(how int) {
	c, r := g.c, g.R
	q := cpVec(g.Nodes[pick(r, sortedKeys(g.Nodes))].Vector)
	near := sortedKeys(g.Nodes)
	sort.SliceStable(near, func(i, j int) bool {
		return refSim(g.Sim, q, g.Nodes[near[i]].Vector) > refSim(g.Sim, q, g.Nodes[near[j]].Vector)
	})
	near = near[:25]
	c.Op("evict %d nodes by way %d", len(near), how)
	far := float32(1)
	if g.Sim == "euclid" { // farther than any other node, even from a short vector
		norm := 0.0
		for _, x := range q {
			norm += float64(x) * float64(x)
		}
		far = float32(math.Max(1, 50/math.Sqrt(norm)))
	}
	away := func() (ns []*graph.GraphNode) {
		for _, id := range near {
			x := g.newNode(id)
			for i := range x.Vector {
				x.Vector[i] = -far * q[i] * (1 + float32(r.Intn(100))/1000)
			}
			ns = append(ns, x)
			g.putNode(x)
		}
		return ns
	}
	var err error
	switch how {
	case 0:
		_, err = g.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeDeletes: near})
	case 1:
		_, err = g.G.DeleteNodesBatch(bg, near)
	case 2:
		x := g.newNode(near[0])
		for i := range x.Vector {
			x.Vector[i] = -far * q[i]
		}
		_, err = g.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{x}, NodeDeletes: near[1:]})
		g.putNode(x)
	case 3:
		for _, id := range near {
			g.ok(g.G.DeleteNode(bg, id), "DeleteNode")
		}
	case 4:
		_, err = g.G.UpsertNodesBatch(bg, away())
	case 5:
		_, err = g.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: away()})
	}
	g.ok(err, "evict")
	if how != 4 && how != 5 {
		for i, id := range near {
			if how != 2 || i > 0 {
				g.dropNode(id)
			}
		}
	}
	for _, k := range []int{5, 10} {
		res, err := g.G.HNSWSearch(bg, q, k, -1e300)
		g.ok(err, "HNSWSearch")
		c.Check(len(res) == min(k, len(g.Nodes)), "result-count", "after its neighbours were evicted (way %d), HNSWSearch returned %d of %d", how, len(res), k)
		seen := map[string]bool{}
		bad := 0
		for _, x := range res {
			g.resultNode("HNSWSearch", x.Node, seen)
			if contains(near, x.Node.ID) {
				bad++
			}
		}
		c.Check(bad <= k/2, "recall", "after its neighbours were moved away (way %d), %d of %d results of HNSWSearch are those", how, bad, k)
		hres, err := g.G.HNSWHybridSearch(bg, &graph.HybridQuery{Vector: q, TopK: k, VectorWeight: 1, VectorThreshold: -1e300, TotalThreshold: -1e300})
		g.ok(err, "HNSWHybridSearch")
		c.Check(len(hres) == min(k, len(g.Nodes)), "result-count", "after its neighbours were evicted (way %d), HNSWHybridSearch returned %d of %d", how, len(hres), k)
	}
	c.Count("evictions", 1)
}

// c24large: exact searches over more nodes than any plausible internal limit, with large K.
func c24large(c *Case) {
	r := c.R
	g := newGWorld(c, sims[c.Idx%3], 3)
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	n := 1001 + r.Intn(200)
	g.bigGraph(n, c.Idx)
	for round := 0; round < 2; round++ {
		for _, k := range []int{0, 1, 60, 500, 1001, 5000} {
			id := pick(r, sortedKeys(g.Nodes))
			g.similarK(id, core.SearchOptions{TopK: k})
			var cand []gcand
			q := g.qvec()
			for id, x := range g.Nodes {
				s := refSim(g.Sim, q, x.Vector)
				cand = append(cand, gcand{id: id, v: s, scores: []float64{s}, scale: math.Max(1, scaleOf(g.Sim, q, x.Vector))})
			}
			c.Op("HybridSearch by vector K=%d", k)
			res, err := g.G.HybridSearch(bg, &graph.HybridQuery{Vector: q, TopK: k, Weights: graph.HybridWeights{VectorWeight: 1}})
			g.ok(err, "HybridSearch")
			g.judge("HybridSearch", res, func(r *graph.HybridResult) float64 { return r.CombinedScore }, cand, k, true)
			o := graph.TraversalOptions{MaxDepth: 3000, Direction: "both", Limit: k}
			cand = nil
			for id := range g.bfs(g.NIDs[0], "both", nil) {
				s := refSim(g.Sim, q, g.Nodes[id].Vector)
				cand = append(cand, gcand{id: id, v: s, scores: []float64{s}, scale: scaleOf(g.Sim, q, g.Nodes[id].Vector)})
			}
			c.Op("GraphVectorSearch K=%d", k)
			res, err = g.G.GraphVectorSearch(bg, g.NIDs[0], q, o)
			g.ok(err, "GraphVectorSearch")
			g.judge("GraphVectorSearch", res, func(r *graph.HybridResult) float64 { return r.CombinedScore }, cand, k, true)
		}
		var del []string
		for _, id := range subset(r, g.NIDs[1:], 100) {
			del = append(del, id)
			g.dropNode(id)
		}
		_, err := g.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeDeletes: del})
		g.ok(err, "ExecuteBatch")
	}
	c.Nontrivial()
	g.close()
}
