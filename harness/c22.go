package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C22", Level: "exploration",
		Rule: "a case is one random graph on which every algorithm is run and compared with an independent reference; non-trivial when the graph has edges and more than one component or a dangling node",
		Run: func(r *Run) {
			r.Parallel("graph", r.N(160, 1600), 0, c22graph)
			r.Parallel("history", r.N(30, 300), 0, c22history)
			r.Parallel("large", r.N(4, 24), 0, c22large)
		}})
}

// load stores a random graph of the given shape in one go.
func (g *GWorld) load(n int, edges [][2]int) {
	r := g.R
	g.NIDs, g.EIDs = pool(r, "n", n, 0.3), nil
	n = len(g.NIDs)
	var ns []*graph.GraphNode
	for _, id := range g.NIDs {
		x := g.newNode(id)
		ns = append(ns, x)
		g.putNode(x)
	}
	var es []*graph.GraphEdge
	for i, p := range edges {
		e := g.newEdge(fmt.Sprint("e", i), g.NIDs[p[0]%n], g.NIDs[p[1]%n])
		g.EIDs = append(g.EIDs, e.ID)
		es = append(es, e)
		g.putEdge(e)
	}
	_, err := g.G.UpsertNodesBatch(bg, ns)
	g.ok(err, "UpsertNodesBatch")
	_, err = g.G.UpsertEdgesBatch(bg, es)
	g.ok(err, "UpsertEdgesBatch")
}

func (g *GWorld) shape(kind, n int) (e [][2]int) {
	r := g.R
	if n == 0 {
		return nil
	}
	switch kind % 7 {
	case 0:
	case 1:
		for i := 0; i < r.Intn(3*n+1); i++ {
			e = append(e, [2]int{r.Intn(n), r.Intn(n)})
		}
	case 2:
		for i := 1; i < n; i++ {
			e = append(e, [2]int{i - 1, i})
		}
	case 3: // cycle: no dangling node
		for i := 0; i < n; i++ {
			e = append(e, [2]int{i, (i + 1) % n})
		}
		for i := 0; i < n/2; i++ {
			e = append(e, [2]int{r.Intn(n), r.Intn(n)})
		}
	case 4: // two clusters joined weakly
		h := n/2 + 1
		for i := 0; i < 3*n; i++ {
			a, b := r.Intn(h), r.Intn(h)
			if i%2 == 0 && n > h {
				a, b = h+r.Intn(n-h), h+r.Intn(n-h)
			}
			e = append(e, [2]int{a, b})
		}
		if r.Intn(2) == 0 {
			e = append(e, [2]int{0, n - 1})
		}
	case 5: // star, parallel edges, self loops
		for i := 0; i < n; i++ {
			e = append(e, [2]int{0, i}, [2]int{0, i})
			if r.Intn(3) == 0 {
				e = append(e, [2]int{i, i})
			}
		}
	default: // sparse: many components
		for i := 0; i < n/2; i++ {
			e = append(e, [2]int{r.Intn(n), r.Intn(n)})
		}
	}
	return e
}

func c22graph(c *Case) {
	g := newGWorld(c, sims[c.R.Intn(3)], 2)
	g.open()
	defer g.S.Close()
	n := pick(c.R, []int{0, 1, 2, 3, 5, 8, 13, 25, 40})
	if n > 0 {
		g.load(n, g.shape(c.Idx, n))
	}
	c.Op("graph of %d nodes and %d edges, shape %d", len(g.Nodes), len(g.Edges), c.Idx%7)
	g.algorithms()
	g.close()
}

// c22large: more nodes and edges, and longer paths, than any plausible internal limit.
func c22large(c *Case) {
	g := newGWorld(c, sims[c.R.Intn(3)], 2)
	g.open()
	defer g.S.Close()
	n := 1001 + c.R.Intn(300)
	g.bigGraph(n, c.Idx)
	c.Op("graph of %d nodes and %d edges, shape %d", len(g.Nodes), len(g.Edges), c.Idx%4)
	g.algorithms()
	for i := 0; i < 6; i++ {
		b := g.NIDs[n-1-c.R.Intn(n/10)]
		g.shortest(g.NIDs[0], b)
		g.connectedIn(g.NIDs[0], b, pick(c.R, []int{0, 1, 2, 6, 2000}))
		g.connectedIn(b, g.NIDs[0], 2000)
	}
	g.close()
}

func c22history(c *Case) {
	g := newGWorld(c, sims[c.R.Intn(3)], 2)
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	for i := 0; i < 5; i++ {
		for j := 0; j < 8; j++ {
			g.Step()
		}
		g.algorithms()
	}
	g.close()
}

func (g *GWorld) components() (int, map[string]int) {
	comp := map[string]int{}
	k := 0
	for _, id := range sortedKeys(g.Nodes) {
		if _, ok := comp[id]; ok {
			continue
		}
		for x := range g.bfs(id, "both", nil) {
			comp[x] = k
		}
		k++
	}
	return k, comp
}

func (g *GWorld) algorithms() {
	c := g.c
	ncomp, comp := g.components()
	n := len(g.Nodes)
	out := map[string]int{}
	for _, e := range g.Edges {
		out[e.FromNodeID]++
	}
	if len(g.Edges) > 0 && (ncomp > 1 || len(out) < n) {
		c.Nontrivial()
	}

	// statistics
	st, err := g.G.GetGraphStatistics(bg)
	g.ok(err, "GetGraphStatistics")
	want := graph.GraphStatistics{NodeCount: n, EdgeCount: len(g.Edges), ConnectedComponents: ncomp}
	if n > 0 {
		want.AverageDegree = 2 * float64(len(g.Edges)) / float64(n)
	}
	if n > 1 {
		want.Density = float64(len(g.Edges)) / float64(n*(n-1))
	}
	c.Check(st.NodeCount == want.NodeCount && st.EdgeCount == want.EdgeCount && st.ConnectedComponents == want.ConnectedComponents &&
		math.Abs(st.AverageDegree-want.AverageDegree) < 1e-9 && math.Abs(st.Density-want.Density) < 1e-9, "statistics", "statistics %+v, want %+v", *st, want)

	g.pageRank()
	g.communities(comp)
	for i := 0; i < 8 && n > 0; i++ {
		a, b := g.anyNodes()
		g.shortest(a, b)
		g.connected(a, b)
	}
	for i := 0; i < 3; i++ {
		a, _ := g.anyNodes()
		g.predict(a)
	}
}

func (g *GWorld) pageRank() {
	c, r := g.c, g.R
	iters := pick(r, []int{0, -3, 1, 3, 20, 100, 1000})
	d := pick(r, []float64{0.85, 0, 0.5, 0.1, 0.99, 1, 1.5, -1})
	c.Op("PageRank %d %v", iters, d)
	pr, err := g.G.PageRank(bg, iters, d)
	g.ok(err, "PageRank")
	if iters <= 0 {
		iters = 100
	}
	if d <= 0 || d > 1 {
		d = 0.85
	}
	n := len(g.Nodes)
	c.Check(len(pr) == n, "pagerank-nodes", "PageRank returned %d scores for %d nodes", len(pr), n)
	score := map[string]float64{}
	sum := 0.0
	for i, x := range pr {
		_, ok := g.Nodes[x.NodeID]
		_, dup := score[x.NodeID]
		c.Check(ok && !dup, "pagerank-nodes", "PageRank score for %q, which is missing or scored twice", x.NodeID)
		c.Check(i == 0 || pr[i-1].Score >= x.Score, "pagerank-order", "PageRank results not sorted")
		c.Check(x.Score >= 0 && (x.Score > 0 || d == 1), "pagerank-value", "PageRank of %q is %v", x.NodeID, x.Score)
		score[x.NodeID] = x.Score
		sum += x.Score
	}
	if n == 0 {
		return
	}
	ids := sortedKeys(g.Nodes)
	idx := map[string]int{}
	for i, id := range ids {
		idx[id] = i
	}
	out := make([]float64, n)
	for _, e := range g.Edges {
		out[idx[e.FromNodeID]]++
	}
	dangling := false
	for _, o := range out {
		dangling = dangling || o == 0
	}
	c.Check(sum <= 1+1e-9, "pagerank-sum", "PageRank sums to %v", sum)
	if !dangling {
		c.Check(math.Abs(sum-1) < 1e-9, "pagerank-sum", "PageRank sums to %v on a graph without dangling nodes", sum)
	}
	if d >= 1 {
		// no unique fixed point: the same iteration from the uniform distribution
		x, y := make([]float64, n), make([]float64, n)
		for i := range x {
			x[i] = 1 / float64(n)
		}
		for it := 0; it < iters; it++ {
			clear(y)
			for _, e := range g.Edges {
				a := idx[e.FromNodeID]
				y[idx[e.ToNodeID]] += x[a] / out[a]
			}
			diff := 0.0
			for i := range y {
				diff = math.Max(diff, math.Abs(x[i]-y[i]))
			}
			x, y = y, x
			if diff < 1e-6 {
				break
			}
		}
		for i, id := range ids {
			c.Check(math.Abs(score[id]-x[i]) <= 1e-5, "pagerank-equation", "PageRank of %q is %v, %d iterations without damping give %v", id, score[id], iters, x[i])
		}
		c.Count("pagerank_undamped", 1)
		return
	}
	// the true fixed point of x = (1-d)/n + d * M x
	x, y := make([]float64, n), make([]float64, n)
	for it := 0; it < 6000; it++ {
		for i := range y {
			y[i] = (1 - d) / float64(n)
		}
		for _, e := range g.Edges {
			a := idx[e.FromNodeID]
			y[idx[e.ToNodeID]] += d * x[a] / out[a]
		}
		x, y = y, x
	}
	tol := 2*math.Pow(d, float64(iters)) + float64(n)*1e-6*d/(1-d) + 1e-9
	for i, id := range ids {
		c.Check(math.Abs(score[id]-x[i]) <= tol, "pagerank-equation", "PageRank of %q is %v, the equation gives %v (damping %v, %d iterations)", id, score[id], x[i], d, iters)
	}
	if tol < 0.01 {
		c.Count("pagerank_converged", 1)
	}
	c.Count("pagerank", 1)
}

func (g *GWorld) communities(comp map[string]int) {
	c := g.c
	cs, err := g.G.CommunityDetection(bg)
	g.ok(err, "CommunityDetection")
	seen := map[string]bool{}
	ids := map[int]bool{}
	for i, x := range cs {
		c.Check(len(x.Nodes) > 0 && !ids[x.ID], "community", "community %d is empty or its id is used twice", x.ID)
		ids[x.ID] = true
		c.Check(i == 0 || len(cs[i-1].Nodes) >= len(x.Nodes), "community", "communities not ordered by size")
		c.Check(math.Abs(x.Score-float64(len(x.Nodes))/float64(len(g.Nodes))) < 1e-9, "community", "community score %v for %d of %d nodes", x.Score, len(x.Nodes), len(g.Nodes))
		for _, id := range x.Nodes {
			_, ok := g.Nodes[id]
			c.Check(ok && !seen[id], "community", "node %q missing from the graph or in two communities", id)
			seen[id] = true
			c.Check(comp[id] == comp[x.Nodes[0]], "community", "community joins unconnected nodes %q and %q", id, x.Nodes[0])
		}
	}
	c.Check(len(seen) == len(g.Nodes), "community", "communities cover %d of %d nodes", len(seen), len(g.Nodes))
	c.Count("communities", len(cs))
}

func (g *GWorld) shortest(a, b string) {
	c := g.c
	p, err := g.G.ShortestPath(bg, a, b)
	c.Op("ShortestPath %q %q", a, b)
	_, okA := g.Nodes[a]
	_, okB := g.Nodes[b]
	d, reach := g.bfs(a, "out", nil)[b]
	if !okA || !okB || !reach {
		c.Check(err != nil, "path-invented", "ShortestPath(%q, %q) found a path although none exists", a, b)
		return
	}
	g.ok(err, "ShortestPath")
	c.Check(p.Distance == d && len(p.Edges) == d && len(p.Nodes) == d+1, "path-length", "ShortestPath(%q, %q): distance %d with %d edges and %d nodes, want %d", a, b, p.Distance, len(p.Edges), len(p.Nodes), d)
	c.Check(p.Nodes[0].ID == a && p.Nodes[d].ID == b, "path-ends", "ShortestPath(%q, %q) runs from %q to %q", a, b, p.Nodes[0].ID, p.Nodes[d].ID)
	w := 0.0
	for i, e := range p.Edges {
		m, ok := g.Edges[e.ID]
		c.Check(ok && diffEdge(e, m) == "", "path-edge", "path edge %q is not in the graph", e.ID)
		c.Check(m.FromNodeID == p.Nodes[i].ID && m.ToNodeID == p.Nodes[i+1].ID, "path-edge", "path edge %q does not join %q and %q", e.ID, p.Nodes[i].ID, p.Nodes[i+1].ID)
		w += m.Weight
	}
	for _, n := range p.Nodes {
		dd := diffNode(n, g.Nodes[n.ID])
		c.Check(dd == "", "node-content", "path node %q: %s", n.ID, dd)
	}
	c.Check(w == p.Weight || math.Abs(w-p.Weight) <= 1e-9*math.Max(math.Abs(w), 1), "path-weight", "path weight %v, want %v", p.Weight, w)
	c.Count("paths", 1)
}

func (g *GWorld) connected(a, b string) {
	if _, ok := g.Nodes[a]; !ok || a == b {
		return
	}
	g.connectedIn(a, b, pick(g.R, []int{-1, 0, 1, 2, 3, 5, 6, 7, 30}))
}

func (g *GWorld) connectedIn(a, b string, depth int) {
	c := g.c
	c.Op("Connected %q %q %d", a, b, depth)
	got, err := g.G.Connected(bg, a, b, depth)
	g.ok(err, "Connected")
	if depth <= 0 {
		depth = 6
	}
	d, reach := g.bfs(a, "both", nil)[b]
	c.Check(got == (reach && d <= depth), "connected", "Connected(%q, %q, %d) = %v, distance %d reachable %v", a, b, depth, got, d, reach)
}

func (g *GWorld) predict(a string) {
	c := g.c
	k := pick(g.R, []int{0, -1, 1, 2, 5, 100})
	c.Op("PredictEdges %q %d", a, k)
	ps, err := g.G.PredictEdges(bg, a, k)
	if _, ok := g.Nodes[a]; !ok {
		c.Check(err != nil, "predict", "PredictEdges of missing node %q succeeded", a)
		return
	}
	g.ok(err, "PredictEdges")
	if k <= 0 {
		k = 10
	}
	nb := map[string]map[string]bool{}
	link := func(x, y string) {
		if nb[x] == nil {
			nb[x] = map[string]bool{}
		}
		nb[x][y] = true
	}
	for _, e := range g.Edges {
		link(e.FromNodeID, e.ToNodeID)
		link(e.ToNodeID, e.FromNodeID)
	}
	want := map[string]float64{}
	var scores []float64
	for id, n := range g.Nodes {
		if id == a || nb[a][id] {
			continue
		}
		s := refSim(g.Sim, g.Nodes[a].Vector, n.Vector)
		common := 0
		for x := range nb[a] {
			if nb[id][x] {
				common++
			}
		}
		if common > 0 {
			s = (s + float64(common)/float64(len(nb[a])+1)) / 2
		}
		want[id] = s
		scores = append(scores, s)
	}
	sort.Float64s(scores)
	must := 0
	for _, s := range scores {
		if s > 0.5+1e-4 {
			must++
		}
	}
	if must > k {
		must = k
	}
	c.Check(len(ps) <= k && len(ps) >= must, "predict", "PredictEdges(%q, %d) returned %d predictions, want at least %d", a, k, len(ps), must)
	seen := map[string]bool{}
	for i, p := range ps {
		s, ok := want[p.ToNodeID]
		c.Check(p.FromNodeID == a && ok && !seen[p.ToNodeID], "predict", "prediction %q -> %q is an existing link, a missing node or repeated", p.FromNodeID, p.ToNodeID)
		seen[p.ToNodeID] = true
		c.Check(near(p.Score, s, scaleOf(g.Sim, g.Nodes[a].Vector, g.Nodes[p.ToNodeID].Vector)), "predict-score", "prediction of %q scored %v, want %v", p.ToNodeID, p.Score, s)
		c.Check(i == 0 || ps[i-1].Score >= p.Score, "predict", "predictions not ordered")
		if len(ps) == k { // nothing left out may be clearly better
			c.Check(s >= scores[len(scores)-k]-1e-4*math.Max(1, math.Abs(s)), "predict", "prediction %q with score %v is not among the %d best", p.ToNodeID, s, k)
		}
	}
	c.Count("predictions", len(ps))
}
