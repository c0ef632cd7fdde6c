package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C17", Level: "exploration",
		Rule: "a case is one stored set with hybrid, negative-example, recommendation, anomaly, diversity and reranked queries (parts store, indexed), one candidate list given to every built-in reranker (part rerank), or one history of multi-vector entities with aggregated searches (part multi); every score, order and cut is recomputed independently and every argument compared before and after; non-trivial when some answer was cut to K",
		Run: func(r *Run) {
			r.Parallel("store", r.N(60, 600), 0, c17store)
			r.Parallel("indexed", r.N(20, 200), 0, c17indexed)
			r.Parallel("rerank", r.N(150, 3000), 0, c17rerank)
			r.Parallel("multi", r.N(40, 400), 0, c17multi)
		}})
}

type want17 struct{ score, tol float64 }

// judgeRank judges ids and scores against the full set of wanted scores: right scores, ordered, cut to the K best.
func judgeRank(c *Case, op string, ids []string, scores []float64, want map[string]want17, k int) {
	n := len(want)
	if k > 0 && n > k {
		n = k
		c.Nontrivial()
		c.Count("cut_to_k", 1)
	}
	seen := map[string]bool{}
	last, lastTol := math.Inf(1), 0.0
	for i, id := range ids {
		x, ok := want[id]
		c.Check(ok, "unwanted-result:"+op, "%s returned %q, which does not satisfy the request", op, id)
		c.Check(!seen[id], "duplicate-result:"+op, "%s returned %q twice", op, id)
		seen[id] = true
		c.Check(math.Abs(scores[i]-x.score) <= x.tol || scores[i] == x.score, "wrong-score:"+op, "%s scored %q %v, its formula gives %v (tolerance %v)", op, id, scores[i], x.score, x.tol)
		c.Check(scores[i] <= last, "wrong-order:"+op, "%s result %d (%v) comes after %v", op, i, scores[i], last)
		last, lastTol = scores[i], x.tol
	}
	c.Check(len(ids) == n, "wrong-count:"+op, "%s returned %d results, %d satisfy the request, K=%d", op, len(ids), len(want), k)
	for id, x := range want {
		if !seen[id] {
			c.Check(x.score <= last+x.tol+lastTol, "not-top-k:"+op, "%s left out %q with score %v while the last of %d results has %v", op, id, x.score, len(ids), last)
		}
	}
	c.Count("judged:"+op, 1)
}

func split(res []core.ScoredEmbedding) (ids []string, scores []float64) {
	for _, e := range res {
		ids = append(ids, e.ID)
		scores = append(scores, e.Score)
	}
	return
}

// contents compares the returned records with the stored ones.
func (w *World) contents(op string, res []core.ScoredEmbedding) {
	for _, e := range res {
		x := w.Recs[e.ID]
		w.c.Check(x != nil, "stale-result:"+op, "%s returned %q, which is not stored", op, e.ID)
		d := diffRec(&e.Embedding, x, false)
		w.c.Check(d == "", "stale-content:"+op, "%s returned %q with %s", op, e.ID, d)
	}
}

func cpScored(in []core.ScoredEmbedding) []core.ScoredEmbedding {
	out := make([]core.ScoredEmbedding, len(in))
	for i, e := range in {
		out[i] = e
		out[i].Vector = cpVec(e.Vector)
		if e.Metadata != nil {
			out[i].Metadata = map[string]string{}
			for k, v := range e.Metadata {
				out[i].Metadata[k] = v
			}
		}
	}
	return out
}

func cpOpts(o core.SearchOptions) core.SearchOptions {
	if o.Filter != nil {
		f := map[string]string{}
		for k, v := range o.Filter {
			f[k] = v
		}
		o.Filter = f
	}
	return o
}

func c17world(c *Case, kind, sim string) *World {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), kind, 2+r.Intn(5), sim))
	w.OnlyGood, w.NoClear = true, true
	w.Words = vocab[:12]
	w.open()
	return w
}

func c17store(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	w := c17world(c, "flat", sim)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	if c.Idx%2 == 0 {
		w.VecStyle = (c.Idx / 6) % 3 // the formulas are in single precision: no extreme magnitudes
	}
	c.Op("flat %s dim %d style %d", sim, w.Dim, w.VecStyle)
	steps := 40
	if c.Idx%5 == 4 { // more records than any candidate pool
		w.Fill(150 + r.Intn(250))
	}
	rounds := 12
	if c.Idx%15 == 7 {
		w.Fill(1010 + r.Intn(300))
		rounds = 3
	}
	for i := 0; i < steps; i++ {
		w.Step()
	}
	for i := 0; i < rounds; i++ {
		before, err := tableDump(w.S.GetDB(), "embeddings", "documents", "collections")
		c.Must(err, "dump")
		for j := 0; j < 3; j++ {
			w.c17negatives(sim)
		}
		w.c17recommend(sim)
		if i%4 == 0 {
			w.c17anomalies(sim)
		}
		w.c17hybrid(sim)
		w.c17diverse(sim)
		w.c17reranked(sim)
		after, err := tableDump(w.S.GetDB(), "embeddings", "documents", "collections")
		c.Must(err, "dump")
		c.Check(before == after, "data-changed", "a search changed stored data: %s", firstDiff(before, after))
		w.Step()
	}
	w.close()
}

func (w *World) examples(n int) (out [][]float32) {
	for i := 0; i < n; i++ {
		q, _ := w.query()
		out = append(out, q)
	}
	return out
}

// negScores is the documented negative-example formula.
func (w *World) negScores(sim string, pos, neg [][]float32, weight float64, pred func(*Rec) bool) map[string]want17 {
	want := map[string]want17{}
	best := func(qs [][]float32, v []float32) (s, tol float64) {
		for i, q := range qs {
			if x := refSim(sim, q, v); i == 0 || x > s {
				s = x
			}
			tol = math.Max(tol, 2e-6*scaleOf(sim, q, v))
		}
		return
	}
	for id, x := range w.Recs {
		if !pred(x) {
			continue
		}
		p, pt := best(pos, x.Vec)
		n, nt := best(neg, x.Vec)
		want[id] = want17{p - weight*n, pt + math.Abs(weight)*nt + 1e-12}
	}
	return want
}

func (w *World) c17negatives(sim string) {
	c, r := w.c, w.R
	o := core.NegativeSearchOptions{PositiveVectors: w.examples(r.Intn(4)), NegativeVectors: w.examples(r.Intn(4)),
		NegativeWeight: pick(r, []float32{0, 0.5, 1, 0.1, 2, 0.25}), SearchOptions: w.options()}
	weight := float64(o.NegativeWeight)
	if weight == 0 {
		weight = 0.5
	}
	want := w.negScores(sim, o.PositiveVectors, o.NegativeVectors, weight, optPred(o.SearchOptions))
	arg := o
	arg.SearchOptions = cpOpts(o.SearchOptions)
	arg.PositiveVectors, arg.NegativeVectors = cpVecs(o.PositiveVectors), cpVecs(o.NegativeVectors)
	c.Op("SearchWithNegatives %d positive %d negative weight %v %s", len(o.PositiveVectors), len(o.NegativeVectors), o.NegativeWeight, optStr(o.SearchOptions))
	res, err := w.S.SearchWithNegatives(bg, arg)
	w.ok(err, "SearchWithNegatives")
	c.Check(vecsEq(arg.PositiveVectors, o.PositiveVectors) && vecsEq(arg.NegativeVectors, o.NegativeVectors) && reflect.DeepEqual(arg.Filter, o.Filter), "argument-modified:SearchWithNegatives", "SearchWithNegatives modified its arguments")
	ids, sc := split(res)
	judgeRank(c, "SearchWithNegatives", ids, sc, want, o.TopK)
	w.contents("SearchWithNegatives", res)
}

func cpVecs(v [][]float32) (out [][]float32) {
	for _, x := range v {
		out = append(out, cpVec(x))
	}
	return
}

func vecsEq(a, b [][]float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bitsEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (w *World) c17recommend(sim string) {
	c, r := w.c, w.R
	all := append(sortedKeys(w.Recs), "nobody")
	draw := func(n int) (ids []string, vecs [][]float32) {
		for i := 0; i < n; i++ {
			id := pick(r, all)
			ids = append(ids, id)
			if x := w.Recs[id]; x != nil {
				vecs = append(vecs, x.Vec)
			}
		}
		return
	}
	pos, pv := draw(r.Intn(4))
	neg, nv := draw(r.Intn(3))
	o := w.options()
	c.Op("RecommendSimilar %q %q %s", pos, neg, optStr(o))
	want := w.negScores(sim, pv, nv, 0.5, optPred(o))
	p2, n2 := append([]string(nil), pos...), append([]string(nil), neg...)
	res, err := w.S.RecommendSimilar(bg, p2, n2, cpOpts(o))
	w.ok(err, "RecommendSimilar")
	c.Check(reflect.DeepEqual(p2, append([]string(nil), pos...)) && reflect.DeepEqual(n2, append([]string(nil), neg...)), "argument-modified:RecommendSimilar", "RecommendSimilar modified its arguments")
	ids, sc := split(res)
	judgeRank(c, "RecommendSimilar", ids, sc, want, o.TopK)
	w.contents("RecommendSimilar", res)
}

func (w *World) c17anomalies(sim string) {
	c := w.c
	o := w.options()
	pred := optPred(o)
	want := map[string]want17{}
	for id, x := range w.Recs {
		if !pred(x) {
			continue
		}
		var d []float64
		tol := 0.0
		for jd, y := range w.Recs {
			if jd != id && pred(y) {
				d = append(d, 1-refSim(sim, x.Vec, y.Vec))
				tol = math.Max(tol, 2e-6*(1+scaleOf(sim, x.Vec, y.Vec)))
			}
		}
		sort.Float64s(d)
		if len(d) > 5 {
			d = d[:5]
		}
		s := 0.0
		for _, v := range d {
			s += v
		}
		if len(d) > 0 {
			s /= float64(len(d))
		}
		want[id] = want17{s, tol}
	}
	c.Op("FindAnomalies %s", optStr(o))
	res, err := w.S.FindAnomalies(bg, cpOpts(o))
	w.ok(err, "FindAnomalies")
	ids, sc := split(res)
	judgeRank(c, "FindAnomalies", ids, sc, want, o.TopK)
	w.contents("FindAnomalies", res)
}

// matchWord: the text queries are single words or conjunctions of plain vocabulary words.
func (w *World) c17text() string {
	r := w.R
	switch r.Intn(5) {
	case 0:
		return ""
	case 1:
		return pick(r, w.Words) + " " + pick(r, w.Words)
	case 2:
		return pick(r, w.Words) + " OR " + pick(r, w.Words)
	}
	return pick(r, w.Words)
}

func (w *World) c17hybrid(sim string) {
	c, r := w.c, w.R
	q, _ := w.query()
	if r.Intn(5) == 0 {
		q = nil
	}
	text := w.c17text()
	o := w.options()
	rrfk := pick(r, []float64{0, 60, 1, 10, 0.5})
	k := rrfk
	if k == 0 {
		k = 60
	}
	lim := o.TopK * 3
	if lim <= 0 {
		lim = 30
	}
	// the two rankings that are fused, each taken from the search it is documented to come from
	vr := map[string]int{}
	tied := false
	if q != nil {
		res, err := w.S.Search(bg, cpVec(q), cpOpts(o))
		w.ok(err, "Search")
		for i, e := range res {
			vr[e.ID] = i + 1
			if i > 0 && e.Score == res[i-1].Score {
				tied = true
			}
		}
	}
	var kw []string
	if text != "" {
		big := cpOpts(o)
		big.TopK = len(w.Recs) + 1
		res, err := w.S.HybridSearch(bg, nil, text, core.HybridSearchOptions{SearchOptions: big, RRFK: rrfk})
		w.ok(err, "HybridSearch")
		pred := optPred(o)
		for i, e := range res {
			c.Check(w.Recs[e.ID] != nil && pred(w.Recs[e.ID]), "unwanted-result:HybridSearch", "keyword part returned %q", e.ID)
			c.Check(math.Abs(e.Score-1/(k+float64(i+1))) < 1e-12, "wrong-score:HybridSearch", "keyword rank %d scored %v with k=%v", i+1, e.Score, k)
			kw = append(kw, e.ID)
		}
		if len(kw) > lim {
			kw = kw[:lim]
		}
	}
	want := map[string]want17{}
	tol := 1e-12
	if tied {
		// equal similarities may be ranked either way
		tol = 1 / (k + 1)
	}
	for id, i := range vr {
		want[id] = want17{1 / (k + float64(i)), tol}
	}
	for i, id := range kw {
		x := want[id]
		want[id] = want17{x.score + 1/(k+float64(i+1)), tol}
	}
	c.Op("HybridSearch %v %q rrfk=%v %s", q, text, rrfk, optStr(o))
	arg := cpVec(q)
	res, err := w.S.HybridSearch(bg, arg, text, core.HybridSearchOptions{SearchOptions: cpOpts(o), RRFK: rrfk})
	w.ok(err, "HybridSearch")
	c.Check(bitsEq(arg, q), "argument-modified:HybridSearch", "HybridSearch modified its query")
	ids, sc := split(res)
	judgeRank(c, "HybridSearch", ids, sc, want, o.TopK)
	w.contents("HybridSearch", res)
	if len(vr) > 0 && len(kw) > 0 {
		c.Count("hybrid_fused", 1)
	}
}

func (w *World) c17diverse(sim string) {
	c, r := w.c, w.R
	q, _ := w.query()
	o := core.DiversitySearchOptions{SearchOptions: w.options(), Lambda: pick(r, []float32{0, 0.5, 1, 0.2, 0.9}),
		MinDistance: pick(r, []float32{0, 0.1, 0.5, 1, 3, 0.001, 0.01}), Method: pick(r, []core.DiversityMethod{core.DiversityMMR, core.DiversityDPP, core.DiversityDistance, core.DiversityRandom, ""})}
	if n := len(w.Recs); r.Intn(3) == 0 && n > 0 {
		o.TopK = pick(r, []int{1 + n/2, 1 + n/3, 1 + n*3/4, 110, 45})
	}
	if r.Intn(3) == 0 && len(w.Recs) > 1 { // exactly the distance of two records
		ids := sortedKeys(w.Recs)
		if d := float32(1 - refSim(sim, w.Recs[pick(r, ids)].Vec, w.Recs[pick(r, ids)].Vec)); d > 0 {
			o.MinDistance = d
		}
	}
	k := kOf(o.SearchOptions)
	pool := cpOpts(o.SearchOptions)
	pool.TopK = 3 * k
	cand, err := w.S.Search(bg, cpVec(q), pool)
	w.ok(err, "Search")
	op := "SearchWithDiversity-" + string(o.Method)
	c.Op("%s lambda=%v mindist=%v %s", op, o.Lambda, o.MinDistance, optStr(o.SearchOptions))
	arg := cpVec(q)
	res, err := w.S.SearchWithDiversity(bg, arg, o)
	w.ok(err, op)
	c.Check(bitsEq(arg, q), "argument-modified:"+op, "%s modified its query", op)
	w.contents(op, res)
	pred := optPred(o.SearchOptions)
	seen := map[string]bool{}
	matching := 0
	for _, x := range w.Recs {
		if pred(x) {
			matching++
		}
	}
	for _, e := range res {
		x := w.Recs[e.ID]
		c.Check(pred(x), "unwanted-result:"+op, "%s returned %v", op, x)
		c.Check(!seen[e.ID], "duplicate-result:"+op, "%s returned %q twice", op, e.ID)
		seen[e.ID] = true
		s := refSim(sim, q, x.Vec)
		c.Check(math.Abs(e.Score-s) <= 1e-6*scaleOf(sim, q, x.Vec), "wrong-score:"+op, "%s scored %q %v, its similarity is %v", op, e.ID, e.Score, s)
	}
	c.Check(len(res) <= k, "too-many:"+op, "%s returned %d for K=%d", op, len(res), k)
	if o.Method != core.DiversityDistance {
		c.Check(len(res) == min(k, matching), "wrong-count:"+op, "%s returned %d of %d matching, K=%d", op, len(res), matching, k)
	}
	if len(cand) > k {
		c.Nontrivial()
	}
	switch o.Method {
	case core.DiversityMMR, "":
		lambda := float64(o.Lambda)
		if lambda == 0 {
			lambda = 0.5
		}
		judgeMMR(c, op, sim, res, cand, lambda, func(e core.ScoredEmbedding) float64 { return e.Score }, true)
	case core.DiversityDistance:
		md := float64(o.MinDistance)
		if md == 0 {
			md = 0.1
		}
		// greedy: walk the candidates; each is taken unless closer than the minimum to one already taken
		i := 0
		for _, x := range cand {
			close, unsure := false, false
			for _, y := range res[:i] {
				d := 1 - refSim(sim, x.Vector, y.Vector)
				t := 1e-6 * (1 + math.Abs(d) + scaleOf(sim, x.Vector, y.Vector))
				if sim == "dot" && integral(x.Vector) && integral(y.Vector) {
					t = 0 // no rounding
					if d == md {
						c.Count("exact_distances", 1)
					}
				}
				if d < md-t {
					close = true
				} else if d < md+t {
					unsure = true
				}
			}
			taken := i < len(res) && res[i].ID == x.ID
			if taken {
				c.Check(!close, "too-close:"+op, "%s result %d %q is closer than %v to an earlier one", op, i, x.ID, md)
				i++
			} else if !close && !unsure && i < k {
				// a tie among equal similarities may be visited in another order
				tie := false
				for _, y := range cand {
					tie = tie || y.ID != x.ID && y.Score == x.Score
				}
				c.Check(tie, "skipped:"+op, "%s skipped %q, which is far enough from all %d results before it", op, x.ID, i)
			}
		}
		if len(cand) == matching && len(res) > 0 {
			c.Count("distance_walks", 1)
		}
	case core.DiversityRandom:
		for i := 1; i < len(res); i++ {
			c.Check(res[i].Score <= res[i-1].Score, "wrong-order:"+op, "%s result %d ranks above its predecessor", op, i)
		}
		// only from the best 2K
		if len(cand) > 2*k {
			limit := cand[2*k-1].Score
			for _, e := range res {
				c.Check(e.Score >= limit-1e-6*math.Abs(limit), "outside-pool:"+op, "%s picked %q (%v) which is not among the best %d (%v)", op, e.ID, e.Score, 2*k, limit)
			}
		}
	case core.DiversityDPP:
		if w.VecStyle != 2 { // the kernel squares similarities in single precision
			judgeDPP(c, op, sim, res, cand, k)
		}
	}
	c.Count("judged:"+op, 1)
}

func integral(v []float32) bool {
	for _, x := range v {
		if x != float32(int(x)) || x > 1000 || x < -1000 {
			return false
		}
	}
	return true
}

// judgeMMR: each pick has the greatest marginal relevance among what is left.
func judgeMMR(c *Case, op, sim string, res, cand []core.ScoredEmbedding, lambda float64, rel func(core.ScoredEmbedding) float64, firstTop bool) {
	if len(cand) == 0 {
		return
	}
	left := map[string]core.ScoredEmbedding{}
	for _, x := range cand {
		left[x.ID] = x
	}
	var prev []core.ScoredEmbedding
	for i, e := range res {
		_, ok := left[e.ID]
		c.Check(ok, "outside-pool:"+op, "%s pick %d %q is not a candidate or was picked before", op, i, e.ID)
		mmr := func(x core.ScoredEmbedding) (float64, float64) {
			ms, t := 0.0, 1e-6*math.Abs(rel(x))
			for j, y := range prev {
				s := refSim(sim, x.Vector, y.Vector)
				if j == 0 || s > ms {
					ms = s
				}
				t = math.Max(t, 3e-6*scaleOf(sim, x.Vector, y.Vector))
			}
			return lambda*rel(x) - (1-lambda)*ms, t + 1e-9
		}
		got, gt := mmr(e)
		if i == 0 && firstTop {
			for _, x := range left {
				c.Check(x.Score <= e.Score, "wrong-pick:"+op, "%s first pick %q (%v) is not the most similar (%q %v)", op, e.ID, e.Score, x.ID, x.Score)
			}
		} else {
			for _, x := range left {
				s, t := mmr(x)
				c.Check(s <= got+gt+t, "wrong-pick:"+op, "%s pick %d is %q with marginal relevance %v, but %q has %v (lambda %v)", op, i, e.ID, got, x.ID, s, lambda)
			}
		}
		delete(left, e.ID)
		prev = append(prev, e)
	}
}

// judgeDPP: each pick has the greatest documented gain among the considered candidates.
func judgeDPP(c *Case, op, sim string, res, cand []core.ScoredEmbedding, k int) {
	if len(cand) <= k {
		for i := range res {
			c.Check(res[i].Score == cand[i].Score, "wrong-pick:"+op, "%s with all candidates is not in similarity order", op)
		}
		return
	}
	n := min(len(cand), max(100, k))
	if n < len(cand) && cand[n-1].Score == cand[n].Score {
		return
	}
	pool := cand[:n]
	in := map[string]bool{}
	for _, x := range pool {
		in[x.ID] = true
	}
	qual := func(x core.ScoredEmbedding) float64 { return math.Max(x.Score, 1e-6) }
	prev := []core.ScoredEmbedding{}
	done := map[string]bool{}
	gain := func(x core.ScoredEmbedding) (float64, float64) {
		g := qual(x)
		t := 1e-6 * g
		for _, y := range prev {
			s := refSim(sim, x.Vector, y.Vector)
			kij := s * math.Sqrt(qual(x)*qual(y))
			g -= kij * kij / qual(y)
			// the term is s*s*qual(x)
			t += 1e-5*math.Abs(kij*kij/qual(y)) + 1e-5*math.Abs(s)*scaleOf(sim, x.Vector, y.Vector)*qual(x)
		}
		return g, t + 1e-9
	}
	for i, e := range res {
		c.Check(in[e.ID], "outside-pool:"+op, "%s picked %q from outside its pool", op, e.ID)
		got, gt := gain(e)
		for _, x := range pool {
			if done[x.ID] || x.ID == e.ID {
				continue
			}
			s, t := gain(x)
			c.Check(s <= got+gt+t || math.IsNaN(s) || math.IsInf(s, 0) || math.IsInf(got, 0), "wrong-pick:"+op, "%s pick %d is %q with gain %v, but %q has %v", op, i, e.ID, got, x.ID, s)
		}
		done[e.ID] = true
		prev = append(prev, e)
	}
}

// c17reranked runs SearchWithReranker with a spy around a built-in reranker.
func (w *World) c17reranked(sim string) {
	c, r := w.c, w.R
	q, _ := w.query()
	text := w.c17text()
	o := core.RerankOptions{TopK: pick(r, []int{0, -1, 1, 3, 10, 11, 20, len(w.Recs), 1000}), PreserveOriginalScore: r.Intn(3) == 0}
	if r.Intn(3) == 0 {
		o.Threshold = pick(r, []float64{0.5, 0.1, 1, -1, 0.01})
	}
	pool := max(50, 5*o.TopK)
	plain, err := w.S.Search(bg, cpVec(q), core.SearchOptions{TopK: pool})
	w.ok(err, "Search")
	inner := randReranker(r, sim)
	var in, out []core.ScoredEmbedding
	calls := 0
	spy := core.RerankerFunc(func(ctx context.Context, qt string, res []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
		calls++
		c.Check(qt == text, "reranker-query", "the reranker got query %q, want %q", qt, text)
		in = cpScored(res)
		got, err := inner.Rerank(ctx, qt, res)
		out = cpScored(got)
		return got, err
	})
	var rr core.Reranker = spy
	if r.Intn(8) == 0 {
		rr = nil
	}
	c.Op("SearchWithReranker %T K=%d thr=%v preserve=%v", inner, o.TopK, o.Threshold, o.PreserveOriginalScore)
	arg := cpVec(q)
	res, err := w.S.SearchWithReranker(bg, arg, text, rr, o)
	w.ok(err, "SearchWithReranker")
	c.Check(bitsEq(arg, q), "argument-modified:SearchWithReranker", "SearchWithReranker modified its query")
	w.contents("SearchWithReranker", res)
	if rr == nil {
		w.checkResults("SearchWithReranker", res, w.rank(sim, q, nil), kOf(core.SearchOptions{TopK: o.TopK}), 0, searchMode{exact: true})
		return
	}
	if len(plain) == 0 {
		c.Check(len(res) == 0, "unwanted-result:SearchWithReranker", "results from an empty store")
		return
	}
	c.Check(calls == 1, "reranker-calls", "the reranker was called %d times", calls)
	w.checkResults("candidates", in, w.rank(sim, q, nil), pool, 0, searchMode{exact: true})
	// the outcome is the reranker's list, filtered and cut
	var want []core.ScoredEmbedding
	for _, e := range out {
		if o.Threshold > 0 && e.Score < o.Threshold {
			continue
		}
		if o.TopK > 0 && len(want) == o.TopK {
			c.Nontrivial()
			break
		}
		if o.PreserveOriginalScore {
			for _, y := range in {
				if y.ID == e.ID {
					e.Score = y.Score
				}
			}
		}
		want = append(want, e)
	}
	c.Check(len(res) == len(want), "wrong-count:SearchWithReranker", "SearchWithReranker returned %d results, want %d of the reranker's %d (K=%d, threshold %v)", len(res), len(want), len(out), o.TopK, o.Threshold)
	for i := range want {
		c.Check(res[i].ID == want[i].ID && res[i].Score == want[i].Score, "wrong-order:SearchWithReranker", "SearchWithReranker result %d is %q %v, want %q %v", i, res[i].ID, res[i].Score, want[i].ID, want[i].Score)
	}
	c.Count("judged:SearchWithReranker", 1)
	c.Seen("reranker", fmt.Sprintf("%T", inner))
}

func randReranker(r *rand.Rand, sim string) core.Reranker {
	switch r.Intn(6) {
	case 0:
		return core.NewScoreNormalizationReranker(pick(r, []float64{0, -1, 2}), pick(r, []float64{1, 3}))
	case 1:
		x := core.NewKeywordMatchReranker(pick(r, []float64{0.1, 0.5, 2, 0}))
		x.CaseSensitive = r.Intn(2) == 0
		return x
	case 2:
		x := core.NewReciprocalRankFusionReranker(pick(r, []float64{60, 1, 10}))
		x.VectorWeight, x.TextWeight = pick(r, []float64{0.5, 1, 0.9}), pick(r, []float64{0.5, 1, 0.1})
		return x
	case 3:
		fn := map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}[sim]
		return core.NewDiversityReranker(pick(r, []float64{0, 0.3, 0.5, 1}), fn)
	case 4:
		return core.NewCustomReranker(func(_ context.Context, _ string, e core.ScoredEmbedding) float64 { return float64(len(e.Content)) })
	}
	return core.NewHybridReranker([]core.Reranker{core.NewKeywordMatchReranker(0.5), core.NewCustomReranker(func(_ context.Context, _ string, e core.ScoredEmbedding) float64 {
		return -float64(len(e.ID))
	})}, []float64{0.7, 0.3})
}

// c17rerank judges every built-in reranker on one generated candidate list.
func c17rerank(c *Case) {
	r := c.R
	n := pick(r, []int{0, 1, 2, 3, 8, 15, 40, 120})
	dim := 1 + r.Intn(4)
	sim := sims[c.Idx%3]
	scale := pick(r, []float64{1, 1, 1e-9, 1e8})
	var in []core.ScoredEmbedding
	for i := 0; i < n; i++ {
		e := core.ScoredEmbedding{Score: r.NormFloat64()}
		if r.Intn(3) == 0 {
			e.Score = pick(r, []float64{0, 1, -1, 0.5})
		}
		e.Score *= scale
		e.ID = fmt.Sprintf("c%03d", i)
		e.Vector = randVec(r, dim, pick(r, []int{0, 0, 1}))
		e.Content = sentence(r, vocab[:10], r.Intn(7))
		if r.Intn(6) == 0 { // the words of the query come late
			e.Content = strings.Repeat("filler ", 50+r.Intn(400)) + e.Content
		}
		if r.Intn(4) == 0 {
			e.Content = strings.ToUpper(e.Content)
		}
		e.Metadata = map[string]string{"i": fmt.Sprint(i)}
		in = append(in, e)
	}
	if r.Intn(4) > 0 {
		sort.SliceStable(in, func(i, j int) bool { return in[i].Score > in[j].Score })
	}
	query := sentence(r, vocab[:10], r.Intn(4))
	if r.Intn(4) == 0 {
		query = strings.ToUpper(query)
	}
	run := func(op string, x core.Reranker) []core.ScoredEmbedding {
		arg := cpScored(in)
		out, err := x.Rerank(bg, query, arg)
		c.Check(err == nil, "rerank-error:"+op, "%s failed: %v", op, err)
		c.Check(reflect.DeepEqual(arg, cpScored(in)), "argument-modified:"+op, "%s modified the candidate list", op)
		// a permutation of the candidates
		c.Check(len(out) == n, "not-permutation:"+op, "%s returned %d of %d candidates", op, len(out), n)
		byID := map[string]core.ScoredEmbedding{}
		for _, e := range in {
			byID[e.ID] = e
		}
		for _, e := range out {
			x, ok := byID[e.ID]
			c.Check(ok, "not-permutation:"+op, "%s returned %q twice or from nowhere", op, e.ID)
			delete(byID, e.ID)
			x.Score = e.Score
			c.Check(reflect.DeepEqual(x, e), "changed-candidate:"+op, "%s changed candidate %q: %v, was %v", op, e.ID, e, x)
		}
		c.Count("judged:"+op, 1)
		return out
	}
	judge := func(op string, out []core.ScoredEmbedding, f func(i int) (float64, float64)) {
		want := map[string]want17{}
		for i, e := range in {
			s, t := f(i)
			want[e.ID] = want17{s, t}
		}
		ids, sc := split(out)
		judgeRank(c, op, ids, sc, want, 0)
	}
	tol := func(x float64) float64 { return 1e-9 * (1 + math.Abs(x)) }

	lo, hi := pick(r, []float64{0, -1, 2, 5}), pick(r, []float64{1, 3, 0})
	out := run("ScoreNormalization", core.NewScoreNormalizationReranker(lo, hi))
	mn, mx := math.Inf(1), math.Inf(-1)
	for _, e := range in {
		mn, mx = math.Min(mn, e.Score), math.Max(mx, e.Score)
	}
	judge("ScoreNormalization", out, func(i int) (float64, float64) {
		x := 0.0
		if mx > mn {
			x = (in[i].Score - mn) / (mx - mn)
		}
		s := lo + x*(hi-lo)
		return s, tol(s)
	})

	km := core.NewKeywordMatchReranker(pick(r, []float64{0, 0.1, 0.5, 2}))
	km.CaseSensitive = r.Intn(2) == 0
	kmScore := func(i int) float64 {
		t, q := in[i].Content, query
		if !km.CaseSensitive {
			t, q = strings.ToLower(t), strings.ToLower(q)
		}
		m := 0
		for _, word := range strings.Fields(q) {
			if strings.Contains(t, word) {
				m++
			}
		}
		return in[i].Score * (1 + float64(m)*km.Boost)
	}
	judge("KeywordMatch", run("KeywordMatch", km), func(i int) (float64, float64) { s := kmScore(i); return s, tol(s) })

	rrf := core.NewReciprocalRankFusionReranker(pick(r, []float64{60, 1, 10}))
	rrf.VectorWeight, rrf.TextWeight = pick(r, []float64{0.5, 1, 0}), pick(r, []float64{0.5, 1, 0.1})
	out = run("ReciprocalRankFusion", rrf)
	text := make([]int, n)
	for i, e := range in {
		have := map[string]bool{}
		for _, word := range strings.Fields(strings.ToLower(e.Content)) {
			have[word] = true
		}
		for _, word := range strings.Fields(strings.ToLower(query)) {
			if have[word] {
				text[i]++
			}
		}
	}
	score := map[string]float64{}
	last := math.Inf(1)
	for _, e := range out {
		score[e.ID] = e.Score
		c.Check(e.Score <= last, "wrong-order:ReciprocalRankFusion", "result %q (%v) comes after %v", e.ID, e.Score, last)
		last = e.Score
	}
	for i, e := range in {
		better, equal := 0, 0
		for j := range in {
			if text[j] > text[i] {
				better++
			} else if text[j] == text[i] {
				equal++
			}
		}
		v := rrf.VectorWeight / (rrf.K + float64(i+1))
		hi, lo := v+rrf.TextWeight/(rrf.K+float64(better+1)), v+rrf.TextWeight/(rrf.K+float64(better+equal))
		c.Check(score[e.ID] <= hi+1e-12 && score[e.ID] >= lo-1e-12, "wrong-score:ReciprocalRankFusion", "%q (vector rank %d, text rank %d..%d) scored %v, want %v..%v", e.ID, i+1, better+1, better+equal, score[e.ID], lo, hi)
	}

	lambda := pick(r, []float64{0, 0.3, 0.5, 0.8, 1})
	fn := map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}[sim]
	if sim == "cosine" && r.Intn(2) == 0 {
		fn = nil
	}
	out = run("Diversity", core.NewDiversityReranker(lambda, fn))
	for i, e := range out {
		c.Check(e.Score == byIDScore(in, e.ID), "changed-candidate:Diversity", "result %d %q has score %v", i, e.ID, e.Score)
	}
	if n > 1 {
		judgeMMR(c, "Diversity", sim, out, in, lambda, func(e core.ScoredEmbedding) float64 { return refSim(sim, in[0].Vector, e.Vector) }, false)
	}

	cf := func(e core.ScoredEmbedding) float64 { return float64(len(e.Content)%4) - 1.5 }
	judge("Custom", run("Custom", core.NewCustomReranker(func(_ context.Context, q string, e core.ScoredEmbedding) float64 {
		c.Check(q == query, "reranker-query", "custom scorer got query %q", q)
		return cf(e)
	})), func(i int) (float64, float64) { return cf(in[i]), 1e-12 })
	judge("Custom-nil", run("Custom-nil", core.NewCustomReranker(nil)), func(i int) (float64, float64) { return in[i].Score, 0 })

	wa, wb := pick(r, []float64{0.5, 1, 0.2}), pick(r, []float64{0.5, 2, 0})
	parts := []core.Reranker{km, core.NewCustomReranker(func(_ context.Context, _ string, e core.ScoredEmbedding) float64 { return cf(e) })}
	judge("Hybrid", run("Hybrid", core.NewHybridReranker(parts, []float64{wa, wb})), func(i int) (float64, float64) {
		s := (wa*kmScore(i) + wb*cf(in[i])) / (wa + wb)
		return s, tol(s)
	})
	if n > 3 {
		c.Nontrivial()
	}
	// an error of one part is an error of the whole
	boom := fmt.Errorf("boom")
	bad := core.RerankerFunc(func(context.Context, string, []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
		return nil, boom
	})
	res, err := core.NewHybridReranker([]core.Reranker{km, bad}, []float64{1, 1}).Rerank(bg, query, cpScored(in))
	c.Check(err != nil && res == nil, "error-lost:Hybrid", "a failing part gave %d results and error %v", len(res), err)
}

func byIDScore(in []core.ScoredEmbedding, id string) float64 {
	for _, e := range in {
		if e.ID == id {
			return e.Score
		}
	}
	return math.NaN()
}

// c17indexed: with an approximate index the answers are still sound and complete in number.
func c17indexed(c *Case) {
	r := c.R
	kind := cfgNames[1+c.Idx%(len(cfgNames)-1)]
	sim := sims[c.Idx%3]
	w := c17world(c, kind, sim)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	c.Op("%s %s", kind, sim)
	for i := 0; i < 60; i++ {
		w.Step()
	}
	for i := 0; i < 15; i++ {
		w.c17negatives(sim)
		w.c17recommend(sim)
		w.c17anomalies(sim)
		q, _ := w.query()
		for _, m := range []core.DiversityMethod{core.DiversityMMR, core.DiversityDPP, core.DiversityRandom, core.DiversityDistance} {
			o := w.options()
			res, err := w.S.SearchWithDiversity(bg, cpVec(q), core.DiversitySearchOptions{SearchOptions: o, Method: m, Lambda: 0.4, MinDistance: 0.01})
			op := "SearchWithDiversity-" + string(m)
			c.Op("%s %s", op, optStr(o))
			w.ok(err, op)
			w.checkResults(op, res, w.rank(sim, q, optPred(o)), kOf(o), 0, searchMode{unordered: true, noCount: m == core.DiversityDistance})
		}
		o := w.options()
		res, err := w.S.HybridSearch(bg, cpVec(q), pick(r, w.Words), core.HybridSearchOptions{SearchOptions: o})
		c.Op("HybridSearch %s", optStr(o))
		w.ok(err, "HybridSearch")
		w.checkResults("HybridSearch", res, w.rank(sim, q, optPred(o)), o.TopK, 0, searchMode{anyScore: true, noCount: o.TopK <= 0})
		k := pick(r, []int{1, 5, 100})
		res, err = w.S.SearchWithReranker(bg, cpVec(q), "alpha", randReranker(r, sim), core.RerankOptions{TopK: k})
		c.Op("SearchWithReranker K=%d", k)
		w.ok(err, "SearchWithReranker")
		w.checkResults("SearchWithReranker", res, w.rank(sim, q, nil), k, 0, searchMode{anyScore: true, unordered: true})
		w.Step()
	}
	w.close()
}

// c17multi: multi-vector entities and aggregated search against a model.
func c17multi(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	dim := 1 + r.Intn(5)
	w := newWorld(c, mkConfig(dbPath(c), "flat", dim, sim))
	w.open()
	defer w.S.Close()
	type ent struct {
		vec     map[string][]float32
		meta    map[string]map[string]string // per field
		content map[string]string
	}
	have := map[string]*ent{}
	ids := pool(r, "e", 8, 0.4)
	fields := []string{"title", "body", "im'age", "x_y"}
	// some entities belong to a document of the same id
	docs := subset(r, ids, 1+r.Intn(4))
	for _, id := range docs {
		w.ok(w.S.CreateDocument(bg, &core.Document{ID: id, Title: id}), "CreateDocument")
	}
	// plain records that no entity search may return
	for i := 0; i < 5; i++ {
		w.ok(w.S.Upsert(bg, &core.Embedding{ID: fmt.Sprint("plain", i), Vector: randVec(r, dim, 0), Content: "plain", Metadata: map[string]string{"_vector_field": "title"}}), "Upsert")
	}
	aggs := []core.AggregationMethod{core.AggregateMax, core.AggregateMin, core.AggregateAverage, core.AggregateSum, core.AggregateWeighted, "", "other"}
	for i := 0; i < 60; i++ {
		id := pick(r, ids)
		switch x := r.Intn(10); {
		case x < 4 || len(have) < 3:
			e := &core.MultiVectorEntity{ID: id, Vectors: map[string][]float32{}, Content: pick(r, []string{"", " ", "\n"}) + sentence(r, vocab, 1+r.Intn(4)) + pick(r, []string{"", " "}), Metadata: map[string]interface{}{"g": pick(r, []string{"a", "b"})}}
			for _, f := range fields {
				if r.Intn(2) == 0 {
					e.Vectors[f] = randVec(r, dim, 0)
				}
			}
			arg := *e
			arg.Vectors = map[string][]float32{}
			for f, v := range e.Vectors {
				arg.Vectors[f] = cpVec(v)
			}
			arg.Metadata = map[string]interface{}{"g": e.Metadata["g"]}
			c.Op("UpsertMultiVector %q %q %v", id, sortedKeys(e.Vectors), e.Metadata)
			w.ok(w.S.UpsertMultiVector(bg, &arg), "UpsertMultiVector")
			c.Check(reflect.DeepEqual(&arg, e), "argument-modified:UpsertMultiVector", "UpsertMultiVector modified its entity")
			if len(e.Vectors) > 0 {
				if have[id] == nil {
					have[id] = &ent{map[string][]float32{}, map[string]map[string]string{}, map[string]string{}}
				}
				for f, v := range e.Vectors {
					have[id].vec[f] = v
					have[id].meta[f] = map[string]string{"g": e.Metadata["g"].(string)}
					have[id].content[f] = e.Content
				}
			}
		case x == 4:
			c.Op("DeleteMultiVectorEntity %q", id)
			w.ok(w.S.DeleteMultiVectorEntity(bg, id), "DeleteMultiVectorEntity")
			delete(have, id)
		case x == 5:
			got, err := w.S.GetMultiVectorEntity(bg, id)
			c.Op("GetMultiVectorEntity %q", id)
			if have[id] == nil {
				c.Check(err != nil, "entity-stale", "GetMultiVectorEntity returned %q, which is not stored", id)
				break
			}
			w.ok(err, "GetMultiVectorEntity")
			c.Check(got.ID == id && len(got.Vectors) == len(have[id].vec), "entity-fields", "entity %q has fields %q, want %q", id, sortedKeys(got.Vectors), sortedKeys(have[id].vec))
			for f, v := range have[id].vec {
				c.Check(bitsEq(got.Vectors[f], v), "entity-vector", "entity %q field %q is %v, want %v", id, f, got.Vectors[f], v)
			}
			content, meta := map[string]bool{}, map[string]bool{}
			for f := range have[id].vec {
				content[have[id].content[f]] = true
				meta[have[id].meta[f]["g"]] = true
			}
			c.Check(content[got.Content], "entity-content", "entity %q has content %q, its fields %q", id, got.Content, sortedKeys(content))
			g, _ := got.Metadata["g"].(string)
			c.Check(len(got.Metadata) == 1 && meta[g], "entity-metadata", "entity %q has metadata %v, its fields %q", id, got.Metadata, sortedKeys(meta))
		default:
			qs := map[string][]float32{}
			for _, f := range append([]string{"nofield"}, fields...) {
				if r.Intn(2) == 0 {
					qs[f] = randVec(r, dim, 0)
				}
			}
			o := core.MultiVectorSearchOptions{Aggregation: pick(r, aggs), SearchOptions: core.SearchOptions{TopK: pick(r, []int{0, -1, 1, 2, 3, 100})}}
			if r.Intn(2) == 0 {
				o.VectorFields = subset(r, fields, 1+r.Intn(3))
			}
			if r.Intn(2) == 0 {
				o.FieldWeights = map[string]float32{}
				for _, f := range fields {
					if r.Intn(2) == 0 {
						o.FieldWeights[f] = pick(r, []float32{0, 0.5, 2, 1, -1})
					}
				}
			}
			if r.Intn(3) == 0 {
				o.Filter = map[string]string{"g": pick(r, []string{"a", "b"})}
			} else if r.Intn(4) == 0 {
				o.Filter = map[string]string{"doc_id": pick(r, docs)}
			}
			want := map[string]want17{}
			for eid, e := range have {
				var s []float64
				tol := 0.0
				for f, q := range qs {
					v := e.vec[f]
					if v == nil || len(o.VectorFields) > 0 && !contains(o.VectorFields, f) || o.Filter["g"] != "" && e.meta[f]["g"] != o.Filter["g"] || o.Filter["doc_id"] != "" && eid != o.Filter["doc_id"] {
						continue
					}
					x, t := refSim(sim, q, v), 2e-6*scaleOf(sim, q, v)
					if wt, ok := o.FieldWeights[f]; ok {
						x, t = x*float64(wt), t*math.Abs(float64(wt))
					}
					s = append(s, x)
					tol += t
				}
				if len(s) == 0 {
					continue
				}
				sort.Float64s(s)
				sum := 0.0
				for _, x := range s {
					sum += x
				}
				a := sum / float64(len(s))
				switch o.Aggregation {
				case core.AggregateMax:
					a = s[len(s)-1]
				case core.AggregateMin:
					a = s[0]
				case core.AggregateSum:
					a = sum
				}
				want[eid] = want17{a, tol + 1e-9}
			}
			arg := map[string][]float32{}
			for f, q := range qs {
				arg[f] = cpVec(q)
			}
			ao := o
			ao.SearchOptions = cpOpts(o.SearchOptions)
			c.Op("SearchMultiVector %q fields=%q weights=%v agg=%q %s", sortedKeys(qs), o.VectorFields, o.FieldWeights, o.Aggregation, optStr(o.SearchOptions))
			res, err := w.S.SearchMultiVector(bg, arg, ao)
			w.ok(err, "SearchMultiVector")
			c.Check(reflect.DeepEqual(arg, qs) && reflect.DeepEqual(ao, o), "argument-modified:SearchMultiVector", "SearchMultiVector modified its arguments: %v, %v", arg, ao)
			rids, sc := split(res)
			judgeRank(c, "SearchMultiVector", rids, sc, want, o.TopK)
		}
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}
