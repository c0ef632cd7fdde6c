package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func simOf(cfg core.Config) string {
	probeA, probeB := []float32{1, 2}, []float32{3, 5}
	switch cfg.SimilarityFn(probeA, probeB) {
	case 13:
		return "dot"
	case -math.Sqrt(13):
		return "euclid"
	}
	return "cosine"
}

func scaleOf(sim string, q, v []float32) float64 {
	if sim == "cosine" {
		return 1
	}
	var a, b float64
	for i := range q {
		a += float64(q[i]) * float64(q[i])
	}
	for i := range v {
		b += float64(v[i]) * float64(v[i])
	}
	if sim == "dot" {
		return math.Sqrt(a * b)
	}
	return math.Sqrt(a) + math.Sqrt(b)
}

type ranked struct {
	rec   *Rec
	score float64
	tol   float64
}

// rank scores the records that satisfy pred, best first.
func (w *World) rank(sim string, q []float32, pred func(*Rec) bool) []ranked {
	var out []ranked
	for _, x := range w.Recs {
		if pred == nil || pred(x) {
			out = append(out, ranked{x, refSim(sim, q, x.Vec), 1e-6 * scaleOf(sim, q, x.Vec)})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].score != out[j].score {
			return out[i].score > out[j].score
		}
		return out[i].rec.ID < out[j].rec.ID
	})
	return out
}

func optPred(o core.SearchOptions) func(*Rec) bool {
	return func(x *Rec) bool {
		if o.Collection != "" && x.Coll != o.Collection {
			return false
		}
		for k, v := range o.Filter {
			if k == "doc_id" {
				if x.Doc != v {
					return false
				}
			} else if x.Meta[k] != v {
				return false
			}
		}
		return true
	}
}

type searchMode struct {
	exact     bool // exact top-K
	countOnly bool // approximate: sound and as many as possible
	noCount   bool
	unordered bool
	anyScore  bool // score not judged
}

// checkResults judges a result list against the candidate ranking. thr <= 0 means none.
func (w *World) checkResults(op string, res []core.ScoredEmbedding, cand []ranked, k int, thr float64, m searchMode) {
	c := w.c
	byID := map[string]ranked{}
	must, opt := 0, 0
	for _, x := range cand {
		if thr > 0 {
			if x.score < thr-x.tol {
				continue
			}
			if x.score < thr+x.tol {
				opt++
			} else {
				must++
			}
		} else {
			must++
		}
		byID[x.rec.ID] = x
	}
	seen := map[string]bool{}
	last := math.Inf(1)
	lastTol := 0.0
	for i, e := range res {
		x, ok := byID[e.ID]
		if !ok {
			if live, is := w.Recs[e.ID]; is {
				c.Fail("unwanted-result:"+op, "%s result %d is %v, which does not satisfy the request", op, i, live)
			}
			c.Fail("stale-result:"+op, "%s result %d is %q, which is not stored", op, i, e.ID)
		}
		c.Check(!seen[e.ID], "duplicate-result:"+op, "%s returned %q twice", op, e.ID)
		seen[e.ID] = true
		if !m.anyScore {
			c.Check(math.Abs(e.Score-x.score) <= x.tol || e.Score == x.score, "wrong-score:"+op, "%s scored %q %v, its similarity is %v", op, e.ID, e.Score, x.score)
		}
		c.Check(!math.IsNaN(e.Score), "wrong-score:"+op, "%s scored %q NaN", op, e.ID)
		if !m.unordered {
			c.Check(e.Score <= last, "wrong-order:"+op, "%s result %d (%v) ranks above result %d (%v)", op, i, e.Score, i-1, last)
		}
		if d := diffRec(&e.Embedding, x.rec, false); d != "" {
			c.Fail("stale-content:"+op, "%s returned %q with %s", op, e.ID, d)
		}
		last, lastTol = e.Score, x.tol
	}
	if k > 0 {
		c.Check(len(res) <= k, "too-many:"+op, "%s returned %d results for K=%d", op, len(res), k)
	}
	if m.noCount {
		return
	}
	lim := func(n int) int {
		if k > 0 && n > k {
			return k
		}
		return n
	}
	c.Check(len(res) >= lim(must) && len(res) <= lim(must+opt), "wrong-count:"+op, "%s returned %d results, %d records satisfy the request, K=%d", op, len(res), must, k)
	if m.exact && !m.unordered {
		for _, x := range byID {
			if !seen[x.rec.ID] && (len(res) < lim(must+opt) || x.score > last+x.tol+lastTol) && !(thr > 0 && x.score < thr+x.tol) {
				if len(res) >= k && k > 0 {
					c.Fail("not-top-k:"+op, "%s left out %q with similarity %v while the last of %d results has %v", op, x.rec.ID, x.score, len(res), last)
				}
				c.Fail("missing-result:"+op, "%s left out %q with similarity %v", op, x.rec.ID, x.score)
			}
		}
	}
}

// query draws a query vector: random, or equal or close to a stored one.
func (w *World) query() ([]float32, *Rec) {
	r := w.R
	if len(w.Recs) > 0 && r.Intn(3) > 0 {
		x := w.Recs[pick(r, sortedKeys(w.Recs))]
		q := append([]float32(nil), x.Vec...)
		if r.Intn(3) == 0 {
			q[r.Intn(len(q))] += float32(r.NormFloat64())
			return q, nil
		}
		return q, x
	}
	return w.vec(), nil
}

// options draws search options.
func (w *World) options() core.SearchOptions {
	r := w.R
	o := core.SearchOptions{TopK: pick(r, []int{0, -1, 1, 2, 3, 5, 10, len(w.Recs), len(w.Recs) + 7, 1000})}
	if r.Intn(3) == 0 {
		o.Collection = pick(r, append(sortedKeys(w.Colls), "nope"))
	}
	if r.Intn(4) == 0 {
		o.Filter = map[string]string{}
		if r.Intn(2) == 0 && len(w.Docs) > 0 {
			o.Filter["doc_id"] = pick(r, sortedKeys(w.Docs))
		} else {
			for i := 0; i < 1+r.Intn(2); i++ {
				k, v := pick(r, metaKeys), pick(r, metaVals)
				if len(w.Recs) > 0 {
					x := w.Recs[pick(r, sortedKeys(w.Recs))]
					if len(x.Meta) > 0 {
						k = pick(r, sortedKeys(x.Meta))
						v = x.Meta[k]
					}
				}
				if v != "" {
					o.Filter[k] = v
				}
			}
		}
	}
	if r.Intn(8) == 0 { // without a text similarity, which nothing installs, these have no effect
		o.QueryText, o.TextWeight = pick(r, vocab), pick(r, []float64{0, 0.3, 1, 7, -1})
	}
	return o
}

// threshold draws a score threshold near the interesting ones, or 0.
func (w *World) threshold(cand []ranked) float64 {
	r := w.R
	if r.Intn(3) > 0 || len(cand) == 0 {
		return 0
	}
	switch r.Intn(3) {
	case 0:
		return pick(r, cand).score
	case 1:
		i := r.Intn(len(cand))
		if i+1 < len(cand) {
			return (cand[i].score + cand[i+1].score) / 2
		}
		return cand[i].score * 1.5
	}
	return r.Float64()
}

func kOf(o core.SearchOptions) int {
	if o.TopK <= 0 {
		return 10
	}
	return o.TopK
}

func cpVec(v []float32) []float32 { return append([]float32(nil), v...) }

func optStr(o core.SearchOptions) string {
	return fmt.Sprintf("K=%d coll=%q filter=%v thr=%v", o.TopK, o.Collection, o.Filter, o.Threshold)
}
