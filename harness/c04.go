package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C04", Level: "exploration",
		Rule: "a case is one random store history (flat index) with brute-force judged searches after every few steps; non-trivial when some search had more candidates than K and some fewer",
		Run: func(r *Run) {
			r.Parallel("history", r.N(80, 900), 0, c04history)
			r.Parallel("large", r.N(16, 120), 0, c04large)
		}})
}

var sims = []string{"cosine", "dot", "euclid"}

func c04history(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	dim := 1 + r.Intn(6)
	w := newWorld(c, mkConfig(dbPath(c), "flat", dim, sim))
	w.VecStyle = (c.Idx / 3) % 4
	w.OnlyGood = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	c.Op("flat %s dim %d style %d", sim, dim, w.VecStyle)
	var cut, all bool
	for i := 0; i < 60; i++ {
		c.Seen("op", w.Step())
		if i%4 != 3 {
			continue
		}
		for j := 0; j < 8; j++ {
			w.searchExact(sim, &cut, &all)
		}
	}
	if cut && all {
		c.Nontrivial()
	}
	w.close()
}

// searchExact runs one random search through a random exact entry point.
func (w *World) searchExact(sim string, cut, all *bool) {
	r, c := w.R, w.c
	q, _ := w.query()
	o := w.options()
	pred := optPred(o)
	var extra map[string]interface{}
	if r.Intn(3) == 0 && len(w.Recs) > 0 {
		x := w.Recs[pick(r, sortedKeys(w.Recs))]
		if len(x.Meta) > 0 {
			k := pick(r, sortedKeys(x.Meta))
			extra = map[string]interface{}{k: anyVal(x.Meta[k])}
			want := map[string]string{k: x.Meta[k]}
			if r.Intn(2) == 0 { // and a second condition, met by the same record or by another one
				y := w.Recs[pick(r, sortedKeys(w.Recs))]
				if r.Intn(2) == 0 {
					y = x
				}
				if len(y.Meta) > 0 {
					k2 := pick(r, sortedKeys(y.Meta))
					want[k2] = y.Meta[k2]
					extra[k2] = anyVal(y.Meta[k2])
				}
			}
			c.Count(fmt.Sprintf("filters of %d conditions", len(want)), 1)
			p := pred
			pred = func(y *Rec) bool {
				if !p(y) {
					return false
				}
				for k, v := range want {
					if have, ok := y.Meta[k]; !ok || have != v {
						return false
					}
				}
				return true
			}
		}
	}
	cand := w.rank(sim, q, pred)
	o.Threshold = w.threshold(cand)
	qq := cpVec(q)
	var res []core.ScoredEmbedding
	var err error
	op := "Search"
	if extra != nil {
		op = "SearchWithFilter"
		res, err = w.S.SearchWithFilter(bg, qq, o, extra)
	} else {
		res, err = w.S.Search(bg, qq, o)
	}
	c.Op("%s %v %s extra=%v", op, q, optStr(o), extra)
	w.ok(err, op)
	c.Check(bitsEq(q, qq), "query-modified", "%s modified the caller's query", op)
	w.checkResults(op, res, cand, kOf(o), o.Threshold, searchMode{exact: true})
	c.Count("searches", 1)
	if r.Intn(6) == 0 {
		w.exactThreshold(op, res, func(thr float64) []core.ScoredEmbedding {
			o := o
			o.Threshold, o.TopK = thr, len(w.Recs)+1
			var res []core.ScoredEmbedding
			var err error
			if extra != nil {
				res, err = w.S.SearchWithFilter(bg, cpVec(q), o, extra)
			} else {
				res, err = w.S.Search(bg, cpVec(q), o)
			}
			w.ok(err, op)
			return res
		})
	}
	if o.Threshold > 0 {
		c.Count("with_threshold", 1)
	}
	if o.Collection != "" || len(o.Filter) > 0 || extra != nil {
		c.Count("with_filter", 1)
	}
	if len(cand) > kOf(o) {
		*cut = true
		c.Count("cut_to_k", 1)
	} else {
		*all = true
	}
}

// anyVal turns a stored string into a typed value that renders to the same string where possible.
func anyVal(s string) interface{} {
	if n, err := strconv.Atoi(s); err == nil && fmt.Sprint(n) == s {
		return n
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil && fmt.Sprintf("%g", f) == s {
		return f
	}
	if s == "true" || s == "false" {
		return s == "true"
	}
	return s
}

// c04large: many records with heavy ties and near ties.
func c04large(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	dim := 2 + r.Intn(30)
	w := newWorld(c, mkConfig(dbPath(c), "flat", dim, sim))
	w.open()
	defer w.S.Close()
	n := 300 + r.Intn(700)
	style := c.Idx % 4
	base := randVec(r, dim, 0)
	var embs []*core.Embedding
	for i := 0; i < n; i++ {
		v := randVec(r, dim, style)
		if r.Intn(3) == 0 { // near duplicates: neighbouring floats
			v = cpVec(base)
			j := r.Intn(dim)
			v[j] = math.Nextafter32(v[j], v[j]+1)
		}
		x := &Rec{ID: fmt.Sprint("r", i), Vec: v, Content: "c", Coll: "default", Meta: map[string]string{"m": fmt.Sprint(i % 7)}}
		embs = append(embs, x.emb())
		w.put(x)
	}
	w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	for i := 0; i < 25; i++ {
		q := randVec(r, dim, style)
		if i%3 == 0 {
			q = base
		}
		o := core.SearchOptions{TopK: pick(r, []int{1, 2, 10, 99, n - 1, n, n + 1, 100000})}
		if i%2 == 0 {
			o.Filter = map[string]string{"m": fmt.Sprint(r.Intn(8))}
		}
		cand := w.rank(sim, q, optPred(o))
		o.Threshold = w.threshold(cand)
		res, err := w.S.Search(bg, q, o)
		c.Op("Search %s", optStr(o))
		w.ok(err, "Search")
		w.checkResults("Search", res, cand, kOf(o), o.Threshold, searchMode{exact: true})
		c.Count("searches", 1)
	}
	c.Nontrivial()
	w.close()
}
