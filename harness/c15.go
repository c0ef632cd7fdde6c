package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C15", Level: "exploration",
		Rule: "a case is one history of writes and queries of matching and other lengths under one dimension, policy and index configuration; every stored vector is compared with the documented adaptation; non-trivial when other lengths were both written and queried",
		Run: func(r *Run) {
			r.Parallel("policy", r.N(150, 1500), 0, c15policy)
			r.Parallel("multi", r.N(60, 500), 0, c15multi)
		}})
}

var policies = []core.AdaptPolicy{core.StrictMode, core.AutoTruncate, core.AutoPad, core.SmartAdapt, core.WarnOnly, core.AdaptPolicy(17)}

// refAdapt is the documented adaptation. ok is false where the policy rejects; exact is false where
// only part of the outcome is determined.
func refAdapt(p core.AdaptPolicy, v []float32, dim int) (out []float64, ok, exact bool) {
	if len(v) == dim {
		for _, x := range v {
			out = append(out, float64(x))
		}
		return out, true, true
	}
	unit := func(v []float64) []float64 {
		n := 0.0
		for _, x := range v {
			n += x * x
		}
		if n == 0 {
			return v
		}
		for i := range v {
			v[i] /= math.Sqrt(n)
		}
		return v
	}
	cut := func(idx []int) []float64 {
		o := make([]float64, dim)
		for i, j := range idx {
			o[i] = float64(v[j])
		}
		return unit(o)
	}
	var idx []int
	switch p {
	case core.AutoTruncate, core.AutoPad:
		for i := 0; i < len(v) && i < dim; i++ {
			idx = append(idx, i)
		}
		return cut(idx), true, true
	case core.SmartAdapt:
		for i := range v {
			idx = append(idx, i)
		}
		if len(v) < dim {
			return cut(idx), true, false // the padding is noise
		}
		sort.SliceStable(idx, func(a, b int) bool { return math.Abs(float64(v[idx[a]])) > math.Abs(float64(v[idx[b]])) })
		exact = math.Abs(float64(v[idx[dim-1]])) > math.Abs(float64(v[idx[dim]])) // no tie at the cut
		idx = idx[:dim]
		sort.Ints(idx)
		return cut(idx), true, exact
	}
	return nil, false, false
}

// judgeAdapted compares a stored vector with the documented adaptation of what was written.
func judgeAdapted(c *Case, p core.AdaptPolicy, src, got []float32, dim int, what string) {
	c.Check(len(got) == dim, "stored-length", "%s: a vector of length %d was stored with length %d under dimension %d", what, len(src), len(got), dim)
	for _, x := range got {
		c.Check(!math.IsNaN(float64(x)) && !math.IsInf(float64(x), 0), "stored-nonfinite", "%s: stored %v", what, got)
	}
	want, _, exact := refAdapt(p, src, dim)
	if len(src) == dim {
		c.Check(bitsEq(got, src), "stored-changed", "%s: %v was stored as %v although it fits", what, src, got)
		return
	}
	n := 0.0
	for _, x := range got {
		n += float64(x) * float64(x)
	}
	wn := 0.0
	for _, x := range want {
		wn += x * x
	}
	if wn > 0 {
		c.Check(math.Abs(n-1) < 1e-4, "adapted-norm", "%s: %v was adapted to %v, which is not normalised", what, src, got)
	}
	if exact {
		for i := range got {
			c.Check(math.Abs(float64(got[i])-want[i]) < 1e-5, "adapted-value", "%s: %v was adapted to %v, want %v", what, src, got, want)
		}
	} else if len(src) < dim && wn > 0 {
		// the original direction dominates and the padding is small
		for i := range src {
			c.Check(math.Abs(float64(got[i])-want[i]) < 0.1*math.Sqrt(float64(dim)), "adapted-value", "%s: %v was adapted to %v", what, src, got)
		}
		for i := len(src); i < dim; i++ {
			c.Check(math.Abs(float64(got[i])) < 0.12, "adapted-noise", "%s: %v was padded to %v", what, src, got)
		}
	} else if len(src) > dim {
		// some choice of the largest components, in order
		j := 0
		for _, x := range got {
			for j < len(src) && math.Abs(float64(src[j])/math.Sqrt(norm2of(src, want))-float64(x)) > 1e-4 {
				j++
			}
			c.Check(j < len(src), "adapted-value", "%s: %v was adapted to %v, which are not components in order", what, src, got)
			j++
		}
	}
	c.Count("adapted", 1)
}

// norm2of is the squared norm of the selected components: |src| scaled so that the reference is unit.
func norm2of(src []float32, unit []float64) float64 {
	// the largest selected component has the same magnitude whatever the tie break
	m, u := 0.0, 0.0
	for _, x := range src {
		m = math.Max(m, math.Abs(float64(x)))
	}
	for _, x := range unit {
		u = math.Max(u, math.Abs(x))
	}
	if u == 0 {
		return 1
	}
	return (m / u) * (m / u)
}

func c15vec(w *World, n int) []float32 {
	if n == 0 {
		return nil
	}
	return randVec(w.R, n, w.VecStyle)
}

func c15policy(c *Case) {
	r := c.R
	pol := policies[c.Idx%len(policies)]
	kind := cfgNames[c.Idx/len(policies)%len(cfgNames)]
	sim := sims[c.Idx%3]
	fixed := 1 + r.Intn(9)
	switch r.Intn(6) {
	case 0, 1:
		fixed = 0
	case 2:
		fixed = 16 + r.Intn(20)
	}
	cfg := mkConfig(dbPath(c), kind, fixed, sim)
	cfg.AutoDimAdapt = pol
	w := newWorld(c, cfg)
	w.OnlyGood = true
	w.VecStyle = r.Intn(2)
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	dim := fixed
	length := func() int {
		if dim > 0 && r.Intn(2) == 0 {
			return dim
		}
		return pick(r, []int{0, 1, 1, 2, 3, 5, 8, 13, 40, dim + 1, dim + 24})
	}
	adapts := pol == core.SmartAdapt || pol == core.AutoTruncate || pol == core.AutoPad
	accept := func(v []float32, d int) bool {
		if d == 0 {
			return false
		}
		return len(v) == d || adapts
	}
	other := 0
	stored := func(id string, src []float32, what string) {
		got, err := w.S.GetByID(bg, id)
		w.ok(err, "GetByID")
		judgeAdapted(c, pol, src, got.Vector, dim, what)
		w.Recs[id].Vec = cpVec(got.Vector)
	}
	for i := 0; i < 40; i++ {
		switch k := r.Intn(12); {
		case k < 4: // single write
			id := fmt.Sprint("r", r.Intn(15))
			x := w.newRec(id)
			x.Doc, x.Coll, x.ACL = "", "default", nil
			x.Vec = c15vec(w, length())
			c.Op("Upsert %q length %d (dimension %d)", id, len(x.Vec), dim)
			err := w.S.Upsert(bg, x.emb())
			d := dim
			if d == 0 {
				d = len(x.Vec)
			}
			if !accept(x.Vec, d) {
				c.Check(err != nil, "accepted-mismatch", "Upsert accepted a vector of length %d under dimension %d and policy %v", len(x.Vec), dim, pol)
				break
			}
			w.ok(err, "Upsert")
			dim = d
			if len(x.Vec) != dim {
				other++
			}
			w.put(x)
			stored(id, x.Vec, "Upsert")
		case k < 7: // batch
			n := 1 + r.Intn(4)
			var batch []*core.Embedding
			var recs []*Rec
			ok := true
			d := dim
			for j := 0; j < n; j++ {
				x := w.newRec(fmt.Sprint("r", i*10+j))
				x.Doc, x.Coll, x.ACL = "", "default", nil
				x.Vec = c15vec(w, length())
				if j == 0 && d == 0 {
					d = len(x.Vec)
				}
				ok = ok && accept(x.Vec, d)
				recs = append(recs, x)
				batch = append(batch, x.emb())
			}
			c.Op("UpsertBatch of %d (dimension %d)", n, dim)
			err := w.S.UpsertBatch(bg, batch)
			if !ok {
				c.Check(err != nil, "accepted-mismatch", "UpsertBatch accepted a vector of another length under dimension %d and policy %v", dim, pol)
				break
			}
			w.ok(err, "UpsertBatch")
			dim = d
			for _, x := range recs {
				if len(x.Vec) != dim {
					other++
				}
				w.put(x)
				stored(x.ID, x.Vec, "UpsertBatch")
			}
		case k < 8: // load a dump of a database of another dimension
			if dim == 0 {
				break
			}
			l := pick(r, []int{1, 2, 4, 9, dim + 2})
			sc := mkConfig("", "flat", l, sim)
			s2 := side(c, sc, fmt.Sprint("side", i))
			x := s2.newRec(fmt.Sprint("load", i))
			x.Doc, x.Coll, x.ACL = "", "default", nil
			x.Vec = c15vec(w, l)
			s2.ok(s2.S.Upsert(bg, x.emb()), "Upsert")
			var buf bytes.Buffer
			format := pick(r, []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL})
			_, err := s2.S.Dump(bg, &buf, core.DumpOptions{Format: format, IncludeVectors: true})
			s2.ok(err, "Dump")
			s2.S.Close()
			c.Op("Load a vector of length %d into dimension %d (%s)", l, dim, format)
			st, err := w.S.Load(bg, &buf, core.LoadOptions{Format: format, SkipExisting: r.Intn(2) == 0})
			if !accept(x.Vec, dim) {
				c.Check(err != nil || st.FailedCount > 0, "accepted-mismatch", "Load of a vector of length %d into dimension %d reported no failure", l, dim)
				break
			}
			w.ok(err, "Load")
			if l != dim {
				other++
			}
			w.put(x)
			stored(x.ID, x.Vec, "Load")
		case k < 9:
			bad := c15vec(w, max(dim, 2))
			bad[r.Intn(len(bad))] = pick(r, []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))})
			if r.Intn(3) == 0 {
				bad = append(bad, 1)
			}
			c.Op("Upsert %v", bad)
			c.Check(w.S.Upsert(bg, &core.Embedding{ID: "nonfinite", Vector: bad, Content: "x"}) != nil, "accepted-nonfinite", "Upsert accepted %v", bad)
			c.Check(w.S.UpsertBatch(bg, []*core.Embedding{{ID: "nonfinite", Vector: bad, Content: "x"}}) != nil, "accepted-nonfinite", "UpsertBatch accepted %v", bad)
		case k < 10 && len(w.Recs) > 0:
			id := pick(r, sortedKeys(w.Recs))
			c.Op("Delete %q", id)
			w.ok(w.S.Delete(bg, id), "Delete")
			delete(w.Recs, id)
		case k < 11 && r.Intn(3) == 0:
			c.Op("reopen")
			w.close()
			if len(w.Recs) == 0 {
				dim = fixed
				w.Dim = fixed
			}
			w.open()
		default:
			w.queryLengths(pol, sim, kind, dim, length())
		}
		w.CheckPoint()
		if st, err := w.S.Stats(bg); err == nil {
			c.Check(st.Dimensions == dim, "stats-dimension", "Stats reports dimension %d, want %d", st.Dimensions, dim)
		}
	}
	w.CheckFull()
	if other > 0 || !adapts {
		c.Nontrivial()
	}
	w.close()
}

// queryLengths asks every search entry point with a query of length l.
func (w *World) queryLengths(pol core.AdaptPolicy, sim, kind string, dim, l int) {
	c, r := w.c, w.R
	q := c15vec(w, l)
	nonfinite := false
	if l > 0 && r.Intn(5) == 0 {
		q[r.Intn(l)] = pick(r, []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))})
		nonfinite = true
	}
	var want []float64
	ok, exact := l > 0, false
	if dim > 0 {
		want, ok, exact = refAdapt(pol, q, dim)
	}
	if nonfinite {
		// a cut may remove the offending component; the outcome is then a finite query
		want, exact = nil, false
		if l == dim || dim == 0 {
			ok = false
		}
	}
	o := core.SearchOptions{TopK: 1000}
	type entry struct {
		name string
		run  func(q []float32) ([]core.ScoredEmbedding, error)
	}
	entries := []entry{
		{"Search", func(q []float32) ([]core.ScoredEmbedding, error) { return w.S.Search(bg, q, o) }},
		{"SearchWithFilter", func(q []float32) ([]core.ScoredEmbedding, error) { return w.S.SearchWithFilter(bg, q, o, nil) }},
		{"SearchWithAdvancedFilter", func(q []float32) ([]core.ScoredEmbedding, error) {
			return w.S.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: o})
		}},
		{"SearchWithACL", func(q []float32) ([]core.ScoredEmbedding, error) { return w.S.SearchWithACL(bg, q, nil, o) }},
		{"SearchWithFacets", func(q []float32) ([]core.ScoredEmbedding, error) {
			res, _, err := w.S.SearchWithFacets(bg, q, core.FacetedSearchOptions{SearchOptions: o})
			return res, err
		}},
		{"RangeSearch", func(q []float32) ([]core.ScoredEmbedding, error) { return w.S.RangeSearch(bg, q, 1e30, o) }},
		{"BatchRangeSearch", func(q []float32) ([]core.ScoredEmbedding, error) {
			res, err := w.S.BatchRangeSearch(bg, [][]float32{q}, 1e30, o)
			if len(res) > 0 {
				return res[0], err
			}
			return nil, err
		}},
		{"StreamSearch", func(q []float32) ([]core.ScoredEmbedding, error) {
			ch, err := w.S.StreamSearch(bg, q, core.StreamingOptions{SearchOptions: o, MaxLatency: time.Hour})
			if err != nil {
				return nil, err
			}
			var res []core.ScoredEmbedding
			for x := range ch {
				res = append(res, x.ScoredEmbedding)
			}
			return res, nil
		}},
		{"SearchWithReranker", func(q []float32) ([]core.ScoredEmbedding, error) {
			return w.S.SearchWithReranker(bg, q, "alpha", core.NewKeywordMatchReranker(0.5), core.RerankOptions{TopK: 1000})
		}},
		{"SearchWithDiversity", func(q []float32) ([]core.ScoredEmbedding, error) {
			return w.S.SearchWithDiversity(bg, q, core.DiversitySearchOptions{SearchOptions: o, Method: core.DiversityMMR, Lambda: 0.5})
		}},
		{"HybridSearch", func(q []float32) ([]core.ScoredEmbedding, error) {
			return w.S.HybridSearch(bg, q, "", core.HybridSearchOptions{SearchOptions: o})
		}},
		{"SearchWithNegatives", func(q []float32) ([]core.ScoredEmbedding, error) {
			return w.S.SearchWithNegatives(bg, core.NegativeSearchOptions{SearchOptions: o, PositiveVectors: [][]float32{q}})
		}},
		{"SearchWithNegatives-negative", func(q []float32) ([]core.ScoredEmbedding, error) {
			return w.S.SearchWithNegatives(bg, core.NegativeSearchOptions{SearchOptions: o, NegativeVectors: [][]float32{q}})
		}},
	}
	for _, e := range entries {
		if e.name == "HybridSearch" && l == 0 {
			continue // no vector means keyword search only
		}
		c.Op("%s with a query of length %d under dimension %d (non-finite: %v)", e.name, l, dim, nonfinite)
		arg := cpVec(q)
		res, err := e.run(arg)
		c.Check(bitsEq(arg, q), "query-modified", "%s changed its query from %v to %v", e.name, q, arg)
		if !ok {
			c.Check(err != nil, "query-accepted:"+e.name, "%s accepted a query %v under dimension %d and policy %v", e.name, q, dim, pol)
			c.Count("queries_rejected", 1)
			continue
		}
		for _, x := range res {
			c.Check(!math.IsNaN(x.Score) && w.Recs[x.ID] != nil, "query-result:"+e.name, "%s returned %q with score %v", e.name, x.ID, x.Score)
		}
		if nonfinite {
			continue
		}
		w.ok(err, e.name)
		c.Check(len(w.Recs) > 0 || len(res) == 0, "query-result:"+e.name, "%s returned %d results from an empty store", e.name, len(res))
		c.Check(len(res) == len(w.Recs), "query-count:"+e.name, "%s returned %d of %d records", e.name, len(res), len(w.Recs))
		if exact && want != nil {
			wq := make([]float32, len(want))
			for i := range want {
				wq[i] = float32(want[i])
			}
			for _, x := range res {
				s := refSim(sim, wq, w.Recs[x.ID].Vec)
				tol := 1e-5 * scaleOf(sim, wq, w.Recs[x.ID].Vec)
				switch e.name {
				case "Search", "SearchWithFilter", "SearchWithAdvancedFilter", "SearchWithACL", "SearchWithFacets", "StreamSearch", "SearchWithNegatives":
					c.Check(math.Abs(x.Score-s) <= tol+1e-5*math.Abs(s), "query-score:"+e.name, "%s of the adapted query scores %q %v, want %v", e.name, x.ID, x.Score, s)
				case "SearchWithNegatives-negative":
					c.Check(math.Abs(x.Score+s/2) <= tol+1e-5*math.Abs(s), "query-score:"+e.name, "%s of the adapted query scores %q %v, want %v", e.name, x.ID, x.Score, -s/2)
				}
			}
		}
		c.Count("queries_answered", 1)
	}
	if l != dim {
		c.Count("queries_other_length", 1)
	}
}

// c15multi: the fields of multi-vector entities follow the same policy.
func c15multi(c *Case) {
	r := c.R
	pol := policies[c.Idx%len(policies)]
	sim := sims[c.Idx/len(policies)%3]
	dim := 1 + r.Intn(6)
	cfg := mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], dim, sim)
	cfg.AutoDimAdapt = pol
	w := newWorld(c, cfg)
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	adapts := pol == core.SmartAdapt || pol == core.AutoTruncate || pol == core.AutoPad
	have := map[string]map[string][]float32{}
	for i := 0; i < 25; i++ {
		id := fmt.Sprint("e", r.Intn(4))
		ent := &core.MultiVectorEntity{ID: id, Vectors: map[string][]float32{}}
		ok := true
		for _, f := range []string{"title", "body", "x_y"}[:1+r.Intn(3)] {
			l := pick(r, []int{dim, dim, dim, dim + 1, 1, 7})
			ent.Vectors[f] = randVec(r, l, 0)
			ok = ok && (l == dim || adapts)
		}
		c.Op("UpsertMultiVector %q %d fields", id, len(ent.Vectors))
		err := w.S.UpsertMultiVector(bg, ent)
		if ok {
			w.ok(err, "UpsertMultiVector")
			if have[id] == nil {
				have[id] = map[string][]float32{}
			}
			for f, v := range ent.Vectors {
				have[id][f] = v
			}
		} else {
			c.Check(err != nil, "accepted-mismatch", "UpsertMultiVector accepted a field of another length under dimension %d and policy %v", dim, pol)
		}
		for eid, fields := range have {
			got, err := w.S.GetMultiVectorEntity(bg, eid)
			w.ok(err, "GetMultiVectorEntity")
			c.Check(len(got.Vectors) == len(fields), "entity-fields", "entity %q has %d fields, want %d", eid, len(got.Vectors), len(fields))
			for f, src := range fields {
				judgeAdapted(c, pol, src, got.Vectors[f], dim, "UpsertMultiVector")
			}
		}
		q := randVec(r, pick(r, []int{dim, dim + 1, 1, 9}), 0)
		c.Op("SearchMultiVector with a query of length %d under dimension %d", len(q), dim)
		res, err := w.S.SearchMultiVector(bg, map[string][]float32{"title": q}, core.MultiVectorSearchOptions{SearchOptions: core.SearchOptions{TopK: 100}})
		if len(q) != dim && !adapts {
			c.Check(err != nil, "query-accepted:SearchMultiVector", "SearchMultiVector accepted a query of length %d under dimension %d and policy %v", len(q), dim, pol)
		} else {
			w.ok(err, "SearchMultiVector")
			n := 0
			for _, f := range have {
				if f["title"] != nil {
					n++
				}
			}
			c.Check(len(res) == n, "query-count:SearchMultiVector", "SearchMultiVector returned %d entities, want %d", len(res), n)
			for _, x := range res {
				c.Check(!math.IsNaN(x.Score) && !math.IsInf(x.Score, 0), "query-result:SearchMultiVector", "score %v", x.Score)
			}
		}
		if len(q) != dim {
			c.Nontrivial()
		}
	}
	w.close()
}
