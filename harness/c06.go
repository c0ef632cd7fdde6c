package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C06", Level: "exploration",
		Rule: "a case is one store history (or a small collection beside a crowd of better matching foreign records) on which every search, listing, count and aggregation entry point is called for every collection; non-trivial when at least two collections hold records",
		Run: func(r *Run) {
			r.Parallel("history", r.N(75, 700), 0, c06history)
			r.Parallel("crowd", r.N(30, 300), 0, c06crowd)
			r.Parallel("collections", r.N(40, 400), 0, c06collections)
		}})
}

// entry is one way to search inside a collection. all: with a large K every record of the collection comes back.
type entry struct {
	name string
	all  bool
	run  func(q []float32, text string, o core.SearchOptions) ([]core.ScoredEmbedding, error)
}

func drain(ch <-chan core.StreamingResult, err error) ([]core.ScoredEmbedding, error) {
	if err != nil {
		return nil, err
	}
	var out []core.ScoredEmbedding
	for x := range ch {
		out = append(out, x.ScoredEmbedding)
	}
	return out, nil
}

func (w *World) entries() []entry {
	S := w.S
	everyone := append([]string(nil), w.ACLPool...)
	ent := []entry{
		{"Search", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.Search(bg, q, o)
		}},
		{"Search+text", true, func(q []float32, t string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			o.QueryText = t
			return S.Search(bg, q, o)
		}},
		{"SearchWithFilter", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchWithFilter(bg, q, o, nil)
		}},
		{"SearchWithAdvancedFilter", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: o})
		}},
		{"SearchWithAdvancedFilter+pre", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: &core.FilterExpression{Operator: core.FilterOR, Children: []*core.FilterExpression{
				{Operator: core.FilterNE, Field: "zz", Value: "1"}, {Operator: core.FilterEQ, Field: "zz", Value: "1"}}}})
		}},
		{"SearchWithACL", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchWithACL(bg, q, everyone, o)
		}},
		{"HybridSearch", true, func(q []float32, t string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.HybridSearch(bg, q, t, core.HybridSearchOptions{SearchOptions: o})
		}},
		{"HybridSearch keyword only", false, func(_ []float32, t string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.HybridSearch(bg, nil, t, core.HybridSearchOptions{SearchOptions: o})
		}},
		{"HybridSearch OR query", false, func(_ []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.HybridSearch(bg, nil, strings.Join(vocab, " OR "), core.HybridSearchOptions{SearchOptions: o})
		}},
		{"SearchWithNegatives", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: [][]float32{q}, NegativeVectors: [][]float32{w.vec()}, SearchOptions: o})
		}},
		{"RecommendSimilar", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			// the examples may come from any collection
			return S.RecommendSimilar(bg, subset(w.R, sortedKeys(w.Recs), 2), subset(w.R, sortedKeys(w.Recs), 1), o)
		}},
		{"FindAnomalies", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.FindAnomalies(bg, o)
		}},
		{"SearchWithFacets", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			res, _, err := S.SearchWithFacets(bg, q, core.FacetedSearchOptions{SearchOptions: o})
			return res, err
		}},
		{"SearchWithFacets OR", false, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			k := pick(w.R, metaKeys)
			res, _, err := S.SearchWithFacets(bg, q, core.FacetedSearchOptions{SearchOptions: o, Facets: map[string]core.FacetFilter{k: {Type: core.FilterTypeNested, Operator: core.OperatorOR,
				Nested: []core.FacetFilter{{Type: core.FilterTypeExists}, {Type: core.FilterTypeContains, Pattern: "a"}}}}, ReturnFacets: true})
			return res, err
		}},
		{"RangeSearch", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.RangeSearch(bg, q, 3e38, o)
		}},
		{"BatchRangeSearch", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			r, err := S.BatchRangeSearch(bg, [][]float32{w.vec(), q}, 3e38, o)
			if err != nil || len(r) != 2 {
				return nil, fmt.Errorf("%d results, %v", len(r), err)
			}
			return r[1], nil
		}},
		{"StreamSearch", true, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return drain(S.StreamSearch(bg, q, core.StreamingOptions{SearchOptions: o, BatchSize: 1 + w.R.Intn(6), MaxLatency: time.Hour}))
		}},
		{"SearchMultiVector", false, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchMultiVector(bg, map[string][]float32{"f": q}, core.MultiVectorSearchOptions{SearchOptions: o})
		}},
	}
	for _, m := range []core.DiversityMethod{core.DiversityMMR, core.DiversityDPP, core.DiversityRandom, core.DiversityDistance} {
		ent = append(ent, entry{"SearchWithDiversity " + string(m), m != core.DiversityDistance, func(q []float32, _ string, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return S.SearchWithDiversity(bg, q, core.DiversitySearchOptions{Lambda: 0.5, Method: m, MinDistance: 0.01, SearchOptions: o})
		}})
	}
	return ent
}

// checkColl calls every entry point for one collection.
func (w *World) checkColl(coll string, ks []int) {
	c, r := w.c, w.R
	want := map[string]bool{}
	for id, x := range w.Recs {
		if coll == "" || x.Coll == coll {
			want[id] = true
		}
	}
	for _, e := range w.entries() {
		q, _ := w.query()
		if w.Dim > 0 && len(q) != w.Dim {
			q = w.vec()
		}
		text := pick(r, vocab)
		if r.Intn(2) == 0 {
			text += " OR " + pick(r, vocab)
		}
		k := pick(r, ks)
		o := core.SearchOptions{Collection: coll, TopK: k}
		c.Op("%s in %q K=%d", e.name, coll, k)
		res, err := e.run(q, text, o)
		c.Check(err == nil, "spurious-error:"+e.name, "%s in %q: %v", e.name, coll, err)
		seen := map[string]bool{}
		for _, x := range res {
			rec, live := w.Recs[x.ID]
			if e.name == "SearchMultiVector" {
				continue
			}
			c.Check(live, "stale-result:"+e.name, "%s in %q returned %q, which is not stored", e.name, coll, x.ID)
			c.Check(want[x.ID], "foreign-record:"+e.name, "%s in %q returned %q of collection %q", e.name, coll, x.ID, rec.Coll)
			c.Check(!seen[x.ID], "duplicate-result:"+e.name, "%s in %q returned %q twice", e.name, coll, x.ID)
			d := diffRec(&x.Embedding, rec, false)
			c.Check(d == "", "stale-content:"+e.name, "%s in %q returned %q with %s", e.name, coll, x.ID, d)
			seen[x.ID] = true
			c.Count("results", 1)
		}
		if e.all && e.name != "StreamSearch" {
			n := len(want)
			kk := k
			if kk <= 0 {
				continue
			}
			if kk < n {
				n = kk
			}
			c.Check(len(res) == n, "wrong-count:"+e.name, "%s in %q returned %d results, the collection has %d, K=%d", e.name, coll, len(res), len(want), k)
		} else if e.name == "StreamSearch" {
			c.Check(len(res) == len(want), "wrong-count:"+e.name, "%s in %q returned %d results, the collection has %d", e.name, coll, len(res), len(want))
		}
		c.Seen("entry", e.name)
		c.Count("calls", 1)
	}
	if coll == "" {
		return
	}
	// counts and aggregations
	agg, err := w.S.Aggregate(bg, core.AggregationRequest{Type: core.AggregationCount, Collection: coll})
	w.ok(err, "Aggregate")
	c.Check(len(agg.Results) == 1 && agg.Results[0].Count == len(want), "wrong-count:Aggregate", "Aggregate count in %q: %+v, want %d", coll, agg.Results, len(want))
	key := pick(r, metaKeys)
	agg, err = w.S.Aggregate(bg, core.AggregationRequest{Type: core.AggregationCount, Collection: coll, GroupBy: []string{key}})
	w.ok(err, "Aggregate")
	total := 0
	for _, x := range agg.Results {
		total += x.Count
	}
	c.Check(total == len(want), "wrong-count:Aggregate", "grouped counts in %q sum to %d, want %d", coll, total, len(want))
	_, facets, err := w.S.SearchWithFacets(bg, w.vec(), core.FacetedSearchOptions{SearchOptions: core.SearchOptions{Collection: coll, TopK: 5}, ReturnFacets: true, MaxFacetValues: 1000,
		Facets: map[string]core.FacetFilter{key: {Type: core.FilterTypeExists}}})
	w.ok(err, "SearchWithFacets")
	have := map[string]int{}
	for id := range want {
		if v, ok := w.Recs[id].Meta[key]; ok {
			have[v]++
		}
	}
	got := map[string]int{}
	for _, f := range facets {
		for v, n := range f.Values {
			got[v] += n
		}
	}
	c.Check(fmt.Sprint(got) == fmt.Sprint(have), "wrong-count:facets", "facet counts of %q in %q: %v, want %v", key, coll, got, have)
}

func c06history(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	sim := sims[c.Idx/5%3]
	w := newWorld(c, mkConfig(dbPath(c), kind, 2+r.Intn(4), sim))
	w.CollPool = append(w.CollPool, "Default", "default ", "coll")
	w.OnlyGood = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	c.Op("%s %s", kind, sim)
	for i := 0; i < 50; i++ {
		w.Step()
		if i%10 != 9 {
			continue
		}
		used := map[string]bool{}
		for _, x := range w.Recs {
			used[x.Coll] = true
		}
		if len(used) > 1 {
			c.Nontrivial()
		}
		for _, coll := range append(sortedKeys(w.Colls), "no such collection") {
			w.checkColl(coll, []int{1, 2, 1000})
		}
		w.CheckCollections()
	}
	w.close()
}

// c06crowd: a few records in one collection, hundreds of better matches in others.
func c06crowd(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	sim := sims[c.Idx/5%3]
	dim := 4
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, sim))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for _, n := range []string{"small", "big", "Small"} {
		_, err := w.S.CreateCollection(bg, n, dim)
		w.ok(err, "CreateCollection")
		w.Colls[n] = true
	}
	hot := randVec(r, dim, 0)
	far := randVec(r, dim, 0)
	var embs []*core.Embedding
	n := 150 + r.Intn(250)
	big := c.Idx%10 == 9
	if big {
		n = 1300 + r.Intn(400)
	}
	for i := 0; i < n; i++ {
		x := w.newRec(fmt.Sprint("c", i))
		x.Coll = pick(r, []string{"big", "big", "Small", "default"})
		x.Vec = cpVec(hot)
		if i%2 == 0 {
			x.Vec[r.Intn(dim)] += float32(r.NormFloat64()) * 1e-3
		}
		if i%9 == 0 {
			x.Vec = randVec(r, dim, 0)
		}
		if i < 1+r.Intn(6) {
			x.Coll = "small"
			x.Vec = cpVec(far)
			x.Vec[0] += float32(i)
		}
		embs = append(embs, x.emb())
		w.put(x)
	}
	r.Shuffle(len(embs), func(i, j int) { embs[i], embs[j] = embs[j], embs[i] })
	w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	w.GenVec = func() []float32 { return cpVec(hot) }
	w.checkColl("small", []int{1, 3, 50, 1000})
	if big {
		w.checkColl("Small", []int{1, 3, 50})
	} else {
		w.checkColl("Small", []int{1, 3, 50, 1000})
	}
	c.Nontrivial()
	if c.Idx%2 == 0 {
		w.reopen()
		w.checkColl("small", []int{1, 3, 50})
	}
	// removing the crowd leaves the small collection alone
	w.ok(w.S.DeleteCollection(bg, "big"), "DeleteCollection")
	delete(w.Colls, "big")
	w.drop(func(x *Rec) bool { return x.Coll == "big" })
	w.checkColl("small", []int{2, 1000})
	if big {
		w.checkColl("", []int{1, 40})
	} else {
		w.checkColl("", []int{1000})
	}
	w.checkColl("big", []int{5})
	w.CheckFull()
	w.CheckCollections()
	w.close()
}

// c06collections: names and counts over create / delete / re-create.
func c06collections(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 3, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	names := append(pool(r, "c", 6, 0.7), "DEFAULT", "x", "X", "x ")
	dims := map[string]int{}
	for i := 0; i < 40; i++ {
		n := pick(r, names)
		if w.Colls[n] && r.Intn(3) == 0 {
			c.Op("DeleteCollection %q", n)
			w.ok(w.S.DeleteCollection(bg, n), "DeleteCollection")
			delete(w.Colls, n)
			w.drop(func(x *Rec) bool { return x.Coll == n })
		} else if w.Colls[n] {
			_, err := w.S.CreateCollection(bg, n, 3)
			c.Op("CreateCollection %q again", n)
			c.Check(err != nil, "duplicate-collection", "collection %q created twice", n)
		} else if r.Intn(4) == 0 {
			c.Op("DeleteCollection %q (missing)", n)
			c.Check(w.S.DeleteCollection(bg, n) != nil, "phantom-delete", "deleting missing collection %q succeeded", n)
			_, err := w.S.GetCollection(bg, n)
			c.Check(err != nil, "phantom-collection", "GetCollection(%q) of a missing collection succeeded", n)
			_, err = w.S.GetCollectionStats(bg, n)
			c.Check(err != nil, "phantom-collection", "GetCollectionStats(%q) of a missing collection succeeded", n)
			err = w.S.Upsert(bg, &core.Embedding{ID: "zz", Vector: w.vec(), Content: "x", Collection: n})
			c.Check(err != nil, "phantom-collection", "a record was written to missing collection %q", n)
		} else {
			_, err := w.S.CreateCollection(bg, n, -1-r.Intn(3))
			c.Check(err != nil, "bad-collection-accepted", "a collection of a negative dimension was created")
			d := pick(r, []int{3, 3, 0})
			c.Op("CreateCollection %q %d", n, d)
			cl, err := w.S.CreateCollection(bg, n, d)
			w.ok(err, "CreateCollection")
			c.Check(cl != nil && cl.Name == n, "collection-name", "CreateCollection(%q) returned %+v", n, cl)
			w.Colls[n] = true
			dims[n] = d
		}
		for j := 0; j < 3; j++ {
			x := w.newRec(pick(r, w.IDs))
			x.Doc = ""
			x.Coll = pick(r, sortedKeys(w.Colls))
			c.Op("Upsert %q in %q", x.ID, x.Coll)
			w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
			w.put(x)
		}
		w.CheckCollections()
		if i%10 == 9 {
			w.reopen()
			for _, n := range sortedKeys(w.Colls) {
				w.checkColl(n, []int{1000})
				if n != "default" {
					cl, err := w.S.GetCollection(bg, n)
					w.ok(err, "GetCollection")
					c.Check(cl.Dimensions == dims[n] || dims[n] == 0, "collection-dimension", "collection %q has dimension %d, created with %d", n, cl.Dimensions, dims[n])
				}
			}
			w.CheckFull()
		}
	}
	c.Nontrivial()
	w.close()
}
