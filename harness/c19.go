package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/index"
)

func init() {
	register(&Prop{ID: "C19", Level: "exploration",
		Rule: "a case is one history of inserts, overwrites, deletes, clears, retraining, save/load and searches of one index structure (part history: all kinds; part large: 600 to 1500 vectors), or concurrent actors on disjoint ids of one shared index (part shared, under the race detector), or calls with hostile arguments which may be refused but must not panic, hang or disturb the live vectors (part hostile); every answer is compared with a brute-force reference set, every argument slice is scribbled over after the call; non-trivial when some search was cut to K after a delete or overwrite",
		Run: func(r *Run) {
			r.Parallel("history", r.N(130, 2600), 0, c19history)
			r.Parallel("large", r.N(13, 130), 0, c19large)
			r.Parallel("hostile", r.N(52, 1040), 0, c19hostile)
			r.Parallel("shared", r.N(26, 260), 0, c19shared)
		}})
}

// ix19 adapts one index structure to the reference set.
type ix19 struct {
	kind    string
	dist    string // euclid, cosine, dot
	put     func(id string, v []float32) error
	dup     bool // an insert of a live id is refused
	upsert  func(id string, v []float32) error
	del     func(id string) (bool, bool) // removed, whether the answer is meaningful
	search  func(q []float32, k int) ([]string, []float32)
	size    func() int
	clear   func()
	train   func(vs [][]float32) error
	reload  func(c *Case)
	extra   func(c *Case, m map[string][]float32, q []float32, r *rand.Rand)
	exact   func(n, k int) bool // the answer must be the exact top K
	full    bool                // the answer must hold min(K, n) results
	noScore bool                // scores are not distances
	self    bool                // a stored vector is found by itself
	refuse  bool                // vectors of another dimension are refused
	ever    int                 // nodes ever created
	quiet   bool                // errors of Search are expected
}

var kinds19 = []string{"flat-euclid", "flat-cosine", "flat-dot", "hnsw", "hnsw-wide", "ivf", "ivf-probe", "lsh", "hybrid", "multi-primary_only", "multi-merge_all", "multi-rerank", "multi-voting"}

type flatVI struct{ *index.FlatIndex }

func (f flatVI) Delete(id string) error {
	if !f.FlatIndex.Delete(id) {
		return errors.New("not found")
	}
	return nil
}

func dist19(name string) func(a, b []float32) float32 {
	switch name {
	case "cosine":
		return index.CosineDistance
	case "dot":
		return index.DotProductDistance
	}
	return index.EuclideanDistance
}

// ref19 computes a distance in float64 with the tolerance a float32 computation needs.
func ref19(name string, a, b []float32) (float64, float64) {
	var dot, na, nb, abs, d2 float64
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		dot += x * y
		abs += math.Abs(x * y)
		na += x * x
		nb += y * y
		d2 += (x - y) * (x - y)
	}
	switch name {
	case "cosine":
		if na == 0 || nb == 0 {
			return 1, 1e-6
		}
		return 1 - dot/math.Sqrt(na)/math.Sqrt(nb), 2e-5
	case "dot":
		return -dot, 1e-5*abs + 1e-6
	}
	// a float32 difference carries an error of its operands' rounding
	return math.Sqrt(d2), 1e-5*math.Sqrt(d2) + 1e-6*math.Sqrt(na+nb) + 1e-9
}

func vecs19(r *rand.Rand, n, dim int) [][]float32 {
	out := make([][]float32, n)
	for i := range out {
		out[i] = randVec(r, dim, 0)
	}
	return out
}

func scribble(vs ...[]float32) {
	for _, v := range vs {
		for i := range v {
			v[i] = 12345
		}
	}
}

func new19(c *Case, kind string, dim int, r *rand.Rand) *ix19 {
	x := &ix19{kind: kind, dist: "euclid", full: true, refuse: true, exact: func(int, int) bool { return true }}
	removed := func(err error) (bool, bool) { return err == nil, true }
	trainOn := func(f func([][]float32) error, n int) {
		vs := vecs19(r, n+r.Intn(20), dim)
		err := f(vs)
		c.Check(err == nil, "train-failed:"+kind, "training %s with %d vectors for %d centroids: %v", kind, len(vs), n, err)
		scribble(vs...)
	}
	switch kind {
	case "flat-euclid", "flat-cosine", "flat-dot":
		x.dist = kind[5:]
		f := index.NewFlatIndex(dim, dist19(x.dist))
		if x.dist == "cosine" {
			f = index.NewFlatIndexCosine(dim)
		}
		x.put, x.search, x.size, x.clear = f.Insert, f.Search, f.Size, f.Clear
		x.del = func(id string) (bool, bool) { return f.Delete(id), true }
		x.extra = func(c *Case, m map[string][]float32, q []float32, r *rand.Rand) { flat19(c, x, f, m, q, r) }
	case "hnsw", "hnsw-wide":
		x.dist = pick(r, []string{"euclid", "cosine", "dot"})
		M := pick(r, []int{2, 3, 4, 8, 16})
		h := index.NewHNSW(M, 20+r.Intn(100), dist19(x.dist))
		ef := 2 + r.Intn(60)
		if kind == "hnsw-wide" {
			ef = 1 << 20
		}
		x.exact = func(n, k int) bool { return ef >= x.ever || k >= x.ever }
		x.put, x.upsert, x.dup = func(id string, v []float32) error { return h.Insert(id, v) }, func(id string, v []float32) error { return h.Upsert(id, v) }, true
		x.refuse = false
		x.del = func(id string) (bool, bool) { return h.Delete(id) == nil, false }
		x.search = func(q []float32, k int) ([]string, []float32) { return h.Search(q, k, ef) }
		x.size = func() int { return h.Size() }
		x.reload = func(c *Case) {
			var b bytes.Buffer
			err := h.Save(&b)
			c.Check(err == nil, "save-failed:"+kind, "Save: %v", err)
			h2 := index.NewHNSW(M, 20, dist19(x.dist))
			err = h2.Load(&b)
			c.Check(err == nil, "load-failed:"+kind, "Load of a saved index: %v", err)
			h = h2
		}
		x.extra = func(c *Case, m map[string][]float32, q []float32, r *rand.Rand) {
			if r.Intn(4) == 0 { // a batch skips live ids
				var b []struct {
					ID     string
					Vector []float32
				}
				for i := 0; i < 3+r.Intn(8); i++ {
					id := fmt.Sprint("b", r.Intn(30))
					v := randVec(r, dim, 0)
					b = append(b, struct {
						ID     string
						Vector []float32
					}{id, cpVec(v)})
					if _, ok := m[id]; !ok {
						m[id] = v
						x.ever++
					}
				}
				c.Op("InsertBatch of %d", len(b))
				var err error
				if r.Intn(2) == 0 {
					err = h.InsertBatch(b)
				} else {
					err = h.InsertBatchParallel(b, r.Intn(5))
				}
				c.Check(err == nil, "batch-failed:"+kind, "InsertBatch: %v", err)
				for _, e := range b {
					scribble(e.Vector)
				}
			}
			st := h.Stats()
			c.Check(st["active_nodes"] == len(m), "wrong-stats:"+kind, "Stats active_nodes %v with %d live vectors", st["active_nodes"], len(m))
			k := pick(r, []int{5, 1, 0, 60, 300, 1 << 20})
			ids, ds := h.SearchVectorIndex(q, k)
			judge19(c, x, "SearchVectorIndex", m, q, k, ids, ds, k >= x.ever)
		}
	case "ivf", "ivf-probe":
		n := 1 + r.Intn(12)
		ivf := index.NewIVFIndex(dim, n)
		_, _, err := ivf.Search(make([]float32, dim), 3)
		c.Check(err != nil && ivf.Add("a", make([]float32, dim)) != nil, "untrained-accepted:"+kind, "an untrained IVF index accepted a search or an insert")
		trainOn(ivf.Train, n)
		p := n
		if kind == "ivf-probe" {
			p = 1 + r.Intn(n)
			x.full = p >= n
		}
		ivf.SetNProbe(p)
		x.self = true
		x.exact = func(int, int) bool { return p >= n }
		x.put, x.size, x.clear = func(id string, v []float32) error { return ivf.Add(id, v) }, func() int { return ivf.Size() }, func() { ivf.Clear() }
		x.del = func(id string) (bool, bool) { return removed(ivf.Delete(id)) }
		x.search = func(q []float32, k int) ([]string, []float32) {
			ids, ds, err := ivf.Search(q, k)
			c.Check(err == nil || x.quiet, "search-failed:"+kind, "Search: %v", err)
			return ids, ds
		}
		x.train = func(vs [][]float32) error { return ivf.Train(vs) }
		x.reload = func(c *Case) {
			var b bytes.Buffer
			err := ivf.Save(&b)
			c.Check(err == nil, "save-failed:"+kind, "Save: %v", err)
			i2 := index.NewIVFIndex(dim, n)
			err = i2.Load(&b)
			c.Check(err == nil, "load-failed:"+kind, "Load of a saved index: %v", err)
			ivf = i2
		}
		x.extra = func(c *Case, m map[string][]float32, q []float32, r *rand.Rand) {
			st := ivf.Stats()
			c.Check(st["nvectors"] == len(m), "wrong-stats:"+kind, "Stats nvectors %v with %d live vectors", st["nvectors"], len(m))
		}
	case "lsh":
		l := index.NewLSHIndex(index.LSHConfig{NumTables: 1 + r.Intn(12), NumHashFuncs: 1 + r.Intn(8), Dimension: dim, Seed: r.Int63()})
		x.put, x.size, x.clear = l.Insert, l.Size, l.Clear
		x.full, x.self = false, true
		x.exact = func(int, int) bool { return false }
		x.del = func(id string) (bool, bool) { return l.Delete(id), true }
		cut := func(res []index.LSHSearchResult, err error) (ids []string, ds []float32) {
			c.Check(err == nil || x.quiet, "search-failed:"+kind, "Search: %v", err)
			for _, e := range res {
				ids = append(ids, e.ID)
				ds = append(ds, e.Distance)
			}
			return
		}
		x.search = func(q []float32, k int) ([]string, []float32) { return cut(l.Search(q, k)) }
		x.extra = func(c *Case, m map[string][]float32, q []float32, r *rand.Rand) {
			all, _ := cut(l.Search(q, 1<<20))
			k := []int{-1, 0, 1, 3, 1 << 20}[r.Intn(5)]
			p := r.Intn(10) - 1
			ids, ds := cut(l.SearchWithMultiProbe(q, k, p))
			c.Op("SearchWithMultiProbe(k=%d, probes=%d)", k, p)
			judge19(c, x, "SearchWithMultiProbe", m, q, k, ids, ds, false)
			if k == 1<<20 {
				for _, id := range all {
					c.Check(contains(ids, id), "probe-lost:"+kind, "multi-probe search lost %q, which the plain search found", id)
				}
			}
			st := l.Stats()
			c.Check(st["num_vectors"] == len(m), "wrong-stats:"+kind, "Stats num_vectors %v with %d live vectors", st["num_vectors"], len(m))
			c.Check(st["memory_overhead"] == len(m)*(st["num_tables"].(int)-1), "stale-buckets:"+kind, "the buckets of %v tables hold %v entries beyond the %d live vectors", st["num_tables"], st["memory_overhead"], len(m))
		}
	case "hybrid":
		n := 1 + r.Intn(14)
		h := index.NewHybridIndex(dim, pick(r, []int{2, 4, 8}), n)
		c.Check(h.Insert("a", make([]float32, dim)) != nil && h.Size() == 0, "untrained-accepted:"+kind, "an insert before training was accepted or left an entry behind (size %d)", h.Size())
		trainOn(h.Train, n)
		x.exact = func(int, int) bool { return n <= 10 }
		x.self = true
		x.put, x.search, x.size, x.train = h.Insert, h.Search, h.Size, h.Train
		x.del = func(id string) (bool, bool) { return h.Delete(id) == nil, false }
	default:
		st := index.CombineStrategy(kind[6:])
		subs := []index.IndexType{index.IndexTypeHNSW, index.IndexTypeIVF, index.IndexTypeFlat}
		r.Shuffle(3, func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
		cfg := index.MultiIndexConfig{PrimaryIndex: subs[0], SecondaryIndices: subs[1:], CombineStrategy: st, Parallel: r.Intn(2) == 0}
		top := 0
		if r.Intn(2) == 0 {
			top = 1 + r.Intn(20)
			cfg.RerankTopK = top
		}
		m := index.NewMultiIndex(cfg)
		n := 1 + r.Intn(8) // every cluster is probed
		for _, s := range subs {
			switch s {
			case index.IndexTypeHNSW:
				a := index.NewHNSWAdapter(dim, pick(r, []int{2, 4, 8}), index.EuclideanDistance)
				a.SetEf(1 << 16)
				m.AddIndex(s, a)
			case index.IndexTypeIVF:
				a := index.NewIVFAdapter(dim, n)
				trainOn(a.Train, n)
				m.AddIndex(s, a)
			default:
				m.AddIndex(s, flatVI{index.NewFlatIndex(dim, index.EuclideanDistance)})
			}
		}
		x.put, x.search, x.size = m.Insert, m.Search, m.Size
		x.del = func(id string) (bool, bool) { return removed(m.Delete(id)) }
		x.noScore = st == index.StrategyVoting
		x.full = st != index.StrategyRerank || top == 0
		x.exact = func(_, k int) bool { return x.full || top >= k }
		x.extra = func(c *Case, mm map[string][]float32, q []float32, r *rand.Rand) {
			s := m.Stats()["index_sizes"].(map[string]int)
			for name, n := range s {
				c.Check(n == len(mm), "sub-index-differs:"+kind, "sub-index %s holds %d vectors of %d", name, n, len(mm))
			}
		}
	}
	return x
}

// flat19 judges range search, stored vectors and batch inserts of the flat index.
func flat19(c *Case, x *ix19, f *index.FlatIndex, m map[string][]float32, q []float32, r *rand.Rand) {
	var all []float64
	for _, v := range m {
		d, _ := ref19(x.dist, q, v)
		all = append(all, d)
	}
	sort.Float64s(all)
	rad := r.Float64() * 3
	if len(all) > 0 {
		rad = all[r.Intn(len(all))] + (r.Float64()-0.5)*0.1
	}
	qq := cpVec(q)
	ids, ds := f.RangeSearch(qq, float32(rad))
	c.Op("RangeSearch %v", rad)
	c.Check(bitsEq(q, qq), "query-modified:"+x.kind, "RangeSearch modified its query")
	got := map[string]bool{}
	for i, id := range ids {
		v, ok := m[id]
		c.Check(ok && !got[id], "range-stale:"+x.kind, "RangeSearch returned %q, not live or twice", id)
		got[id] = true
		d, tol := ref19(x.dist, q, v)
		c.Check(math.Abs(float64(ds[i])-d) <= tol && d <= rad+tol, "range-wrong:"+x.kind, "RangeSearch(%v) returned %q at %v, its distance is %v", rad, id, ds[i], d)
		c.Check(i == 0 || ds[i] >= ds[i-1], "range-order:"+x.kind, "RangeSearch result %d at %v follows %v", i, ds[i], ds[max(i-1, 0)])
	}
	if len(ids) > 0 { // a vector at exactly the radius is within it
		i := r.Intn(len(ids))
		again, _ := f.RangeSearch(cpVec(q), ds[i])
		c.Check(contains(again, ids[i]), "range-lost:"+x.kind, "RangeSearch(%v) left out %q, which it puts at that distance", ds[i], ids[i])
	}
	for id, v := range m {
		d, tol := ref19(x.dist, q, v)
		c.Check(got[id] || d > rad-tol, "range-lost:"+x.kind, "RangeSearch(%v) left out %q at %v", rad, id, d)
		g, ok := f.GetVector(id)
		c.Check(ok, "vector-lost:"+x.kind, "GetVector(%q) not found", id)
		if x.dist != "cosine" {
			c.Check(bitsEq(g, v), "vector-differs:"+x.kind, "GetVector(%q) is %v, inserted %v", id, g, v)
		} else if d, tol := ref19("cosine", g, v); d > tol {
			zero := true
			for _, e := range v {
				zero = zero && e == 0
			}
			c.Check(zero, "vector-differs:"+x.kind, "GetVector(%q) is %v, inserted %v", id, g, v)
		}
		scribble(g)
	}
	_, ok := f.GetVector("never there")
	c.Check(!ok, "ghost-vector:"+x.kind, "GetVector of an id never inserted found something")
	if r.Intn(3) == 0 {
		n := 2 + r.Intn(5)
		bad := r.Intn(n * 2)
		var bi []string
		var bv, keep [][]float32
		for i := 0; i < n; i++ {
			bi = append(bi, fmt.Sprint("b", r.Intn(20)))
			v := randVec(r, len(q), 0)
			if i == bad {
				v = v[:len(v)-1]
			}
			bv = append(bv, cpVec(v))
			keep = append(keep, v)
		}
		err := f.BatchInsert(bi, bv)
		c.Op("BatchInsert %d, bad element %d: %v", n, bad, err)
		c.Check((err != nil) == (bad < n), "batch-verdict:"+x.kind, "BatchInsert with bad element %d of %d: %v", bad, n, err)
		c.Check(f.BatchInsert(bi, bv[1:]) != nil, "batch-verdict:"+x.kind, "BatchInsert with unequal lengths accepted")
		scribble(bv...)
		if err == nil {
			for i, id := range bi {
				m[id] = keep[i]
			}
		}
		for i, id := range bi {
			g, ok := f.GetVector(id)
			_, live := m[id]
			c.Check(ok == live, "batch-partial:"+x.kind, "after BatchInsert (%v), element %d present %v, want %v", err, i, ok, live)
			if live && x.dist != "cosine" {
				c.Check(bitsEq(g, m[id]), "batch-partial:"+x.kind, "after BatchInsert (%v), element %d is %v, want %v", err, i, g, m[id])
			}
		}
	}
}

// judge19 compares one answer with brute force over the reference set.
func judge19(c *Case, x *ix19, op string, m map[string][]float32, q []float32, k int, ids []string, ds []float32, exact bool) {
	op += ":" + x.kind
	c.Check(len(ids) == len(ds), "unequal-lengths:"+op, "%d ids, %d distances", len(ids), len(ds))
	c.Check(len(ids) <= max(k, 0), "too-many:"+op, "%d results for k=%d", len(ids), k)
	seen := map[string]bool{}
	worst, wtol := math.Inf(-1), 0.0
	for i, id := range ids {
		v, ok := m[id]
		c.Check(ok, "stale-result:"+op, "%q is not in the index (its set has %d)", id, len(m))
		c.Check(!seen[id], "duplicate-result:"+op, "%q twice", id)
		seen[id] = true
		d, tol := ref19(x.dist, q, v)
		if x.kind == "multi-voting" { // its score is the distance less a bonus, in float32
			tol += 1e-6
		}
		if !x.noScore {
			c.Check(math.Abs(float64(ds[i])-d) <= tol, "wrong-distance:"+op, "%q reported at %v, its distance is %v", id, ds[i], d)
			c.Check(i == 0 || ds[i] >= ds[i-1], "wrong-order:"+op, "result %d at %v follows %v", i, ds[i], ds[max(i-1, 0)])
		}
		if d > worst {
			worst, wtol = d, tol
		}
	}
	if x.full {
		c.Check(len(ids) == min(max(k, 0), len(m)), "wrong-count:"+op, "%d results, k=%d, %d live vectors", len(ids), k, len(m))
	}
	if exact {
		c.Count("exact_answers", 1)
		for id, v := range m {
			if !seen[id] {
				d, tol := ref19(x.dist, q, v)
				c.Check(len(ids) >= min(max(k, 0), len(m)) && (len(ids) == 0 || d >= worst-tol-wtol), "not-top-k:"+op, "left out %q at %v, the worst of %d results (k=%d) is at %v", id, d, len(ids), k, worst)
			}
		}
	}
	if x.self && k > 0 {
		for id, v := range m {
			if bitsEq(v, q) && !seen[id] {
				// ties at distance 0 may fill the answer
				c.Check(len(ids) > 0 && ds[len(ds)-1] == 0 && len(ids) == k, "self-lost:"+op, "the query equals the vector of %q, which is not among the %d results", id, len(ids))
			}
		}
	}
	if k > 0 && len(m) > k {
		c.Nontrivial()
		c.Count("cut_to_k", 1)
	}
	c.Count("searches:"+x.kind, 1)
}

func c19history(c *Case) {
	kind := kinds19[c.Idx%len(kinds19)]
	run19(c, kind, 40+c.R.Intn(120), 12+c.R.Intn(60))
}

func c19large(c *Case) {
	kind := kinds19[c.Idx%len(kinds19)]
	r := c.R
	dim := pick(r, []int{4, 8, 16})
	x := new19(c, kind, dim, r)
	m := map[string][]float32{}
	n := 600 + r.Intn(900)
	style := r.Intn(2)
	for i := 0; i < n; i++ {
		id := fmt.Sprint("v", i)
		v := randVec(r, dim, style)
		p := cpVec(v)
		err := x.put(id, p)
		scribble(p)
		c.Check(err == nil, "insert-failed:"+kind, "Insert: %v", err)
		m[id] = v
		x.ever++
	}
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			id := fmt.Sprint("v", i)
			x.del(id)
			delete(m, id)
		}
	}
	c.Check(x.size() == len(m), "wrong-size:"+kind, "Size %d with %d live vectors", x.size(), len(m))
	c.Seen("large", kind)
	found, asked := 0, 0
	live := sortedKeys(m)
	for i := 0; i < 30; i++ {
		q := randVec(r, dim, style)
		self := ""
		if i%2 == 0 {
			self = pick(r, live)
			q = cpVec(m[self])
		}
		k := pick(r, []int{1, 5, 40, 300, 2000})
		ids, ds := x.search(cpVec(q), k)
		c.Op("search k=%d: %d results", k, len(ids))
		judge19(c, x, "Search", m, q, k, ids, ds, x.exact(len(m), k))
		if self != "" && x.dist != "dot" {
			asked++
			if len(ids) > 0 {
				d, tol := ref19(x.dist, q, m[ids[0]])
				if d <= tol*2 {
					found++
				}
			}
		}
	}
	if x.extra != nil {
		for i := 0; i < 3; i++ {
			x.extra(c, m, randVec(r, dim, style), r)
		}
	}
	c.Count("self_queries", asked)
	c.Count("self_found", found)
	c.Count("self_queries_"+kind, asked)
	c.Count("self_found_"+kind, found)
	c.Check(found*10 >= asked*6, "recall:"+kind, "only %d of %d stored vectors were found by themselves among %d", found, asked, len(m))
}

func run19(c *Case, kind string, steps, pool int) {
	r := c.R
	dim := 1 + r.Intn(10)
	x := new19(c, kind, dim, r)
	c.Seen("kind", kind)
	m := map[string][]float32{}
	ever := map[string]bool{}
	style := r.Intn(3)
	vec := func() []float32 {
		if len(m) > 0 && r.Intn(6) == 0 {
			return cpVec(m[pick(r, sortedKeys(m))])
		}
		if r.Intn(25) == 0 {
			return make([]float32, dim)
		}
		v := randVec(r, dim, style)
		if x.dist == "cosine" && r.Intn(3) == 0 { // the angle does not depend on the length
			f := pick(r, []float32{1e10, 1e-10, 1e6, 1e-6})
			for i := range v {
				v[i] *= f
			}
		}
		return v
	}
	for s := 0; s < steps; s++ {
		id := fmt.Sprint("v", r.Intn(pool))
		if r.Intn(5) == 0 { // those that batches write
			id = fmt.Sprint("b", r.Intn(30))
		}
		switch n := r.Intn(20); {
		case n < 9:
			v := vec()
			p := cpVec(v)
			_, live := m[id]
			f, op := x.put, "Insert"
			if x.upsert != nil && r.Intn(2) == 0 {
				f, op = x.upsert, "Upsert"
			}
			err := f(id, p)
			c.Op("%s %s %v: %v", op, id, v, err)
			c.Check(bitsEq(p, v), "argument-modified:"+kind, "%s modified the caller's vector", op)
			scribble(p)
			if op == "Insert" && x.dup && live {
				c.Check(err != nil, "duplicate-accepted:"+kind, "Insert of live id %s accepted", id)
				break
			}
			c.Check(err == nil, "insert-failed:"+kind, "%s %s: %v", op, id, err)
			m[id] = v
			if !ever[id] {
				ever[id] = true
				x.ever++
			}
			if live {
				c.Count("overwrites", 1)
			}
		case n < 12:
			_, live := m[id]
			ok, meaningful := x.del(id)
			c.Op("Delete %s: %v", id, ok)
			if meaningful || live {
				c.Check(ok == live, "delete-verdict:"+kind, "Delete(%s) answered %v, live %v", id, ok, live)
			}
			delete(m, id)
		case n == 12:
			if x.clear != nil && r.Intn(5) == 0 {
				x.clear()
				c.Op("Clear")
				m = map[string][]float32{}
			}
		case n == 13:
			if x.train != nil {
				vs := vecs19(r, 20+r.Intn(10), dim)
				err := x.train(vs)
				c.Op("Train: %v", err)
				c.Check(err == nil, "train-failed:"+kind, "Train: %v", err)
				scribble(vs...)
			}
		case n == 14:
			if x.reload != nil {
				x.reload(c)
				c.Op("Save and Load")
				c.Count("reloads", 1)
			}
		case n == 15:
			if x.refuse {
				p := randVec(r, dim+1, 0)
				if r.Intn(2) == 0 {
					p = p[:dim-1]
				}
				err := x.put(id, p)
				c.Op("Insert %s with %d components: %v", id, len(p), err)
				c.Check(err != nil, "bad-dimension-accepted:"+kind, "a vector of %d components accepted by an index of %d", len(p), dim)
			}
		}
		c.Check(x.size() == len(m), "wrong-size:"+kind, "Size %d with %d live vectors", x.size(), len(m))
		if r.Intn(2) == 0 {
			q := vec()
			k := pick(r, []int{1, 2, 5, 10, len(m), len(m) + 3, 0, -1, -7})
			qq := cpVec(q)
			ids, ds := x.search(qq, k)
			c.Op("Search %v k=%d: %v %v", q, k, ids, ds)
			c.Check(bitsEq(qq, q), "query-modified:"+kind, "Search modified its query")
			judge19(c, x, "Search", m, q, k, ids, ds, x.exact(len(m), k))
			scribble(ds, qq)
		}
		if x.extra != nil && r.Intn(6) == 0 {
			x.extra(c, m, vec(), r)
		}
	}
}

// c19shared runs actors with ids of their own on one index.
func c19shared(c *Case) {
	kind := kinds19[c.Idx%len(kinds19)]
	dim := 6
	x := new19(c, kind, dim, c.R)
	const g = 4
	ms := make([]map[string][]float32, g)
	steps := 40
	fork(c, g+2, func(i int, r *rand.Rand) {
		if i >= g { // readers: anything returned must be some actor's id with consistent ordering
			for s := 0; s < steps; s++ {
				ids, ds := x.search(randVec(r, dim, 0), 1+r.Intn(10))
				seen := map[string]bool{}
				for j, id := range ids {
					c.Check(!seen[id], "duplicate-result:shared:"+kind, "%q twice", id)
					seen[id] = true
					c.Check(x.noScore || j == 0 || ds[j] >= ds[j-1], "wrong-order:shared:"+kind, "result %d at %v follows %v", j, ds[j], ds[max(j-1, 0)])
				}
				x.size()
				jitter(r)
			}
			return
		}
		m := map[string][]float32{}
		ms[i] = m
		for s := 0; s < steps; s++ {
			id := fmt.Sprintf("%d-%d", i, r.Intn(12))
			if _, live := m[id]; live && r.Intn(2) == 0 {
				ok, _ := x.del(id)
				c.Check(ok, "delete-verdict:shared:"+kind, "Delete of the actor's own live %s failed", id)
				delete(m, id)
			} else {
				v := randVec(r, dim, 0)
				p := cpVec(v)
				f := x.put
				if x.upsert != nil {
					f = x.upsert
				}
				err := f(id, p)
				c.Check(err == nil, "insert-failed:shared:"+kind, "Insert: %v", err)
				scribble(p)
				m[id] = v
			}
			jitter(r)
		}
	})
	all := map[string][]float32{}
	for _, m := range ms {
		for id, v := range m {
			all[id] = v
		}
	}
	x.ever = g * 12
	c.Check(x.size() == len(all), "wrong-size:shared:"+kind, "Size %d after the actors left %d vectors", x.size(), len(all))
	for i := 0; i < 8; i++ {
		q := randVec(c.R, dim, 0)
		k := pick(c.R, []int{1, 5, len(all) + 1})
		ids, ds := x.search(cpVec(q), k)
		judge19(c, x, "Search", all, q, k, ids, ds, x.exact(len(all), k))
	}
	if x.extra != nil {
		x.extra(c, all, randVec(c.R, dim, 0), c.R)
	}
	c.Seen("shared", kind)
}

// c19hostile calls an index with malformed vectors, extreme K and odd ids; nothing may panic, and the valid
// vectors stay searchable.
func c19hostile(c *Case) {
	kind := kinds19[c.Idx%len(kinds19)]
	r := c.R
	dim := 1 + r.Intn(6)
	x := new19(c, kind, dim, r)
	x.quiet = true
	m := map[string][]float32{}
	for i := 0; i < 20; i++ {
		id := fmt.Sprint("v", i)
		m[id] = randVec(r, dim, 0)
		c.Check(x.put(id, cpVec(m[id])) == nil, "insert-failed:"+kind, "Insert failed")
		x.ever++
	}
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	bad := func() []float32 {
		switch r.Intn(6) {
		case 0:
			return nil
		case 1:
			return []float32{}
		case 2:
			return randVec(r, dim+1+r.Intn(3), 0)
		case 3:
			return randVec(r, dim-1, 0)
		case 4:
			v := randVec(r, dim, 0)
			v[r.Intn(dim)] = pick(r, []float32{nan, inf, -inf})
			return v
		}
		return randVec(r, dim, 3)
	}
	for s := 0; s < 40; s++ {
		switch r.Intn(4) {
		case 0: // a refused or odd insert under an id of its own, then removed
			id := pick(r, []string{"odd", "", "\x00", "a:b"})
			v := bad()
			err := x.put(id, v)
			c.Op("Insert %q %v: %v", id, v, err)
			if x.refuse && len(v) != dim {
				c.Check(err != nil, "bad-dimension-accepted:"+kind, "a vector of %d components accepted by an index of %d", len(v), dim)
			}
			if err == nil {
				x.ever++
			}
			x.search(randVec(r, dim, 0), 5)
			x.del(id)
		case 1:
			q, k := bad(), pick(r, []int{1, 5, 100, 1 << 30})
			c.Op("Search %v k=%d", q, k)
			x.search(q, k)
		case 2:
			k := pick(r, []int{math.MaxInt, math.MinInt, math.MaxInt / 2, -1, 0})
			c.Op("Search k=%d", k)
			ids, _ := x.search(randVec(r, dim, 0), k)
			c.Check(len(ids) <= max(k, 0), "too-many:"+kind, "%d results for k=%d", len(ids), k)
		case 3:
			x.del(pick(r, []string{"missing", "", "odd"}))
		}
	}
	c.Check(x.size() == len(m), "wrong-size:hostile:"+kind, "Size %d with %d live vectors after refused and undone calls", x.size(), len(m))
	x.quiet = false
	for i := 0; i < 5; i++ {
		q, k := randVec(r, dim, 0), 1+r.Intn(25)
		ids, ds := x.search(q, k)
		judge19(c, x, "Search", m, q, k, ids, ds, x.exact(len(m), k) && kind != "hnsw" && kind != "hnsw-wide")
	}
	c.Nontrivial()
	c.Seen("hostile", kind)
}
