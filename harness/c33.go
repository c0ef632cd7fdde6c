package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/geo"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	hs "github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
)

func init() {
	register(&Prop{ID: "C33", Level: "exploration",
		Rule: "a case is one filled database (store, chat, graph, knowledge, memories, banks or points) on which every query that takes a result limit is asked for everything, for each kind of smaller limit, and for zero, negative and astronomically large limits; the answers are compared with each other; non-trivial when limits both cut answers and exceeded them",
		Run: func(r *Run) {
			r.Parallel("store", r.N(30, 500), 0, c33store)
			r.Parallel("facade", r.N(16, 250), 0, c33facade)
			r.Parallel("index", r.N(len(kinds19)*6, len(kinds19)*100), 0, c33index)
		}})
}

type hit33 struct {
	id    string
	score float64
}

// lim33 is a query with a limit.
type lim33 struct {
	name   string
	exact  bool // returns min(limit, everything)
	prefix bool // a smaller limit keeps the front of the answer
	loose  bool // the answer is drawn at random or approximate: only its size is compared
	f      func(k int) ([]hit33, error)
}

func hits33(l []core.ScoredEmbedding, err error) ([]hit33, error) {
	var out []hit33
	for _, x := range l {
		out = append(out, hit33{x.ID, x.Score})
	}
	return out, err
}

func msgs33(l []*core.Message, err error) ([]hit33, error) {
	var out []hit33
	for _, x := range l {
		out = append(out, hit33{x.ID, 0})
	}
	return out, err
}

const all33 = 20000

var huge33 = []int{math.MaxInt32, math.MaxInt32 + 1, 1 << 40, math.MaxInt64 / 100, math.MaxInt64/12 + 1, math.MaxInt64/8 + 1, math.MaxInt64/5 + 2, math.MaxInt64/4 + 1, math.MaxInt64/3 + 1, math.MaxInt64/2 + 1, math.MaxInt64 - 1, math.MaxInt64}

func (q lim33) judge(c *Case) {
	r := c.R
	ask := func(k int) []hit33 {
		c.Op("%s limit %d", q.name, k)
		l, err := q.f(k)
		c.Check(err == nil, "spurious-error:"+q.name, "%s with limit %d: %v", q.name, k, err)
		seen := map[string]bool{}
		for _, x := range l {
			c.Check(!seen[x.id], "duplicate:"+q.name, "%s with limit %d lists %q twice", q.name, k, x.id)
			seen[x.id] = true
		}
		return l
	}
	all := ask(all33)
	m := len(all)
	c.Check(m < all33, "limit-ignored", "%s returned %d results", q.name, m)
	score := map[string]float64{}
	for _, x := range all {
		score[x.id] = x.score
	}
	within := func(k int, l []hit33) {
		for _, x := range l {
			s, ok := score[x.id]
			c.Check(ok, "foreign:"+q.name, "%s with limit %d lists %q, which it does not list without a limit", q.name, k, x.id)
			if q.prefix {
				c.Check(close33(s, x.score), "score:"+q.name, "%s with limit %d gives %q the score %v, without a limit %v", q.name, k, x.id, x.score, s)
			}
		}
	}
	same := func(k int, l []hit33, n int) {
		for i := 0; i < n; i++ {
			ok := l[i].id == all[i].id || (close33(l[i].score, all[i].score) && tied33(all, i))
			c.Check(ok, "order:"+q.name, "%s with limit %d has %v at place %d, without a limit %v", q.name, k, l[i], i, all[i])
		}
	}
	for _, k := range []int{1, 2, m - 1, m, m + 1, 1 + r.Intn(m+2), 1 + r.Intn(2*m+2)} {
		if k <= 0 {
			continue
		}
		l := ask(k)
		c.Check(len(l) <= k, "over-limit:"+q.name, "%s with limit %d returned %d results", q.name, k, len(l))
		if q.exact {
			c.Check(len(l) == min(k, m), "short:"+q.name, "%s with limit %d returned %d results of %d", q.name, k, len(l), m)
		}
		if !q.loose {
			within(k, l)
		}
		if q.prefix {
			same(k, l, min(len(l), m))
		}
		if k < m {
			c.Count("cut", 1)
		}
	}
	for _, k := range []int{huge33[r.Intn(len(huge33))], huge33[r.Intn(len(huge33))], math.MaxInt64, math.MaxInt64/3 + 1} {
		l := ask(k)
		c.Check(len(l) == m, "huge:"+q.name, "%s with limit %d returned %d results, with limit %d %d", q.name, k, len(l), all33, m)
		if !q.loose {
			within(k, l)
			same(k, l, m)
		}
		c.Count("beyond", 1)
	}
	for _, k := range []int{0, -1, math.MinInt64, -1 - r.Intn(1000)} {
		c.Op("%s limit %d", q.name, k)
		l, err := q.f(k)
		c.Check(err != nil || len(l) <= m, "no-limit:"+q.name, "%s with limit %d returned %d results of %d", q.name, k, len(l), m)
		if err == nil && !q.loose {
			for _, x := range l {
				_, ok := score[x.id]
				c.Check(ok, "foreign:"+q.name, "%s with limit %d lists %q, which it does not list without a limit", q.name, k, x.id)
			}
		}
		c.Count("no positive limit", 1)
	}
	if m > 2 {
		c.Count("queries: "+q.name, 1)
	}
}

func close33(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func tied33(all []hit33, i int) bool {
	return i > 0 && close33(all[i].score, all[i-1].score) || i+1 < len(all) && close33(all[i].score, all[i+1].score)
}

func vec33(r *rand.Rand, dim int) []float32 {
	v := make([]float32, dim)
	for i := range v {
		v[i] = float32(r.NormFloat64())
	}
	return v
}

func c33store(c *Case) {
	r := c.R
	const dim = 5
	kind := []string{"flat", "flat", "hnsw", "ivf"}[c.Idx%4]
	sim := sims[c.Idx%3]
	cfg := mkConfig(dbPath(c), kind, dim, sim)
	s, err := core.NewWithConfig(cfg)
	c.Must(err, "NewWithConfig")
	ok := func(err error, what string) { c.Check(err == nil, "spurious-error:"+what, "%s: %v", what, err) }
	ok(s.Init(bg), "Init")
	n := 4 + r.Intn(50)
	if c.Idx%5 == 4 {
		n = 200 + r.Intn(400)
	}
	for i := 0; i < 3+r.Intn(20); i++ {
		ok(s.CreateDocument(bg, &core.Document{ID: fmt.Sprintf("d%02d", i), Title: "t", Version: 1, Author: "ann"}), "CreateDocument")
	}
	var batch []*core.Embedding
	for i := 0; i < n; i++ {
		e := &core.Embedding{ID: fmt.Sprintf("r%03d", i), Vector: vec33(r, dim), Content: "alpha " + sentence(r, vocab, 5), Metadata: map[string]string{"type": pick(r, []string{"t", "u"}), "g": fmt.Sprint(i % 17)}}
		if i%3 == 0 {
			e.DocID = "d00"
		}
		batch = append(batch, e)
	}
	ok(s.UpsertBatch(bg, batch), "UpsertBatch")
	if kind == "ivf" {
		ok(s.TrainIndex(bg, 3), "TrainIndex")
	}
	for u := 0; u < 2; u++ {
		sid := fmt.Sprintf("s%d", u)
		ok(s.CreateSession(bg, &core.Session{ID: sid, UserID: "u"}), "CreateSession")
		for i := 0; i < 3+r.Intn(30); i++ {
			ok(s.AddMessage(bg, &core.Message{ID: fmt.Sprintf("%s-%02d", sid, i), SessionID: sid, Role: "user", Content: "alpha " + sentence(r, vocab, 5), Vector: vec33(r, dim)}), "AddMessage")
		}
	}
	for i := 0; i < 3+r.Intn(20); i++ {
		ok(s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: fmt.Sprintf("mv%02d", i), Vectors: map[string][]float32{"a": vec33(r, dim), "b": vec33(r, dim)}, Content: "x"}), "UpsertMultiVector")
	}
	g := graph.NewGraphStore(s)
	ok(g.InitGraphSchema(bg), "InitGraphSchema")
	if c.Idx%2 == 0 {
		ok(g.EnableHNSWIndex(dim), "EnableHNSWIndex")
	}
	gn := 5 + r.Intn(30)
	for i := 0; i < gn; i++ {
		ok(g.UpsertNode(bg, &graph.GraphNode{ID: fmt.Sprintf("n%02d", i), Vector: vec33(r, dim), Content: "node", NodeType: pick(r, []string{"t", "u"})}), "UpsertNode")
	}
	for i := 0; i < 3*gn; i++ {
		ok(g.UpsertEdge(bg, &graph.GraphEdge{ID: fmt.Sprintf("e%02d", i), FromNodeID: fmt.Sprintf("n%02d", r.Intn(gn)), ToNodeID: fmt.Sprintf("n%02d", r.Intn(gn)), EdgeType: "k", Weight: 1}), "UpsertEdge")
	}
	q := vec33(r, dim)
	so := func(k int) core.SearchOptions { return core.SearchOptions{TopK: k} }
	flat := kind == "flat"
	qs := []lim33{
		{"Search", true, flat, false, func(k int) ([]hit33, error) { return hits33(s.Search(bg, q, so(k))) }},
		{"Search with metadata", true, flat, false, func(k int) ([]hit33, error) {
			return hits33(s.Search(bg, q, core.SearchOptions{TopK: k, Filter: map[string]string{"type": "t"}}))
		}},
		{"SearchWithFilter", true, true, false, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithFilter(bg, q, so(k), map[string]interface{}{"type": "t"}))
		}},
		{"SearchWithAdvancedFilter", true, true, false, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: so(k), PreFilter: core.NewMetadataFilter().Equal("type", "t").Build()}))
		}},
		{"SearchWithAdvancedFilter after", true, true, false, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: so(k), PostFilter: core.NewMetadataFilter().Equal("type", "u").Build()}))
		}},
		{"SearchWithACL", true, true, false, func(k int) ([]hit33, error) { return hits33(s.SearchWithACL(bg, q, []string{"ann"}, so(k))) }},
		{"HybridSearch", true, false, false, func(k int) ([]hit33, error) {
			return hits33(s.HybridSearch(bg, q, "alpha", core.HybridSearchOptions{SearchOptions: so(k)}))
		}},
		{"HybridSearch of text", true, true, false, func(k int) ([]hit33, error) {
			return hits33(s.HybridSearch(bg, nil, "alpha", core.HybridSearchOptions{SearchOptions: so(k)}))
		}},
		{"SearchWithNegatives", true, true, false, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: [][]float32{q}, NegativeVectors: [][]float32{batch[0].Vector}, NegativeWeight: 0.5, SearchOptions: so(k)}))
		}},
		{"RecommendSimilar", true, true, false, func(k int) ([]hit33, error) {
			return hits33(s.RecommendSimilar(bg, []string{"r001"}, []string{"r002"}, so(k)))
		}},
		{"FindAnomalies", true, true, false, func(k int) ([]hit33, error) { return hits33(s.FindAnomalies(bg, so(k))) }},
		{"RangeSearch", true, true, false, func(k int) ([]hit33, error) { return hits33(s.RangeSearch(bg, q, 2.5, so(k))) }},
		{"BatchRangeSearch", true, true, false, func(k int) ([]hit33, error) {
			l, err := s.BatchRangeSearch(bg, [][]float32{q}, 2.5, so(k))
			if len(l) != 1 {
				return nil, err
			}
			return hits33(l[0], err)
		}},
		{"SearchWithReranker", true, false, false, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithReranker(bg, q, "alpha", core.NewKeywordMatchReranker(0.5), core.RerankOptions{TopK: k}))
		}},
		{"SearchWithReranker without one", true, flat, false, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithReranker(bg, q, "alpha", nil, core.RerankOptions{TopK: k}))
		}},
		{"SearchWithFacets", true, true, false, func(k int) ([]hit33, error) {
			l, _, err := s.SearchWithFacets(bg, q, core.FacetedSearchOptions{SearchOptions: so(k), ReturnFacets: true})
			return hits33(l, err)
		}},
		{"CollectTopKFromStream", true, true, false, func(k int) ([]hit33, error) {
			ch, err := s.StreamSearch(bg, q, core.StreamingOptions{SearchOptions: so(all33), BatchSize: 7})
			if err != nil {
				return nil, err
			}
			return hits33(core.CollectTopKFromStream(bg, ch, k))
		}},
		{"SearchMultiVector", true, true, false, func(k int) ([]hit33, error) {
			l, err := s.SearchMultiVector(bg, map[string][]float32{"a": q}, core.MultiVectorSearchOptions{VectorFields: []string{"a"}, SearchOptions: so(k)})
			var out []hit33
			for _, x := range l {
				out = append(out, hit33{x.ID, x.Score})
			}
			return out, err
		}},
		{"Aggregate", true, false, true, func(k int) ([]hit33, error) {
			x, err := s.Aggregate(bg, core.AggregationRequest{Type: core.AggregationGroupBy, GroupBy: []string{"g"}, Limit: k})
			if err != nil {
				return nil, err
			}
			var out []hit33
			for _, y := range x.Results {
				out = append(out, hit33{fmt.Sprint(y.GroupKeys), float64(y.Count)})
			}
			return out, nil
		}},
		{"ListDocumentsWithFilter", true, false, false, func(k int) ([]hit33, error) {
			l, err := s.ListDocumentsWithFilter(bg, "ann", k)
			var out []hit33
			for _, x := range l {
				out = append(out, hit33{x.ID, 0})
			}
			return out, err
		}},
		{"GetSessionHistory", true, true, false, func(k int) ([]hit33, error) {
			l, err := msgs33(s.GetSessionHistory(bg, "s0", k))
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			return rank33(l), err
		}},
		{"SearchChatHistory", true, true, false, func(k int) ([]hit33, error) {
			l, err := msgs33(s.SearchChatHistory(bg, q, "s0", k))
			return rank33(l), err
		}},
		{"KeywordSearchMessages", true, false, false, func(k int) ([]hit33, error) { return msgs33(s.KeywordSearchMessages(bg, "alpha", "u", "", k)) }},
		{"SearchMessagesByUser", true, true, false, func(k int) ([]hit33, error) {
			l, err := msgs33(s.SearchMessagesByUser(bg, "u", q, "", k))
			return rank33(l), err
		}},
		{"Neighbors", true, false, false, func(k int) ([]hit33, error) {
			l, err := g.Neighbors(bg, "n01", graph.TraversalOptions{MaxDepth: 3, Limit: k})
			return nodes33(l, err, k)
		}},
		{"Neighbors of a type", true, false, false, func(k int) ([]hit33, error) {
			l, err := g.Neighbors(bg, "n01", graph.TraversalOptions{MaxDepth: 3, NodeTypes: []string{"t"}, Limit: k})
			return nodes33(l, err, k)
		}},
		{"PredictEdges", true, true, false, func(k int) ([]hit33, error) {
			l, err := g.PredictEdges(bg, "n01", k)
			var out []hit33
			for _, x := range l {
				out = append(out, hit33{x.ToNodeID, x.Score})
			}
			return out, err
		}},
		{"graph HybridSearch", true, false, false, func(k int) ([]hit33, error) {
			l, err := g.HybridSearch(bg, &graph.HybridQuery{Vector: q, TopK: k, StartNodeID: "n01", Weights: graph.HybridWeights{VectorWeight: 0.5, GraphWeight: 0.5}})
			return hybrid33(l, err)
		}},
		{"SimilarityInGraph", true, true, false, func(k int) ([]hit33, error) {
			l, err := g.SimilarityInGraph(bg, "n01", so(k))
			return hybrid33(l, err)
		}},
	}
	for _, m := range []core.DiversityMethod{core.DiversityMMR, core.DiversityDPP, core.DiversityRandom} {
		qs = append(qs, lim33{"SearchWithDiversity " + fmt.Sprint(m), true, false, m == core.DiversityRandom, func(k int) ([]hit33, error) {
			return hits33(s.SearchWithDiversity(bg, q, core.DiversitySearchOptions{Lambda: 0.5, Method: m, SearchOptions: so(k)}))
		}})
	}
	if c.Idx%2 == 0 {
		qs = append(qs, lim33{"HNSWSearch", true, false, false, func(k int) ([]hit33, error) {
			l, err := g.HNSWSearch(bg, q, k, -10)
			return hybrid33(l, err)
		}})
	}
	for _, x := range qs {
		x.judge(c)
	}
	geoIdx := geo.NewGeoIndex()
	for i := 0; i < 3+r.Intn(60); i++ {
		ok(geoIdx.Insert(geo.GeoPoint{ID: fmt.Sprintf("p%02d", i), Coordinate: geo.Coordinate{Lat: r.Float64()*170 - 85, Lng: r.Float64()*360 - 180}}), "Insert")
	}
	lim33{"SearchKNN", true, true, false, func(k int) ([]hit33, error) {
		l, err := geoIdx.SearchKNN(geo.Coordinate{Lat: 10, Lng: 20}, k)
		var out []hit33
		for _, x := range l {
			out = append(out, hit33{x.Point.ID, x.Distance})
		}
		return out, err
	}}.judge(c)
	c.Nontrivial()
	ok(s.Close(), "Close")
}

// rank33 makes the place of a message its score, so that the order is compared exactly.
func rank33(l []hit33) []hit33 {
	for i := range l {
		l[i].score = float64(i)
	}
	return l
}

func nodes33(l []*graph.GraphNode, err error, k int) ([]hit33, error) {
	var out []hit33
	for _, x := range l {
		out = append(out, hit33{x.ID, 0})
	}
	return out, err
}

func hybrid33(l []*graph.HybridResult, err error) ([]hit33, error) {
	var out []hit33
	for _, x := range l {
		out = append(out, hit33{x.Node.ID, x.CombinedScore})
	}
	return out, err
}

func c33facade(c *Case) {
	r := c.R
	ok := func(err error, what string) { c.Check(err == nil, "spurious-error:"+what, "%s: %v", what, err) }
	cfg := cortexdb.Config{Path: dbPath(c), Dimensions: 6, SimilarityFn: core.CosineSimilarity, IndexType: core.IndexTypeFlat}
	db, err := cortexdb.Open(cfg, cortexdb.WithEmbedder(&textEmb{dim: 6}))
	ok(err, "Open")
	n := 3 + r.Intn(25)
	for i := 0; i < n; i++ {
		ok(e2(db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: fmt.Sprintf("k%02d", i), Content: "alpha " + sentence(r, vocab, 5), Entities: []cortexdb.ToolEntityInput{{Name: "Alice", ChunkIDs: []string{kChunkID(fmt.Sprintf("k%02d", i), 0)}}}})), "SaveKnowledge")
		ok(e2(db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: fmt.Sprintf("m%02d", i), UserID: "u", Content: "alpha " + sentence(r, vocab, 5)})), "SaveMemory")
		ok(db.InsertText(bg, fmt.Sprintf("t%02d", i), "alpha "+sentence(r, vocab, 5), nil), "InsertText")
	}
	sys, err := hs.New(&hs.Config{DBPath: filepath.Join(c.Dir, "hs.db"), VectorDim: 6, Collection: "mem"})
	ok(err, "hindsight.New")
	ok(sys.CreateBank(bg, hs.NewBank("b", "n")), "CreateBank")
	for i := 0; i < n; i++ {
		ok(sys.Retain(bg, &hs.Memory{ID: fmt.Sprintf("h%02d", i), BankID: "b", Type: hs.WorldMemory, Content: "alpha " + sentence(r, vocab, 5), Vector: vec33(r, 6), Entities: []string{"Alice"}}), "Retain")
	}
	q := vec33(r, 6)
	ids := func(l []string) []hit33 {
		var out []hit33
		for _, x := range l {
			out = append(out, hit33{x, 0})
		}
		return out
	}
	t := db.GraphRAGTools()
	qs := []lim33{
		{"Quick.Search", true, true, false, func(k int) ([]hit33, error) { return hits33(db.Quick().Search(bg, q, k)) }},
		{"SearchText", true, true, false, func(k int) ([]hit33, error) { return hits33(db.SearchText(bg, "alpha stone", k)) }},
		{"HybridSearchText", true, false, false, func(k int) ([]hit33, error) { return hits33(db.HybridSearchText(bg, "alpha", k)) }},
		{"SearchTextOnly", true, true, false, func(k int) ([]hit33, error) {
			return hits33(db.SearchTextOnly(bg, "alpha", cortexdb.TextSearchOptions{TopK: k}))
		}},
		{"Quick.SearchTextOnly", true, true, false, func(k int) ([]hit33, error) { return hits33(db.Quick().SearchTextOnly(bg, "alpha", k)) }},
		{"memory search", true, true, false, func(k int) ([]hit33, error) {
			x, err := db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "alpha", UserID: "u", TopK: k})
			if err != nil {
				return nil, err
			}
			var out []hit33
			for _, y := range x.Results {
				out = append(out, hit33{y.Memory.ID, 0})
			}
			return rank33(out), nil
		}},
		{"memory keyword search", true, false, false, func(k int) ([]hit33, error) {
			x, err := db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "alpha", UserID: "u", TopK: k, RetrievalMode: "lexical"})
			if err != nil {
				return nil, err
			}
			var out []hit33
			for _, y := range x.Results {
				out = append(out, hit33{y.Memory.ID, 0})
			}
			return out, nil
		}},
		{"search_text", true, false, false, func(k int) ([]hit33, error) {
			x, err := t.SearchText(bg, cortexdb.ToolSearchTextRequest{Query: "alpha", TopK: k})
			return chunks33(x, err)
		}},
		{"search_chunks_by_entities", true, false, false, func(k int) ([]hit33, error) {
			x, err := t.SearchChunksByEntities(bg, cortexdb.ToolSearchChunksByEntitiesRequest{EntityNames: []string{"Alice"}, TopK: k})
			if err != nil {
				return nil, err
			}
			return chunks33(&cortexdb.ToolSearchTextResponse{Chunks: x.Chunks}, nil)
		}},
		{"build_context", true, true, false, func(k int) ([]hit33, error) {
			if k <= 0 {
				return nil, nil // the default
			}
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, kChunkID(fmt.Sprintf("k%02d", i), 0))
			}
			x, err := t.BuildContext(bg, cortexdb.ToolBuildContextRequest{ChunkIDs: l, MaxContextChunks: k, MaxContextChars: math.MaxInt, PerDocumentLimit: math.MaxInt})
			if err != nil {
				return nil, err
			}
			var out []string
			for _, y := range x.Chunks {
				out = append(out, y.ID)
			}
			return rank33(ids(out)), nil
		}},
	}
	for _, mode := range []string{"lexical", "graph"} {
		qs = append(qs, lim33{"SearchKnowledge " + mode, false, false, false, func(k int) ([]hit33, error) {
			req := cortexdb.KnowledgeSearchRequest{Query: "alpha", TopK: k, MaxRelatedChunks: k, MaxContextChunks: k, MaxContextChars: math.MaxInt, PerDocumentLimit: k, RetrievalMode: mode, DiversityLambda: 1}
			x, err := db.SearchKnowledge(bg, req)
			if err != nil {
				return nil, err
			}
			var out []string
			for _, y := range x.Chunks {
				out = append(out, y.ID)
			}
			sort.Strings(out)
			if k <= 0 {
				out = nil // the default
			}
			return ids(out), nil
		}})
	}
	for _, st := range []hs.RecallStrategy{{Memory: true}, {Priming: true}, {Entity: []string{"Alice"}}, {Memory: true, Priming: true}} {
		qs = append(qs, lim33{fmt.Sprintf("Recall memory=%v priming=%v entity=%v", st.Memory, st.Priming, st.Entity), true, false, false, func(k int) ([]hit33, error) {
			x := st
			x.TopK = k
			l, err := sys.Recall(bg, &hs.RecallRequest{BankID: "b", Query: "alpha", QueryVector: q, Strategy: &x, TopK: k})
			var out []string
			for _, y := range l {
				out = append(out, y.ID)
			}
			sort.Strings(out)
			return ids(out), err
		}})
	}
	for _, x := range qs {
		x.judge(c)
	}
	c.Nontrivial()
	idleStore(c, sys.Store())
	idleStore(c, db.Vector())
	ok(sys.Close(), "Close")
	ok(db.Close(), "Close")
}

func chunks33(x *cortexdb.ToolSearchTextResponse, err error) ([]hit33, error) {
	if err != nil {
		return nil, err
	}
	var out []hit33
	for _, y := range x.Chunks {
		out = append(out, hit33{y.ID, y.Score})
	}
	return out, nil
}

func c33index(c *Case) {
	r := c.R
	kind := kinds19[c.Idx%len(kinds19)]
	dim := 2 + r.Intn(6)
	x := new19(c, kind, dim, r)
	n := 3 + r.Intn(80)
	var codes, bin [][]byte
	var vs [][]float32
	for i := 0; i < n; i++ {
		v := vec33(r, dim)
		vs = append(vs, v)
		err := x.put(fmt.Sprintf("v%03d", i), v)
		c.Check(err == nil, "spurious-error:"+kind, "Insert: %v", err)
		x.ever++
	}
	q := vec33(r, dim)
	lim33{"index " + kind, x.full && x.exact(n, 1), false, x.noScore || !x.exact(n, 1), func(k int) ([]hit33, error) {
		ids, ds := x.search(q, k)
		var out []hit33
		for i, id := range ids {
			h := hit33{id, 0}
			if i < len(ds) {
				h.score = float64(ds[i])
			}
			out = append(out, h)
		}
		return out, nil
	}}.judge(c)
	if n > 3 {
		pq, err := quantization.NewProductQuantizer(dim, 1, 3)
		c.Check(err == nil, "spurious-error:pq", "NewProductQuantizer: %v", err)
		err = pq.Train(vs)
		c.Check(err == nil, "spurious-error:pq", "Train: %v", err)
		bq := quantization.NewBinaryQuantizer(dim)
		err = bq.Train(vs)
		c.Check(err == nil, "spurious-error:bq", "Train: %v", err)
		for _, v := range vs {
			a, err := pq.Encode(v)
			c.Check(err == nil, "spurious-error:pq", "Encode: %v", err)
			codes = append(codes, a)
			b, err := bq.Encode(v)
			c.Check(err == nil, "spurious-error:bq", "Encode: %v", err)
			bin = append(bin, b)
		}
		lim33{"SearchPQ", true, true, false, func(k int) ([]hit33, error) {
			ids, ds := pq.SearchPQ(q, codes, k)
			var out []hit33
			for i, id := range ids {
				out = append(out, hit33{fmt.Sprint(id), float64(ds[i])})
			}
			return out, nil
		}}.judge(c)
		qb, err := bq.Encode(q)
		c.Check(err == nil, "spurious-error:bq", "Encode: %v", err)
		lim33{"SearchBinary", true, true, false, func(k int) ([]hit33, error) {
			ids, ds := bq.SearchBinary(qb, bin, k)
			var out []hit33
			for i, id := range ids {
				out = append(out, hit33{fmt.Sprint(id), float64(ds[i])})
			}
			return out, nil
		}}.judge(c)
	}
	c.Nontrivial()
}
