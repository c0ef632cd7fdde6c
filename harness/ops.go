package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

// apiEnv is an open store with a graph, filled with some data, for calling any public operation.
type apiEnv struct {
	c    *Case
	S    *core.SQLiteStore
	G    *graph.GraphStore
	Cfg  core.Config
	Dim  int
	next atomic.Int64
	dump []byte
	gml  []byte
	ivf  bool
}

type apiOp struct {
	name  string
	write bool
	f     func(e *apiEnv, n int) error // n is unique per call
}

func (e *apiEnv) id() int { return int(e.next.Add(1)) }

func (e *apiEnv) v(n int) []float32 {
	v := make([]float32, e.Dim)
	for i := range v {
		v[i] = float32((n*7+i*3)%11) - 4.5
	}
	return v
}

func (e *apiEnv) emb(id string, n int) *core.Embedding {
	return &core.Embedding{ID: id, Vector: e.v(n), Content: fmt.Sprintf("alpha beta %d", n), Metadata: map[string]string{"n": fmt.Sprint(n), "type": "t"}}
}

// newAPIEnv opens and fills a store.
func newAPIEnv(c *Case, kind string, graphIndex bool) *apiEnv {
	e := &apiEnv{c: c, Dim: 4}
	e.Cfg = mkConfig(dbPath(c), kind, e.Dim, "cosine")
	e.open(graphIndex)
	s, g := e.S, e.G
	ok := func(err error, what string) { c.Check(err == nil, "spurious-error:"+what, "%s: %v", what, err) }
	for i := 0; i < 4; i++ {
		ok(s.CreateDocument(bg, &core.Document{ID: fmt.Sprintf("d%d", i), Title: "t", Version: 1, Author: "ann"}), "CreateDocument")
	}
	_, err := s.CreateCollection(bg, "c0", e.Dim)
	ok(err, "CreateCollection")
	var batch []*core.Embedding
	for i := 0; i < 24; i++ {
		m := e.emb(fmt.Sprintf("r%d", i), i)
		if i%3 == 0 {
			m.DocID = fmt.Sprintf("d%d", i%4)
		}
		if i%4 == 0 {
			m.Collection = "c0"
		}
		if i%5 == 0 {
			m.ACL = []string{"ann"}
		}
		batch = append(batch, m)
	}
	ok(s.UpsertBatch(bg, batch), "UpsertBatch")
	ok(s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "mv", Vectors: map[string][]float32{"a": e.v(1), "b": e.v(2)}, Content: "x"}), "UpsertMultiVector")
	for i := 0; i < 2; i++ {
		ok(s.CreateSession(bg, &core.Session{ID: fmt.Sprintf("s%d", i), UserID: "u"}), "CreateSession")
		for j := 0; j < 4; j++ {
			ok(s.AddMessage(bg, &core.Message{ID: fmt.Sprintf("m%d-%d", i, j), SessionID: fmt.Sprintf("s%d", i), Role: "user", Content: "alpha", Vector: e.v(j)}), "AddMessage")
		}
	}
	for i := 0; i < 8; i++ {
		ok(g.UpsertNode(bg, &graph.GraphNode{ID: fmt.Sprintf("n%d", i), Vector: e.v(i), Content: "node", NodeType: "t"}), "UpsertNode")
	}
	for i := 0; i < 8; i++ {
		ok(g.UpsertEdge(bg, &graph.GraphEdge{ID: fmt.Sprintf("e%d", i), FromNodeID: fmt.Sprintf("n%d", i), ToNodeID: fmt.Sprintf("n%d", (i*3+1)%8), EdgeType: "k", Weight: 1}), "UpsertEdge")
	}
	if kind == "ivf" {
		ok(s.TrainIndex(bg, 2), "TrainIndex")
	}
	if e.Cfg.Quantization.Enabled {
		ok(s.TrainQuantizer(bg), "TrainQuantizer")
	}
	e.ivf = kind == "ivf"
	var b bytes.Buffer
	_, err = s.Dump(bg, &b, core.DefaultDumpOptions())
	ok(err, "Dump")
	e.dump = b.Bytes()
	var gb bytes.Buffer
	ok(g.Export(bg, &gb, graph.FormatJSON), "Export")
	e.gml = gb.Bytes()
	if kind != "flat" {
		ok(s.ExportIndex(bg, filepath.Join(c.Dir, "idx")), "ExportIndex")
	}
	return e
}

func (e *apiEnv) open(graphIndex bool) {
	c := e.c
	s, err := core.NewWithConfig(e.Cfg)
	c.Check(err == nil, "open-failed", "open: %v", err)
	err = s.Init(bg)
	c.Check(err == nil, "open-failed", "init: %v", err)
	e.S = s
	e.G = graph.NewGraphStore(s)
	err = e.G.InitGraphSchema(bg)
	c.Check(err == nil, "open-failed", "graph: %v", err)
	if graphIndex {
		err = e.G.EnableHNSWIndex(e.Dim)
		c.Check(err == nil, "open-failed", "graph index: %v", err)
	}
}

// tryOpen is open for files that may be refused.
func (e *apiEnv) tryOpen(graphIndex bool) error {
	s, err := core.NewWithConfig(e.Cfg)
	if err != nil {
		return err
	}
	if err := s.Init(bg); err != nil {
		s.Close()
		return err
	}
	g := graph.NewGraphStore(s)
	err = g.InitGraphSchema(bg)
	if err == nil && graphIndex {
		err = g.EnableHNSWIndex(e.Dim)
	}
	if err != nil {
		s.Close()
		return err
	}
	e.S, e.G = s, g
	return nil
}

func e2[T any](_ T, err error) error { return err }

func rec1(n int) string { return fmt.Sprintf("r%d", n%8*3+1) }

// apiOps lists the public operations of store and graph with arguments valid on a filled, open store.
func apiOps(kind string, graphIndex bool) []apiOp {
	var ops []apiOp
	rd := func(name string, f func(e *apiEnv, n int) error) { ops = append(ops, apiOp{name, false, f}) }
	wr := func(name string, f func(e *apiEnv, n int) error) { ops = append(ops, apiOp{name, true, f}) }
	wr("Upsert", func(e *apiEnv, n int) error { return e.S.Upsert(bg, e.emb(rec1(n), n)) })
	wr("Upsert new", func(e *apiEnv, n int) error { return e.S.Upsert(bg, e.emb(fmt.Sprintf("x%d", n), n)) })
	wr("UpsertBatch", func(e *apiEnv, n int) error {
		return e.S.UpsertBatch(bg, []*core.Embedding{e.emb(rec1(n), n), e.emb(fmt.Sprintf("y%d", n), n)})
	})
	wr("Delete", func(e *apiEnv, n int) error {
		id := fmt.Sprintf("z%d", n)
		if err := e.S.Upsert(bg, e.emb(id, n)); err != nil {
			return err
		}
		return e.S.Delete(bg, id)
	})
	wr("DeleteBatch", func(e *apiEnv, n int) error {
		id := fmt.Sprintf("w%d", n)
		if err := e.S.Upsert(bg, e.emb(id, n)); err != nil {
			return err
		}
		return e.S.DeleteBatch(bg, []string{id})
	})
	wr("DeleteByDocID", func(e *apiEnv, n int) error { return e.S.DeleteByDocID(bg, "d3") })
	wr("ClearByDocID", func(e *apiEnv, n int) error { return e.S.ClearByDocID(bg, []string{"d3"}) })
	wr("DeleteByFilter", func(e *apiEnv, n int) error {
		return e.S.DeleteByFilter(bg, core.NewMetadataFilter().Equal("n", fmt.Sprint(-n)))
	})
	rd("GetByID", func(e *apiEnv, n int) error { return e2(e.S.GetByID(bg, rec1(n))) })
	rd("GetByDocID", func(e *apiEnv, n int) error { return e2(e.S.GetByDocID(bg, "d1")) })
	rd("ListDocuments", func(e *apiEnv, n int) error { return e2(e.S.ListDocuments(bg)) })
	rd("ListDocumentsWithInfo", func(e *apiEnv, n int) error { return e2(e.S.ListDocumentsWithInfo(bg)) })
	rd("GetDocumentsByType", func(e *apiEnv, n int) error { return e2(e.S.GetDocumentsByType(bg, "t")) })
	so := core.SearchOptions{TopK: 5}
	rd("Search", func(e *apiEnv, n int) error { return e2(e.S.Search(bg, e.v(n), so)) })
	rd("Search collection", func(e *apiEnv, n int) error {
		return e2(e.S.Search(bg, e.v(n), core.SearchOptions{TopK: 5, Collection: "c0", Filter: map[string]string{"type": "t"}}))
	})
	rd("SearchWithFilter", func(e *apiEnv, n int) error {
		return e2(e.S.SearchWithFilter(bg, e.v(n), so, map[string]interface{}{"type": "t"}))
	})
	rd("SearchWithAdvancedFilter", func(e *apiEnv, n int) error {
		return e2(e.S.SearchWithAdvancedFilter(bg, e.v(n), core.AdvancedSearchOptions{SearchOptions: so, PreFilter: core.NewMetadataFilter().Equal("type", "t").Build()}))
	})
	rd("SearchWithACL", func(e *apiEnv, n int) error { return e2(e.S.SearchWithACL(bg, e.v(n), []string{"ann"}, so)) })
	rd("HybridSearch", func(e *apiEnv, n int) error {
		return e2(e.S.HybridSearch(bg, e.v(n), "alpha", core.HybridSearchOptions{SearchOptions: so}))
	})
	rd("SearchWithNegatives", func(e *apiEnv, n int) error {
		return e2(e.S.SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: [][]float32{e.v(n)}, NegativeVectors: [][]float32{e.v(n + 1)}, NegativeWeight: 0.5, SearchOptions: so}))
	})
	rd("SearchWithDiversity", func(e *apiEnv, n int) error {
		return e2(e.S.SearchWithDiversity(bg, e.v(n), core.DiversitySearchOptions{Lambda: 0.5, SearchOptions: so}))
	})
	rd("RecommendSimilar", func(e *apiEnv, n int) error { return e2(e.S.RecommendSimilar(bg, []string{"r1"}, []string{"r2"}, so)) })
	rd("FindAnomalies", func(e *apiEnv, n int) error { return e2(e.S.FindAnomalies(bg, so)) })
	rd("Aggregate", func(e *apiEnv, n int) error {
		return e2(e.S.Aggregate(bg, core.AggregationRequest{Type: core.AggregationCount}))
	})
	rd("SearchWithFacets", func(e *apiEnv, n int) error {
		_, _, err := e.S.SearchWithFacets(bg, e.v(n), core.FacetedSearchOptions{SearchOptions: so, ReturnFacets: true})
		return err
	})
	rd("RangeSearch", func(e *apiEnv, n int) error { return e2(e.S.RangeSearch(bg, e.v(n), 1, so)) })
	rd("BatchRangeSearch", func(e *apiEnv, n int) error {
		return e2(e.S.BatchRangeSearch(bg, [][]float32{e.v(n), e.v(n + 1)}, 1, so))
	})
	rd("SearchWithReranker", func(e *apiEnv, n int) error {
		return e2(e.S.SearchWithReranker(bg, e.v(n), "alpha", core.NewKeywordMatchReranker(0.5), core.RerankOptions{TopK: 5}))
	})
	rd("StreamSearch", func(e *apiEnv, n int) error {
		ch, err := e.S.StreamSearch(bg, e.v(n), core.StreamingOptions{SearchOptions: so, BatchSize: 5})
		if err == nil {
			streamOf(ch)
		}
		return err
	})
	rd("ParallelStreamSearch", func(e *apiEnv, n int) error {
		chs, err := e.S.ParallelStreamSearch(bg, [][]float32{e.v(n), e.v(n + 1)}, core.StreamingOptions{SearchOptions: so, BatchSize: 5})
		for _, ch := range chs {
			streamOf(ch)
		}
		return err
	})
	rd("SearchMultiVector", func(e *apiEnv, n int) error {
		return e2(e.S.SearchMultiVector(bg, map[string][]float32{"a": e.v(n)}, core.MultiVectorSearchOptions{VectorFields: []string{"a"}, SearchOptions: so}))
	})
	rd("GetMultiVectorEntity", func(e *apiEnv, n int) error { return e2(e.S.GetMultiVectorEntity(bg, "mv")) })
	wr("UpsertMultiVector", func(e *apiEnv, n int) error {
		return e.S.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "mv", Vectors: map[string][]float32{"a": e.v(n), "b": e.v(n + 1)}})
	})
	wr("DeleteMultiVectorEntity", func(e *apiEnv, n int) error {
		id := fmt.Sprintf("mv%d", n)
		if err := e.S.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: id, Vectors: map[string][]float32{"a": e.v(n)}}); err != nil {
			return err
		}
		return e.S.DeleteMultiVectorEntity(bg, id)
	})
	wr("CreateSession", func(e *apiEnv, n int) error {
		return e.S.CreateSession(bg, &core.Session{ID: fmt.Sprintf("sx%d", n), UserID: "u"})
	})
	rd("GetSession", func(e *apiEnv, n int) error { return e2(e.S.GetSession(bg, "s0")) })
	wr("AddMessage", func(e *apiEnv, n int) error {
		return e.S.AddMessage(bg, &core.Message{ID: fmt.Sprintf("mx%d", n), SessionID: "s1", Role: "user", Content: "alpha", Vector: e.v(n)})
	})
	rd("GetSessionHistory", func(e *apiEnv, n int) error { return e2(e.S.GetSessionHistory(bg, "s0", 10)) })
	rd("SearchChatHistory", func(e *apiEnv, n int) error { return e2(e.S.SearchChatHistory(bg, e.v(n), "s0", 3)) })
	rd("KeywordSearchMessages", func(e *apiEnv, n int) error { return e2(e.S.KeywordSearchMessages(bg, "alpha", "u", "", 3)) })
	rd("SearchMessagesByUser", func(e *apiEnv, n int) error { return e2(e.S.SearchMessagesByUser(bg, "u", e.v(n), "", 3)) })
	wr("CreateCollection", func(e *apiEnv, n int) error { return e2(e.S.CreateCollection(bg, fmt.Sprintf("cx%d", n), e.Dim)) })
	wr("DeleteCollection", func(e *apiEnv, n int) error {
		name := fmt.Sprintf("cd%d", n)
		if _, err := e.S.CreateCollection(bg, name, e.Dim); err != nil {
			return err
		}
		return e.S.DeleteCollection(bg, name)
	})
	rd("GetCollection", func(e *apiEnv, n int) error { return e2(e.S.GetCollection(bg, "c0")) })
	rd("ListCollections", func(e *apiEnv, n int) error { return e2(e.S.ListCollections(bg)) })
	rd("GetCollectionStats", func(e *apiEnv, n int) error { return e2(e.S.GetCollectionStats(bg, "c0")) })
	wr("CreateDocument", func(e *apiEnv, n int) error {
		return e.S.CreateDocument(bg, &core.Document{ID: fmt.Sprintf("dx%d", n), Title: "t", Version: 1})
	})
	wr("UpdateDocument", func(e *apiEnv, n int) error {
		return e.S.UpdateDocument(bg, &core.Document{ID: "d0", Title: fmt.Sprint(n), Version: 2})
	})
	wr("DeleteDocument", func(e *apiEnv, n int) error {
		d := fmt.Sprintf("dd%d", n)
		if err := e.S.CreateDocument(bg, &core.Document{ID: d, Title: "t", Version: 1}); err != nil {
			return err
		}
		return e.S.DeleteDocument(bg, d)
	})
	rd("GetDocument", func(e *apiEnv, n int) error { return e2(e.S.GetDocument(bg, "d0")) })
	rd("ListDocumentsWithFilter", func(e *apiEnv, n int) error { return e2(e.S.ListDocumentsWithFilter(bg, "ann", 5)) })
	rd("Stats", func(e *apiEnv, n int) error { return e2(e.S.Stats(bg)) })
	rd("Dump", func(e *apiEnv, n int) error { return e2(e.S.Dump(bg, &bytes.Buffer{}, core.DefaultDumpOptions())) })
	rd("DumpToFile", func(e *apiEnv, n int) error {
		return e2(e.S.DumpToFile(bg, filepath.Join(e.c.Dir, fmt.Sprintf("dump%d", n)), core.DefaultDumpOptions()))
	})
	wr("Load", func(e *apiEnv, n int) error {
		return e2(e.S.Load(bg, bytes.NewReader(e.dump), core.LoadOptions{Format: core.DumpFormatJSON, Upsert: true, BatchSize: 7}))
	})
	wr("Load skip", func(e *apiEnv, n int) error {
		return e2(e.S.Load(bg, bytes.NewReader(e.dump), core.LoadOptions{Format: core.DumpFormatJSON, SkipExisting: true, BatchSize: 7}))
	})
	rd("Backup", func(e *apiEnv, n int) error {
		return e.S.Backup(bg, filepath.Join(e.c.Dir, fmt.Sprintf("bak%d.db", n)))
	})
	if kind != "flat" {
		rd("ExportIndex", func(e *apiEnv, n int) error {
			return e.S.ExportIndex(bg, filepath.Join(e.c.Dir, fmt.Sprintf("ix%d", n)))
		})
		wr("ImportIndex", func(e *apiEnv, n int) error { return e.S.ImportIndex(bg, filepath.Join(e.c.Dir, "idx")) })
	}
	if kind == "ivf" {
		wr("TrainIndex", func(e *apiEnv, n int) error { return e.S.TrainIndex(bg, 2) })
	}
	if strings.Contains(kind, "+") {
		wr("TrainQuantizer", func(e *apiEnv, n int) error { return e.S.TrainQuantizer(bg) })
	}
	wr("Init", func(e *apiEnv, n int) error { return e.S.Init(bg) })
	// graph
	wr("UpsertNode", func(e *apiEnv, n int) error {
		return e.G.UpsertNode(bg, &graph.GraphNode{ID: fmt.Sprintf("nx%d", n%9), Vector: e.v(n), Content: "node", NodeType: "t"})
	})
	rd("GetNode", func(e *apiEnv, n int) error { return e2(e.G.GetNode(bg, "n1")) })
	wr("DeleteNode", func(e *apiEnv, n int) error {
		id := fmt.Sprintf("nd%d", n)
		if err := e.G.UpsertNode(bg, &graph.GraphNode{ID: id, Vector: e.v(n), NodeType: "t"}); err != nil {
			return err
		}
		return e.G.DeleteNode(bg, id)
	})
	wr("UpsertEdge", func(e *apiEnv, n int) error {
		return e.G.UpsertEdge(bg, &graph.GraphEdge{ID: fmt.Sprintf("ex%d", n%9), FromNodeID: "n1", ToNodeID: fmt.Sprintf("n%d", n%8), EdgeType: "k", Weight: 1})
	})
	wr("DeleteEdge", func(e *apiEnv, n int) error {
		id := fmt.Sprintf("ed%d", n)
		if err := e.G.UpsertEdge(bg, &graph.GraphEdge{ID: id, FromNodeID: "n1", ToNodeID: "n2", EdgeType: "k"}); err != nil {
			return err
		}
		return e.G.DeleteEdge(bg, id)
	})
	rd("GetEdges", func(e *apiEnv, n int) error { return e2(e.G.GetEdges(bg, "n1", "both")) })
	rd("PageRank", func(e *apiEnv, n int) error { return e2(e.G.PageRank(bg, 5, 0.85)) })
	rd("CommunityDetection", func(e *apiEnv, n int) error { return e2(e.G.CommunityDetection(bg)) })
	rd("PredictEdges", func(e *apiEnv, n int) error { return e2(e.G.PredictEdges(bg, "n1", 3)) })
	rd("GetGraphStatistics", func(e *apiEnv, n int) error { return e2(e.G.GetGraphStatistics(bg)) })
	wr("UpsertNodesBatch", func(e *apiEnv, n int) error {
		return e2(e.G.UpsertNodesBatch(bg, []*graph.GraphNode{{ID: fmt.Sprintf("nb%d", n%9), Vector: e.v(n), NodeType: "t"}}))
	})
	wr("DeleteNodesBatch", func(e *apiEnv, n int) error { return e2(e.G.DeleteNodesBatch(bg, []string{"nb1"})) })
	wr("UpsertEdgesBatch", func(e *apiEnv, n int) error {
		return e2(e.G.UpsertEdgesBatch(bg, []*graph.GraphEdge{{ID: fmt.Sprintf("eb%d", n%9), FromNodeID: "n3", ToNodeID: "n4", EdgeType: "k"}}))
	})
	wr("DeleteEdgesBatch", func(e *apiEnv, n int) error { return e2(e.G.DeleteEdgesBatch(bg, []string{"eb1"})) })
	rd("GetNodesBatch", func(e *apiEnv, n int) error { return e2(e.G.GetNodesBatch(bg, []string{"n1", "n2"})) })
	rd("GetEdgesBatch", func(e *apiEnv, n int) error { return e2(e.G.GetEdgesBatch(bg, []string{"e1", "e2"})) })
	wr("ExecuteBatch", func(e *apiEnv, n int) error {
		return e2(e.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{{ID: fmt.Sprintf("ng%d", n%9), Vector: e.v(n), NodeType: "t"}}, EdgeUpserts: []*graph.GraphEdge{{ID: fmt.Sprintf("eg%d", n%9), FromNodeID: "n1", ToNodeID: "n5", EdgeType: "k"}}}))
	})
	for _, f := range []graph.ExportFormat{graph.FormatJSON, graph.FormatGraphML, graph.FormatGEXF} {
		f := f
		rd("Export "+string(f), func(e *apiEnv, n int) error { return e.G.Export(bg, &bytes.Buffer{}, f) })
	}
	wr("Import", func(e *apiEnv, n int) error { return e.G.Import(bg, bytes.NewReader(e.gml), graph.FormatJSON) })
	if graphIndex {
		rd("HNSWSearch", func(e *apiEnv, n int) error { return e2(e.G.HNSWSearch(bg, e.v(n), 3, 0)) })
		rd("HNSWHybridSearch", func(e *apiEnv, n int) error {
			return e2(e.G.HNSWHybridSearch(bg, &graph.HybridQuery{Vector: e.v(n), TopK: 3, VectorWeight: 0.5, GraphWeight: 0.5, StartNodeID: "n1"}))
		})
	}
	rd("graph HybridSearch", func(e *apiEnv, n int) error {
		return e2(e.G.HybridSearch(bg, &graph.HybridQuery{Vector: e.v(n), TopK: 3, VectorWeight: 0.5, GraphWeight: 0.5, StartNodeID: "n1"}))
	})
	rd("GraphVectorSearch", func(e *apiEnv, n int) error {
		return e2(e.G.GraphVectorSearch(bg, "n1", e.v(n), graph.TraversalOptions{MaxDepth: 2, Limit: 5}))
	})
	rd("SimilarityInGraph", func(e *apiEnv, n int) error { return e2(e.G.SimilarityInGraph(bg, "n1", so)) })
	rd("GetAllNodes", func(e *apiEnv, n int) error { return e2(e.G.GetAllNodes(bg, nil)) })
	rd("Neighbors", func(e *apiEnv, n int) error {
		return e2(e.G.Neighbors(bg, "n1", graph.TraversalOptions{MaxDepth: 3, Limit: 50}))
	})
	rd("ShortestPath", func(e *apiEnv, n int) error {
		_, err := e.G.ShortestPath(bg, "n1", "n1")
		return err
	})
	rd("Subgraph", func(e *apiEnv, n int) error { return e2(e.G.Subgraph(bg, []string{"n1", "n2", "n4"})) })
	rd("Connected", func(e *apiEnv, n int) error { return e2(e.G.Connected(bg, "n1", "n2", 4)) })
	wr("EnableHNSWIndex", func(e *apiEnv, n int) error {
		if graphIndex {
			return nil
		}
		return e.G.EnableHNSWIndex(e.Dim)
	})
	wr("InitGraphSchema", func(e *apiEnv, n int) error { return e.G.InitGraphSchema(bg) })
	return ops
}
