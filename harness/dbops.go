package main

import (
	"encoding/json"
	"fmt"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

type dbOp struct {
	name  string
	write bool
	f     func(db *cortexdb.DB, n int) error
}

// dbOps lists the operations of the high-level facade, valid on a database filled by dbFill.
func dbOps() []dbOp {
	v := func(n int) []float32 { return embedText(fmt.Sprint("word", n), 6) }
	s := func(x string) *string { return &x }
	ops := []dbOp{
		{"Quick.Add", true, func(db *cortexdb.DB, n int) error { return e2(db.Quick().Add(bg, v(n), "quick")) }},
		{"Quick.Search", false, func(db *cortexdb.DB, n int) error { return e2(db.Quick().Search(bg, v(n), 3)) }},
		{"Quick.AddText", true, func(db *cortexdb.DB, n int) error { return e2(db.Quick().AddText(bg, "alpha quick", nil)) }},
		{"InsertText", true, func(db *cortexdb.DB, n int) error {
			return db.InsertText(bg, fmt.Sprintf("it%d", n), "alpha inserted", map[string]string{"a": "b"})
		}},
		{"InsertTextBatch", true, func(db *cortexdb.DB, n int) error {
			return db.InsertTextBatch(bg, map[string]string{fmt.Sprintf("ib%d", n): "alpha", fmt.Sprintf("ic%d", n): "beta"}, nil)
		}},
		{"SearchText", false, func(db *cortexdb.DB, n int) error { return e2(db.SearchText(bg, "alpha", 3)) }},
		{"HybridSearchText", false, func(db *cortexdb.DB, n int) error { return e2(db.HybridSearchText(bg, "alpha", 3)) }},
		{"SearchTextOnly", false, func(db *cortexdb.DB, n int) error {
			return e2(db.SearchTextOnly(bg, "alpha", cortexdb.TextSearchOptions{TopK: 3}))
		}},
		{"InsertGraphDocument", true, func(db *cortexdb.DB, n int) error {
			return e2(db.InsertGraphDocument(bg, cortexdb.GraphRAGDocument{ID: fmt.Sprintf("gd%d", n%5), Title: "T", Content: "Alice met Bob in Paris"}, cortexdb.GraphRAGIngestOptions{}))
		}},
		{"SearchGraphRAG", false, func(db *cortexdb.DB, n int) error {
			return e2(db.SearchGraphRAG(bg, "Alice", cortexdb.GraphRAGQueryOptions{}))
		}},
		{"SaveKnowledge", true, func(db *cortexdb.DB, n int) error {
			return e2(db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: fmt.Sprintf("kn%d", n), Title: "T", Content: "alpha beta knowledge", Entities: []cortexdb.ToolEntityInput{{Name: "Alice"}}}))
		}},
		{"UpdateKnowledge", true, func(db *cortexdb.DB, n int) error {
			return e2(db.UpdateKnowledge(bg, cortexdb.KnowledgeUpdateRequest{KnowledgeID: "k0", Content: s(fmt.Sprint("alpha new ", n))}))
		}},
		{"GetKnowledge", false, func(db *cortexdb.DB, n int) error {
			return e2(db.GetKnowledge(bg, cortexdb.KnowledgeGetRequest{KnowledgeID: "k1"}))
		}},
		{"SearchKnowledge", false, func(db *cortexdb.DB, n int) error {
			return e2(db.SearchKnowledge(bg, cortexdb.KnowledgeSearchRequest{Query: "alpha"}))
		}},
		{"DeleteKnowledge", true, func(db *cortexdb.DB, n int) error {
			id := fmt.Sprintf("kd%d", n)
			if _, err := db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: id, Content: "to go"}); err != nil {
				return err
			}
			return e2(db.DeleteKnowledge(bg, cortexdb.KnowledgeDeleteRequest{KnowledgeID: id}))
		}},
		{"SaveMemory", true, func(db *cortexdb.DB, n int) error {
			return e2(db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: fmt.Sprintf("me%d", n), UserID: "u", Content: "alpha memory"}))
		}},
		{"UpdateMemory", true, func(db *cortexdb.DB, n int) error {
			return e2(db.UpdateMemory(bg, cortexdb.MemoryUpdateRequest{MemoryID: "m0", Content: s(fmt.Sprint("alpha ", n))}))
		}},
		{"GetMemory", false, func(db *cortexdb.DB, n int) error {
			return e2(db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: "m1"}))
		}},
		{"SearchMemory", false, func(db *cortexdb.DB, n int) error {
			return e2(db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "alpha", UserID: "u"}))
		}},
		{"DeleteMemory", true, func(db *cortexdb.DB, n int) error {
			id := fmt.Sprintf("md%d", n)
			if _, err := db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: id, UserID: "u", Content: "to go"}); err != nil {
				return err
			}
			return e2(db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: id}))
		}},
		{"Vector.Search", false, func(db *cortexdb.DB, n int) error {
			return e2(db.Vector().Search(bg, v(n), core.SearchOptions{TopK: 2}))
		}},
	}
	tool := func(name string, write bool, args string) {
		ops = append(ops, dbOp{"tool " + name, write, func(db *cortexdb.DB, n int) error {
			return e2(db.GraphRAGTools().Call(bg, name, json.RawMessage(args)))
		}})
	}
	tool("search_text", false, `{"query":"alpha","top_k":3}`)
	tool("knowledge_get", false, `{"knowledge_id":"k1"}`)
	tool("memory_search", false, `{"query":"alpha","user_id":"u"}`)
	return ops
}

func dbOpen(c *Case, ix core.IndexType, emb bool) *cortexdb.DB {
	cfg := cortexdb.Config{Path: dbPath(c), Dimensions: 6, SimilarityFn: core.CosineSimilarity, IndexType: ix}
	var opts []cortexdb.Option
	if emb {
		opts = append(opts, cortexdb.WithEmbedder(&textEmb{dim: 6}))
	}
	db, err := cortexdb.Open(cfg, opts...)
	c.Check(err == nil, "open-failed", "Open: %v", err)
	return db
}

func dbFill(c *Case, db *cortexdb.DB) {
	ok := func(err error, what string) { c.Check(err == nil, "spurious-error:"+what, "%s: %v", what, err) }
	for i := 0; i < 3; i++ {
		ok(e2(db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: fmt.Sprintf("k%d", i), Title: "T", Content: "alpha beta gamma", Entities: []cortexdb.ToolEntityInput{{Name: "Alice"}, {Name: "Bob"}}, Relations: []cortexdb.ToolRelationInput{{From: "Alice", To: "Bob", Type: "knows"}}})), "SaveKnowledge")
		ok(e2(db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: fmt.Sprintf("m%d", i), UserID: "u", Content: "alpha memory"})), "SaveMemory")
		ok(db.InsertText(bg, fmt.Sprintf("t%d", i), "alpha text", nil), "InsertText")
	}
}
