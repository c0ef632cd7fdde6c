package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C11", Level: "exploration",
		Rule: "a case is one concurrent history of several goroutines on one store under the race detector: on a few shared keys with every call's interval and answer recorded and each object's history judged by a linearizability search (part linear), on pairs of records only ever written together (part pairs), on separate namespaces judged exactly while all other operations run (part mix), or one public operation blocked at its first database access while a writer queues for the lock (part nested) or with a single connection (part pool), or several agents retaining and recalling the same memory identifiers in their own banks and a conversation with background extraction (parts agents, chat); non-trivial when recorded operations overlapped in time, or the operation was seen blocked before it was released",
		Run: func(r *Run) {
			r.Parallel("linear", r.N(40, 400), 4, c11linear)
			r.Parallel("pairs", r.N(10, 100), 4, c11pairs)
			r.Parallel("mix", r.N(10, 100), 4, c11mix)
			r.Parallel("nested", r.N(10, 10), 4, c11nested)
			r.Parallel("pool", r.N(4, 20), 4, c11pool)
			r.Parallel("index", r.N(12, 160), 4, c11index)
			r.Parallel("after", r.N(18, 90), 4, c11after)
			r.Parallel("adopt", r.N(24, 300), 4, c11adopt)
			r.Parallel("agents", r.N(6, 60), 4, c28shared)
			r.Parallel("chat", r.N(6, 60), 4, c28chat)
		}})
}

func tagVec(tag, dim int) []float32 {
	v := make([]float32, dim)
	for i := range v {
		v[i] = float32((tag*(i+3)+i*7)%23) + 1
	}
	return v
}

func tagEmb(id string, tag, dim int) *core.Embedding {
	return &core.Embedding{ID: id, Vector: tagVec(tag, dim), Content: fmt.Sprintf("common tag%d", tag), Metadata: map[string]string{"tag": fmt.Sprint(tag)}}
}

// whole checks that a record read is one that was written, not a mixture, and returns its tag.
func whole(c *Case, how, id, content string, vec []float32, meta map[string]string) int {
	f := strings.Fields(content)
	tag := -1
	if len(f) == 2 {
		tag, _ = strconv.Atoi(strings.TrimPrefix(f[1], "tag"))
	}
	c.Check(tag > 0 && meta["tag"] == fmt.Sprint(tag) && bitsEq(vec, tagVec(tag, len(vec))), "torn-record", "%s returned a record no write produced: %q content %q metadata %v vector %v", how, id, content, meta, vec)
	return tag
}

func regWrite(tag int) func(string) (string, bool) {
	s := ""
	if tag > 0 {
		s = fmt.Sprint(tag)
	}
	return func(string) (string, bool) { return s, true }
}

func regRead(tag int) func(string) (string, bool) {
	s := ""
	if tag > 0 {
		s = fmt.Sprint(tag)
	}
	return func(st string) (string, bool) { return st, st == s }
}

func c11linear(c *Case) {
	switch c.Idx % 5 {
	case 0, 1:
		c11records(c, cfgNames[c.Idx/5%len(cfgNames)])
	case 2:
		c11graph(c)
	case 3:
		c11owned(c)
	case 4:
		c11sessions(c)
	}
}

func (c *Case) judgeLinear(what string, h *recorder) {
	msg, visited := linearize(h.ops, "")
	c.Check(msg == "", "not-linearizable:"+what, "history of %s has no valid order: %s", what, msg)
	ov := overlap(h.ops)
	if ov > 0 {
		c.Nontrivial()
	}
	c.Count("linear_histories", 1)
	c.Count("linear_operations", len(h.ops))
	c.Count("overlapping_pairs", ov)
	c.Count("linearization_states", visited)
	sig := fnv.New64a()
	for _, o := range h.ops {
		fmt.Fprintf(sig, "%d-%d %s;", o.inv, o.ret, o.what)
	}
	c.Seen("distinct_interleavings", fmt.Sprint(sig.Sum64()))
	c.Op("history of %s: %d operations, %d overlapping pairs, order %x", what, len(h.ops), ov, sig.Sum64())
}

func c11records(c *Case, kind string) {
	r := c.R
	dim := 4
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	var tags atomic.Int64
	var clock atomic.Int64
	if r.Intn(2) == 0 { // a trained index behaves differently from an untrained one
		var b []*core.Embedding
		for i := 0; i < 20; i++ {
			b = append(b, tagEmb(fmt.Sprintf("bg%d", i), int(tags.Add(1)), dim))
		}
		w.ok(w.S.UpsertBatch(bg, b), "UpsertBatch")
		if kind == "ivf" {
			w.ok(w.S.TrainIndex(bg, 2), "TrainIndex")
		}
		if w.Cfg.Quantization.Enabled {
			w.ok(w.S.TrainQuantizer(bg), "TrainQuantizer")
		}
	}
	if r.Intn(4) == 0 {
		w.S.GetDB().SetMaxOpenConns(1 + r.Intn(3))
	}
	keys := []string{"a", "b", "c"}[:1+r.Intn(3)]
	rows, found := map[string]*recorder{}, map[string]*recorder{}
	for _, k := range keys {
		rows[k], found[k] = &recorder{clock: &clock}, &recorder{clock: &clock}
	}
	if kind == "flat" {
		found = rows // one source of truth: searches and lookups must agree with each other as well
	}
	both := func(k string, inv, ret int64, what string, step func(string) (string, bool)) {
		rows[k].add(inv, ret, what, step)
		if kind != "flat" {
			found[k].add(inv, ret, what, step)
		}
	}
	c.Op("%s, keys %v", kind, keys)
	ng := 4 + r.Intn(4)
	fork(c, ng, func(g int, r *rand.Rand) {
		for i := 0; i < 12; i++ {
			k := pick(r, keys)
			inv := clock.Add(1)
			switch r.Intn(12) {
			case 0, 1, 2:
				t := int(tags.Add(1))
				err := w.S.Upsert(bg, tagEmb(k, t, dim))
				w.ok(err, "Upsert")
				both(k, inv, clock.Add(1), fmt.Sprintf("Upsert %d", t), regWrite(t))
			case 3:
				t1, t2 := int(tags.Add(1)), int(tags.Add(1))
				k2 := pick(r, keys)
				err := w.S.UpsertBatch(bg, []*core.Embedding{tagEmb(k, t1, dim), tagEmb(k2, t2, dim)})
				w.ok(err, "UpsertBatch")
				ret := clock.Add(1)
				if k2 != k {
					both(k, inv, ret, fmt.Sprintf("UpsertBatch %d", t1), regWrite(t1))
				}
				both(k2, inv, ret, fmt.Sprintf("UpsertBatch %d", t2), regWrite(t2))
			case 4, 5:
				err := w.S.Delete(bg, k)
				ret := clock.Add(1)
				if err == nil {
					both(k, inv, ret, "Delete", func(s string) (string, bool) { return "", s != "" })
				} else {
					c.Check(errors.Is(err, core.ErrNotFound), "spurious-error:Delete", "Delete(%q): %v", k, err)
					both(k, inv, ret, "Delete(missing)", regRead(0))
				}
			case 6:
				k2 := pick(r, keys)
				err := w.S.DeleteBatch(bg, []string{k, k2})
				ret := clock.Add(1)
				c.Check(err == nil || errors.Is(err, core.ErrNotFound), "spurious-error:DeleteBatch", "DeleteBatch: %v", err)
				ks := []string{k}
				if k2 != k {
					ks = append(ks, k2)
				}
				for _, k := range ks {
					if err == nil {
						both(k, inv, ret, "DeleteBatch", regWrite(0))
					} else {
						both(k, inv, ret, "DeleteBatch(missing)", regRead(0))
					}
				}
			case 7, 8:
				e, err := w.S.GetByID(bg, k)
				t := 0
				if err == nil {
					t = whole(c, "GetByID", k, e.Content, e.Vector, e.Metadata)
				} else {
					c.Check(errors.Is(err, core.ErrNotFound), "spurious-error:GetByID", "GetByID(%q): %v", k, err)
				}
				rows[k].add(inv, clock.Add(1), fmt.Sprintf("GetByID=%d", t), regRead(t))
			case 9, 10:
				q := tagVec(r.Intn(40), dim)
				res, err := w.S.Search(bg, q, core.SearchOptions{TopK: 1000})
				w.ok(err, "Search")
				w.c11found("Search", clock.Add(1), inv, q, res, keys, found)
			case 11:
				res, err := w.S.HybridSearch(bg, nil, "common", core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 1000}})
				w.ok(err, "HybridSearch")
				w.c11found("keyword search", clock.Add(1), inv, nil, res, keys, rows)
			}
			jitter(r)
		}
	})
	w.S.GetDB().SetMaxOpenConns(25)
	// when all is quiet, every way of reading gives the last state
	for pass := 0; pass < 2; pass++ {
		for _, k := range keys {
			inv := clock.Add(1)
			e, err := w.S.GetByID(bg, k)
			t := 0
			if err == nil {
				t = whole(c, "GetByID", k, e.Content, e.Vector, e.Metadata)
			}
			both(k, inv, clock.Add(1), fmt.Sprintf("final GetByID=%d", t), regRead(t))
		}
		inv := clock.Add(1)
		q := tagVec(3, dim)
		res, err := w.S.Search(bg, q, core.SearchOptions{TopK: 1000})
		w.ok(err, "Search")
		w.c11found("final search", clock.Add(1), inv, q, res, keys, found)
		inv = clock.Add(1)
		res, err = w.S.HybridSearch(bg, nil, "common", core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 1000}})
		w.ok(err, "HybridSearch")
		w.c11found("final keyword search", clock.Add(1), inv, nil, res, keys, rows)
		if pass == 0 {
			w.reopen()
		}
	}
	for _, k := range keys {
		c.judgeLinear("a record", rows[k])
		if kind != "flat" {
			c.judgeLinear("a record in an index", found[k])
		}
	}
	err := ftsCheck(w.S.GetDB(), "chunks_fts")
	c.Check(err == nil, "fts-mismatch", "full-text index after concurrent writes: %v", err)
	w.close()
}

func (w *World) c11found(how string, ret, inv int64, q []float32, res []core.ScoredEmbedding, keys []string, h map[string]*recorder) {
	c := w.c
	got := map[string]int{}
	for _, e := range res {
		c.Check(got[e.ID] == 0, "duplicate-result", "%s returned %q twice", how, e.ID)
		got[e.ID] = whole(c, how, e.ID, e.Content, e.Vector, e.Metadata)
		if q != nil {
			want := refSim("cosine", q, e.Vector)
			c.Check(near(e.Score, want, 1) || e.Score-want < 1e-5 && want-e.Score < 1e-5, "torn-score", "%s gave %q the score %v, its vector has %v", how, e.ID, e.Score, want)
		}
	}
	for _, k := range keys {
		t := got[k]
		h[k].add(inv, ret, fmt.Sprintf("%s=%d", how, t), regRead(t))
	}
}

// c11graph judges two nodes and an edge between them as one object.
func c11graph(c *Case) {
	r := c.R
	g := newGWorld(c, "cosine", 3)
	g.Index = r.Intn(2) == 0
	g.open()
	defer func() {
		if g.S != nil {
			g.S.Close()
		}
	}()
	var clock, tags atomic.Int64
	h := &recorder{clock: &clock}
	// state: "n1|n2|e"
	st := func(s string) []string {
		if s == "" {
			s = "||"
		}
		return strings.Split(s, "|")
	}
	mk := func(p []string) string {
		s := strings.Join(p, "|")
		if s == "||" {
			return ""
		}
		return s
	}
	node := func(id string, t int) *graph.GraphNode {
		return &graph.GraphNode{ID: id, Vector: tagVec(t, 3), Content: fmt.Sprint(t), NodeType: "t", Properties: map[string]interface{}{"tag": float64(t)}}
	}
	edge := func(t int) *graph.GraphEdge {
		return &graph.GraphEdge{ID: "e", FromNodeID: "x0", ToNodeID: "x1", EdgeType: fmt.Sprint(t), Weight: float64(t)}
	}
	tagOf := func(n *graph.GraphNode) string {
		t, _ := strconv.Atoi(n.Content)
		c.Check(t > 0 && bitsEq(n.Vector, tagVec(t, 3)) && n.Properties["tag"] == float64(t), "torn-record", "node read is one no write produced: %+v", n)
		return n.Content
	}
	notFound := func(err error) {
		c.Check(strings.Contains(err.Error(), "not found"), "spurious-error:graph", "graph operation: %v", err)
	}
	c.Op("graph, index %v", g.Index)
	fork(c, 4+r.Intn(3), func(_ int, r *rand.Rand) {
		for i := 0; i < 10; i++ {
			k := r.Intn(2)
			id := fmt.Sprintf("x%d", k)
			t := int(tags.Add(1))
			ts := fmt.Sprint(t)
			setN := func(s string) (string, bool) { p := st(s); p[k] = ts; return mk(p), true }
			setE := func(s string) (string, bool) {
				p := st(s)
				if p[0] == "" || p[1] == "" {
					return s, false
				}
				p[2] = ts
				return mk(p), true
			}
			noE := func(s string) (string, bool) { p := st(s); return s, p[0] == "" || p[1] == "" }
			h.call(func() (string, func(string) (string, bool)) {
				switch r.Intn(11) {
				case 0, 1:
					g.ok(g.G.UpsertNode(bg, node(id, t)), "UpsertNode")
					return "UpsertNode " + id + "=" + ts, setN
				case 2:
					res, err := g.G.UpsertNodesBatch(bg, []*graph.GraphNode{node("x0", t), node("x1", t)})
					g.ok(err, "UpsertNodesBatch")
					c.Check(res.SuccessCount == 2, "batch-result", "UpsertNodesBatch: %+v", res)
					return "UpsertNodesBatch " + ts, func(s string) (string, bool) { p := st(s); p[0], p[1] = ts, ts; return mk(p), true }
				case 3:
					err := g.G.DeleteNode(bg, id)
					if err != nil {
						notFound(err)
						return "DeleteNode " + id + " missing", func(s string) (string, bool) { return s, st(s)[k] == "" }
					}
					return "DeleteNode " + id, func(s string) (string, bool) {
						p := st(s)
						if p[k] == "" {
							return s, false
						}
						p[k], p[2] = "", ""
						return mk(p), true
					}
				case 4, 5:
					if err := g.G.UpsertEdge(bg, edge(t)); err != nil {
						return "UpsertEdge refused: " + err.Error(), noE
					}
					return "UpsertEdge " + ts, setE
				case 6:
					err := g.G.DeleteEdge(bg, "e")
					if err != nil {
						notFound(err)
						return "DeleteEdge missing", func(s string) (string, bool) { return s, st(s)[2] == "" }
					}
					return "DeleteEdge", func(s string) (string, bool) {
						p := st(s)
						if p[2] == "" {
							return s, false
						}
						p[2] = ""
						return mk(p), true
					}
				case 7:
					n, err := g.G.GetNode(bg, id)
					v := ""
					if err != nil {
						notFound(err)
					} else {
						v = tagOf(n)
					}
					return "GetNode " + id + "=" + v, func(s string) (string, bool) { return s, st(s)[k] == v }
				case 8:
					es, err := g.G.GetEdges(bg, id, "both")
					g.ok(err, "GetEdges")
					v := ""
					for _, e := range es {
						c.Check(v == "", "duplicate-result", "GetEdges returned an edge twice")
						v = e.EdgeType
						c.Check(fmt.Sprint(int(e.Weight)) == v, "torn-record", "edge %+v", e)
					}
					return "GetEdges=" + v, func(s string) (string, bool) { return s, st(s)[2] == v }
				case 9:
					ns, err := g.G.GetAllNodes(bg, nil)
					g.ok(err, "GetAllNodes")
					v := []string{"", ""}
					for _, n := range ns {
						v[int(n.ID[1]-'0')] = tagOf(n)
					}
					return fmt.Sprintf("GetAllNodes=%q", v), func(s string) (string, bool) { p := st(s); return s, p[0] == v[0] && p[1] == v[1] }
				default:
					res, err := g.G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{node("x0", t), node("x1", t)}, EdgeUpserts: []*graph.GraphEdge{edge(t)}})
					g.ok(err, "ExecuteBatch")
					c.Check(res.SuccessCount == 3, "batch-result", "ExecuteBatch: %+v", res)
					return "ExecuteBatch " + ts, func(s string) (string, bool) { return mk([]string{ts, ts, ts}), true }
				}
			})
			jitter(r)
		}
	})
	final := func(when string) {
		v := []string{"", "", ""}
		ns, err := g.G.GetAllNodes(bg, nil)
		g.ok(err, "GetAllNodes")
		live := map[string][]float32{}
		for _, n := range ns {
			v[int(n.ID[1]-'0')] = tagOf(n)
			live[n.ID] = n.Vector
		}
		es, err := g.G.GetEdgesBatch(bg, []string{"e"})
		g.ok(err, "GetEdgesBatch")
		if len(es) > 0 {
			v[2] = es[0].EdgeType
		}
		inv := clock.Add(1)
		h.add(inv, clock.Add(1), fmt.Sprintf("%s=%q", when, v), func(s string) (string, bool) { return s, s == mk(v) })
		if g.Index {
			q := tagVec(5, 3)
			res, err := g.G.HNSWSearch(bg, q, 10, -1)
			g.ok(err, "HNSWSearch")
			for _, x := range res {
				vec := live[x.Node.ID]
				c.Check(vec != nil, "index-ghost", "%s: the graph index finds %q, which does not exist", when, x.Node.ID)
				delete(live, x.Node.ID)
			}
			c.Check(len(live) == 0, "index-lost", "%s: the graph index misses %v", when, live)
		}
	}
	final("final state")
	g.reopen()
	final("reopened")
	c.judgeLinear("nodes and an edge", h)
	g.close()
}

// c11owned judges a collection or document together with a record that belongs to it.
func c11owned(c *Case) {
	r := c.R
	doc := r.Intn(2) == 0
	kind := cfgNames[c.Idx/5%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, 3, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	var clock, tags atomic.Int64
	h := &recorder{clock: &clock}
	c.Op("%s, document %v", kind, doc)
	// state: "" no owner, "+" owner, "+7" owner with record 7
	fork(c, 4+r.Intn(3), func(_ int, r *rand.Rand) {
		for i := 0; i < 10; i++ {
			t := int(tags.Add(1))
			h.call(func() (string, func(string) (string, bool)) {
				switch r.Intn(8) {
				case 0, 1:
					var err error
					if doc {
						err = w.S.CreateDocument(bg, &core.Document{ID: "own", Title: "t", Version: 1})
					} else {
						_, err = w.S.CreateCollection(bg, "own", 3)
					}
					if err != nil {
						return "create refused: " + err.Error(), func(s string) (string, bool) { return s, s != "" }
					}
					return "create", func(s string) (string, bool) { return "+", s == "" }
				case 2:
					if doc {
						w.ok(w.S.DeleteDocument(bg, "own"), "DeleteDocument")
						return "DeleteDocument", func(s string) (string, bool) { return "", true }
					}
					err := w.S.DeleteCollection(bg, "own")
					if err != nil {
						return "DeleteCollection refused: " + err.Error(), func(s string) (string, bool) { return s, s == "" }
					}
					return "DeleteCollection", func(s string) (string, bool) { return "", s != "" }
				case 3, 4:
					e := tagEmb("rec", t, 3)
					if doc {
						e.DocID = "own"
					} else {
						e.Collection = "own"
					}
					var err error
					if r.Intn(2) == 0 {
						err = w.S.Upsert(bg, e)
					} else {
						err = w.S.UpsertBatch(bg, []*core.Embedding{e})
					}
					if err != nil {
						return "Upsert refused: " + err.Error(), func(s string) (string, bool) { return s, s == "" }
					}
					return fmt.Sprintf("Upsert %d", t), func(s string) (string, bool) { return fmt.Sprintf("+%d", t), s != "" }
				case 5:
					e, err := w.S.GetByID(bg, "rec")
					if err != nil {
						c.Check(errors.Is(err, core.ErrNotFound), "spurious-error:GetByID", "GetByID: %v", err)
						return "GetByID missing", func(s string) (string, bool) { return s, len(s) < 2 }
					}
					t := whole(c, "GetByID", "rec", e.Content, e.Vector, e.Metadata)
					return fmt.Sprintf("GetByID=%d", t), func(s string) (string, bool) { return s, s == fmt.Sprintf("+%d", t) }
				case 6:
					if doc {
						got, err := w.S.GetByDocID(bg, "own")
						w.ok(err, "GetByDocID")
						if len(got) == 0 {
							return "GetByDocID none", func(s string) (string, bool) { return s, len(s) < 2 }
						}
						return "GetByDocID=" + got[0].Content, func(s string) (string, bool) { return s, "common tag"+strings.TrimPrefix(s, "+") == got[0].Content }
					}
					st, err := w.S.GetCollectionStats(bg, "own")
					if err != nil {
						return "GetCollectionStats missing", func(s string) (string, bool) { return s, s == "" }
					}
					return fmt.Sprintf("GetCollectionStats=%d", st.Count), func(s string) (string, bool) { return s, s != "" && (len(s) > 1) == (st.Count == 1) && st.Count < 2 }
				default:
					if doc {
						_, err := w.S.GetDocument(bg, "own")
						return fmt.Sprint("GetDocument ", err), func(s string) (string, bool) { return s, (s != "") == (err == nil) }
					}
					cols, err := w.S.ListCollections(bg)
					w.ok(err, "ListCollections")
					have := false
					for _, x := range cols {
						have = have || x.Name == "own"
					}
					return fmt.Sprint("ListCollections ", have), func(s string) (string, bool) { return s, (s != "") == have }
				}
			})
			jitter(r)
		}
	})
	for pass := 0; pass < 2; pass++ {
		h.call(func() (string, func(string) (string, bool)) {
			e, err := w.S.GetByID(bg, "rec")
			var owner error
			if doc {
				_, owner = w.S.GetDocument(bg, "own")
			} else {
				_, owner = w.S.GetCollection(bg, "own")
			}
			res, serr := w.S.Search(bg, tagVec(1, 3), core.SearchOptions{TopK: 10})
			w.ok(serr, "Search")
			c.Check((len(res) == 1) == (err == nil), "search-mismatch", "search returns %d records, lookup says %v", len(res), err)
			want := ""
			if owner == nil {
				want = "+"
			}
			if err == nil {
				want += strings.TrimPrefix(strings.Fields(e.Content)[1], "tag")
			}
			return "final " + want, func(s string) (string, bool) { return s, s == want }
		})
		if pass == 0 {
			w.reopen()
		}
	}
	c.judgeLinear("an owner and its record", h)
	w.close()
}

// c11sessions: messages added by many goroutines form one order that every reader sees a prefix of.
func c11sessions(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), "flat", 3, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	w.ok(w.S.CreateSession(bg, &core.Session{ID: "s", UserID: "u"}), "CreateSession")
	var clock, created atomic.Int64
	type ev struct {
		inv, ret int64
		id       string
	}
	type rd struct {
		inv, ret int64
		ids      []string
	}
	var mu sync.Mutex
	var adds []ev
	var reads []rd
	history := func() {
		inv := clock.Add(1)
		ms, err := w.S.GetSessionHistory(bg, "s", 10000)
		w.ok(err, "GetSessionHistory")
		x := rd{inv: inv, ret: clock.Add(1)}
		for _, m := range ms {
			c.Check(m.Content == "about "+m.ID, "torn-record", "message %q has content %q", m.ID, m.Content)
			x.ids = append(x.ids, m.ID)
		}
		mu.Lock()
		reads = append(reads, x)
		mu.Unlock()
	}
	ng := 4 + r.Intn(4)
	fork(c, ng, func(g int, r *rand.Rand) {
		for i := 0; i < 12; i++ {
			switch r.Intn(5) {
			case 0:
				history()
			case 1:
				if w.S.CreateSession(bg, &core.Session{ID: fmt.Sprintf("t%d", i), UserID: "u"}) == nil {
					created.Add(1)
				}
			case 2:
				ms, err := w.S.KeywordSearchMessages(bg, "about", "u", "", 5)
				w.ok(err, "KeywordSearchMessages")
				_ = ms
			default:
				id := fmt.Sprintf("m%dx%d", g, i)
				inv := clock.Add(1)
				w.ok(w.S.AddMessage(bg, &core.Message{ID: id, SessionID: "s", Role: "user", Content: "about " + id, Vector: tagVec(i, 3)}), "AddMessage")
				ret := clock.Add(1)
				mu.Lock()
				adds = append(adds, ev{inv, ret, id})
				mu.Unlock()
			}
			jitter(r)
		}
	})
	history()
	all := reads[len(reads)-1].ids
	pos := map[string]int{}
	for i, id := range all {
		_, dup := pos[id]
		c.Check(!dup, "duplicate-result", "message %q is in the history twice", id)
		pos[id] = i
	}
	c.Check(len(all) == len(adds), "lost-message", "%d messages were added, the history has %d", len(adds), len(all))
	for _, a := range adds {
		p, ok := pos[a.id]
		c.Check(ok, "lost-message", "message %q was added and is not in the history", a.id)
		for _, b := range adds {
			if a.ret < b.inv {
				c.Check(p < pos[b.id], "order", "message %q was added before %q began, and follows it", a.id, b.id)
			}
		}
	}
	over := 0
	for _, x := range reads {
		for i, id := range x.ids {
			c.Check(i < len(all) && all[i] == id, "not-prefix", "a history read saw %q, the final order is %q", x.ids, all)
		}
		for _, a := range adds {
			if a.ret < x.inv {
				c.Check(pos[a.id] < len(x.ids), "stale-read", "a history read did not see %q, added before it began", a.id)
			}
			if a.inv < x.ret && x.inv < a.ret {
				over++
			}
		}
	}
	n := 0
	err := w.S.GetDB().QueryRow("SELECT COUNT(*) FROM sessions WHERE id LIKE 't%'").Scan(&n)
	c.Must(err, "count sessions")
	c.Check(int(created.Load()) == n, "double-create", "%d creations reported success, %d sessions exist", created.Load(), n)
	err = ftsCheck(w.S.GetDB(), "messages_fts")
	c.Check(err == nil, "fts-mismatch", "message index: %v", err)
	c.Count("histories_read_during_adds", len(reads))
	c.Count("overlapping_pairs", over)
	c.Nontrivial()
	w.close()
}

// c11pairs: records that are only written and deleted together are seen together by every single read.
func c11pairs(c *Case) {
	dim := 3
	kind := cfgNames[c.Idx%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	w.ok(w.S.CreateDocument(bg, &core.Document{ID: "d", Title: "t", Version: 1}), "CreateDocument")
	_, err := w.S.CreateCollection(bg, "k", dim)
	w.ok(err, "CreateCollection")
	var tags atomic.Int64
	var seen, gone atomic.Int64
	same := func(how string, embs []*core.Embedding) {
		t := map[string]int{}
		for _, e := range embs {
			c.Check(t[e.ID] == 0, "duplicate-result", "%s returned %q twice", how, e.ID)
			t[e.ID] = whole(c, how, e.ID, e.Content, e.Vector, e.Metadata)
		}
		c.Check(t["a"] == t["b"] && t["b"] == t["z"], "half-batch", "%s saw part of a batch: a=%d b=%d z=%d", how, t["a"], t["b"], t["z"])
		if len(t) > 0 {
			seen.Add(1)
		} else {
			gone.Add(1)
		}
	}
	scored := func(how string, res []core.ScoredEmbedding) {
		var out []*core.Embedding
		for i := range res {
			out = append(out, &res[i].Embedding)
		}
		same(how, out)
	}
	fork(c, 6, func(g int, r *rand.Rand) {
		for i := 0; i < 14; i++ {
			if g < 2 {
				switch r.Intn(5) {
				case 0:
					err := w.S.DeleteBatch(bg, []string{"a", "b", "z"})
					c.Check(err == nil || errors.Is(err, core.ErrNotFound), "spurious-error:DeleteBatch", "DeleteBatch: %v", err)
				case 1:
					w.ok(w.S.DeleteByDocID(bg, "d"), "DeleteByDocID")
				case 2:
					w.ok(w.S.DeleteByFilter(bg, core.NewMetadataFilter().Equal("p", "1")), "DeleteByFilter")
				default:
					t := int(tags.Add(1))
					var b []*core.Embedding
					for _, id := range []string{"a", "b", "z"} {
						e := tagEmb(id, t, dim)
						e.DocID, e.Collection = "d", "k"
						e.Metadata["p"] = "1"
						e.Metadata["type"] = "pair"
						b = append(b, e)
					}
					w.ok(w.S.UpsertBatch(bg, b), "UpsertBatch")
				}
				jitter(r)
				continue
			}
			o := core.SearchOptions{TopK: 100}
			switch r.Intn(8) {
			case 0:
				got, err := w.S.GetByDocID(bg, "d")
				w.ok(err, "GetByDocID")
				same("GetByDocID", got)
			case 1:
				got, err := w.S.GetDocumentsByType(bg, "pair")
				w.ok(err, "GetDocumentsByType")
				same("GetDocumentsByType", got)
			case 2:
				st, err := w.S.GetCollectionStats(bg, "k")
				w.ok(err, "GetCollectionStats")
				c.Check(st.Count%3 == 0, "half-batch", "GetCollectionStats counts %d", st.Count)
			case 3:
				res, err := w.S.HybridSearch(bg, nil, "common", core.HybridSearchOptions{SearchOptions: o})
				w.ok(err, "HybridSearch")
				scored("keyword search", res)
			case 4:
				res, err := w.S.SearchWithAdvancedFilter(bg, tagVec(1, dim), core.AdvancedSearchOptions{SearchOptions: o, PreFilter: core.NewMetadataFilter().Equal("p", "1").Build()})
				w.ok(err, "SearchWithAdvancedFilter")
				if kind == "flat" {
					scored("SearchWithAdvancedFilter", res)
				}
			case 5:
				if kind == "flat" {
					res, err := w.S.Search(bg, tagVec(1, dim), o)
					w.ok(err, "Search")
					scored("Search", res)
				}
			case 6:
				a, err := w.S.Aggregate(bg, core.AggregationRequest{Type: core.AggregationCount})
				w.ok(err, "Aggregate")
				c.Check(a != nil, "aggregate", "no answer")
			default:
				st, err := w.S.Stats(bg)
				w.ok(err, "Stats")
				c.Check(st.Count%3 == 0, "half-batch", "Stats counts %d", st.Count)
			}
			jitter(r)
		}
	})
	c.Count("batches_seen_whole", int(seen.Load()))
	c.Count("batches_seen_absent", int(gone.Load()))
	if seen.Load() > 0 && gone.Load() > 0 {
		c.Nontrivial()
	}
	w.close()
}

// c11mix: actors with their own names, judged exactly, while everything else runs too.
func c11mix(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	gi := r.Intn(2) == 0
	e := newAPIEnv(c, kind, gi)
	defer e.S.Close()
	ops := apiOps(kind, gi)
	var reads []apiOp
	for _, o := range ops {
		switch o.name {
		case "Load", "Load skip", "ImportIndex", "Import", "Init", "InitGraphSchema", "DeleteByDocID", "ClearByDocID":
			continue
		}
		reads = append(reads, o)
	}
	if r.Intn(3) == 0 {
		e.S.GetDB().SetMaxOpenConns(1 + r.Intn(4))
	}
	c.Op("%s graph index %v", kind, gi)
	var ws [2]*World
	for i := range ws {
		rr := newRand(r.Int63())
		w := newWorld(c, e.Cfg)
		w.R, w.S, w.NoClear, w.Shared, w.Dim = rr, e.S, true, fmt.Sprintf("w%d", i), e.Dim
		pre := func(s []string) {
			for j := range s {
				s[j] = w.Shared + s[j]
			}
		}
		pre(w.IDs)
		pre(w.DocPool)
		pre(w.CollPool)
		ws[i] = w
	}
	gw := newGWorld(c, "cosine", e.Dim)
	gw.R, gw.S, gw.G, gw.Shared = newRand(r.Int63()), e.S, e.G, true
	for i := range gw.NIDs {
		gw.NIDs[i] = "g" + gw.NIDs[i]
	}
	for i := range gw.EIDs {
		gw.EIDs[i] = "g" + gw.EIDs[i]
	}
	ch := newChat(c, e.S, "cosine", e.Dim)
	ch.R = newRand(r.Int63())
	for i := range ch.SIDs {
		ch.SIDs[i] = "h" + ch.SIDs[i]
	}
	var ran atomic.Int64
	fork(c, 8, func(g int, r *rand.Rand) {
		switch {
		case g < 2:
			w := ws[g]
			for i := 0; i < 25; i++ {
				w.Step()
				w.checkOwn()
				jitter(r)
			}
		case g == 2:
			for i := 0; i < 20; i++ {
				gw.Step()
				gw.checkOwn()
				jitter(r)
			}
		case g == 3:
			for i := 0; i < 20; i++ {
				ch.Step()
				jitter(r)
			}
			ch.CheckHistory()
		default:
			for i := 0; i < 25; i++ {
				o := pick(r, reads)
				err := o.f(e, e.id())
				c.Check(err == nil, "spurious-error:"+o.name, "%s during other operations: %v", o.name, err)
				c.Seen("operations_run_concurrently", o.name)
				ran.Add(1)
				jitter(r)
			}
		}
	})
	c.Count("concurrent_other_operations", int(ran.Load()))
	c.Nontrivial()
	judge := func() {
		for _, w := range ws {
			w.S = e.S
			w.checkOwn()
		}
		gw.S, gw.G = e.S, e.G
		gw.checkOwn()
		ch.S = e.S
		ch.CheckHistory()
		orphans(c, e.S.GetDB())
		for _, t := range []string{"chunks_fts", "messages_fts"} {
			err := ftsCheck(e.S.GetDB(), t)
			c.Check(err == nil, "fts-mismatch", "%s after concurrent use: %v", t, err)
		}
		// the index holds exactly the stored records
		st, err := e.S.Stats(bg)
		c.Check(err == nil, "spurious-error:Stats", "Stats: %v", err)
		res, err := e.S.Search(bg, e.v(1), core.SearchOptions{TopK: int(st.Count) + 50})
		c.Check(err == nil, "spurious-error:Search", "Search: %v", err)
		c.Check(int64(len(res)) <= st.Count, "index-ghost", "a search over all returns %d records of %d", len(res), st.Count)
		if kind == "flat" {
			c.Check(int64(len(res)) == st.Count, "index-lost", "a search over all returns %d records of %d", len(res), st.Count)
		}
	}
	e.S.GetDB().SetMaxOpenConns(25)
	judge()
	err := e.S.Close()
	c.Check(err == nil, "close-failed", "Close: %v", err)
	e.open(gi)
	judge()
}

// checkOwn compares the actor's own records, documents and collections with its model.
func (w *World) checkOwn() {
	c := w.c
	for _, id := range w.IDs {
		e, err := w.S.GetByID(bg, id)
		x := w.Recs[id]
		if x == nil {
			c.Check(errors.Is(err, core.ErrNotFound), "ghost-record", "GetByID(%q) of a record that is not live: %+v, %v", id, e, err)
			continue
		}
		c.Check(err == nil, "lost-record", "GetByID(%q): %v; last written %v", id, err, x)
		d := diffRec(e, x, true)
		c.Check(d == "", "wrong-record", "GetByID(%q): %s", id, d)
	}
	d := pick(w.R, w.DocPool)
	got, err := w.S.GetByDocID(bg, d)
	w.ok(err, "GetByDocID")
	w.checkSet("GetByDocID("+d+")", got, w.liveWith(func(x *Rec) bool { return x.Doc == d }))
	n := pick(w.R, w.CollPool)
	st, err := w.S.GetCollectionStats(bg, n)
	c.Check((err == nil) == w.Colls[n], "wrong-collection", "GetCollectionStats(%q): %v, exists %v", n, err, w.Colls[n])
	if err == nil {
		want := len(w.liveWith(func(x *Rec) bool { return x.Coll == n }))
		c.Check(st.Count == int64(want), "wrong-collection-count", "GetCollectionStats(%q)=%+v want count %d", n, st, want)
	}
	// a filtered search over the actor's records returns nothing that is not its own current record
	q := randVec(w.R, w.Dim, 0)
	res, err := w.S.Search(bg, q, core.SearchOptions{TopK: 10000, Filter: map[string]string{"owner": w.Shared}})
	w.ok(err, "Search")
	seen := map[string]bool{}
	for _, e := range res {
		x := w.Recs[e.ID]
		c.Check(x != nil && !seen[e.ID], "ghost-record", "Search returned %q, which is not live or a duplicate", e.ID)
		seen[e.ID] = true
		d := diffRec(&e.Embedding, x, false)
		c.Check(d == "", "wrong-record", "Search, record %q: %s", e.ID, d)
	}
	if w.Cfg.IndexType == core.IndexTypeFlat {
		c.Check(len(seen) == len(w.Recs), "lost-record", "Search over all own records returned %d of %d", len(seen), len(w.Recs))
	}
}

func (g *GWorld) checkOwn() {
	c := g.c
	for _, id := range g.NIDs {
		n, err := g.G.GetNode(bg, id)
		x := g.Nodes[id]
		if x == nil {
			c.Check(err != nil, "ghost-node", "GetNode(%q) returned %+v", id, n)
			continue
		}
		c.Check(err == nil, "lost-node", "GetNode(%q): %v", id, err)
		d := diffNode(n, x)
		c.Check(d == "", "wrong-node", "GetNode(%q): %s", id, d)
	}
	id := pick(g.R, g.NIDs)
	es, err := g.G.GetEdges(bg, id, "out")
	g.ok(err, "GetEdges")
	g.edgeSet("GetEdges", es, func(e *graph.GraphEdge) bool { return e.FromNodeID == id })
}

// stuckInPool waits until a goroutine of the repository waits for a database connection.
func stuckInPool() bool {
	for i := 0; i < 400; i++ {
		for _, g := range strings.Split(allStacks(), "\n\n") {
			if strings.Contains(g, "database/sql.(*DB).conn") && strings.Contains(g, "[select") {
				return true
			}
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// c11nested: an operation that waits for a connection, a writer that queues behind its lock, then both must finish.
func c11nested(c *Case) {
	kind := cfgNames[c.Idx%len(cfgNames)]
	gi := c.Idx/len(cfgNames)%2 == 0
	e := newAPIEnv(c, kind, gi)
	defer e.S.Close()
	db := e.S.GetDB()
	for _, o := range apiOps(kind, gi) {
		c.Op("%s", o.name)
		for round := 0; round < 2; round++ {
			db.SetMaxOpenConns(1)
			conn, err := db.Conn(bg)
			c.Must(err, "pin the connection")
			done := make(chan error, 1)
			go func() { done <- o.f(e, e.id()) }()
			stuck := stuckInPool()
			wdone := make(chan error, 1)
			go func() {
				if round == 0 {
					_, err := e.S.CreateCollection(bg, fmt.Sprintf("nest%d", e.id()), e.Dim)
					wdone <- err
				} else {
					wdone <- e.G.UpsertNode(bg, &graph.GraphNode{ID: fmt.Sprintf("nest%d", e.id()), Vector: e.v(1), NodeType: "t"})
				}
			}()
			time.Sleep(3 * time.Millisecond)
			if round == 1 {
				db.SetMaxOpenConns(25)
			}
			c.Must(conn.Close(), "release the connection")
			within(c, o.name+" with a writer waiting", func() {
				err := <-done
				werr := <-wdone
				if err != nil {
					c.Report("spurious-error:"+o.name, "%s: %v", o.name, err)
				}
				if werr != nil {
					c.Report("spurious-error:writer", "the writer waiting for %s: %v", o.name, werr)
				}
			})
			if stuck {
				c.Count("operations_seen_waiting", 1)
				c.Seen("operations_blocked_then_released", o.name)
				c.Nontrivial()
			}
		}
	}
}

// c11pool: every operation, alone and together, finishes with few connections.
func c11pool(c *Case) {
	kind := cfgNames[c.Idx%len(cfgNames)]
	e := newAPIEnv(c, kind, true)
	defer e.S.Close()
	ops := apiOps(kind, true)
	e.S.GetDB().SetMaxOpenConns(1)
	for _, o := range ops {
		c.Op("%s with one connection", o.name)
		within(c, o.name+" with one connection", func() {
			if err := o.f(e, e.id()); err != nil {
				c.Report("spurious-error:"+o.name, "%s with one connection: %v", o.name, err)
			}
		})
	}
	n := 2
	e.S.GetDB().SetMaxOpenConns(n)
	within(c, "operations on few connections", func() {
		defer func() { recover() }()
		fork(c, 3*n, func(g int, r *rand.Rand) {
			for i := 0; i < 8; i++ {
				o := pick(r, ops)
				switch o.name {
				case "ImportIndex", "Init", "InitGraphSchema", "Load", "Load skip", "Import":
					continue
				}
				err := o.f(e, e.id())
				if err != nil {
					c.Report("spurious-error:"+o.name, "%s with few connections: %v", o.name, err)
				}
			}
		})
	})
	c.Nontrivial()
}

// c11index: concurrent writers of the same few records and nodes; when all is quiet, the vector indexes must
// find each of them by the vector that was stored last.
func c11index(c *Case) {
	r := c.R
	kind := []string{"hnsw", "ivf"}[c.Idx%2]
	const dim = 6
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, "cosine"))
	w.VecStyle = 0
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	G := graph.NewGraphStore(w.S)
	w.ok(G.InitGraphSchema(bg), "InitGraphSchema")
	w.ok(G.EnableHNSWIndex(dim), "EnableHNSWIndex")
	var batch []*core.Embedding
	var nodes []*graph.GraphNode
	for i := 0; i < 60; i++ {
		batch = append(batch, &core.Embedding{ID: fmt.Sprint("bg", i), Vector: randVec(r, dim, 0), Content: "background"})
		nodes = append(nodes, &graph.GraphNode{ID: fmt.Sprint("bg", i), Vector: randVec(r, dim, 0), Content: "background"})
	}
	w.ok(w.S.UpsertBatch(bg, batch), "UpsertBatch")
	_, err := G.UpsertNodesBatch(bg, nodes)
	w.ok(err, "UpsertNodesBatch")
	if kind == "ivf" {
		w.ok(w.S.TrainIndex(bg, 4), "TrainIndex")
	}
	docs := []string{"d0", "d1", "d2"}
	for _, d := range docs {
		w.ok(w.S.CreateDocument(bg, &core.Document{ID: d, Title: "t"}), "CreateDocument")
	}
	hot := make([]string, 6)
	for i := range hot {
		hot[i] = fmt.Sprint("hot", i)
	}
	c.Op("%s, %d hot records and nodes", kind, len(hot))
	storm := func(g int, r *rand.Rand) {
		rec := func(id string) *core.Embedding {
			return &core.Embedding{ID: id, Vector: randVec(r, dim, 0), Content: "hot"}
		}
		node := func(id string) *graph.GraphNode {
			return &graph.GraphNode{ID: id, Vector: randVec(r, dim, 0), Content: "hot"}
		}
		for i := 0; i < 3; i++ {
			switch r.Intn(14) {
			case 12:
				ids := subset(r, hot, 5)
				if r.Intn(3) > 0 { // the index has much to do before it comes to them
					var more []string
					var again []*graph.GraphNode
					for i := 0; i < 60; i++ {
						more = append(more, fmt.Sprintf("fill%d-%d", g, i))
						again = append(again, node(more[i]))
					}
					_, err := G.UpsertNodesBatch(bg, again)
					w.ok(err, "UpsertNodesBatch")
					ids = append(more, ids...)
				}
				_, err := G.DeleteNodesBatch(bg, ids)
				w.ok(err, "DeleteNodesBatch")
			case 13:
				n := node(pick(r, hot))
				_, err := G.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{n}, NodeDeletes: []string{pick(r, hot)}})
				w.ok(err, "ExecuteBatch")
			case 9: // into a document, which may be gone
				e := rec(pick(r, hot))
				e.DocID = pick(r, docs)
				_ = w.S.Upsert(bg, e)
			case 10:
				_ = w.S.DeleteDocument(bg, pick(r, docs))
			case 11:
				_ = w.S.CreateDocument(bg, &core.Document{ID: pick(r, docs), Title: "t"})
			case 0, 1:
				w.ok(w.S.Upsert(bg, rec(pick(r, hot))), "Upsert")
			case 2, 3:
				var b []*core.Embedding
				for _, j := range r.Perm(len(hot))[:1+r.Intn(len(hot))] {
					b = append(b, rec(hot[j]))
				}
				w.ok(w.S.UpsertBatch(bg, b), "UpsertBatch")
			case 4:
				err := w.S.Delete(bg, pick(r, hot))
				c.Check(err == nil || errors.Is(err, core.ErrNotFound), "spurious-error:Delete", "Delete: %v", err)
			case 5:
				err := w.S.DeleteBatch(bg, subset(r, hot, 3))
				c.Check(err == nil || errors.Is(err, core.ErrNotFound), "spurious-error:DeleteBatch", "DeleteBatch: %v", err)
			case 6:
				w.ok(G.UpsertNode(bg, node(pick(r, hot))), "UpsertNode")
			case 7:
				var b []*graph.GraphNode
				for _, j := range r.Perm(len(hot))[:1+r.Intn(len(hot))] {
					b = append(b, node(hot[j]))
				}
				res, err := G.UpsertNodesBatch(bg, b)
				w.ok(err, "UpsertNodesBatch")
				c.Check(res.FailedCount == 0, "spurious-error:UpsertNodesBatch", "%v", res.Errors)
			case 8:
				_ = G.DeleteNode(bg, pick(r, hot)) // which may be gone
			}
			jitter(r)
		}
	}
	live := 0
	const rounds = 9
	for pass := 0; pass <= rounds; pass++ {
		if pass < rounds {
			fork(c, 6, storm)
		}
		for _, id := range hot {
			e, err := w.S.GetByID(bg, id)
			if err == nil {
				live++
				c.Op("%q ended as %v", id, e.Vector)
				res, err := w.S.Search(bg, cpVec(e.Vector), core.SearchOptions{TopK: 3})
				w.ok(err, "Search")
				c.Check(len(res) == 3 && (res[0].ID == id || bitsEq(res[0].Vector, e.Vector)), "lost-update:index", "the %s index no longer finds %q by its vector after concurrent writes: %v", kind, id, ids(res))
			} else {
				c.Check(errors.Is(err, core.ErrNotFound), "spurious-error:GetByID", "GetByID(%q): %v", id, err)
			}
			n, err := G.GetNode(bg, id)
			if err == nil {
				live++
				res, err := G.HNSWSearch(bg, cpVec(n.Vector), 3, 0)
				w.ok(err, "HNSWSearch")
				c.Check(len(res) > 0 && (res[0].Node.ID == id || bitsEq(res[0].Node.Vector, n.Vector)), "lost-update:graph-index", "the graph index no longer finds %q by its vector after concurrent writes", id)
			}
		}
		if pass == rounds-1 {
			w.reopen()
			G = graph.NewGraphStore(w.S)
			w.ok(G.EnableHNSWIndex(dim), "EnableHNSWIndex")
		}
	}
	if live > 0 {
		c.Nontrivial()
	}
	c.Count("found_by_index", live)
	w.close()
}

// c11adopt: the first writes to a store without a dimension race with each other: one of them decides it.
func c11adopt(c *Case) {
	kind := []string{"flat", "hnsw", "ivf"}[c.Idx%3]
	w := newWorld(c, mkConfig(dbPath(c), kind, 0, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	dims := []int{3, 5, 8}
	const actors = 6
	var mu sync.Mutex
	stored, refused := map[string]int{}, map[string]int{}
	seen := map[int]bool{}
	fork(c, actors+1, func(g int, r *rand.Rand) {
		if g == actors { // a reader of the dimension meanwhile
			for i := 0; i < 20; i++ {
				st, err := w.S.Stats(bg)
				c.Check(err == nil, "spurious-error:Stats", "Stats: %v", err)
				mu.Lock()
				seen[st.Dimensions] = true
				mu.Unlock()
				jitter(r)
			}
			return
		}
		for i := 0; i < 3; i++ {
			dim := dims[(g+c.Idx)%len(dims)]
			id := fmt.Sprintf("a%d-%d", g, i)
			e := &core.Embedding{ID: id, Vector: randVec(r, dim, 0), Content: "x"}
			var err error
			if r.Intn(2) == 0 {
				err = w.S.Upsert(bg, e)
			} else {
				err = w.S.UpsertBatch(bg, []*core.Embedding{e})
			}
			mu.Lock()
			if err == nil {
				stored[id] = dim
			} else {
				refused[id] = dim
			}
			mu.Unlock()
		}
	})
	won := map[int]bool{}
	for _, dim := range stored {
		won[dim] = true
	}
	c.Op("%s: %d writes stored, %d refused, dimensions %v, readers saw %v", kind, len(stored), len(refused), won, seen)
	c.Check(len(won) == 1, "two-dimensions", "concurrent first writes of %v dimensions were all accepted: %v", won, stored)
	for _, dim := range refused {
		c.Check(!won[dim], "spurious-error:Upsert", "a write of the adopted dimension %d was refused: stored %v, refused %v", dim, stored, refused)
	}
	for pass := 0; pass < 2; pass++ {
		st, err := w.S.Stats(bg)
		c.Check(err == nil && won[st.Dimensions] && int(st.Count) == len(stored), "wrong-stats", "Stats: %+v, %v; stored were %v", st, err, stored)
		for d := range seen {
			c.Check(d == 0 || won[d], "two-dimensions", "a reader saw dimension %d, the store adopted %d", d, st.Dimensions)
		}
		for _, id := range sortedKeys(stored) {
			e, err := w.S.GetByID(bg, id)
			c.Check(err == nil && len(e.Vector) == st.Dimensions, "lost-record", "GetByID(%q): %v, %v", id, e, err)
			res, err := w.S.Search(bg, cpVec(e.Vector), core.SearchOptions{TopK: len(stored)})
			c.Check(err == nil && len(res) == len(stored) && res[0].ID == id, "lost-update:index", "a search for %q gives %v (%v)", id, ids(res), err)
		}
		for id := range refused {
			_, err := w.S.GetByID(bg, id)
			c.Check(errors.Is(err, core.ErrNotFound), "refused-but-stored", "the refused write of %q is stored (%v)", id, err)
		}
		if pass == 0 {
			w.reopen()
		}
	}
	if len(refused) > 0 {
		c.Nontrivial()
	}
	c.Seen("winner", fmt.Sprint(won))
	w.close()
}

// c11after runs every operation a moment after a change by another goroutine, ordered by nothing but the store's own
// synchronisation, which the race detector judges.
func c11after(c *Case) {
	kind := []string{"hnsw", "ivf", "hnsw+sq8", "flat"}[c.Idx%4]
	e := newAPIEnv(c, kind, true)
	defer func() { e.S.Close() }()
	ops := apiOps(kind, true)
	var first []apiOp
	for _, o := range ops {
		if o.write && o.name != "EnableHNSWIndex" && o.name != "Init" && o.name != "InitGraphSchema" {
			first = append(first, o)
		}
	}
	for i, o := range ops {
		if o.name == "EnableHNSWIndex" {
			continue
		}
		b := first[(c.Idx+i*7)%len(first)]
		c.Op("%s: %s after %s", kind, o.name, b.name)
		fork(c, 2, func(g int, r *rand.Rand) {
			if g == 0 {
				_ = b.f(e, 10000+i)
				return
			}
			time.Sleep(time.Duration(1+r.Intn(6)) * time.Millisecond)
			_ = o.f(e, 20000+i)
		})
		c.Checked(1)
		c.Seen("pair", o.name+" after "+b.name)
	}
	c.Nontrivial()
	_, err := e.S.Stats(bg)
	c.Check(err == nil, "spurious-error:Stats", "Stats: %v", err)
}
