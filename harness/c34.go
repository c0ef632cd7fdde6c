package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func init() {
	register(&Prop{ID: "C34", Level: "exploration",
		Rule: "a case is one database handle and one history of text and vector inserts, batches, replacements, deletes and reopens through the text and Quick interfaces, with embedder failures, malformed embeddings, empty texts, a missing embedder and cancelled contexts in between; after every step the stored records are compared with the reference and every text search with its defining search; non-trivial when texts were replaced, a batch was stored and a failure was injected",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 1500), 0, c34history)
			r.Parallel("large", r.N(4, 40), 0, c34large)
		}})
}

type text34 struct {
	*World
	db  *cortexdb.DB
	cfg cortexdb.Config
	emb *textEmb // nil: none configured
	sim string
	has bool // an embedder is configured

	replaced, batched, failed bool
}

func new34(c *Case) *text34 {
	r := c.R
	dim := 3 + r.Intn(10)
	sim := pick(r, []string{"cosine", "dot", "euclid"})
	t := &text34{sim: sim, emb: &textEmb{dim: dim}, has: true}
	fn := map[string]core.SimilarityFunc{"cosine": core.CosineSimilarity, "dot": core.DotProduct, "euclid": core.EuclideanDist}[sim]
	t.cfg = cortexdb.Config{Path: dbPath(c), Dimensions: dim, SimilarityFn: fn, IndexType: []core.IndexType{core.IndexTypeFlat, core.IndexTypeHNSW, core.IndexTypeIVF}[c.Idx%3]}
	t.World = newWorld(c, core.Config{VectorDim: dim})
	t.IDs = pool(r, "id", 6+r.Intn(12), 0.3)
	t.openDB()
	return t
}

func (t *text34) openDB() {
	var opts []cortexdb.Option
	if t.has {
		opts = append(opts, cortexdb.WithEmbedder(t.emb))
	}
	db, err := cortexdb.Open(t.cfg, opts...)
	t.c.Check(err == nil, "open-failed", "Open: %v", err)
	t.db = db
	s, ok := db.Vector().(*core.SQLiteStore)
	if !ok {
		t.c.Must(fmt.Errorf("%T", db.Vector()), "the store behind the database")
	}
	t.S = s
	info := db.Info()
	kind := map[core.IndexType]string{core.IndexTypeFlat: "Flat", core.IndexTypeHNSW: "HNSW", core.IndexTypeIVF: "IVF"}[t.cfg.IndexType]
	t.c.Check(info.Path == t.cfg.Path && info.Dimensions == t.cfg.Dimensions && info.IndexType == kind && (info.Embedder != "") == t.has, "wrong-info", "Info() = %+v for %s, %d dimensions, index %s, embedder %v", info, t.cfg.Path, t.cfg.Dimensions, kind, t.has)
	t.c.Check((info.SimilarityFn == "cosine") == (t.sim == "cosine"), "wrong-info", "Info() says %q, the database uses %s", info.SimilarityFn, t.sim)
	q := db.Quick().Info()
	t.c.Check(fmt.Sprint(q) == fmt.Sprint(info), "wrong-info", "Quick().Info() = %+v, Info() = %+v", q, info)
}

func (t *text34) closeDB() {
	idleStore(t.c, t.db.Vector())
	err := t.db.Close()
	t.c.Check(err == nil, "close-failed", "Close: %v", err)
}

func cp34(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// text draws a text.
func (t *text34) text() string {
	r := t.R
	switch r.Intn(8) {
	case 0:
		return pick(r, hostile)
	case 1:
		return sentence(r, vocab, 1+r.Intn(3)) + " " + pick(r, hostile)
	case 2:
		return "  " + sentence(r, vocab, 2) + "\n"
	}
	return sentence(r, vocab, 1+r.Intn(8))
}

// rec is the record that storing a text must yield.
func (t *text34) rec(id, text string, m map[string]string) *Rec {
	return &Rec{ID: id, Vec: embedText(text, t.emb.dim), Content: text, Coll: "default", Meta: cp34(m)}
}

func (t *text34) store(x *Rec) {
	if t.Recs[x.ID] != nil {
		t.replaced = true
	}
	t.put(x)
}

func (t *text34) newID(id string, err error, x *Rec) {
	c := t.c
	c.Check(err == nil, "spurious-error", "adding %q: %v", x.Content, err)
	c.Check(id != "" && t.Recs[id] == nil, "id-reused", "the new record was given the identifier %q", id)
	x.ID = id
	t.put(x)
	t.IDs = append(t.IDs, id)
}

func (t *text34) step() {
	c, r := t.c, t.R
	switch op := r.Intn(16); op {
	case 0, 1, 2, 3:
		id, text, m := pick(r, t.IDs), t.text(), t.meta()
		arg := cp34(m)
		c.Op("InsertText %q %q %v", id, text, m)
		err := t.db.InsertText(bg, id, text, arg)
		if !t.has {
			c.Check(errors.Is(err, cortexdb.ErrEmbedderNotConfigured), "no-embedder", "InsertText without an embedder: %v", err)
			return
		}
		c.Check(err == nil, "spurious-error", "InsertText: %v", err)
		for k := range arg {
			arg[k] = "scribbled"
		}
		t.store(t.rec(id, text, m))
	case 4, 5:
		texts, m := map[string]string{}, t.meta()
		for i := r.Intn(7); i >= 0; i-- {
			s := t.text()
			if r.Intn(8) == 0 {
				s = ""
			}
			texts[pick(r, t.IDs)] = s
		}
		if r.Intn(10) == 0 {
			texts = nil
		}
		arg, am := cp34(texts), cp34(m)
		c.Op("InsertTextBatch %q %v", texts, m)
		err := t.db.InsertTextBatch(bg, arg, am)
		if !t.has {
			c.Check(errors.Is(err, cortexdb.ErrEmbedderNotConfigured), "no-embedder", "InsertTextBatch without an embedder: %v", err)
			return
		}
		c.Check(err == nil, "spurious-error", "InsertTextBatch: %v", err)
		for k := range am {
			am[k] = "scribbled"
		}
		for id, s := range texts {
			if s != "" {
				t.store(t.rec(id, s, m))
				t.batched = true
			}
		}
	case 6:
		coll, text, m := "", t.text(), t.meta()
		var id string
		var err error
		if r.Intn(2) == 0 {
			c.Op("Quick.AddText %q %v", text, m)
			id, err = t.db.Quick().AddText(bg, text, cp34(m))
		} else {
			coll = pick(r, sortedKeys(t.Colls))
			c.Op("Quick.AddTextToCollection %q %q %v", coll, text, m)
			id, err = t.db.Quick().AddTextToCollection(bg, coll, text, cp34(m))
		}
		if !t.has {
			c.Check(errors.Is(err, cortexdb.ErrEmbedderNotConfigured), "no-embedder", "Quick.AddText without an embedder: %v", err)
			return
		}
		x := t.rec("", text, m)
		if coll != "" {
			x.Coll = coll
		}
		t.newID(id, err, x)
	case 7:
		coll, v, text := "default", randVec(r, t.emb.dim, 0), t.text()
		var id string
		var err error
		arg := cpVec(v)
		if r.Intn(2) == 0 {
			c.Op("Quick.Add %v %q", v, text)
			id, err = t.db.Quick().Add(bg, arg, text)
		} else {
			coll = pick(r, sortedKeys(t.Colls))
			c.Op("Quick.AddToCollection %q %v %q", coll, v, text)
			id, err = t.db.Quick().AddToCollection(bg, coll, arg, text)
		}
		scribble(arg)
		t.newID(id, err, &Rec{Vec: v, Content: text, Coll: coll})
	case 8:
		if len(t.Recs) == 0 {
			return
		}
		id := pick(r, sortedKeys(t.Recs))
		c.Op("Delete %q", id)
		err := t.S.Delete(bg, id)
		c.Check(err == nil, "spurious-error", "Delete: %v", err)
		delete(t.Recs, id)
	case 9:
		coll := pick(r, t.CollPool)
		if t.Colls[coll] {
			return
		}
		c.Op("CreateCollection %q", coll)
		err := e2(t.S.CreateCollection(bg, coll, t.emb.dim))
		c.Check(err == nil, "spurious-error", "CreateCollection: %v", err)
		t.Colls[coll] = true
	case 10:
		if r.Intn(2) == 0 {
			t.has = r.Intn(4) != 0
		}
		c.Op("reopen, embedder %v", t.has)
		t.closeDB()
		t.openDB()
	default:
		t.refused()
	}
}

// refused: calls that must fail and leave everything as it was.
func (t *text34) refused() {
	c, r := t.c, t.R
	before, err := tableDump(t.S.GetDB(), "embeddings", "collections", "documents")
	c.Must(err, "dump")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	texts := map[string]string{}
	for i := 0; i < 2+r.Intn(5); i++ {
		texts[pick(r, t.IDs)] = t.text()
	}
	id, text := pick(r, t.IDs), t.text()
	var want error
	what := ""
	single := true
	switch r.Intn(7) {
	case 6:
		what, single = "too many vectors", false
		t.emb.bad = func(n int, v [][]float32) [][]float32 { return append(v, embedText("surplus", t.emb.dim)) }
	case 0:
		what, want, text = "an empty text", cortexdb.ErrEmptyText, ""
		texts = nil
	case 1:
		what, want = "a failing embedder", cortexdb.ErrEmbeddingFailed
		t.emb.setFault(func(int, []string) error { return errEmbed })
	case 2:
		what = "a cancelled context"
		cancel()
	case 3:
		what, single = "too few vectors", false
		t.emb.bad = func(n int, v [][]float32) [][]float32 { return v[:r.Intn(len(v))] }
	case 4:
		what = "a vector that is not finite"
		i := r.Intn(100)
		x := pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
		t.emb.bad = func(n int, v [][]float32) [][]float32 { v[i%len(v)][i%t.emb.dim] = float32(x); return v }
	default:
		what, single = "no vectors", false
		t.emb.bad = func(n int, v [][]float32) [][]float32 { return nil }
	}
	if !t.has && what != "an empty text" {
		want = cortexdb.ErrEmbedderNotConfigured
	}
	check := func(op string, err error, n int) {
		c.Op("%s with %s: %v", op, what, err)
		c.Check(err != nil, "accepted:"+op, "%s accepted %s", op, what)
		c.Check(want == nil || errors.Is(err, want) || op == "SearchTextOnly" && want != cortexdb.ErrEmptyText || !t.has && errors.Is(err, cortexdb.ErrEmbedderNotConfigured), "wrong-error:"+op, "%s with %s: %v", op, what, err)
		c.Check(n == 0, "result-on-error:"+op, "%s returned %d results with an error", op, n)
		c.Count("refused_calls", 1)
	}
	if single || !t.has {
		check("InsertText", t.db.InsertText(ctx, id, text, t.meta()), 0)
		if what != "an empty text" {
			check("Quick.AddText", e2(t.db.Quick().AddText(ctx, text, nil)), 0)
		}
		q := text
		res, err := t.db.SearchText(ctx, q, 5)
		check("SearchText", err, len(res))
		res, err = t.db.HybridSearchText(ctx, q, 5)
		check("HybridSearchText", err, len(res))
		res, err = t.db.Quick().SearchTextInCollection(ctx, pick(r, sortedKeys(t.Colls)), q, 5)
		check("Quick.SearchTextInCollection", err, len(res))
		if what == "an empty text" || what == "a cancelled context" {
			res, err = t.db.SearchTextOnly(ctx, q, cortexdb.TextSearchOptions{TopK: 5})
			check("SearchTextOnly", err, len(res))
		}
	}
	if len(texts) > 0 {
		check("InsertTextBatch", t.db.InsertTextBatch(ctx, texts, t.meta()), 0)
	}
	t.emb.setFault(nil)
	t.emb.bad = nil
	after, err := tableDump(t.S.GetDB(), "embeddings", "collections", "documents")
	c.Must(err, "dump")
	c.Check(before == after, "effect-after-error", "calls with %s changed the database", what)
	t.failed = true
}

// check compares the records and the searches.
func (t *text34) check() {
	c, r := t.c, t.R
	t.CheckPoint()
	exact := t.cfg.IndexType == core.IndexTypeFlat
	mode := searchMode{exact: exact, countOnly: !exact, noCount: !exact}
	q := t.text()
	if q == "" {
		q = "alpha"
	}
	coll := pick(r, append(sortedKeys(t.Colls), "", ""))
	in := func(x *Rec) bool { return coll == "" || x.Coll == coll }
	k := pick(r, []int{1, 3, 10, 1000})
	v := embedText(q, t.emb.dim)
	cand := t.rank(t.sim, v, in)
	judge := func(op string, res []core.ScoredEmbedding, err error) {
		c.Op("%s %q in %q k=%d", op, q, coll, k)
		c.Check(err == nil, "spurious-error:"+op, "%s(%q): %v", op, q, err)
		t.checkResults(op, res, cand, k, 0, mode)
		c.Count("searches", 1)
	}
	res, err := t.db.Quick().SearchInCollection(bg, coll, cpVec(v), k)
	judge("Quick.SearchInCollection", res, err)
	if coll == "" {
		res, err = t.db.Quick().Search(bg, cpVec(v), k)
		judge("Quick.Search", res, err)
	}
	if t.has {
		res, err = t.db.SearchTextInCollection(bg, coll, q, k)
		judge("SearchTextInCollection", res, err)
		res, err = t.db.Quick().SearchTextInCollection(bg, coll, q, k)
		judge("Quick.SearchTextInCollection", res, err)
		if coll == "" {
			res, err = t.db.SearchText(bg, q, k)
			judge("SearchText", res, err)
			res, err = t.db.Quick().SearchText(bg, q, k)
			judge("Quick.SearchText", res, err)
		}
		// the hybrid search is the store's with the query's own embedding
		want, err := t.S.HybridSearch(bg, cpVec(v), q, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: k}})
		c.Check(err == nil, "spurious-error:HybridSearch", "HybridSearch(%q): %v", q, err)
		res, err = t.db.HybridSearchText(bg, q, k)
		c.Check(err == nil, "spurious-error:HybridSearchText", "HybridSearchText(%q): %v", q, err)
		same34(c, t, "HybridSearchText "+q, res, want)
	}
	// keywords, with or without an embedder
	kq, match := keywordQuery(r)
	var want []string
	for id, x := range t.Recs {
		if match(x.Content) && in(x) {
			want = append(want, id)
		}
	}
	sort.Strings(want)
	kwJudge := func(op string, k int, res []core.ScoredEmbedding, err error) {
		c.Op("%s %q in %q k=%d", op, kq, coll, k)
		c.Check(err == nil, "spurious-error:"+op, "%s(%q): %v", op, kq, err)
		seen := map[string]bool{}
		last := math.Inf(1)
		for _, e := range res {
			c.Check(!seen[e.ID], "duplicate:"+op, "%s(%q) returned %q twice", op, kq, e.ID)
			seen[e.ID] = true
			x := t.Recs[e.ID]
			c.Check(x != nil && match(x.Content) && in(x), "keyword-stale:"+op, "%s(%q) in %q returned %q: %v", op, kq, coll, e.ID, x)
			d := diffRec(&e.Embedding, x, false)
			c.Check(d == "", "stale-content:"+op, "%s(%q) returned %q with %s", op, kq, e.ID, d)
			c.Check(e.Score <= last, "wrong-order:"+op, "%s(%q) is not ranked: %v after %v", op, kq, e.Score, last)
			last = e.Score
		}
		c.Check(len(res) == min(k, len(want)), "keyword-missing:"+op, "%s(%q) in %q with k=%d returned %d results, %d records match", op, kq, coll, k, len(res), len(want))
		c.Count("keyword_hits", len(res))
	}
	res, err = t.db.SearchTextOnly(bg, kq, cortexdb.TextSearchOptions{Collection: coll, TopK: k})
	kwJudge("SearchTextOnly", k, res, err)
	if coll == "" {
		res, err = t.db.Quick().SearchTextOnly(bg, kq, k)
		kwJudge("Quick.SearchTextOnly", k, res, err)
	}
	res, err = t.db.SearchTextOnly(bg, kq, cortexdb.TextSearchOptions{Collection: coll})
	kwJudge("SearchTextOnly", 10, res, err)
	// any text is a valid query
	h := pick(r, hostile)
	c.Op("SearchTextOnly %q", h)
	_, err = t.db.SearchTextOnly(bg, h, cortexdb.TextSearchOptions{Collection: coll})
	c.Check(err == nil, "spurious-error:SearchTextOnly", "SearchTextOnly(%q): %v", h, err)
}

// same34 compares two result lists, allowing equal scores to swap.
func same34(c *Case, t *text34, op string, got, want []core.ScoredEmbedding) {
	c.Check(len(got) == len(want), "differs", "%s returned %d results, the store %d", op, len(got), len(want))
	for i := range got {
		if i >= len(want) {
			break
		}
		c.Check(near(got[i].Score, want[i].Score, 1), "differs", "%s result %d scores %v, the store's %v", op, i, got[i].Score, want[i].Score)
		tied := i > 0 && near(want[i].Score, want[i-1].Score, 1) || i+1 < len(want) && near(want[i].Score, want[i+1].Score, 1) || i+1 == len(want)
		c.Check(got[i].ID == want[i].ID || tied, "differs", "%s result %d is %q, the store's %q", op, i, got[i].ID, want[i].ID)
		x := t.Recs[got[i].ID]
		c.Check(x != nil, "stale", "%s returned %q, which is not stored", op, got[i].ID)
		d := diffRec(&got[i].Embedding, x, false)
		c.Check(d == "", "stale-content", "%s returned %q with %s", op, got[i].ID, d)
	}
}

func c34history(c *Case) {
	t := new34(c)
	for i := 0; i < 40; i++ {
		t.step()
		t.check()
	}
	t.closeDB()
	t.has = true
	t.openDB()
	t.check()
	t.CheckFull()
	if t.replaced && t.batched && t.failed {
		c.Nontrivial()
	}
	t.closeDB()
}

// c34large: one batch of many texts.
func c34large(c *Case) {
	r := c.R
	t := new34(c)
	n := 300 + r.Intn(1200)
	texts := map[string]string{}
	t.IDs = nil
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("L%05d", i)
		texts[id] = sentence(r, vocab, 3+r.Intn(6))
		t.IDs = append(t.IDs, id)
	}
	m := map[string]string{"type": "a"}
	// first with one text whose vector cannot be stored, anywhere in the batch: nothing is stored
	bad := pick(r, t.IDs)
	t.emb.bad = func(_ int, v [][]float32) [][]float32 {
		at := r.Intn(len(v))
		if c.Idx%2 == 0 {
			at = len(v) - 1
		}
		v[at][0] = float32(math.Inf(1))
		return v
	}
	before, err := tableDump(t.S.GetDB(), "embeddings", "collections", "documents")
	c.Must(err, "dump")
	c.Op("InsertTextBatch of %d with one vector that is not finite", n)
	err = t.db.InsertTextBatch(bg, texts, m)
	c.Check(err != nil, "accepted:InsertTextBatch", "a batch of %d texts with a vector that is not finite was accepted", n)
	t.emb.bad = nil
	after, err := tableDump(t.S.GetDB(), "embeddings", "collections", "documents")
	c.Must(err, "dump")
	c.Check(before == after, "effect-after-error", "a failed batch of %d texts left something stored", n)
	_, err = t.S.GetByID(bg, bad)
	c.Check(err != nil, "effect-after-error", "record %q of a failed batch can be read", bad)
	c.Op("InsertTextBatch of %d", n)
	err = t.db.InsertTextBatch(bg, texts, m)
	c.Check(err == nil, "spurious-error", "InsertTextBatch of %d: %v", n, err)
	for id, s := range texts {
		t.store(t.rec(id, s, m))
	}
	for i := 0; i < 6; i++ {
		t.check()
		t.step()
	}
	t.check()
	t.CheckFull()
	c.Nontrivial()
	t.closeDB()
}
