package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func init() {
	register(&Prop{ID: "C25", Level: "exploration",
		Rule: "a case is one history of knowledge saves, re-saves, updates, deletes, reads and searches over items with look-alike identifiers, shared entities and relations in several collections, with and without an embedder that fails on schedule, and reopened databases (part history), or one collection of hundreds of items (part scale); every answer is compared with a reference model and the tables are scanned for words, chunks, nodes and relations of superseded versions; non-trivial when a search or scan ran with superseded text or items of other collections to leave out",
		Run: func(r *Run) {
			r.Parallel("history", r.N(110, 2500), 0, c25history)
			r.Parallel("scale", r.N(4, 30), 0, c25scale)
		}})
}

type rel25 struct {
	from, to, typ string
	w             float64
}

type item25 struct {
	title, content, source, author, coll string
	meta                                 map[string]string
	size, overlap, version               int
	tokens                               []string
	explicit                             map[string][]string // chunk id -> entity ids
	rels                                 []rel25
}

func (m *item25) chunks() []string { return kChunks(m.content, m.size, m.overlap) }

type kw25 struct {
	c     *Case
	r     *rand.Rand
	db    *cortexdb.DB
	e     *textEmb
	ix    core.IndexType
	m     map[string]*item25
	name  map[string]string // entity id -> the name last written
	old   []string          // words of superseded versions
	n     int
	ids   []string
	colls []string
}

func (w *kw25) open() {
	cfg := cortexdb.Config{Path: dbPath(w.c), Dimensions: 24, SimilarityFn: core.CosineSimilarity, IndexType: w.ix}
	var opts []cortexdb.Option
	if w.e != nil {
		opts = append(opts, cortexdb.WithEmbedder(w.e))
	}
	db, err := cortexdb.Open(cfg, opts...)
	w.c.Check(err == nil, "open-failed", "Open: %v", err)
	w.db = db
	err = db.Graph().InitGraphSchema(bg)
	w.c.Check(err == nil, "open-failed", "InitGraphSchema: %v", err)
}

func (w *kw25) uniq() string { w.n++; return fmt.Sprintf("zq%05dx", w.n) }

func (w *kw25) meta() map[string]string {
	out := map[string]string{}
	for i := w.r.Intn(4); i > 0; i-- {
		out[pick(w.r, []string{"k", "tag", "ключ", "a.b", "q'"})] = pick(w.r, []string{"v", "", "it's", "ü", "1", " v "})
	}
	if len(out) == 0 && w.r.Intn(2) == 0 {
		return nil
	}
	return out
}

func coll25(s string) string {
	if s == "" {
		return kDefaultColl
	}
	return s
}

// links draws entities on the chunks of an item and relations between known entities.
func (w *kw25) links(id string, n int, m *item25, known map[string]bool) ([]cortexdb.ToolEntityInput, []cortexdb.ToolRelationInput, map[string]string) {
	r := w.r
	var es []cortexdb.ToolEntityInput
	var rs []cortexdb.ToolRelationInput
	names := map[string]string{}
	used := map[string]bool{}
	for i := r.Intn(4); i > 0; i-- {
		name := pick(r, append([]string{"Carol", "carol", "Delta corp", "Zeta-9", "Ольга"}, kNames...))
		if used[kEntID(name)] {
			continue
		}
		used[kEntID(name)] = true
		e := cortexdb.ToolEntityInput{Name: name, Type: pick(r, []string{"", "", "entity", "person"}), Description: pick(r, []string{"", "somebody"})}
		for j := 0; j < n; j++ {
			if r.Intn(3) == 0 {
				ch := kChunkID(id, j)
				e.ChunkIDs = append(e.ChunkIDs, ch)
				if !contains(m.explicit[ch], kEntID(name)) {
					m.explicit[ch] = append(m.explicit[ch], kEntID(name))
				}
			}
		}
		names[kEntID(name)] = name
		known[kEntID(name)] = true
		es = append(es, e)
	}
	ks := sortedKeys(known)
	for i := r.Intn(4); i > 0 && len(ks) > 0; i-- {
		x := rel25{pick(r, ks), pick(r, ks), pick(r, []string{"rel_knows", "rel_owns", "rel_near"}), float64(r.Intn(3))}
		rs = append(rs, cortexdb.ToolRelationInput{From: x.from, To: x.to, Type: x.typ, Weight: x.w})
		if x.w == 0 {
			x.w = 1
		}
		m.rels = append(m.rels, x)
	}
	return es, rs, names
}

func (w *kw25) knownEnts() map[string]bool {
	out := map[string]bool{}
	for id := range w.name {
		out[id] = true
	}
	return out
}

// extracted adds the entities that ingestion finds in the text itself.
func (w *kw25) extracted(m *item25, known map[string]bool, names map[string]string) {
	if w.e == nil {
		return
	}
	for _, ch := range m.chunks() {
		for _, n := range kNamesIn(ch) {
			known[kEntID(n)] = true
			names[kEntID(n)] = n
		}
	}
}

func (w *kw25) failed(err error) bool {
	return w.e != nil && w.e.fault != nil && errors.Is(err, cortexdb.ErrEmbeddingFailed)
}

func (w *kw25) dump() string {
	d, err := tableDump(kStore(w.db).GetDB(), "documents", "embeddings", "graph_nodes", "graph_edges")
	w.c.Must(err, "dump")
	return d
}

func (w *kw25) save(id string) {
	c, r := w.c, w.r
	t := kWrite(r, w.uniq, 1+r.Intn(4), pick(r, []int{3, 12, 40, 3, 12, 40, 3, 12, 40, 150}), kNames)
	m := &item25{title: pick(r, []string{"", "a title", "Titel ü", "It's", " spaced\n"}), content: t.text, source: pick(r, []string{"", "http://x/?q=1", " s "}), author: pick(r, []string{"", "ann", " ann ", "Ann"}),
		coll: pick(r, w.colls), meta: w.meta(), size: pick(r, []int{0, 3, 5, 8, 30}), overlap: pick(r, []int{0, 0, 1, 2, 5}), tokens: t.tokens, explicit: map[string][]string{}}
	known, names := w.knownEnts(), map[string]string{}
	w.extracted(m, known, names)
	bad := ""
	es, rs, nn := w.links(id, len(m.chunks()), m, known)
	switch r.Intn(12) {
	case 0: // a mention in a chunk that does not exist
		es = append(es, cortexdb.ToolEntityInput{Name: "Ghost", ChunkIDs: []string{kChunkID(id, len(m.chunks())+r.Intn(2))}})
		bad = "mention of a missing chunk"
	case 1:
		rs = append(rs, cortexdb.ToolRelationInput{From: "Nobody9", To: "Nobody8", Type: "rel_knows"})
		bad = "relation between unknown entities"
	case 2:
		m.content = pick(r, []string{"", " ", "\n\t"})
		bad = "empty text"
	}
	before := w.dump()
	res, err := w.db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: id, Title: m.title, Content: m.content, SourceURL: m.source, Author: m.author, Collection: m.coll, ChunkSize: m.size, ChunkOverlap: m.overlap, Metadata: m.meta, Entities: es, Relations: rs})
	c.Op("SaveKnowledge(%q in %q, %d chunks of %d/%d, %d entities, %d relations) %s: %v", id, m.coll, len(m.chunks()), m.size, m.overlap, len(es), len(rs), bad, err)
	if err != nil || bad != "" {
		if bad != "" {
			c.Check(err != nil, "accepted-invalid", "SaveKnowledge with %s succeeded", bad)
		} else {
			c.Check(w.failed(err), "save-failed", "SaveKnowledge(%q): %v", id, err)
			c.Count("failed_embeddings", 1)
		}
		c.Check(before == w.dump(), "partial-save", "SaveKnowledge(%q) failed (%v; %s) and changed the database", id, err, bad)
		w.old = append(w.old, m.tokens...)
		c.Count("failed_saves", 1)
		return
	}
	for k, v := range names {
		w.name[k] = v
	}
	for k, v := range nn {
		w.name[k] = v
	}
	if o := w.m[id]; o != nil {
		w.old = append(w.old, o.tokens...)
		c.Count("replacements", 1)
		m.version = o.version
	}
	m.version++
	w.m[id] = m
	w.same("SaveKnowledge", id, res.Knowledge)
}

func (w *kw25) update(id string) {
	c, r := w.c, w.r
	m := w.m[id]
	req := cortexdb.KnowledgeUpdateRequest{KnowledgeID: id}
	if m == nil {
		t := "x"
		req.Title = &t
		_, err := w.db.UpdateKnowledge(bg, req)
		c.Check(errors.Is(err, core.ErrNotFound), "updated-missing", "UpdateKnowledge(%q) of no item: %v", id, err)
		return
	}
	n := *m
	n.explicit = map[string][]string{}
	for k, v := range m.explicit {
		n.explicit[k] = append([]string{}, v...)
	}
	n.rels = append([]rel25{}, m.rels...)
	if r.Intn(2) == 0 {
		n.title = pick(r, []string{"", "new title", "Ü"})
		req.Title = &n.title
	}
	if r.Intn(3) == 0 {
		n.author, n.source = "bob", "s"
		req.Author, req.SourceURL = &n.author, &n.source
	}
	if r.Intn(3) == 0 {
		if x := w.meta(); x != nil {
			n.meta, req.Metadata = x, x
		}
	}
	if r.Intn(4) == 0 {
		n.coll = pick(r, w.colls)
		req.Collection = &n.coll
	}
	known, names := w.knownEnts(), map[string]string{}
	replaced := r.Intn(2) == 0
	if replaced {
		t := kWrite(r, w.uniq, 1+r.Intn(4), pick(r, []int{3, 12, 40, 3, 12, 40, 3, 12, 40, 150}), kNames)
		n.content, n.tokens, n.size, n.overlap = t.text, t.tokens, 0, 0
		req.Content = &n.content
		if r.Intn(3) > 0 {
			n.size = pick(r, []int{4, 9, 30})
			req.ChunkSize = &n.size
		}
		if r.Intn(3) > 0 {
			n.overlap = pick(r, []int{0, 2, 5})
			req.ChunkOverlap = &n.overlap
		}
		n.explicit, n.rels = map[string][]string{}, nil
		w.extracted(&n, known, names)
	}
	es, rs, nn := w.links(id, len(n.chunks()), &n, known)
	bad := ""
	if r.Intn(10) == 0 {
		es = append(es, cortexdb.ToolEntityInput{Name: "Ghost", ChunkIDs: []string{kChunkID(id, len(n.chunks())+1)}})
		bad = "mention of a missing chunk"
	}
	req.Entities, req.Relations = es, rs
	before := w.dump()
	res, err := w.db.UpdateKnowledge(bg, req)
	c.Op("UpdateKnowledge(%q, new text %v, coll %v, %d entities, %d relations) %s: %v", id, replaced, n.coll, len(es), len(rs), bad, err)
	if err != nil || bad != "" {
		if bad != "" {
			c.Check(err != nil, "accepted-invalid", "UpdateKnowledge with %s succeeded", bad)
		} else {
			c.Check(replaced && w.failed(err), "update-failed", "UpdateKnowledge(%q): %v", id, err)
			c.Count("failed_embeddings", 1)
		}
		c.Check(before == w.dump(), "partial-update", "UpdateKnowledge(%q) failed (%v; %s) and changed the database", id, err, bad)
		if replaced {
			w.old = append(w.old, n.tokens...)
		}
		c.Count("failed_saves", 1)
		return
	}
	for k, v := range names {
		w.name[k] = v
	}
	for k, v := range nn {
		w.name[k] = v
	}
	if replaced {
		w.old = append(w.old, m.tokens...)
		c.Count("replacements", 1)
	} else {
		c.Count("in_place_updates", 1)
	}
	n.version++
	w.m[id] = &n
	w.same("UpdateKnowledge", id, res.Knowledge)
}

func (w *kw25) entNames(id string, m *item25) []string {
	set := map[string]bool{}
	for i, ch := range m.chunks() {
		for _, e := range m.explicit[kChunkID(id, i)] {
			set[w.name[e]] = true
		}
		if w.e != nil {
			for _, n := range kNamesIn(ch) {
				set[w.name[kEntID(n)]] = true
			}
		}
	}
	return sortedKeys(set)
}

func (w *kw25) same(what, id string, g cortexdb.KnowledgeRecord) {
	c, m := w.c, w.m[id]
	c.Check(g.ID == id && g.Content == m.content && g.Title == m.title && g.SourceURL == m.source && g.Author == m.author, "wrong-item:"+what,
		"%s(%q) = %q, %q, %q, %q; saved %q, %q, %q, %q", what, id, g.Title, g.Content, g.SourceURL, g.Author, m.title, m.content, m.source, m.author)
	doc, err := kStore(w.db).GetDocument(bg, id)
	c.Check(err == nil && doc.Version == m.version, "wrong-version:"+what, "after %s(%q) its document is %+v, %v; there were %d successful saves and updates", what, id, doc, err, m.version)
	c.Check(g.Collection == coll25(m.coll), "wrong-collection:"+what, "%s(%q) is in %q, saved in %q", what, id, g.Collection, m.coll)
	c.Check(strMapEq(g.Metadata, m.meta), "wrong-metadata:"+what, "%s(%q) has metadata %v, saved %v", what, id, g.Metadata, m.meta)
	var want []string
	for i := range m.chunks() {
		want = append(want, kChunkID(id, i))
	}
	got := append([]string{}, g.ChunkIDs...)
	sort.Strings(got)
	sort.Strings(want)
	c.Check(sameStrings(got, want), "wrong-chunks:"+what, "%s(%q) has chunks %v, its text has %v", what, id, g.ChunkIDs, want)
	ents := w.entNames(id, m)
	c.Check(sameStrings(g.Entities, ents), "wrong-entities:"+what, "%s(%q) has entities %q, expected %q", what, id, g.Entities, ents)
	c.Check(!g.UpdatedAt.Before(g.CreatedAt), "time-order:"+what, "%s(%q) created %v, updated %v", what, id, g.CreatedAt, g.UpdatedAt)
}

func (w *kw25) get(id string) {
	c := w.c
	res, err := w.db.GetKnowledge(bg, cortexdb.KnowledgeGetRequest{KnowledgeID: id})
	if w.m[id] == nil {
		c.Check(errors.Is(err, core.ErrNotFound), "ghost-item", "GetKnowledge(%q) = %+v, %v; there is no such item", id, res, err)
		return
	}
	c.Check(err == nil, "lost-item", "GetKnowledge(%q): %v", id, err)
	w.same("GetKnowledge", id, res.Knowledge)
}

func (w *kw25) del(id string) {
	c := w.c
	res, err := w.db.DeleteKnowledge(bg, cortexdb.KnowledgeDeleteRequest{KnowledgeID: id})
	c.Op("DeleteKnowledge(%q): %v", id, err)
	m := w.m[id]
	if m == nil {
		c.Check(err != nil, "deleted-missing", "DeleteKnowledge(%q) of no item succeeded", id)
		return
	}
	c.Check(err == nil && res.Deleted, "delete-failed", "DeleteKnowledge(%q): %v, %v", id, res, err)
	w.old = append(w.old, m.tokens...)
	delete(w.m, id)
}

// judge checks what holds for every search.
func (w *kw25) judge(req cortexdb.KnowledgeSearchRequest, res *cortexdb.KnowledgeSearchResponse) {
	c := w.c
	coll := coll25(req.Collection)
	hits := map[string]cortexdb.KnowledgeSearchHit{}
	for i, h := range res.Results {
		m := w.m[h.KnowledgeID]
		c.Check(m != nil, "ghost-item:search", "SearchKnowledge(%q) found %q, which does not exist", req.Query, h.KnowledgeID)
		c.Check(coll25(m.coll) == coll, "foreign-item", "SearchKnowledge(%q) in %q found %q of %q", req.Query, coll, h.KnowledgeID, m.coll)
		_, dup := hits[h.KnowledgeID]
		c.Check(!dup, "duplicate-item", "SearchKnowledge(%q) lists %q twice", req.Query, h.KnowledgeID)
		hits[h.KnowledgeID] = h
		c.Check(h.Title == m.title && h.Author == m.author && h.SourceURL == m.source && strMapEq(h.Metadata, m.meta), "wrong-item:search",
			"SearchKnowledge(%q) describes %q as %q, %q, %q, %v; saved %q, %q, %q, %v", req.Query, h.KnowledgeID, h.Title, h.Author, h.SourceURL, h.Metadata, m.title, m.author, m.source, m.meta)
		if i > 0 {
			c.Check(h.Score <= res.Results[i-1].Score, "not-best-first", "SearchKnowledge(%q): hit %d scores %v after %v", req.Query, i, h.Score, res.Results[i-1].Score)
		}
		c.Check(!math.IsNaN(h.Score) && !math.IsInf(h.Score, 0), "bad-score", "SearchKnowledge(%q): %q scores %v", req.Query, h.KnowledgeID, h.Score)
		c.Check(utf8.ValidString(h.Snippet) && len(h.Snippet) <= 180, "bad-snippet", "SearchKnowledge(%q): snippet %q", req.Query, h.Snippet)
		text := " " + strings.Join(strings.Fields(m.content), " ") + " "
		c.Check(strings.Contains(text, strings.TrimSuffix(h.Snippet, "...")), "bad-snippet", "SearchKnowledge(%q): snippet %q is not in the text of %q", req.Query, h.Snippet, h.KnowledgeID)
	}
	seen := map[string]bool{}
	best := map[string]float64{}
	for _, ch := range res.Chunks {
		c.Check(!seen[ch.ID], "duplicate-chunk", "SearchKnowledge(%q) returns chunk %q twice", req.Query, ch.ID)
		seen[ch.ID] = true
		h, ok := hits[ch.DocumentID]
		c.Check(ok && contains(h.ChunkIDs, ch.ID), "unlisted-chunk", "SearchKnowledge(%q) returns chunk %q of %q but lists %v", req.Query, ch.ID, ch.DocumentID, h.ChunkIDs)
		found := false
		for i, t := range w.m[ch.DocumentID].chunks() {
			found = found || kChunkID(ch.DocumentID, i) == ch.ID && t == ch.Content
		}
		c.Check(found, "wrong-chunk", "SearchKnowledge(%q) returns chunk %q = %q, which %q does not have", req.Query, ch.ID, ch.Content, ch.DocumentID)
		if b, ok := best[ch.DocumentID]; !ok || ch.Score > b {
			best[ch.DocumentID] = ch.Score
		}
	}
	for id, h := range hits {
		c.Check(h.Score == best[id], "wrong-score", "SearchKnowledge(%q) scores %q %v, its best chunk %v", req.Query, id, h.Score, best[id])
		for _, ch := range h.ChunkIDs {
			c.Check(seen[ch], "unlisted-chunk", "SearchKnowledge(%q): hit %q lists chunk %q that is not returned", req.Query, id, ch)
		}
	}
}

func (w *kw25) run(req cortexdb.KnowledgeSearchRequest) *cortexdb.KnowledgeSearchResponse {
	res, err := w.db.SearchKnowledge(bg, req)
	if err != nil && w.failed(err) {
		return nil
	}
	w.c.Check(err == nil, "search-failed", "SearchKnowledge(%q in %q, %s): %v", req.Query, req.Collection, req.RetrievalMode, err)
	w.judge(req, res)
	w.c.Count("searches", 1)
	return res
}

// findable: every item is found by its own words, and nothing is found by superseded ones.
func (w *kw25) findable(all bool) {
	c, r := w.c, w.r
	for _, id := range sortedKeys(w.m) {
		if !all && r.Intn(3) > 0 {
			continue
		}
		m := w.m[id]
		for _, t := range m.tokens {
			res := w.run(cortexdb.KnowledgeSearchRequest{Query: t, Collection: m.coll, RetrievalMode: cortexdb.RetrievalModeLexical, TopK: 1 + r.Intn(5), PerDocumentLimit: 50})
			if res == nil {
				continue
			}
			c.Check(len(res.Results) == 1 && res.Results[0].KnowledgeID == id, "not-found-by-text", "lexical search for %q in %q finds %d items, not %q that has the word", t, m.coll, len(res.Results), id)
			for _, ch := range res.Chunks {
				c.Check(strings.Contains(ch.Content, t), "wrong-chunk", "lexical search for %q returns %q", t, ch.Content)
			}
			if len(w.colls) > 1 {
				other := pick(r, w.colls)
				if coll25(other) != coll25(m.coll) {
					res = w.run(cortexdb.KnowledgeSearchRequest{Query: t, Collection: other, RetrievalMode: cortexdb.RetrievalModeLexical})
					if res != nil {
						c.Check(len(res.Results) == 0, "foreign-item", "lexical search for %q in %q finds %q of %q", t, other, id, m.coll)
						c.Nontrivial()
					}
				}
			}
		}
		// the query helpers a caller supplies find it just as well
		if len(m.tokens) > 0 {
			t := pick(r, m.tokens)
			req := cortexdb.KnowledgeSearchRequest{Query: "zqnowhere", Collection: m.coll, RetrievalMode: cortexdb.RetrievalModeLexical, TopK: 5, PerDocumentLimit: 50}
			how := "keyword"
			switch r.Intn(3) {
			case 0:
				req.Keywords = []string{t}
			case 1:
				req.Keywords = []string{"zqnothing", t}
			default:
				req.AlternateQueries = []string{t}
				how = "alternate query"
			}
			if res := w.run(req); res != nil {
				c.Check(len(res.Results) == 1 && res.Results[0].KnowledgeID == id, "not-found-by-text", "lexical search with %s %q in %q finds %d items, not %q that has the word", how, t, m.coll, len(res.Results), id)
				c.Count("helper_searches", 1)
			}
			// all of its words at once: every chunk that has one
			if len(m.tokens) > 1 && len(m.tokens) < 60 {
				want := 0
				for _, ch := range m.chunks() {
					for _, t := range m.tokens {
						if strings.Contains(ch, t) {
							want++
							break
						}
					}
				}
				res := w.run(cortexdb.KnowledgeSearchRequest{Query: strings.Join(m.tokens, " "), Collection: m.coll, RetrievalMode: cortexdb.RetrievalModeLexical, TopK: 100, PerDocumentLimit: 100, MaxContextChunks: 100, MaxContextChars: 1 << 20, DisableGraph: true})
				if res != nil {
					c.Check(len(res.Results) == 1 && res.Results[0].KnowledgeID == id && len(res.Results[0].ChunkIDs) == want, "not-found-by-text", "lexical search for the %d words of %q in %q finds %v, %d chunks have one", len(m.tokens), id, m.coll, res.Results, want)
					if want > 3 {
						c.Count("many_chunk_hits", 1)
					}
				}
			}
		}
		if w.e == nil || w.ix != core.IndexTypeFlat && len(w.ids) > 100 { // a graph index may miss it among thousands
			continue
		}
		// the exact text of a chunk: that chunk is the best
		for i, ch := range m.chunks() {
			if r.Intn(2) == 0 || !strings.Contains(ch, "zq") {
				continue
			}
			res := w.run(cortexdb.KnowledgeSearchRequest{Query: ch, Collection: m.coll, TopK: 1 + r.Intn(4), RetrievalMode: pick(r, []string{"", "auto", "graph"}), MaxContextChars: pick(r, []int{0, 100000})})
			if res == nil {
				continue
			}
			ok := len(res.Chunks) > 0
			c.Check(ok, "not-found-by-meaning", "searching %q for the text of chunk %d of %q finds nothing", m.coll, i, id)
			top := res.Chunks[0].ID
			// overlapping chunks may have the same words in another order
			c.Check(top == kChunkID(id, i) || bag25(res.Chunks[0].Content) == bag25(ch), "not-found-by-meaning", "searching for the text of chunk %d of %q puts %q (%q) first", i, id, top, res.Chunks[0].Content)
			c.Count("semantic_hits", 1)
		}
	}
	for i := 0; i < 6 && len(w.old) > 0; i++ {
		t := pick(r, w.old)
		for _, coll := range w.colls {
			res := w.run(cortexdb.KnowledgeSearchRequest{Query: t, Collection: coll, RetrievalMode: cortexdb.RetrievalModeLexical, TopK: 10})
			if res != nil {
				c.Check(len(res.Results) == 0, "superseded-text", "lexical search for %q, a word of a superseded or failed version, finds %v", t, res.Results)
				c.Nontrivial()
			}
		}
	}
}

// wander searches for entities that items of several collections share, with graph expansion.
func (w *kw25) wander() {
	r := w.r
	req := cortexdb.KnowledgeSearchRequest{Query: pick(r, kNames) + " " + pick(r, kLower), Collection: pick(r, w.colls), RetrievalMode: pick(r, []string{"graph", "", "lexical"}),
		TopK: r.Intn(5), MaxHops: r.Intn(4), MaxRelatedChunks: r.Intn(6), MaxContextChunks: r.Intn(8), PerDocumentLimit: r.Intn(4), DiversityLambda: pick(r, []float64{0, 0.5, 1})}
	if r.Intn(2) == 0 {
		req.EntityNames = []string{pick(r, kNames), pick(r, kNames)}
	}
	if r.Intn(3) == 0 {
		req.Keywords = []string{pick(r, kLower)}
		req.AlternateQueries = []string{pick(r, kLower)}
	}
	if res := w.run(req); res != nil && len(res.Results) > 0 {
		w.c.Count("graph_searches_with_hits", 1)
		if len(w.colls) > 1 {
			w.c.Nontrivial()
		}
	}
}

// residue compares the tables with the model.
func (w *kw25) residue() {
	c := w.c
	var docs, chunks, nodes []string
	for _, id := range sortedKeys(w.m) {
		docs = append(docs, id)
		nodes = append(nodes, "doc:"+id)
		for i := range w.m[id].chunks() {
			chunks = append(chunks, kChunkID(id, i))
			nodes = append(nodes, kChunkID(id, i))
		}
	}
	sort.Strings(docs)
	sort.Strings(chunks)
	sort.Strings(nodes)
	got := kCol(kRows(c, w.db, "SELECT id FROM documents"), 0)
	c.Check(sameStrings(got, docs), "residue:documents", "the documents are %q, expected %q", got, docs)
	got = kCol(kRows(c, w.db, "SELECT id FROM embeddings"), 0)
	c.Check(sameStrings(got, chunks), "residue:chunks", "the chunks are %q, expected %q", got, chunks)
	got = kCol(kRows(c, w.db, "SELECT id FROM graph_nodes WHERE node_type IN ('chunk','document')"), 0)
	c.Check(sameStrings(got, nodes), "residue:nodes", "the document and chunk nodes are %q, expected %q", got, nodes)
	// what each chunk mentions
	var want []string
	for _, id := range sortedKeys(w.m) {
		for i, ch := range w.m[id].chunks() {
			set := map[string]bool{}
			for _, e := range w.m[id].explicit[kChunkID(id, i)] {
				set[e] = true
			}
			if w.e != nil {
				for _, n := range kNamesIn(ch) {
					set[kEntID(n)] = true
				}
			}
			for e := range set {
				want = append(want, kChunkID(id, i)+" -> "+e)
			}
		}
	}
	sort.Strings(want)
	got = nil
	for _, x := range kRows(c, w.db, "SELECT from_node_id, to_node_id FROM graph_edges WHERE edge_type = 'mentions'") {
		got = append(got, x[0]+" -> "+x[1])
	}
	sort.Strings(got)
	c.Check(sameStrings(got, want), "residue:mentions", "the mentions are %q, expected %q", got, want)
	// relations: what the items that exist state
	rels := map[string]map[float64]bool{}
	for _, m := range w.m {
		for _, x := range m.rels {
			k := x.from + " " + x.typ + " " + x.to
			if rels[k] == nil {
				rels[k] = map[float64]bool{}
			}
			rels[k][x.w] = true
		}
	}
	have := map[string]bool{}
	for _, x := range kRows(c, w.db, "SELECT from_node_id, edge_type, to_node_id, weight FROM graph_edges WHERE edge_type LIKE 'rel\\_%' ESCAPE '\\'") {
		k := x[0] + " " + x[1] + " " + x[2]
		var wt float64
		fmt.Sscan(x[3], &wt)
		c.Check(rels[k] != nil, "residue:relations", "the relation %q belongs to no item", k)
		c.Check(rels[k][wt], "wrong-weight", "the relation %q weighs %v, stated %v", k, wt, rels[k])
		have[k] = true
	}
	for _, k := range sortedKeys(rels) {
		c.Check(have[k], "lost-relation", "the relation %q that an item states is gone", k)
	}
	// no word of a superseded version anywhere
	if len(w.old) > 0 {
		bad := map[string]bool{}
		for _, t := range w.old {
			bad[t] = true
		}
		for _, q := range []string{"SELECT content, title, metadata FROM documents", "SELECT content, metadata FROM embeddings", "SELECT content, properties FROM graph_nodes", "SELECT content FROM chunks_fts"} {
			for _, row := range kRows(c, w.db, q) {
				for _, cell := range row {
					for _, f := range strings.FieldsFunc(cell, func(r rune) bool { return !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9') }) {
						c.Check(!bad[f], "residue:text", "%q, a word of a superseded version, is still stored (%s)", f, q)
					}
				}
			}
		}
		c.Nontrivial()
	}
	c.Count("table_scans", 1)
}

func c25history(c *Case) {
	r := c.R
	w := &kw25{c: c, r: r, m: map[string]*item25{}, name: map[string]string{}, ix: pick(r, []core.IndexType{core.IndexTypeFlat, core.IndexTypeHNSW}),
		ids: []string{"a", "a:b", "a:000", "a:b:000", "it's", "ü", "a%", "A", "a b", "chunk:a"}, colls: []string{"", "c1", "c'2"}[:1+r.Intn(3)]}
	if r.Intn(2) == 0 {
		w.e = &textEmb{dim: 24}
	}
	w.open()
	defer func() { w.db.Close() }()
	c.Op("embedder %v, index %v, collections %q", w.e != nil, w.ix, w.colls)
	for i, n := 0, 20+r.Intn(30); i < n; i++ {
		id := pick(r, w.ids[:3+r.Intn(len(w.ids)-2)])
		if w.e != nil && r.Intn(4) == 0 {
			after := w.e.calls + r.Intn(3)
			w.e.setFault(func(call int, _ []string) error {
				if call > after {
					return errEmbed
				}
				return nil
			})
		}
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			w.save(id)
		case 4, 5, 6:
			w.update(id)
		case 7:
			w.del(id)
		case 8:
			w.wander()
		case 9:
			w.findable(false)
		case 10:
			if r.Intn(3) == 0 {
				idleStore(c, w.db.Vector())
				c.Check(w.db.Close() == nil, "close-failed", "Close failed")
				w.open()
			}
		default:
			w.get(id)
		}
		if w.e != nil {
			w.e.setFault(nil)
		}
		if r.Intn(4) == 0 {
			w.residue()
		}
	}
	for _, id := range w.ids {
		w.get(id)
	}
	w.findable(true)
	w.wander()
	w.residue()
	for _, id := range sortedKeys(w.m) {
		w.del(id)
		w.residue()
	}
	c.Seen("scenario", fmt.Sprintf("emb=%v ix=%v colls=%d", w.e != nil, w.ix, len(w.colls)))
}

func c25scale(c *Case) {
	r := c.R
	w := &kw25{c: c, r: r, m: map[string]*item25{}, name: map[string]string{}, ix: pick(r, []core.IndexType{core.IndexTypeFlat, core.IndexTypeHNSW}), colls: []string{"", "c1"}}
	if c.Idx%2 == 0 {
		w.e = &textEmb{dim: 24}
	}
	w.open()
	defer func() { w.db.Close() }()
	for i := 0; i < 130; i++ {
		w.ids = append(w.ids, fmt.Sprintf("k%03d", i))
	}
	for _, id := range w.ids {
		w.save(id)
	}
	// one item of many chunks that becomes one of few
	big := kWrite(r, w.uniq, 20, 120, kNames[:3])
	for round := 0; round < 2; round++ {
		m := &item25{content: big.text, tokens: big.tokens, size: 1 + r.Intn(2), explicit: map[string][]string{}}
		names, known := map[string]string{}, map[string]bool{}
		w.extracted(m, known, names)
		var ent []cortexdb.ToolEntityInput
		for i := 0; i < 60; i++ { // many entities in one chunk
			n := fmt.Sprintf("Entity%03d", i)
			ent = append(ent, cortexdb.ToolEntityInput{Name: n, ChunkIDs: []string{kChunkID("big", 0)}})
			m.explicit[kChunkID("big", 0)] = append(m.explicit[kChunkID("big", 0)], kEntID(n))
			names[kEntID(n)] = n
		}
		res, err := w.db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: "big", Content: m.content, ChunkSize: m.size, Entities: ent})
		c.Check(err == nil, "save-failed", "SaveKnowledge of %d chunks: %v", len(m.chunks()), err)
		for k, v := range names {
			w.name[k] = v
		}
		m.version = round + 1
		w.m["big"] = m
		w.same("SaveKnowledge", "big", res.Knowledge)
		c.Count("chunks_of_big_item", len(m.chunks()))
	}
	w.ids = append(w.ids, "big")
	w.findable(false)
	w.residue()
	w.old = append(w.old, big.tokens...)
	small := kWrite(r, w.uniq, 1, 5, nil)
	version := w.m["big"].version
	switch c.Idx % 4 {
	case 0, 3: // gone as a whole
		w.m["big"].tokens = nil
		w.del("big")
		w.residue()
		version = 0
	}
	_, err := w.db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: "big", Content: small.text})
	c.Check(err == nil, "save-failed", "SaveKnowledge: %v", err)
	w.m["big"] = &item25{content: small.text, tokens: small.tokens, version: version + 1, explicit: map[string][]string{}}
	w.residue()
	for i := 0; i < 40; i++ {
		id := pick(r, w.ids)
		switch r.Intn(3) {
		case 0:
			w.save(id)
		case 1:
			w.update(id)
		default:
			w.del(id)
		}
		w.wander()
	}
	for _, id := range w.ids {
		w.get(id)
	}
	w.findable(false)
	w.residue()
}

func bag25(t string) string {
	f := strings.Fields(strings.ToLower(t))
	sort.Strings(f)
	return strings.Join(f, " ")
}
