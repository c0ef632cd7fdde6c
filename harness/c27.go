package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func init() {
	register(&Prop{ID: "C27", Level: "exploration",
		Rule: "a case is one history of ingestions and re-ingestions of texts in many scripts with drawn chunk sizes and overlaps through both ingestion calls (part ingest: every chunk is matched against the words of the text), or one corpus in several collections queried with drawn limits through every retrieval call (part retrieve: answers are compared with brute force over the model of chunks and graph, and every budget asserted); non-trivial when a text had overlapping chunks or was replaced, or a budget cut candidates off",
		Run: func(r *Run) {
			r.Parallel("ingest", r.N(120, 3000), 0, c27ingest)
			r.Parallel("retrieve", r.N(70, 1500), 0, c27retrieve)
			r.Parallel("scale", r.N(4, 24), 0, c27scale)
		}})
}

var scripts27 = []string{"ascii", "東京都は日本の首都です", "naïve", "e\u0301a", "👩‍👩‍👧", "данные", "ελιά", "נתונים", "بيانات", "데이터", "a-b_c", "\"quoted\"", "it's", "100%", "<b>", "{}", "x\u200by", "Ⅷ", "ß", "ﬁ", "\u0000", "\u0001", "--", "😀😀"}
var blanks27 = []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "\n\n", "\u00a0", "\u2003", "\u3000", "\v", "\f", "\u2028", " \n \t"}

func text27(r *rand.Rand, n int) string {
	var b strings.Builder
	if r.Intn(3) == 0 {
		b.WriteString(pick(r, blanks27))
	}
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			b.WriteString(pick(r, scripts27) + pick(r, scripts27))
		case 1:
			b.WriteString(pick(r, kNames))
		case 2, 3:
			b.WriteString(pick(r, scripts27))
		default:
			fmt.Fprintf(&b, "w%d", i)
		}
		if i+1 < n || r.Intn(3) == 0 {
			b.WriteString(pick(r, blanks27))
		}
	}
	s := strings.ReplaceAll(b.String(), "\u0000", "")
	if strings.TrimSpace(s) == "" {
		s = "x"
	}
	return s
}

// conserve27: the chunks, overlaps removed, are the words of the text in order; none is too large.
func conserve27(c *Case, what, text string, chunks []string, size, overlap int) {
	size, overlap = kCount(size, overlap)
	words := strings.Fields(text)
	end, lapped := 0, 0
	starts := map[int]bool{} // where paragraphs begin
	for _, p := range strings.FieldsFunc(text, func(r rune) bool { return r == '\n' || r == '\r' }) {
		starts[end] = true
		end += len(strings.Fields(p))
	}
	end = 0
	for i, ch := range chunks {
		w := strings.Fields(ch)
		c.Check(len(w) > 0 && len(w) <= size, "chunk-size", "%s: chunk %d has %d words, the limit is %d", what, i, len(w), size)
		ok := false
		for s := end; s >= 0 && s >= end-overlap && !ok; s-- {
			if s+len(w) <= end || s+len(w) > len(words) {
				continue
			}
			if sameStrings(words[s:s+len(w)], w) {
				ok = true
				c.Check(starts[s] || end-s == overlap, "wrong-overlap", "%s: chunk %d repeats %d words of the one before, asked for %d", what, i, end-s, overlap)
				lapped += end - s
				end = s + len(w)
			}
		}
		if !ok {
			c.Fail("text-not-conserved", "%s: chunk %d = %q does not continue the text after word %d (overlap at most %d)", what, i, ch, end, overlap)
		}
		c.Check(utf8.ValidString(ch) || !utf8.ValidString(text), "invalid-text", "%s: chunk %d = %q is not valid UTF-8", what, i, ch)
	}
	c.Check(end == len(words), "text-lost", "%s: the chunks end at word %d of %d", what, end, len(words))
	if lapped > 0 {
		c.Nontrivial()
		c.Count("overlapping_words", lapped)
	}
	c.Count("chunks", len(chunks))
	c.Count("words", len(words))
}

type ext27 struct {
	f func(text string) (*cortexdb.GraphExtraction, error)
}

func (e ext27) Extract(_ context.Context, text string) (*cortexdb.GraphExtraction, error) {
	return e.f(text)
}

func c27ingest(c *Case) {
	r := c.R
	var e *textEmb
	var opts []cortexdb.Option
	if r.Intn(2) == 0 {
		e = &textEmb{dim: 8}
		opts = append(opts, cortexdb.WithEmbedder(e))
	}
	dim := 8
	if e == nil {
		dim = pick(r, []int{0, 8, 33})
	}
	db, err := cortexdb.Open(cortexdb.Config{Path: dbPath(c), Dimensions: dim, SimilarityFn: core.CosineSimilarity, IndexType: pick(r, []core.IndexType{core.IndexTypeFlat, core.IndexTypeHNSW})}, opts...)
	c.Check(err == nil, "open-failed", "Open: %v", err)
	defer db.Close()
	c.Check(db.Graph().InitGraphSchema(bg) == nil, "open-failed", "InitGraphSchema failed")
	tools := db.GraphRAGTools()
	type doc struct {
		chunks         []string
		coll           string
		title, content string
		meta           map[string]string
		ment           map[string]bool // chunk -> entity
		rels           map[string]bool
		relw           map[string]bool // with the weight
		created        string
	}
	m := map[string]*doc{}
	dump := func() string {
		d, err := tableDump(kStore(db).GetDB(), "documents", "embeddings", "graph_nodes", "graph_edges")
		c.Must(err, "dump")
		return d
	}
	// another item that must not be touched
	other := &core.Embedding{ID: "chunk:d:zzz", Vector: make([]float32, dim+boolInt(dim == 0)*64), Content: "bystander"}
	other.Vector[0] = 1
	c.Check(db.Vector().Upsert(bg, other) == nil, "spurious-error", "Upsert of a bystander failed")
	for step, n := 0, 6+r.Intn(8); step < n; step++ {
		id := pick(r, []string{"d", "d:1", "d:000", "é'", "d 1"})
		size := pick(r, []int{-1, 0, 1, 2, 3, 7, 20, 119, 121, 1 << 30, math.MaxInt})
		overlap := pick(r, []int{-5, 0, 0, 1, 2, 3, 6, 19, 500, math.MaxInt})
		text := text27(r, pick(r, []int{1, 2, 5, 30, 300}))
		d := &doc{coll: pick(r, []string{"", "c1", "c'2"}), title: pick(r, []string{"", "T", "ü"}), content: text, meta: map[string]string{}, ment: map[string]bool{}, rels: map[string]bool{}, relw: map[string]bool{}}
		full := false // a text whose names the default extractor finds
		if step == 0 && c.Idx%20 == 3 && e != nil {
			var b strings.Builder
			for i := 0; i < 130; i++ {
				fmt.Fprintf(&b, "Name%dx met ", i)
			}
			full, text, size, overlap = true, b.String()+"all", 1<<30, 0
			d.content = text
		}
		if step == 0 && c.Idx%40 == 7 {
			text, size, overlap = text27(r, 1200), 1, 0
			d.content = text
		}
		if r.Intn(2) == 0 {
			d.meta["tag"] = "ж"
		}
		var ids []string
		before := ""
		what := fmt.Sprintf("ingest(%q, %d words, %d/%d)", id, len(strings.Fields(text)), size, overlap)
		if full || e != nil && r.Intn(4) > 0 {
			o := cortexdb.GraphRAGIngestOptions{Collection: d.coll, ChunkSize: size, ChunkOverlap: overlap}
			fail := r.Intn(5)
			if full {
				fail = 5
			}
			switch fail {
			case 0:
				at := e.calls + 1 + r.Intn(2)
				e.setFault(func(call int, _ []string) error {
					if call == at {
						return errEmbed
					}
					return nil
				})
			case 1:
				e.bad = func(call int, v [][]float32) [][]float32 {
					switch r.Intn(3) {
					case 0:
						return v[:len(v)-1]
					case 1:
						return nil
					}
					v[r.Intn(len(v))] = nil
					return v
				}
			case 2:
				k := r.Intn(3)
				o.Extractor = ext27{func(string) (*cortexdb.GraphExtraction, error) {
					if k--; k < 0 {
						return nil, errEmbed
					}
					return nil, nil
				}}
			case 3, 4:
				if r.Intn(2) == 0 {
					i := 0
					seed := r.Int63()
					o.Extractor = ext27{func(string) (*cortexdb.GraphExtraction, error) {
						q := rand.New(rand.NewSource(seed + int64(i)))
						ch := kChunkID(id, i)
						i++
						if q.Intn(4) == 0 {
							return nil, nil
						}
						x := &cortexdb.GraphExtraction{}
						for k := q.Intn(3); k > 0; k-- {
							n := pick(q, append([]string{"𝔘nit", "𠀀丈", "Mixed-Case_Name", "ÉCOLE 2"}, kNames...))
							x.Entities = append(x.Entities, cortexdb.GraphEntity{Name: n, Type: pick(q, []string{"", "person"})})
							d.ment[ch+" "+kEntID(n)] = true
						}
						for k := q.Intn(3); k > 0; k-- {
							a, b, t := pick(q, kNames), pick(q, append([]string{"Unlisted"}, kNames...)), pick(q, []string{"rel_a", "rel_b"})
							wt := pick(q, []float64{0, 0, 1, 2.5, -1.5, 1e-9})
							x.Relationships = append(x.Relationships, cortexdb.GraphRelationship{From: a, To: b, Type: t, Weight: wt})
							d.rels[kEntID(a)+" "+t+" "+kEntID(b)] = true
							if wt == 0 {
								wt = 1
							}
							d.relw[fmt.Sprint(kEntID(a), " ", t, " ", kEntID(b), " ", wt)] = true
						}
						if q.Intn(3) == 0 {
							x.Entities = append(x.Entities, cortexdb.GraphEntity{Name: "  "})
							x.Relationships = append(x.Relationships, cortexdb.GraphRelationship{From: "", To: "x"})
						}
						return x, nil
					}}
				}
			}
			before = dump()
			res, err := db.InsertGraphDocument(bg, cortexdb.GraphRAGDocument{ID: id, Title: d.title, Content: text, Metadata: d.meta}, o)
			e.setFault(nil)
			e.bad = nil
			c.Op("%s with an embedder, fault %d: %v", what, fail, err)
			if err != nil {
				c.Check(fail < 3, "ingest-failed", "%s: %v", what, err)
				c.Check(before == dump(), "partial-ingest", "%s failed (%v) and changed the database", what, err)
				c.Count("failed_ingests", 1)
				continue
			}
			c.Check(fail != 1, "accepted-bad-vectors", "%s succeeded although the embedder returned too few vectors", what)
			ids = res.ChunkNodeIDs
			c.Check(res.DocumentNodeID == "doc:"+id, "wrong-node", "%s: document node %q", what, res.DocumentNodeID)
			if full {
				for i := 0; i < 130; i++ {
					d.ment[kChunkID(id, 0)+" "+kEntID(fmt.Sprintf("Name%dx", i))] = true
				}
			} else if o.Extractor == nil {
				d.ment = nil // unknown: texts of many scripts
			}
		} else {
			res, err := tools.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: id, Title: d.title, Content: text, Collection: d.coll, ChunkSize: size, ChunkOverlap: overlap, Metadata: d.meta})
			c.Op("%s without an embedder: %v", what, err)
			c.Check(err == nil, "ingest-failed", "%s: %v", what, err)
			ids = res.ChunkNodeIDs
			c.Check(res.Collection == coll25(d.coll), "wrong-collection", "%s: stored in %q, asked for %q", what, res.Collection, d.coll)
		}
		if m[id] != nil {
			c.Nontrivial()
			c.Count("replacements", 1)
		}
		// read the chunks back
		got, err := tools.GetChunks(bg, cortexdb.ToolGetChunksRequest{ChunkIDs: ids})
		c.Check(err == nil, "spurious-error", "GetChunks: %v", err)
		c.Check(len(got.Chunks) == len(ids), "lost-chunk", "%s: %d of %d chunks can be read", what, len(got.Chunks), len(ids))
		for i, ch := range got.Chunks {
			c.Check(ch.ID == ids[i] && ch.DocumentID == id, "wrong-chunk", "%s: chunk %d is %q of %q", what, i, ch.ID, ch.DocumentID)
			c.Check(ch.Metadata["tag"] == d.meta["tag"], "wrong-metadata", "%s: chunk %d has metadata %v", what, i, ch.Metadata)
			d.chunks = append(d.chunks, ch.Content)
			emb, err := kStore(db).GetByID(bg, ch.ID)
			c.Check(err == nil && emb.Collection == coll25(d.coll), "wrong-collection", "%s: chunk %q is in %q", what, ch.ID, emb.Collection)
			if e != nil && before != "" {
				c.Check(bitsEq(emb.Vector, embedText(ch.Content, 8)), "wrong-vector", "%s: chunk %d does not have the vector of its text", what, i)
			}
		}
		conserve27(c, what, text, d.chunks, size, overlap)
		m[id] = d
		c.Seen("size", fmt.Sprintf("%d/%d", size, overlap))
		// everything stored is what the latest ingestions stored
		for _, k := range sortedKeys(m) {
			x := m[k]
			rows := kRows(c, db, "SELECT title, content FROM documents WHERE id = ?", k)
			c.Check(len(rows) == 1 && rows[0][0] == x.title && rows[0][1] == x.content, "wrong-document", "document %q is %q", k, rows)
			cs := kCol(kRows(c, db, "SELECT content FROM embeddings WHERE doc_id = ?", k), 0)
			want := append([]string{}, x.chunks...)
			sort.Strings(want)
			c.Check(sameStrings(cs, want), "stale-chunks", "document %q has %d stored chunks, its text %d", k, len(cs), len(want))
			cs = kCol(kRows(c, db, "SELECT n.content FROM graph_edges e JOIN graph_nodes n ON n.id = e.to_node_id WHERE e.from_node_id = ? AND e.edge_type = 'has_chunk'", "doc:"+k), 0)
			c.Check(sameStrings(cs, want), "stale-chunk-nodes", "the node of document %q has %d chunks, its text %d", k, len(cs), len(want))
			next := kRows(c, db, "SELECT from_node_id, to_node_id FROM graph_edges WHERE edge_type = 'next' AND from_node_id IN (SELECT id FROM embeddings WHERE doc_id = ?)", k)
			c.Check(len(next) == len(x.chunks)-1, "broken-chain", "document %q of %d chunks has %d links between them", k, len(x.chunks), len(next))
			if x.ment != nil {
				var have []string
				for _, row := range kRows(c, db, "SELECT from_node_id, to_node_id FROM graph_edges WHERE edge_type = 'mentions' AND from_node_id IN (SELECT id FROM embeddings WHERE doc_id = ?)", k) {
					have = append(have, row[0]+" "+row[1])
				}
				sort.Strings(have)
				c.Check(sameStrings(have, sortedKeys(x.ment)), "wrong-mentions", "document %q mentions %q, extracted %q", k, have, sortedKeys(x.ment))
			}
		}
		rels, relw := map[string]bool{}, map[string]bool{}
		for _, x := range m {
			for k := range x.rels {
				rels[k] = true
			}
			for k := range x.relw {
				relw[k] = true
			}
		}
		have := map[string]bool{}
		for _, row := range kRows(c, db, "SELECT from_node_id, edge_type, to_node_id, weight FROM graph_edges WHERE edge_type IN ('rel_a','rel_b')") {
			have[row[0]+" "+row[1]+" "+row[2]] = true
			k := row[0] + " " + row[1] + " " + row[2] + " " + row[3]
			c.Check(relw[k], "wrong-weight", "the relation %q was not extracted with that weight: %q", k, sortedKeys(relw))
		}
		c.Check(sameStrings(sortedKeys(have), sortedKeys(rels)), "wrong-relations", "the relations are %q, extracted %q", sortedKeys(have), sortedKeys(rels))
	}
	for _, bad := range []string{"", " \n\t", "\u00a0"} {
		_, err := tools.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: "d", Content: bad})
		c.Check(errors.Is(err, cortexdb.ErrEmptyText), "accepted-empty", "IngestDocument(%q): %v", bad, err)
	}
	got, err := kStore(db).GetByID(bg, other.ID)
	c.Check(err == nil && got.Content == "bystander", "bystander-lost", "an unrelated embedding is gone: %v", err)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// rw27 is a corpus with the graph that ingestion must have built.
type rw27 struct {
	c     *Case
	r     *rand.Rand
	db    *cortexdb.DB
	t     *cortexdb.GraphRAGToolbox
	e     *textEmb
	coll  map[string]string // chunk -> collection
	text  map[string]string // chunk -> text
	doc   map[string]string
	ents  map[string][]string // chunk -> entity ids
	name  map[string]string   // entity id -> name
	typ   map[string]string
	adj   map[string]map[string]bool
	order []string
}

func (w *rw27) link(a, b string) {
	for _, p := range [][2]string{{a, b}, {b, a}} {
		if w.adj[p[0]] == nil {
			w.adj[p[0]] = map[string]bool{}
		}
		w.adj[p[0]][p[1]] = true
	}
}

func (w *rw27) reach(from string, hops int) map[string]int {
	dist := map[string]int{from: 0}
	q := []string{from}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if dist[x] >= hops {
			continue
		}
		for y := range w.adj[x] {
			if _, ok := dist[y]; !ok {
				dist[y] = dist[x] + 1
				q = append(q, y)
			}
		}
	}
	delete(dist, from)
	return dist
}

func (w *rw27) ingest(id, coll, text string, size, overlap int) {
	c := w.c
	var ids []string
	if w.e != nil {
		res, err := w.db.InsertGraphDocument(bg, cortexdb.GraphRAGDocument{ID: id, Content: text}, cortexdb.GraphRAGIngestOptions{Collection: coll, ChunkSize: size, ChunkOverlap: overlap})
		c.Check(err == nil, "ingest-failed", "InsertGraphDocument: %v", err)
		ids = res.ChunkNodeIDs
	} else {
		res, err := w.t.IngestDocument(bg, cortexdb.ToolIngestDocumentRequest{DocumentID: id, Content: text, Collection: coll, ChunkSize: size, ChunkOverlap: overlap})
		c.Check(err == nil, "ingest-failed", "IngestDocument: %v", err)
		ids = res.ChunkNodeIDs
	}
	chunks := kChunks(text, size, overlap)
	c.Check(len(ids) == len(chunks), "wrong-chunks", "document %q has %d chunks, expected %d", id, len(ids), len(chunks))
	for i, ch := range chunks {
		k := ids[i]
		w.order = append(w.order, k)
		w.coll[k], w.text[k], w.doc[k] = coll25(coll), ch, id
		w.link("doc:"+id, k)
		if i > 0 {
			w.link(ids[i-1], k)
		}
		if w.e != nil {
			for _, n := range kNamesIn(ch) {
				w.mention(k, n, "entity")
			}
		}
	}
	if w.e == nil { // the caller extracts
		var es []cortexdb.ToolEntityInput
		for i, ch := range chunks {
			for _, n := range kNamesIn(ch) {
				t := pick(w.r, []string{"", "person"})
				es = append(es, cortexdb.ToolEntityInput{Name: n, Type: t, ChunkIDs: []string{ids[i]}})
				w.mention(ids[i], n, t)
			}
		}
		_, err := w.t.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{DocumentID: id, Entities: es})
		c.Check(err == nil, "spurious-error", "UpsertEntities: %v", err)
	}
}

func (w *rw27) mention(chunk, name, typ string) {
	e := kEntID(name)
	w.ents[chunk] = append(w.ents[chunk], e)
	w.name[e], w.typ[e] = name, typ
	w.link(chunk, e)
}

func (w *rw27) names(chunk string) []string {
	set := map[string]bool{}
	for _, e := range w.ents[chunk] {
		set[w.name[e]] = true
	}
	return sortedKeys(set)
}

func new27(c *Case, emb bool, docs, paragraphs, words int, colls []string) *rw27 {
	r := c.R
	w := &rw27{c: c, r: r, coll: map[string]string{}, text: map[string]string{}, doc: map[string]string{}, ents: map[string][]string{}, name: map[string]string{}, typ: map[string]string{}, adj: map[string]map[string]bool{}}
	var opts []cortexdb.Option
	if emb {
		w.e = &textEmb{dim: 24}
		opts = append(opts, cortexdb.WithEmbedder(w.e))
	}
	db, err := cortexdb.Open(cortexdb.Config{Path: dbPath(c), Dimensions: 24, SimilarityFn: core.CosineSimilarity, IndexType: core.IndexTypeFlat}, opts...)
	c.Check(err == nil, "open-failed", "Open: %v", err)
	w.db, w.t = db, db.GraphRAGTools()
	n := 0
	uniq := func() string { n++; return fmt.Sprintf("zq%05dx", n) }
	for i := 0; i < docs; i++ {
		t := kWrite(r, uniq, 1+r.Intn(paragraphs), words, kNames)
		w.ingest(fmt.Sprintf("doc%d", i), pick(r, colls), t.text, pick(r, []int{3, 6, 15}), r.Intn(3))
	}
	var rs []cortexdb.ToolRelationInput
	ks := sortedKeys(w.name)
	for i := r.Intn(5); i > 0 && len(ks) > 0; i-- {
		a, b := pick(r, ks), pick(r, ks)
		rs = append(rs, cortexdb.ToolRelationInput{From: a, To: b, Type: "rel_x"})
		w.link(a, b)
	}
	_, err = w.t.UpsertRelations(bg, cortexdb.ToolUpsertRelationsRequest{Relations: rs})
	c.Check(err == nil, "spurious-error", "UpsertRelations: %v", err)
	c.Op("%d documents, %d chunks, embedder %v, collections %q", docs, len(w.order), emb, colls)
	return w
}

// budget asserts the limits that hold for every assembled context.
func (w *rw27) budget(what string, chunks []cortexdb.GraphRAGChunkResult, text string, maxChunks, maxChars, perDoc int) {
	c := w.c
	c.Check(len(chunks) <= maxChunks, "too-many-chunks", "%s returned %d chunks, the limit is %d", what, len(chunks), maxChunks)
	c.Check(len(text) <= maxChars || len(chunks) <= 1, "over-budget", "%s assembled %d bytes from %d chunks, the budget is %d", what, len(text), len(chunks), maxChars)
	docs, seen := map[string]int{}, map[string]bool{}
	var lines []string
	for _, ch := range chunks {
		c.Check(!seen[ch.ID], "duplicate-chunk", "%s returned %q twice", what, ch.ID)
		seen[ch.ID] = true
		docs[ch.DocumentID]++
		c.Check(docs[ch.DocumentID] <= perDoc, "too-many-per-document", "%s returned %d chunks of %q, the limit is %d", what, docs[ch.DocumentID], ch.DocumentID, perDoc)
		c.Check(w.text[ch.ID] != "" && ch.Content == w.text[ch.ID] && ch.DocumentID == w.doc[ch.ID], "wrong-chunk", "%s returned %q of %q = %q, stored %q of %q", what, ch.ID, ch.DocumentID, ch.Content, w.text[ch.ID], w.doc[ch.ID])
		lines = append(lines, fmt.Sprintf("[%s/%s] %s", ch.DocumentID, ch.ID, ch.Content))
	}
	c.Check(text == strings.Join(lines, "\n"), "wrong-context", "%s assembled %q from %q", what, text, lines)
	c.Check(utf8.ValidString(text), "invalid-text", "%s assembled text that is not valid UTF-8", what)
	c.Count("contexts", 1)
	if len(chunks) == maxChunks {
		c.Count("contexts_at_chunk_limit", 1)
	}
	if len(text) > maxChars*2/3 {
		c.Count("contexts_near_budget", 1)
		c.Nontrivial()
	}
}

func def(x, d int) int {
	if x <= 0 {
		return d
	}
	return x
}

func (w *rw27) opts() cortexdb.GraphRAGQueryOptions {
	r := w.r
	o := cortexdb.GraphRAGQueryOptions{Collection: pick(r, []string{"", "", "c1", "none"}), TopK: r.Intn(7), MaxHops: r.Intn(4), MaxRelatedChunks: r.Intn(7) - 1, MaxContextChunks: pick(r, []int{0, 0, 1, 2, 5, 50}),
		MaxContextChars: pick(r, []int{0, 1, 60, 150, 400, 100000}), PerDocumentLimit: pick(r, []int{0, 1, 2, 3, 100}), DiversityLambda: pick(r, []float64{0, 0.3, 1, 1, -1, 2}), DisableGraph: r.Intn(6) == 0, RetrievalMode: pick(r, []string{"", "auto", "graph", "lexical", "GRAPH", "odd"})}
	if r.Intn(2) == 0 { // no budget cuts anything off
		o.MaxContextChunks, o.MaxContextChars, o.PerDocumentLimit = pick(r, []int{0, 50}), 100000, 100
	}
	return o
}

func (w *rw27) query() (string, bool) {
	r := w.r
	switch r.Intn(4) {
	case 0:
		return pick(r, kNames) + " " + pick(r, kLower), true
	case 1:
		t := w.text[pick(r, w.order)]
		return t, len(kNamesIn(t)) > 0
	}
	return pick(r, kLower) + " " + pick(r, kLower), false
}

func useGraph27(o cortexdb.GraphRAGQueryOptions, entity bool) bool {
	if o.DisableGraph {
		return false
	}
	switch strings.ToLower(o.RetrievalMode) {
	case "graph":
		return true
	case "lexical":
		return false
	}
	return entity
}

func (w *rw27) graphRAG() {
	c, o := w.c, w.opts()
	q, ent := w.query()
	what := fmt.Sprintf("SearchGraphRAG(%q, %+v)", q, o)
	res, err := w.db.SearchGraphRAG(bg, q, o)
	c.Check(err == nil, "search-failed", "%s: %v", what, err)
	again, err := w.db.SearchGraphRAG(bg, q, o)
	c.Check(err == nil && fmt.Sprintf("%+v", res) == fmt.Sprintf("%+v", again), "not-repeatable", "%s answers differently when repeated", what)
	topK := def(o.TopK, 4)
	rel := def(o.MaxRelatedChunks, topK)
	maxChunks, perDoc, maxChars := def(o.MaxContextChunks, topK+rel), def(o.PerDocumentLimit, 2), def(o.MaxContextChars, 2400)
	w.budget(what, res.Chunks, res.Context, maxChunks, maxChars, perDoc)
	coll := coll25(o.Collection)
	qv := embedText(q, 24)
	score := map[string]float64{}
	var all []float64
	for _, id := range w.order {
		if w.coll[id] == coll {
			score[id] = cos64(qv, embedText(w.text[id], 24))
			all = append(all, score[id])
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(all)))
	floor := math.Inf(-1) // what a seed must reach
	if len(all) > topK {
		floor = all[topK-1]
	}
	use := useGraph27(o, ent)
	near := map[string]bool{}
	crowd := 0
	if use {
		for id, s := range score {
			if s >= floor-1e-4 {
				d := w.reach(id, def(o.MaxHops, 2))
				for x := range d {
					near[x] = true
				}
				if len(d) > crowd {
					crowd = len(d)
				}
			}
		}
	}
	seeds, related := 0, 0
	for i, ch := range res.Chunks {
		c.Check(w.coll[ch.ID] == coll, "foreign-chunk", "%s returned %q of collection %q", what, ch.ID, w.coll[ch.ID])
		if score[ch.ID] >= floor-1e-4 && math.Abs(ch.Score-score[ch.ID]) < 1e-4 {
			seeds++
		} else {
			c.Check(near[ch.ID], "unrelated-chunk", "%s returned %q with score %v, which is neither among the %d most similar (similarity %v, limit %v) nor linked to one", what, ch.ID, ch.Score, topK, score[ch.ID], floor)
			c.Check(score[ch.ID] <= floor+1e-4, "wrong-score", "%s scores %q %v, its similarity is %v", what, ch.ID, ch.Score, score[ch.ID])
			related++
		}
		if o.DiversityLambda == 1 && i > 0 {
			c.Check(ch.RerankScore <= res.Chunks[i-1].RerankScore+1e-12, "not-best-first", "%s without diversity: chunk %d ranks %v after %v", what, i, ch.RerankScore, res.Chunks[i-1].RerankScore)
		}
		if i > 0 {
			c.Check(ch.RerankScore <= res.Chunks[0].RerankScore+1e-12, "best-not-first", "%s: chunk %d ranks %v above the first, %v", what, i, ch.RerankScore, res.Chunks[0].RerankScore)
		}
		if use {
			c.Check(sameStrings(ch.Entities, w.names(ch.ID)) || len(ch.Entities)+len(w.names(ch.ID)) == 0, "wrong-entities", "%s: %q mentions %q, expected %q", what, ch.ID, ch.Entities, w.names(ch.ID))
		}
	}
	want := len(all)
	if want > topK {
		want = topK
	}
	c.Check(related <= rel, "too-many-related", "%s returned %d related chunks, the limit is %d", what, related, rel)
	c.Check(len(res.Chunks) > 0 || len(all) == 0, "nothing-found", "%s found nothing among %d chunks", what, len(all))
	if maxChars == 100000 && perDoc == 100 && maxChunks >= topK+rel {
		tied := len(all) > topK && all[topK] > floor-1e-4
		pool := 0
		for x := range near {
			if w.coll[x] == coll && score[x] < floor-1e-4 {
				pool++
			}
		}
		if pool > rel {
			pool = rel
		}
		if !tied {
			c.Check(seeds == want, "missing-chunk", "%s returned %d of the %d most similar chunks", what, seeds, want)
			if crowd < topK*12 {
				c.Check(related == pool, "missing-related", "%s returned %d related chunks of %d", what, related, pool)
				c.Count("exact_related", related)
			}
			c.Count("exact_seeds", seeds)
		}
	} else if len(res.Chunks) < want {
		c.Nontrivial()
	}
	c.Count("searches", 1)
}

var ascii27 = strings.Fields("river stone cloud maple harbor silver winter garden water copper valley engine signal marble falcon lantern")

func has27(text string, words ...string) int {
	n := 0
	for _, w := range words {
		for _, f := range strings.Fields(strings.ToLower(text)) {
			if f == w {
				n++
				break
			}
		}
	}
	return n
}

func (w *rw27) textSearch() {
	c, r := w.c, w.r
	words := []string{pick(r, ascii27)}
	if r.Intn(2) == 0 {
		words = append(words, pick(r, ascii27))
	}
	req := cortexdb.ToolSearchTextRequest{Query: strings.Join(words, " "), Collection: pick(r, []string{"", kDefaultColl, "c1", "none"}), TopK: pick(r, []int{-1, 0, 1, 3, 10, 500}), RetrievalMode: pick(r, []string{"", "graph", "lexical"})}
	extra := []string{}
	if r.Intn(3) == 0 {
		extra = append(extra, pick(r, ascii27))
		if r.Intn(2) == 0 {
			req.Keywords = extra
		} else {
			req.AlternateQueries = extra
		}
	}
	what := fmt.Sprintf("SearchText(%+v)", req)
	res, err := w.t.SearchText(bg, req)
	c.Check(err == nil, "search-failed", "%s: %v", what, err)
	topK := def(req.TopK, 10)
	c.Check(len(res.Chunks) <= topK, "too-many-chunks", "%s returned %d chunks", what, len(res.Chunks))
	seen := map[string]bool{}
	full, any := 0, 0
	for _, id := range w.order {
		if req.Collection == "" || w.coll[id] == req.Collection {
			if has27(w.text[id], words...) == len(words) {
				full++
			}
			if has27(w.text[id], append(words, extra...)...) > 0 {
				any++
			}
		}
	}
	for i, ch := range res.Chunks {
		c.Check(!seen[ch.ID], "duplicate-chunk", "%s returned %q twice", what, ch.ID)
		seen[ch.ID] = true
		c.Check(ch.Content == w.text[ch.ID] && ch.DocumentID == w.doc[ch.ID], "wrong-chunk", "%s returned %q = %q, stored %q", what, ch.ID, ch.Content, w.text[ch.ID])
		c.Check(req.Collection == "" || w.coll[ch.ID] == req.Collection, "foreign-chunk", "%s returned %q of %q", what, ch.ID, w.coll[ch.ID])
		c.Check(has27(ch.Content, append(words, extra...)...) > 0, "unrelated-chunk", "%s returned %q", what, ch.Content)
		if i > 0 {
			c.Check(ch.Score <= res.Chunks[i-1].Score, "not-best-first", "%s: chunk %d scores %v after %v", what, i, ch.Score, res.Chunks[i-1].Score)
		}
	}
	if any > topK {
		any = topK
	}
	if len(extra) == 0 || full < topK {
		// one word: exactly the chunks that have it; more words: at least those that have all
		if full > topK {
			full = topK
		}
		c.Check(len(res.Chunks) >= full, "missing-chunk", "%s returned %d chunks, %d have all the words", what, len(res.Chunks), full)
		n := 0
		for id := range seen {
			if has27(w.text[id], words...) == len(words) {
				n++
			}
		}
		if len(words) == 1 && len(extra) == 0 {
			c.Check(n == full && len(res.Chunks) == full, "missing-chunk", "%s returned %d chunks, %d have the word", what, len(res.Chunks), full)
		}
	}
	if topK == 500 {
		c.Check(len(res.Chunks) == any, "missing-chunk", "%s returned %d chunks, %d have one of the words", what, len(res.Chunks), any)
	}
	c.Count("searches", 1)
}

func (w *rw27) entitySearch() {
	c, r := w.c, w.r
	req := cortexdb.ToolSearchChunksByEntitiesRequest{TopK: pick(r, []int{0, 1, 5, 100}), MaxHops: r.Intn(4)}
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := pick(r, append([]string{"Nobody Known"}, kNames...))
		if !contains(req.EntityNames, n) {
			req.EntityNames = append(req.EntityNames, n)
		}
	}
	what := fmt.Sprintf("SearchChunksByEntities(%+v)", req)
	res, err := w.t.SearchChunksByEntities(bg, req)
	c.Check(err == nil, "search-failed", "%s: %v", what, err)
	topK := def(req.TopK, 10)
	want := map[string]float64{}
	big := false
	for _, n := range req.EntityNames {
		k := 0
		for x := range w.reach(kEntID(n), def(req.MaxHops, 1)) {
			if w.text[x] != "" {
				want[x]++
				k++
			}
		}
		big = big || k > topK*8
	}
	c.Check(len(res.Chunks) <= topK, "too-many-chunks", "%s returned %d chunks", what, len(res.Chunks))
	seen := map[string]bool{}
	for i, ch := range res.Chunks {
		c.Check(!seen[ch.ID] && want[ch.ID] > 0, "unrelated-chunk", "%s returned %q, linked to none of them or listed before", what, ch.ID)
		seen[ch.ID] = true
		c.Check(ch.Content == w.text[ch.ID], "wrong-chunk", "%s returned %q = %q", what, ch.ID, ch.Content)
		c.Check(big || ch.Score == want[ch.ID], "wrong-score", "%s scores %q %v, it is linked to %v of them", what, ch.ID, ch.Score, want[ch.ID])
		c.Check(sameStrings(ch.Entities, w.names(ch.ID)) || len(ch.Entities)+len(w.names(ch.ID)) == 0, "wrong-entities", "%s: %q mentions %q, expected %q", what, ch.ID, ch.Entities, w.names(ch.ID))
		if i > 0 {
			c.Check(ch.Score <= res.Chunks[i-1].Score, "not-best-first", "%s: chunk %d scores %v after %v", what, i, ch.Score, res.Chunks[i-1].Score)
		}
	}
	n := len(want)
	if n > topK {
		n = topK
	}
	if !big {
		c.Check(len(res.Chunks) == n, "missing-chunk", "%s returned %d chunks of %d", what, len(res.Chunks), n)
		if n == topK && len(want) > n { // the cut keeps the best
			min := math.Inf(1)
			for _, ch := range res.Chunks {
				min = math.Min(min, ch.Score)
			}
			for _, id := range sortedKeys(want) {
				c.Check(seen[id] || want[id] <= min, "not-best-first", "%s left out %q (%v) for chunks of %v", what, id, want[id], min)
			}
		}
	}
	c.Count("searches", 1)
}

func (w *rw27) lexicalRAG() {
	c, r, o := w.c, w.r, w.opts()
	words := []string{pick(r, ascii27)}
	q := words[0]
	ent := false
	if r.Intn(3) == 0 {
		n := pick(r, kNames)
		q, ent = n+" "+q, true
		words = append(words, strings.Fields(strings.ToLower(n))...)
	}
	req := cortexdb.ToolSearchGraphRAGLexicalRequest{Query: q, Collection: o.Collection, TopK: o.TopK, MaxHops: o.MaxHops, MaxRelatedChunks: o.MaxRelatedChunks, MaxContextChunks: o.MaxContextChunks, MaxContextChars: o.MaxContextChars,
		PerDocumentLimit: o.PerDocumentLimit, DiversityLambda: o.DiversityLambda, RetrievalMode: o.RetrievalMode, DisableGraph: o.DisableGraph}
	if r.Intn(3) == 0 {
		req.EntityNames = []string{pick(r, kNames)}
		ent = true
	}
	what := fmt.Sprintf("SearchGraphRAGLexical(%+v)", req)
	res, err := w.t.SearchGraphRAGLexical(bg, req)
	c.Check(err == nil, "search-failed", "%s: %v", what, err)
	again, err := w.t.SearchGraphRAGLexical(bg, req)
	c.Check(err == nil && fmt.Sprintf("%+v", res) == fmt.Sprintf("%+v", again), "not-repeatable", "%s answers differently when repeated", what)
	topK := def(o.TopK, 4)
	rel := def(o.MaxRelatedChunks, topK)
	maxChunks, perDoc, maxChars := def(o.MaxContextChunks, topK+rel), def(o.PerDocumentLimit, 2), def(o.MaxContextChars, 2400)
	w.budget(what, res.Chunks, res.Context, maxChunks, maxChars, perDoc)
	coll := coll25(o.Collection)
	use := useGraph27(o, ent)
	got := map[string]bool{}
	matching := 0
	for _, id := range w.order {
		if w.coll[id] == coll && has27(w.text[id], words...) > 0 {
			matching++
		}
	}
	for i, ch := range res.Chunks {
		got[ch.ID] = true
		c.Check(w.coll[ch.ID] == coll, "foreign-chunk", "%s returned %q of collection %q", what, ch.ID, w.coll[ch.ID])
		if !use {
			c.Check(has27(ch.Content, words...) > 0, "unrelated-chunk", "%s returned %q, which has none of the words", what, ch.Content)
		}
		if o.DiversityLambda == 1 && i > 0 {
			c.Check(ch.RerankScore <= res.Chunks[i-1].RerankScore+1e-12, "not-best-first", "%s without diversity: chunk %d ranks %v after %v", what, i, ch.RerankScore, res.Chunks[i-1].RerankScore)
		}
		if use {
			c.Check(sameStrings(ch.Entities, w.names(ch.ID)) || len(ch.Entities)+len(w.names(ch.ID)) == 0, "wrong-entities", "%s: %q mentions %q, expected %q", what, ch.ID, ch.Entities, w.names(ch.ID))
		}
	}
	c.Check(len(res.Chunks) > 0 || matching == 0, "nothing-found", "%s found nothing, %d chunks have one of the words", what, matching)
	if !use && maxChars == 100000 && perDoc == 100 && maxChunks >= topK {
		want := matching
		if want > topK {
			want = topK
		}
		c.Check(len(res.Chunks) == want, "missing-chunk", "%s returned %d chunks, %d of at most %d have one of the words", what, len(res.Chunks), matching, topK)
		c.Count("exact_lexical", want)
	}
	c.Count("searches", 1)
}

func (w *rw27) build() {
	c, r := w.c, w.r
	req := cortexdb.ToolBuildContextRequest{MaxContextChunks: pick(r, []int{0, 1, 3, 100}), MaxContextChars: pick(r, []int{0, 1, 60, 150, 400, 100000}), PerDocumentLimit: pick(r, []int{0, 1, 2, 100})}
	for _, i := range r.Perm(len(w.order))[:r.Intn(len(w.order)+1)] {
		req.ChunkIDs = append(req.ChunkIDs, w.order[i])
		if r.Intn(6) == 0 {
			req.ChunkIDs = append(req.ChunkIDs, pick(r, []string{"", "missing", "doc:doc0", "entity:alice"}))
		}
	}
	what := fmt.Sprintf("BuildContext(%+v)", req)
	res, err := w.t.BuildContext(bg, req)
	c.Check(err == nil, "search-failed", "%s: %v", what, err)
	w.budget(what, res.Chunks, res.Context, def(req.MaxContextChunks, 8), def(req.MaxContextChars, 2400), def(req.PerDocumentLimit, 2))
	at := 0
	for _, ch := range res.Chunks {
		for at < len(req.ChunkIDs) && req.ChunkIDs[at] != ch.ID {
			at++
		}
		c.Check(at < len(req.ChunkIDs), "wrong-order", "%s returned %q out of order or unasked", what, ch.ID)
	}
	n := 0
	for _, id := range req.ChunkIDs {
		if w.text[id] != "" {
			n++
		}
	}
	if req.MaxContextChunks == 100 && req.MaxContextChars == 100000 && req.PerDocumentLimit == 100 && n <= 100 {
		c.Check(len(res.Chunks) == n, "missing-chunk", "%s returned %d of %d chunks", what, len(res.Chunks), n)
	}
	c.Check(n == 0 || len(res.Chunks) > 0, "nothing-found", "%s returned nothing", what)
}

func (w *rw27) all(n int) {
	for i := 0; i < n; i++ {
		if w.e != nil {
			w.graphRAG()
		}
		w.lexicalRAG()
		w.textSearch()
		w.entitySearch()
		w.build()
	}
}

func c27retrieve(c *Case) {
	r := c.R
	w := new27(c, c.Idx%3 > 0, 1+r.Intn(8), 3, 25, []string{"", "", "c1"}[:1+r.Intn(3)])
	defer w.db.Close()
	w.all(12)
	c.Seen("corpus", fmt.Sprintf("%d", len(w.order)))
}

func c27scale(c *Case) {
	w := new27(c, c.Idx%2 == 0, 60, 6, 60, []string{"", "", "c1"})
	defer w.db.Close()
	w.all(15)
	c.Count("scale_chunks", len(w.order))
}

func cos64(a, b []float32) float64 {
	var d, x, y float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
		x += float64(a[i]) * float64(a[i])
		y += float64(b[i]) * float64(b[i])
	}
	if x == 0 || y == 0 {
		return 0
	}
	return d / math.Sqrt(x*y)
}
