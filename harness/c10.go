package main

import (
	"fmt"
	"sync"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C10", Level: "exploration",
		Rule: "a case is one history of record and message writes and deletes of every kind in which, after each step, keyword queries through the public search calls are compared with the live texts and the full-text index is checked against the rows; non-trivial when a text was replaced and a text deleted",
		Run: func(r *Run) {
			r.Parallel("history", r.N(75, 750), 0, c10history)
			r.Parallel("concurrent", r.N(16, 150), 0, c10concurrent)
			r.Parallel("large", r.N(8, 60), 0, c10large)
		}})
}

// keyword compares one keyword query with the live records.
func (w *World) keyword(text string, match func(string) bool, coll string) {
	c := w.c
	want := w.liveWith(func(x *Rec) bool { return match(x.Content) && (coll == "" || x.Coll == coll) })
	res, err := w.S.HybridSearch(bg, nil, text, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 10000, Collection: coll}})
	w.ok(err, "HybridSearch")
	got := map[string]bool{}
	for _, e := range res {
		c.Check(!got[e.ID], "duplicate-result", "keyword %q returned %q twice", text, e.ID)
		got[e.ID] = true
		x := w.Recs[e.ID]
		c.Check(x != nil, "keyword-stale", "keyword %q in %q finds %q, which is not stored", text, coll, e.ID)
		c.Check(match(x.Content) && (coll == "" || x.Coll == coll), "keyword-stale", "keyword %q in %q finds %v", text, coll, x)
		d := diffRec(&e.Embedding, x, false)
		c.Check(d == "", "keyword-content", "keyword %q returned %q with %s", text, e.ID, d)
	}
	for _, id := range want {
		c.Check(got[id], "keyword-missing", "keyword %q in %q does not find %v", text, coll, w.Recs[id])
	}
	c.Count("keyword_queries", 1)
	c.Count("keyword_hits", len(want))
}

func c10history(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, 2+r.Intn(3), "cosine"))
	w.Words = vocab[:12]
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	h := newChat(c, w.S, "cosine", 2)
	replaced, deleted := false, false
	for i := 0; i < 70; i++ {
		before := map[string]string{}
		for id, x := range w.Recs {
			before[id] = x.Content
		}
		// sometimes another pooled connection does the write
		var held []interface{ Close() error }
		for j := r.Intn(4) * r.Intn(3); j > 0; j-- {
			cn, err := w.S.GetDB().Conn(bg)
			c.Must(err, "conn")
			held = append(held, cn)
		}
		if len(held) > 0 {
			c.Op("holding %d connections", len(held))
		}
		w.BeforeClose = func() {
			for _, cn := range held {
				cn.Close()
			}
			held = nil
		}
		if i%13 == 5 {
			// the exposed database handle writes the text
			text := sentence(r, w.Words, 1+r.Intn(5))
			if ids := sortedKeys(w.Recs); len(ids) > 0 && r.Intn(2) == 0 {
				id := pick(r, ids)
				c.Op("SQL: the content of record %q becomes %q", id, text)
				_, err := w.S.GetDB().Exec("UPDATE embeddings SET content = ? WHERE id = ?", text, id)
				w.ok(err, "UPDATE embeddings")
				x := *w.Recs[id]
				x.Content = text
				w.Recs[id] = &x
			} else if len(h.Msgs) > 0 {
				m := pick(r, h.Msgs)
				c.Op("SQL: the content of message %q becomes %q", m.ID, text)
				_, err := w.S.GetDB().Exec("UPDATE messages SET content = ? WHERE id = ?", text, m.ID)
				w.ok(err, "UPDATE messages")
				m.Content = text
			}
			c.Seen("op", "SQL")
		} else if i%3 == 2 {
			h.Step()
		} else {
			c.Seen("op", w.Step())
		}
		w.BeforeClose()
		h.S = w.S
		for j := 0; j < 3; j++ {
			t, m := keywordQuery(r)
			w.keyword(t, m, pick(r, append(sortedKeys(w.Colls), "", "")))
		}
		// words of texts that this step replaced or deleted
		for _, id := range sortedKeys(before) {
			x := w.Recs[id]
			if x != nil && x.Content == before[id] {
				continue
			}
			if x == nil {
				deleted = true
			} else {
				replaced = true
			}
			for _, v := range w.Words {
				if hasWord(before[id], v) {
					w.keyword(v, func(t string) bool { return hasWord(t, v) }, "")
				}
			}
		}
		if i%7 == 6 {
			h.CheckSearch()
			for _, t := range []string{"chunks_fts", "messages_fts"} {
				c.Check(ftsCheck(w.S.GetDB(), t) == nil, "fts-inconsistent", "the full-text index %s disagrees with the rows", t)
			}
			for _, v := range w.Words {
				w.keyword(v, func(t string) bool { return hasWord(t, v) }, "")
			}
		}
	}
	if replaced && deleted {
		c.Nontrivial()
	}
	w.close()
}

// c10concurrent: goroutines rewrite their own records; at the end the keyword index agrees with the rows.
func c10concurrent(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 2, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	ng := 4 + r.Intn(4)
	type out struct {
		recs map[string]*Rec
		err  error
	}
	outs := make([]out, ng)
	seeds := make([]int64, ng)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rr := newRand(seeds[g])
			o := out{recs: map[string]*Rec{}}
			for i := 0; i < 40 && o.err == nil; i++ {
				id := fmt.Sprintf("g%d-%d", g, rr.Intn(5))
				if rr.Intn(4) == 0 && o.recs[id] != nil {
					o.err = w.S.Delete(bg, id)
					delete(o.recs, id)
					continue
				}
				mk := func(id string) *Rec {
					return &Rec{ID: id, Vec: randVec(rr, 2, 0), Content: sentence(rr, vocab, 3), Coll: "default"}
				}
				if rr.Intn(3) == 0 {
					var embs []*core.Embedding
					for j := 0; j < 3; j++ {
						x := mk(fmt.Sprintf("g%d-%d", g, rr.Intn(5)))
						embs = append(embs, x.emb())
						o.recs[x.ID] = x
					}
					o.err = w.S.UpsertBatch(bg, embs)
					continue
				}
				x := mk(id)
				o.err = w.S.Upsert(bg, x.emb())
				o.recs[id] = x
			}
			outs[g] = o
		}(g)
	}
	wg.Wait()
	for g, o := range outs {
		c.Check(o.err == nil, "spurious-error", "goroutine %d: %v", g, o.err)
		for _, x := range o.recs {
			w.put(x)
		}
	}
	for _, v := range vocab {
		w.keyword(v, func(t string) bool { return hasWord(t, v) }, "")
	}
	c.Check(ftsCheck(w.S.GetDB(), "chunks_fts") == nil, "fts-inconsistent", "the full-text index disagrees with the rows after concurrent writes")
	c.Nontrivial()
	w.close()
}

// c10large: batches of more than a thousand texts and texts of many thousand words, with the
// words that are searched at their very end.
func c10large(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 2, "cosine"))
	w.OnlyGood = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	_, err := w.S.CreateCollection(bg, "side", 2)
	w.ok(err, "CreateCollection")
	w.Colls["side"] = true
	rare := []string{"aardvark", "zyzzyva", "quokka", "narwhal"}
	text := func() string {
		t := sentence(r, vocab, 2+r.Intn(4))
		if r.Intn(40) == 0 {
			t = sentence(r, vocab, 500*(1+r.Intn(12)))
		}
		if r.Intn(8) == 0 {
			t += " " + pick(r, rare)
		}
		return t
	}
	write := func(from, n int) {
		var embs []*core.Embedding
		for i := from; i < from+n; i++ {
			x := &Rec{ID: fmt.Sprint("k", i), Vec: randVec(r, 2, 0), Content: text(), Coll: "default"}
			if i%7 == 3 {
				x.Coll = "side"
			}
			embs = append(embs, x.emb())
			w.put(x)
		}
		c.Op("UpsertBatch of k%d..k%d", from, from+n-1)
		w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	}
	judge := func() {
		for _, v := range append([]string{pick(r, vocab), pick(r, vocab)}, rare...) {
			w.keyword(v, func(t string) bool { return hasWord(t, v) }, pick(r, []string{"", "", "default", "side"}))
		}
		err := ftsCheck(w.S.GetDB(), "chunks_fts")
		c.Check(err == nil, "fts-inconsistent", "the full-text index disagrees with the rows: %v", err)
	}
	write(0, 1100+r.Intn(600))
	judge()
	write(200+r.Intn(300), 600+r.Intn(700)) // partly replaces
	judge()
	var del []string
	for _, id := range sortedKeys(w.Recs) {
		if r.Intn(2) == 0 {
			del = append(del, id)
		}
	}
	c.Op("DeleteBatch of %d", len(del))
	w.ok(w.S.DeleteBatch(bg, del), "DeleteBatch")
	for _, id := range del {
		delete(w.Recs, id)
	}
	judge()
	c.Op("DeleteCollection side")
	w.ok(w.S.DeleteCollection(bg, "side"), "DeleteCollection")
	delete(w.Colls, "side")
	w.drop(func(x *Rec) bool { return x.Coll == "side" })
	judge()
	w.reopen()
	judge()
	c.Nontrivial()
	w.close()
}
