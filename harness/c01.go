package main

import "github.com/liliang-cn/cortexdb/v2/pkg/core"

func init() {
	register(&Prop{ID: "C01", Level: "exploration",
		Rule: "a case is one random operation history (80-200 operations, hostile ids and values, reopen) on one index configuration, checked against a map model after every operation; non-trivial when it performed an overwrite, a delete that removed something, a rejected call and a reopen",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 900), 0, func(c *Case) {
				kind := cfgNames[c.Idx%len(cfgNames)]
				dim := 2 + c.R.Intn(6)
				cfg := mkConfig(dbPath(c), kind, dim, pick(c.R, []string{"cosine", "dot", "euclid"}))
				if c.R.Intn(3) == 0 {
					cfg.VectorDim = 0
				}
				w := newWorld(c, cfg)
				w.VecStyle = c.R.Intn(4)
				w.GenVec = func() []float32 { return randVec(c.R, dim, w.VecStyle) }
				w.open()
				defer func() {
					if w.S != nil {
						w.S.Close()
					}
				}()
				c.Op("config %s dim %d", kind, cfg.VectorDim)
				ops := map[string]int{}
				n := 60 + c.R.Intn(c.N(60, 200))
				removed, overwrote := 0, 0
				for i := 0; i < n; i++ {
					before := len(w.Recs)
					op := w.Step()
					ops[op]++
					if len(w.Recs) < before {
						removed++
					}
					if op == "Upsert" && len(w.Recs) == before {
						overwrote++
					}
					if op == "reopen" && c.R.Intn(3) == 0 {
						// the same file under another index configuration
						other := mkConfig(cfg.Path, pick(c.R, cfgNames), w.Dim, "cosine")
						w.Cfg = other
						c.Op("reopen with another index")
						w.reopen()
					}
					w.CheckPoint()
					if i%8 == 0 {
						w.CheckFull()
					}
				}
				w.CheckFull()
				w.reopen()
				w.CheckFull()
				for k, v := range ops {
					r.Count("op_"+k, v)
				}
				r.Seen("final_state_size", kind+sprint(len(w.Recs)))
				if removed > 0 && overwrote > 0 && ops["reopen"] > 0 && ops["Upsert!"]+ops["UpsertBatch!"] > 0 {
					c.Nontrivial()
				}
				w.close()
			})
			r.Parallel("bulk", r.N(10, 60), 4, c01bulk)
		}})
}

// c01bulk crosses the internal chunk sizes of batch operations.
func c01bulk(c *Case) {
	kind := pick(c.R, []string{"flat", "flat", "hnsw", "ivf"})
	dim := 3
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, "cosine"))
	n := pick(c.R, []int{499, 500, 501, 999, 1000, 1001, 1250, 1600})
	oneDoc := c.Idx%3 == 0
	if oneDoc {
		kind, n = "flat", pick(c.R, []int{1001, 1250, 2100})
		w.Cfg = mkConfig(dbPath(c), kind, dim, "cosine")
	}
	if kind == "hnsw" {
		n = 501 + c.R.Intn(40)
		w.Cfg.HNSW.EfConstruction = 16
	}
	w.IDs = nil
	for i := 0; i < n; i++ {
		w.IDs = append(w.IDs, "b"+sprint(i))
	}
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for _, d := range w.DocPool {
		w.ok(w.S.CreateDocument(bg, &core.Document{ID: d, Version: 1}), "CreateDocument")
		w.Docs[d] = &core.Document{ID: d, Version: 1}
	}
	var embs []*core.Embedding
	for _, id := range w.IDs {
		rec := w.newRec(id)
		if oneDoc {
			rec.Doc, rec.Meta = w.DocPool[0], map[string]string{"type": "a"}
		}
		embs = append(embs, rec.emb())
		w.put(rec)
	}
	c.Op("%s: UpsertBatch of %d", kind, n)
	w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	// the caller may reuse its slices
	for _, e := range embs {
		for i := range e.Vector {
			e.Vector[i] = 7
		}
		for k := range e.Metadata {
			e.Metadata[k] = "changed"
		}
		for i := range e.ACL {
			e.ACL[i] = "changed"
		}
	}
	for i := 0; i < 230; i++ {
		d := &core.Document{ID: "many" + sprint(i), Version: 1 + c.R.Intn(4), Author: pick(c.R, authors), Title: "t" + sprint(i)}
		w.Docs[d.ID] = d
		w.ok(w.S.CreateDocument(bg, d), "CreateDocument")
	}
	for _, k := range []int{1, 100, 101, 200} {
		l, err := w.S.ListDocumentsWithFilter(bg, "", k)
		w.ok(err, "ListDocumentsWithFilter")
		c.Check(len(l) == k, "wrong-listing", "ListDocumentsWithFilter(limit %d) has %d entries of %d", k, len(l), len(w.Docs))
	}
	w.CheckPoint()
	perm := c.R.Perm(n)
	m := pick(c.R, []int{n, n - 1, 500, 501, 1000, 1001})
	if m > n {
		m = n
	}
	var ids []string
	for _, i := range perm[:m] {
		ids = append(ids, w.IDs[i])
	}
	if oneDoc && c.Idx%2 == 0 {
		c.Op("DeleteByFilter of %d", n)
		w.ok(w.S.DeleteByFilter(bg, core.NewMetadataFilter().Equal("type", "a")), "DeleteByFilter")
		w.drop(func(*Rec) bool { return true })
	} else {
		c.Op("DeleteBatch of %d", len(ids))
		w.ok(w.S.DeleteBatch(bg, ids), "DeleteBatch")
		for _, id := range ids {
			delete(w.Recs, id)
		}
	}
	w.CheckFull()
	w.reopen()
	w.CheckPoint()
	c.Op("ClearByDocID of all documents")
	w.ok(w.S.ClearByDocID(bg, w.DocPool), "ClearByDocID")
	w.drop(func(x *Rec) bool { return x.Doc != "" })
	w.CheckFull()
	w.close()
	c.Nontrivial()
}
