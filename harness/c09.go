package main

import (
	"database/sql"
	"fmt"
	"sync"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C09", Level: "exploration",
		Rule: "a case is one history of parents and children (documents, collections, sessions, nodes) with a varying number of pooled connections held so that each statement runs on another connection, or a race of child writers against parent deleters; non-trivial when parents with children were deleted",
		Run: func(r *Run) {
			r.Parallel("connections", r.N(40, 400), 0, c09connections)
			r.Parallel("races", r.N(30, 250), 0, c09races)
			r.Parallel("scale", r.N(8, 60), 4, c09scale)
		}})
}

// orphans looks for rows that refer to missing parents, by the database's own check and by direct joins.
func orphans(c *Case, db *sql.DB) {
	rows, err := db.Query("PRAGMA foreign_key_check")
	c.Must(err, "foreign_key_check")
	for rows.Next() {
		var t, p sql.NullString
		var id, fk sql.NullInt64
		c.Must(rows.Scan(&t, &id, &p, &fk), "scan")
		rows.Close()
		c.Fail("orphan", "table %s row %d refers to a missing row of %s", t.String, id.Int64, p.String)
	}
	rows.Close()
	for what, q := range map[string]string{
		"record without document":   "SELECT count(*) FROM embeddings WHERE doc_id IS NOT NULL AND doc_id NOT IN (SELECT id FROM documents)",
		"record without collection": "SELECT count(*) FROM embeddings WHERE collection_id NOT IN (SELECT id FROM collections)",
		"message without session":   "SELECT count(*) FROM messages WHERE session_id NOT IN (SELECT id FROM sessions)",
		"edge without node":         "SELECT count(*) FROM graph_edges WHERE from_node_id NOT IN (SELECT id FROM graph_nodes) OR to_node_id NOT IN (SELECT id FROM graph_nodes)",
	} {
		var n int
		c.Must(db.QueryRow(q).Scan(&n), q)
		c.Check(n == 0, "orphan", "%d × %s", n, what)
		c.Count("orphan_scans", 1)
	}
}

func c09connections(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, 3, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	g := newGWorld(c, "cosine", 3)
	g.Cfg = w.Cfg
	attach := func() {
		g.S = w.S
		g.G = graph.NewGraphStore(w.S)
		g.ok(g.G.InitGraphSchema(bg), "InitGraphSchema")
	}
	attach()
	h := newChat(c, w.S, "cosine", 3)
	parents := 0
	for i := 0; i < 90; i++ {
		var held []*sql.Conn
		for j := pick(r, []int{0, 1, 2, 5, 11, 20}); j > 0; j-- {
			cn, err := w.S.GetDB().Conn(bg)
			c.Must(err, "conn")
			held = append(held, cn)
		}
		c.Op("holding %d connections", len(held))
		release := func() {
			for _, cn := range held {
				cn.Close()
			}
			held = nil
		}
		w.BeforeClose, g.BeforeClose = release, release
		switch i % 4 {
		case 0:
			h.Step()
		case 1:
			g.Step()
			if g.S != w.S { // the graph step reopened its store
				w.S = g.S
			}
		case 2: // delete a parent that has children
			switch r.Intn(3) {
			case 0:
				for _, d := range sortedKeys(w.Docs) {
					if n := len(w.liveWith(func(x *Rec) bool { return x.Doc == d })); n > 0 {
						parents++
						c.Count("children", n)
						c.Op("DeleteDocument %q with %d records", d, n)
						w.ok(w.S.DeleteDocument(bg, d), "DeleteDocument")
						delete(w.Docs, d)
						w.drop(func(x *Rec) bool { return x.Doc == d })
						break
					}
				}
			case 1:
				for _, n := range sortedKeys(w.Colls) {
					if k := len(w.liveWith(func(x *Rec) bool { return x.Coll == n })); k > 0 && n != "default" {
						parents++
						c.Count("children", k)
						c.Op("DeleteCollection %q with %d records", n, k)
						w.ok(w.S.DeleteCollection(bg, n), "DeleteCollection")
						delete(w.Colls, n)
						w.drop(func(x *Rec) bool { return x.Coll == n })
						break
					}
				}
			case 2:
				for _, n := range sortedKeys(g.Nodes) {
					k := 0
					for _, e := range g.Edges {
						if e.FromNodeID == n || e.ToNodeID == n {
							k++
						}
					}
					if k > 0 {
						parents++
						c.Count("children", k)
						c.Op("DeleteNode %q with %d edges", n, k)
						g.ok(g.G.DeleteNode(bg, n), "DeleteNode")
						g.dropNode(n)
						break
					}
				}
			}
		default:
			c.Seen("op", w.Step())
		}
		if g.S != w.S {
			release()
			attach()
		}
		h.S = w.S
		// references to missing parents are refused
		x := w.newRec("orphan")
		x.Doc, x.Coll = "no such document", "default"
		c.Check(w.S.Upsert(bg, x.emb()) != nil, "orphan-accepted", "a record of a missing document was stored")
		x.Doc, x.Coll = "", "no such collection"
		c.Check(w.S.Upsert(bg, x.emb()) != nil, "orphan-accepted", "a record of a missing collection was stored")
		y := w.newRec("fine")
		c.Check(w.S.UpsertBatch(bg, []*core.Embedding{y.emb(), x.emb()}) != nil, "orphan-accepted", "a batch with a record of a missing collection was stored")
		x.Doc, x.Coll = "no such document", "default"
		c.Check(w.S.UpsertBatch(bg, []*core.Embedding{y.emb(), x.emb()}) != nil, "orphan-accepted", "a batch with a record of a missing document was stored")
		c.Check(w.S.AddMessage(bg, &core.Message{ID: "orphan", SessionID: "no such session", Role: "user", Content: "x"}) != nil, "orphan-accepted", "a message of a missing session was stored")
		if len(g.Nodes) > 0 {
			n := pick(r, sortedKeys(g.Nodes))
			c.Check(g.G.UpsertEdge(bg, &graph.GraphEdge{ID: "orphan", FromNodeID: n, ToNodeID: "no such node", EdgeType: "t", Weight: 1}) != nil, "orphan-accepted", "an edge to a missing node was stored")
			c.Check(g.G.UpsertEdge(bg, &graph.GraphEdge{ID: "orphan", FromNodeID: "no such node", ToNodeID: n, EdgeType: "t", Weight: 1}) != nil, "orphan-accepted", "an edge from a missing node was stored")
		}
		orphans(c, w.S.GetDB())
		release()
		if i%6 == 5 {
			w.CheckFull()
			g.CheckGraph()
			h.CheckHistory()
		} else {
			w.CheckPoint()
		}
	}
	if parents > 2 {
		c.Nontrivial()
	}
	c.Count("parents_deleted", parents)
	w.close()
}

// c09races: writers of children race deleters of their parents.
func c09races(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, 2, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	G := graph.NewGraphStore(w.S)
	w.ok(G.InitGraphSchema(bg), "InitGraphSchema")
	mk := func() {
		w.S.CreateDocument(bg, &core.Document{ID: "hot", Title: "t"})
		w.S.CreateCollection(bg, "hot", 2)
		w.S.CreateSession(bg, &core.Session{ID: "hot", UserID: "u"})
		G.UpsertNode(bg, &graph.GraphNode{ID: "hot", Vector: []float32{1, 1}, Content: "x"})
	}
	mk()
	w.ok(w.S.CreateDocument(bg, &core.Document{ID: "cold", Title: "t"}), "CreateDocument")
	_, err := w.S.CreateCollection(bg, "cold", 2)
	w.ok(err, "CreateCollection")
	w.ok(w.S.CreateSession(bg, &core.Session{ID: "cold", UserID: "u"}), "CreateSession")
	for i := 0; i < 4; i++ {
		w.ok(G.UpsertNode(bg, &graph.GraphNode{ID: fmt.Sprint("cold", i), Vector: []float32{1, float32(i)}, Content: "x"}), "UpsertNode")
	}
	const nw = 4
	seeds := make([]int64, nw+2)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	type tally struct{ recs, msgs, edges map[string]bool }
	cold := make([]tally, nw)
	var coldErr = make([]error, nw)
	var mu sync.Mutex
	accepted, refused, deletions := 0, 0, 0
	var wg sync.WaitGroup
	for g := 0; g < nw; g++ {
		cold[g] = tally{map[string]bool{}, map[string]bool{}, map[string]bool{}}
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rr := newRand(seeds[g])
			for i := 0; i < 25; i++ {
				hot := rr.Intn(3) > 0
				p := "cold"
				if hot {
					p = "hot"
				}
				id := fmt.Sprintf("%s-%d-%d", p, g, i)
				var err error
				switch rr.Intn(5) {
				case 0:
					err = w.S.Upsert(bg, &core.Embedding{ID: id, Vector: randVec(rr, 2, 0), Content: "alpha", DocID: p})
					if err == nil && !hot {
						cold[g].recs[id] = true
					}
				case 1:
					err = w.S.Upsert(bg, &core.Embedding{ID: id, Vector: randVec(rr, 2, 0), Content: "alpha", Collection: p})
					if err == nil && !hot {
						cold[g].recs[id] = true
					}
				case 2:
					err = w.S.UpsertBatch(bg, []*core.Embedding{{ID: id, Vector: randVec(rr, 2, 0), Content: "alpha", Collection: p}, {ID: id + "b", Vector: randVec(rr, 2, 0), Content: "alpha", DocID: p}})
					if err == nil && !hot {
						cold[g].recs[id], cold[g].recs[id+"b"] = true, true
					}
				case 3:
					err = w.S.AddMessage(bg, &core.Message{ID: id, SessionID: p, Role: "user", Content: "alpha"})
					if err == nil && !hot {
						cold[g].msgs[id] = true
					}
				case 4:
					to := "hot"
					if !hot {
						to = fmt.Sprint("cold", rr.Intn(3)+1)
					}
					err = G.UpsertEdge(bg, &graph.GraphEdge{ID: id, FromNodeID: "cold0", ToNodeID: to, EdgeType: "t", Weight: 1})
					if err == nil && !hot {
						cold[g].edges[id] = true
					}
				}
				if err != nil && !hot {
					coldErr[g] = err
				}
				mu.Lock()
				if err == nil {
					accepted++
				} else {
					refused++
				}
				mu.Unlock()
			}
		}(g)
	}
	for d := 0; d < 2; d++ {
		wg.Add(1)
		go func(d int) {
			defer wg.Done()
			rr := newRand(seeds[nw+d])
			for i := 0; i < 20; i++ {
				var err error
				switch rr.Intn(4) {
				case 0:
					err = w.S.DeleteDocument(bg, "hot")
				case 1:
					err = w.S.DeleteCollection(bg, "hot")
				case 2:
					_, err = w.S.GetDB().Exec("DELETE FROM sessions WHERE id = 'hot'")
				case 3:
					err = G.DeleteNode(bg, "hot")
				}
				if err == nil {
					mu.Lock()
					deletions++
					mu.Unlock()
				}
				mk()
			}
		}(d)
	}
	wg.Wait()
	for g, err := range coldErr {
		c.Check(err == nil, "spurious-error", "writer %d: %v", g, err)
	}
	c.Count("accepted", accepted)
	c.Count("refused", refused)
	c.Count("deletions", deletions)
	orphans(c, w.S.GetDB())
	// nothing of the parents that were never deleted is gone
	edges, err := G.GetEdges(bg, "cold0", "both")
	w.ok(err, "GetEdges")
	haveE := map[string]bool{}
	for _, e := range edges {
		haveE[e.ID] = true
	}
	msgs, err := w.S.GetSessionHistory(bg, "cold", 10000)
	w.ok(err, "GetSessionHistory")
	haveM := map[string]bool{}
	for _, m := range msgs {
		haveM[m.ID] = true
	}
	for g := range cold {
		for id := range cold[g].recs {
			_, err := w.S.GetByID(bg, id)
			c.Check(err == nil, "lost-child", "record %q of a parent that was never deleted: %v", id, err)
		}
		for id := range cold[g].edges {
			c.Check(haveE[id], "lost-child", "edge %q between nodes that were never deleted is gone", id)
		}
		for id := range cold[g].msgs {
			c.Check(haveM[id], "lost-child", "message %q of a session that was never deleted is gone", id)
		}
	}
	// vector and keyword search see exactly the remaining rows
	st, err := w.S.Stats(bg)
	w.ok(err, "Stats")
	res, err := w.S.Search(bg, []float32{1, 1}, core.SearchOptions{TopK: 10000})
	w.ok(err, "Search")
	for _, e := range res {
		_, err := w.S.GetByID(bg, e.ID)
		c.Check(err == nil, "orphan-in-index", "vector search returns %q, which is not stored: %v", e.ID, err)
	}
	c.Check(int64(len(res)) == st.Count, "orphan-in-index", "vector search returns %d records, %d are stored", len(res), st.Count)
	kw, err := w.S.HybridSearch(bg, nil, "alpha", core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 10000}})
	w.ok(err, "HybridSearch")
	c.Check(int64(len(kw)) == st.Count, "orphan-in-index", "keyword search returns %d records, %d are stored", len(kw), st.Count)
	c.Nontrivial()
	w.close()
}

// c09scale deletes parents with more than a thousand children each, next to parents that stay.
func c09scale(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 3, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	G := graph.NewGraphStore(w.S)
	w.ok(G.InitGraphSchema(bg), "InitGraphSchema")
	for _, p := range []string{"big", "small", "Big", "big%"} {
		d := &core.Document{ID: p, Title: p, Version: 1}
		w.ok(w.S.CreateDocument(bg, d), "CreateDocument")
		w.Docs[p] = d
		_, err := w.S.CreateCollection(bg, p, 3)
		w.ok(err, "CreateCollection")
		w.Colls[p] = true
		w.ok(w.S.CreateSession(bg, &core.Session{ID: p, UserID: "u"}), "CreateSession")
		w.ok(G.UpsertNode(bg, &graph.GraphNode{ID: p, Vector: []float32{1, 2, 3}, Content: p}), "UpsertNode")
	}
	n := 1050 + r.Intn(700)
	var batch []*core.Embedding
	var nodes []*graph.GraphNode
	var edges []*graph.GraphEdge
	msgs := map[string]string{}
	edge := map[string]bool{} // whether it stays
	of := func(i int) string {
		if i%9 == 0 {
			return pick(r, []string{"small", "Big", "big%"})
		}
		return "big"
	}
	for i := 0; i < n; i++ {
		x := w.newRec(fmt.Sprintf("rec%05d", i))
		x.Doc, x.Coll = "", "default"
		if c.Idx%2 == 0 {
			x.Doc = of(i)
		} else {
			x.Coll = of(i)
		}
		w.put(x)
		batch = append(batch, x.emb())
		msgs[fmt.Sprint("m", i)] = of(i)
		nodes = append(nodes, &graph.GraphNode{ID: fmt.Sprint("leaf", i), Vector: []float32{1, float32(i), 1}, Content: "leaf"})
		a, b := of(i), fmt.Sprint("leaf", i)
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		edges = append(edges, &graph.GraphEdge{ID: fmt.Sprint("e", i), FromNodeID: a, ToNodeID: b, EdgeType: "t", Weight: 1})
		edge[fmt.Sprint("e", i)] = a != "big" && b != "big"
	}
	c.Op("%d records, messages, nodes and edges", n)
	w.ok(w.S.UpsertBatch(bg, batch), "UpsertBatch")
	for _, id := range sortedKeys(msgs) {
		w.ok(w.S.AddMessage(bg, &core.Message{ID: id, SessionID: msgs[id], Role: "user", Content: "alpha"}), "AddMessage")
	}
	res, err := G.UpsertNodesBatch(bg, nodes)
	w.ok(err, "UpsertNodesBatch")
	c.Check(res.FailedCount == 0, "batch-failed", "%d nodes failed", res.FailedCount)
	res, err = G.UpsertEdgesBatch(bg, edges)
	w.ok(err, "UpsertEdgesBatch")
	c.Check(res.FailedCount == 0, "batch-failed", "%d edges failed", res.FailedCount)

	c.Op("delete the parents")
	gone := func(x *Rec) bool { return x.Doc == "big" || x.Coll == "big" }
	k := len(w.liveWith(gone))
	w.ok(w.S.DeleteDocument(bg, "big"), "DeleteDocument")
	delete(w.Docs, "big")
	w.ok(w.S.DeleteCollection(bg, "big"), "DeleteCollection")
	delete(w.Colls, "big")
	w.drop(gone)
	_, err = w.S.GetDB().Exec("DELETE FROM sessions WHERE id = 'big'")
	c.Must(err, "delete the session")
	if r.Intn(2) == 0 {
		w.ok(G.DeleteNode(bg, "big"), "DeleteNode")
	} else {
		res, err := G.DeleteNodesBatch(bg, []string{"big"})
		w.ok(err, "DeleteNodesBatch")
		c.Check(res.SuccessCount == 1, "batch-failed", "DeleteNodesBatch deleted %d nodes", res.SuccessCount)
	}
	c.Count("children", k)
	c.Nontrivial()
	orphans(c, w.S.GetDB())
	w.CheckFull()
	for _, s := range []string{"big", "small", "Big", "big%"} {
		got, err := w.S.GetSessionHistory(bg, s, 1<<20)
		want := 0
		for _, p := range msgs {
			if p == s && s != "big" {
				want++
			}
		}
		c.Check(len(got) == want && (err == nil || s == "big"), "children:messages", "session %q has %d messages instead of %d (%v)", s, len(got), want, err)
	}
	var all, left int
	for _, keep := range edge {
		if keep {
			left++
		}
	}
	c.Must(w.S.GetDB().QueryRow("SELECT count(*) FROM graph_edges").Scan(&all), "count")
	c.Check(all == left, "children:edges", "%d of %d edges are left after the hub was deleted; %d did not touch it", all, n, left)
	for _, s := range []string{"small", "Big", "big%"} {
		es, err := G.GetEdges(bg, s, "both")
		w.ok(err, "GetEdges")
		for _, e := range es {
			c.Check(edge[e.ID], "children:edges", "edge %q of %q should be gone", e.ID, s)
			left--
		}
	}
	c.Check(left == 0, "children:edges", "%d edges of nodes that were not deleted are missing", left)
	w.close()
}
