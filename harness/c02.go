package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C02", Level: "fault_enumeration",
		Rule: "a case builds a random store, then for every multi-record operation and every element of its batch injects a statement error (RAISE ABORT/FAIL/ROLLBACK), a failing function or a context cancellation at that element and compares tables, keyword matches, searches and counts before and after; non-trivial when at least one fault fired",
		Run: func(r *Run) {
			r.Parallel("core", r.N(40, 400), 0, c02core)
			r.Parallel("dimension", r.N(30, 200), 0, c02dim)
			r.Parallel("graph", r.N(40, 300), 0, c02graph)
			r.Parallel("late", r.N(24, 200), 4, c02late)
		}})
}

// observe renders everything a user can see of the store.
func (w *World) observe() string {
	c := w.c
	var sb strings.Builder
	d, err := tableDump(w.S.GetDB(), "embeddings", "documents", "collections")
	c.Must(err, "dump")
	sb.WriteString(d)
	for _, word := range w.Words {
		rows, err := w.S.GetDB().Query("SELECT rowid FROM chunks_fts WHERE chunks_fts MATCH ? ORDER BY rowid", word)
		c.Must(err, "match")
		fmt.Fprintf(&sb, "match %s:", word)
		for rows.Next() {
			var id int64
			rows.Scan(&id)
			fmt.Fprintf(&sb, " %d", id)
		}
		rows.Close()
		sb.WriteByte('\n')
	}
	st, err := w.S.Stats(bg)
	w.ok(err, "Stats")
	fmt.Fprintf(&sb, "count %d dim %d\n", st.Count, st.Dimensions)
	var ids []string
	for id := range w.Recs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if w.Big {
		var some []string
		for i := 0; i < len(ids); i += 1 + len(ids)/5 {
			some = append(some, ids[i])
		}
		ids = some
	}
	for _, id := range ids {
		for _, k := range []int{1, 3} {
			res, err := w.S.Search(bg, w.Recs[id].Vec, core.SearchOptions{TopK: k})
			w.ok(err, "Search")
			fmt.Fprintf(&sb, "search %q/%d:", id, k)
			for _, x := range res {
				fmt.Fprintf(&sb, " %q=%.12g", x.ID, x.Score)
			}
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<none>", "<none>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: before %q after %q", i, clip(x, 300), clip(y, 300))
		}
	}
	return ""
}

type multiOp struct {
	name    string
	run     func(ctx context.Context) error
	points  []faultPoint
	settle  func(r *World) // model update when it succeeded
	unwound bool
}

type faultPoint struct{ when, cond, label string }

func c02core(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	dim := 3 + r.Intn(4)
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, pick(r, []string{"cosine", "euclid"})))
	w.OnlyGood, w.NoClear = true, true
	w.Cfg.Logger = nil
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	c.Op("config %s", kind)
	for i := 0; i < 40; i++ {
		w.Step()
	}
	for len(w.Docs) < 2 {
		w.Step()
	}
	if c.Idx%8 == 7 { // larger than any batch the store may split its work into
		w.Big = true
		n := 700 + r.Intn(1000)
		w.Fill(n)
		for i := 0; i < n; i++ {
			w.IDs = append(w.IDs, fmt.Sprintf("fill%05d", i))
		}
		c.Count("big_worlds", 1)
	}
	if kind == "ivf" && len(w.Recs) > 4 {
		w.ok(w.S.TrainIndex(bg, 3), "TrainIndex")
	}
	fired := 0
	ops := w.multiOps()
	if w.Big && len(ops) > 5 {
		ops = ops[:5]
	}
	for _, op := range ops {
		pts := op.points
		if w.Big {
			// late in the operation, when earlier parts may already be committed
			pts = []faultPoint{pts[len(pts)-1-r.Intn(1+len(pts)/10)], pts[r.Intn(len(pts))]}
		} else if len(pts) > 7 && !c.Thorough() {
			r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
			pts = pts[:7]
		}
		for _, p := range pts {
			kindF := r.Intn(5)
			before := w.observe()
			ctx, cancel := context.WithCancel(bg)
			hit := false
			var undo func()
			var err error
			var label string
			switch kindF {
			case 0, 1, 2:
				label = []string{"ABORT", "FAIL", "ROLLBACK"}[kindF]
				undo, err = armRaise(w.S.GetDB(), p.when, p.cond, label)
			case 3:
				label = "error"
				undo, err = arm(w.S.GetDB(), p.when, p.cond, func() error { hit = true; return errors.New("injected") })
			default:
				label = "cancel"
				undo, err = arm(w.S.GetDB(), p.when, p.cond, func() error { hit = true; cancel(); return nil })
			}
			c.Must(err, "arm")
			c.Op("%s with %s at %s %s", op.name, label, p.when, p.cond)
			if kindF <= 3 {
				ctx = bg // nothing but the operation itself ends its transaction
			}
			opErr := op.run(ctx)
			cancel()
			idle(c, w.S.GetDB(), op.name)
			undo()
			if hit || kindF <= 2 {
				fired++
				c.Count("fault_"+label, 1)
				c.Seen("fault_site", op.name+"/"+p.when+"/"+label)
			}
			if opErr == nil {
				// a cancellation may come too late to stop it, and a trigger may not apply to the row
				c.Check(kindF >= 3, "fault-swallowed:"+op.name, "%s reported success although %s at %s failed with %s", op.name, p.when, p.cond, label)
				op.settle(w)
				w.CheckFull()
				return // the remaining operations were generated for the old state
			}
			after := w.observe()
			c.Check(before == after, "partial-effect:"+op.name, "%s failed (%v) after %s at %s %s, but its effect is visible: %s", op.name, opErr, label, p.when, p.cond, firstDiff(before, after))
			ferr := ftsCheck(w.S.GetDB(), "chunks_fts")
			c.Check(ferr == nil, "fts-inconsistent", "keyword index inconsistent after failed %s: %v", op.name, ferr)
		}
		// an already cancelled context
		before := w.observe()
		ctx, cancel := context.WithCancel(bg)
		cancel()
		c.Op("%s with a cancelled context", op.name)
		if err := op.run(ctx); err != nil {
			after := w.observe()
			c.Check(before == after, "partial-effect:"+op.name, "%s with a cancelled context failed (%v) but its effect is visible: %s", op.name, err, firstDiff(before, after))
		} else {
			op.settle(w)
			w.CheckFull()
			return
		}
		// the faults left the operation usable
		if r.Intn(len(w.Docs)+4) == 0 {
			c.Op("%s without fault", op.name)
			w.ok(op.run(bg), op.name)
			op.settle(w)
			w.CheckFull()
			w.reopen()
			w.CheckFull()
			break
		}
	}
	if fired > 0 {
		c.Nontrivial()
	}
	w.close()
}

func eqCond(col, v string) string { return col + " = " + sqlQuote(v) }

// multiOps generates one instance of every multi-record operation for the current state.
func (w *World) multiOps() []*multiOp {
	r := w.R
	var ops []*multiOp
	var old []string
	if r.Intn(2) == 0 {
		ent := &core.MultiVectorEntity{ID: "old", Content: "charlie", Vectors: map[string][]float32{"a": w.vec(), "b": w.vec(), "c": w.vec()}}
		w.ok(w.S.UpsertMultiVector(bg, ent), "UpsertMultiVector")
		for f, v := range ent.Vectors {
			old = append(old, "old___"+f)
			w.put(&Rec{ID: "old___" + f, Vec: v, Content: "charlie", Coll: "default", Meta: map[string]string{"_entity_id": "old", "_vector_field": f}})
		}
		sort.Strings(old)
		w.IDs = append(w.IDs, old...)
	}
	// batch insert/update, with one element invalid at a random place for half of them
	{
		var recs []*Rec
		var embs []*core.Embedding
		perm := r.Perm(len(w.IDs))
		size := 2 + r.Intn(6)
		if w.Big {
			size = len(perm)/2 + r.Intn(len(perm)/2)
		}
		for i := 0; i < size && i < len(perm); i++ {
			rec := w.newRec(w.IDs[perm[i]])
			recs = append(recs, rec)
			embs = append(embs, rec.emb())
		}
		op := &multiOp{name: "UpsertBatch", run: func(ctx context.Context) error { return w.S.UpsertBatch(ctx, embs) }, settle: func(w *World) {
			for _, x := range recs {
				w.put(x)
			}
		}}
		for _, x := range recs {
			op.points = append(op.points, faultPoint{pick(r, []string{"BEFORE INSERT ON embeddings", "AFTER INSERT ON embeddings"}), eqCond("new.id", x.ID), "row"})
		}
		ops = append(ops, op)
		// every position of an invalid element: a fault of the input, not of the storage
		good := append([]*core.Embedding(nil), embs...)
		for i := range good {
			if w.Big && i != len(good)-1 && i != len(good)/2 {
				continue
			}
			bad := append([]*core.Embedding(nil), good...)
			e, why := w.badRec(good[i].ID)
			bad[i] = e
			before := w.observe()
			w.c.Op("UpsertBatch of %d, element %d invalid: %s", len(bad), i, why)
			err := w.S.UpsertBatch(bg, bad)
			w.c.Check(err != nil, "accepted-invalid:UpsertBatch", "batch with %s at %d accepted", why, i)
			after := w.observe()
			w.c.Check(before == after, "partial-effect:UpsertBatch", "batch rejected for %s at %d, but its effect is visible: %s", why, i, firstDiff(before, after))
			w.c.Count("invalid_element", 1)
		}
	}
	del := func(name string, ids []string, run func(ctx context.Context) error, extra ...faultPoint) {
		op := &multiOp{name: name, run: run, settle: func(w *World) {
			for _, id := range ids {
				delete(w.Recs, id)
			}
		}}
		for _, id := range ids {
			op.points = append(op.points, faultPoint{pick(r, []string{"BEFORE DELETE ON embeddings", "AFTER DELETE ON embeddings"}), eqCond("old.id", id), "row"})
		}
		op.points = append(op.points, extra...)
		if len(op.points) > 0 {
			ops = append(ops, op)
		}
	}
	if old != nil {
		del("DeleteMultiVectorEntity", old, func(ctx context.Context) error { return w.S.DeleteMultiVectorEntity(ctx, "old") })
	}
	live := sortedKeys(w.Recs)
	if len(live) > 1 {
		r.Shuffle(len(live), func(i, j int) { live[i], live[j] = live[j], live[i] })
		ids := append([]string(nil), live[:1+r.Intn(len(live))]...)
		del("DeleteBatch", ids, func(ctx context.Context) error { return w.S.DeleteBatch(ctx, ids) })
		del("Clear", append([]string(nil), live...), func(ctx context.Context) error { return w.S.Clear(ctx) })
	}
	// the filter that selects most
	best, bk, bv := 0, "", ""
	for _, k := range metaKeys {
		for _, v := range metaVals {
			n := len(w.liveWith(func(x *Rec) bool { h, ok := x.Meta[k]; return ok && refEq(h, v) }))
			if n > best {
				best, bk, bv = n, k, v
			}
		}
	}
	if best > 0 {
		del("DeleteByFilter", w.liveWith(func(x *Rec) bool { h, ok := x.Meta[bk]; return ok && refEq(h, bv) }), func(ctx context.Context) error {
			return w.S.DeleteByFilter(ctx, core.NewMetadataFilter().Equal(bk, bv))
		})
	}
	docs := sortedKeys(w.Docs)
	if len(docs) >= 2 {
		two := docs[:2]
		inTwo := func(x *Rec) bool { return x.Doc != "" && (x.Doc == two[0] || x.Doc == two[1]) }
		del("ClearByDocID", w.liveWith(inTwo), func(ctx context.Context) error { return w.S.ClearByDocID(ctx, two) })
		d := pick(r, docs)
		del("DeleteByDocID", w.liveWith(func(x *Rec) bool { return x.Doc == d }), func(ctx context.Context) error { return w.S.DeleteByDocID(ctx, d) })
		op := len(ops)
		del("DeleteDocument", w.liveWith(func(x *Rec) bool { return x.Doc == d }), func(ctx context.Context) error { return w.S.DeleteDocument(ctx, d) },
			faultPoint{pick(r, []string{"BEFORE DELETE ON documents", "AFTER DELETE ON documents"}), eqCond("old.id", d), "parent"})
		s := ops[op].settle
		ops[op].settle = func(w *World) { s(w); delete(w.Docs, d) }
	}
	for _, n := range sortedKeys(w.Colls) {
		if n == "default" {
			continue
		}
		op := len(ops)
		del("DeleteCollection", w.liveWith(func(x *Rec) bool { return x.Coll == n }), func(ctx context.Context) error { return w.S.DeleteCollection(ctx, n) },
			faultPoint{pick(r, []string{"BEFORE DELETE ON collections", "AFTER DELETE ON collections"}), eqCond("old.name", n), "parent"})
		s := ops[op].settle
		ops[op].settle = func(w *World) { s(w); delete(w.Colls, n) }
		break
	}
	// multi-vector entity
	ent := &core.MultiVectorEntity{ID: "ent", Content: "alpha bravo", Vectors: map[string][]float32{}, Metadata: map[string]interface{}{"k": "v"}}
	op := &multiOp{name: "UpsertMultiVector", run: func(ctx context.Context) error { return w.S.UpsertMultiVector(ctx, ent) }, settle: func(w *World) {
		for f, v := range ent.Vectors {
			w.put(&Rec{ID: "ent___" + f, Vec: v, Content: ent.Content, Coll: "default", Meta: map[string]string{"k": "v", "_entity_id": "ent", "_vector_field": f}})
		}
	}}
	for _, f := range []string{"title", "body", "tags", "img"} {
		ent.Vectors[f] = w.vec()
		op.points = append(op.points, faultPoint{"BEFORE INSERT ON embeddings", eqCond("new.id", "ent___"+f), "row"})
	}
	ops = append(ops, op)
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return ops
}

// c02dim: a failed first write must not fix the dimension of an empty database.
func c02dim(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, 0, "cosine"))
	w.open()
	defer w.close()
	n := 1 + r.Intn(4)
	d1, d2 := 2+r.Intn(3), 5+r.Intn(3)
	var embs []*core.Embedding
	for i := 0; i < n; i++ {
		embs = append(embs, &core.Embedding{ID: fmt.Sprint("x", i), Vector: randVec(r, d1, 0), Content: "alpha"})
	}
	k := r.Intn(n)
	before := w.observe()
	ctx, cancel := context.WithCancel(bg)
	mode := r.Intn(3)
	var undo func()
	var err error
	switch mode {
	case 0:
		undo, err = armRaise(w.S.GetDB(), "BEFORE INSERT ON embeddings", eqCond("new.id", embs[k].ID), "ABORT")
	case 1:
		undo, err = arm(w.S.GetDB(), "AFTER INSERT ON embeddings", eqCond("new.id", embs[k].ID), func() error { cancel(); return errors.New("injected") })
	default:
		embs[k].DocID = "missing"
		undo = func() {}
	}
	c.Must(err, "arm")
	c.Op("%s: UpsertBatch of %d with dim %d, fault %d at %d", kind, n, d1, mode, k)
	err = w.S.UpsertBatch(ctx, embs)
	idle(c, w.S.GetDB(), "UpsertBatch")
	cancel()
	undo()
	c.Check(err != nil, "fault-swallowed:UpsertBatch", "batch with a failing element reported success")
	after := w.observe()
	c.Check(before == after, "partial-effect:UpsertBatch", "failed first batch changed the store: %s", firstDiff(before, after))
	c.Op("Upsert with dim %d", d2)
	x := &Rec{ID: w.IDs[0], Vec: randVec(r, d2, 0), Content: "bravo", Coll: "default"}
	w.ok(w.S.Upsert(bg, x.emb()), "Upsert after a failed first batch")
	w.put(x)
	w.CheckPoint()
	res, err := w.S.Search(bg, x.Vec, core.SearchOptions{TopK: 5})
	w.ok(err, "Search")
	c.Check(len(res) == 1 && res[0].ID == x.ID, "partial-effect:UpsertBatch", "search after recovery returned %v", res)
	c.Nontrivial()
}

// c02late cancels the context as soon as the effect of a batch becomes visible: the batch then has to finish in
// the vector indexes as well.
func c02late(c *Case) {
	r := c.R
	kind := []string{"hnsw", "ivf"}[c.Idx%2]
	const dim, n = 6, 110
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	G := graph.NewGraphStore(w.S)
	w.ok(G.InitGraphSchema(bg), "InitGraphSchema")
	w.ok(G.EnableHNSWIndex(dim), "EnableHNSWIndex")
	vecs := map[string][]float32{}
	base := &core.Embedding{ID: "base", Vector: randVec(r, dim, 0), Content: "x"}
	w.ok(w.S.Upsert(bg, base), "Upsert")
	if kind == "ivf" {
		var b []*core.Embedding
		for i := 0; i < 20; i++ {
			b = append(b, &core.Embedding{ID: fmt.Sprint("t", i), Vector: randVec(r, dim, 0), Content: "x"})
		}
		w.ok(w.S.UpsertBatch(bg, b), "UpsertBatch")
		w.ok(w.S.TrainIndex(bg, 3), "TrainIndex")
	}
	// late runs f under a context that is cancelled once the query gives want
	late := func(what, query string, want bool, f func(ctx context.Context) error) error {
		ctx, cancel := context.WithCancel(bg)
		done, seen := make(chan struct{}), make(chan bool)
		go func() {
			for {
				select {
				case <-done:
					seen <- false
					return
				default:
				}
				var is bool
				if err := w.S.GetDB().QueryRow(query).Scan(&is); err == nil && is == want {
					cancel()
					seen <- true
					return
				}
			}
		}()
		err := f(ctx)
		close(done)
		if <-seen {
			c.Count("cancelled_after_commit", 1)
			c.Nontrivial()
		}
		cancel()
		c.Op("%s cancelled after its commit: %v", what, err)
		return err
	}
	var batch []*core.Embedding
	var nodes []*graph.GraphNode
	for i := 0; i < n; i++ {
		id := fmt.Sprint("x", i)
		vecs[id] = randVec(r, dim, 0)
		batch = append(batch, &core.Embedding{ID: id, Vector: cpVec(vecs[id]), Content: "x"})
		nodes = append(nodes, &graph.GraphNode{ID: id, Vector: cpVec(vecs[id]), Content: "x"})
	}
	err := late("UpsertBatch", "SELECT EXISTS (SELECT 1 FROM embeddings WHERE id = 'x0')", true, func(ctx context.Context) error { return w.S.UpsertBatch(ctx, batch) })
	c.Op("%s, the first of %d records is %v", kind, n, batch[0].Vector)
	rows := func(table string) (k int) {
		c.Must(w.S.GetDB().QueryRow("SELECT count(*) FROM "+table+" WHERE id LIKE 'x%'").Scan(&k), "count")
		return k
	}
	k := rows("embeddings")
	c.Check(err == nil && k == n || err != nil && k == 0, "partial-effect:UpsertBatch", "UpsertBatch answered %v and stored %d of %d records", err, k, n)
	find := func(when string) {
		for _, id := range sortedKeys(vecs) {
			res, err := w.S.Search(bg, cpVec(vecs[id]), core.SearchOptions{TopK: 2})
			w.ok(err, "Search")
			c.Check(len(res) == 2 && res[0].ID == id, "index-partial", "%s: %q is stored, but a search for its vector gives %v", when, id, ids(res))
		}
	}
	if k > 0 {
		find("after UpsertBatch")
	}
	res, gerr := (*graph.BatchResult)(nil), error(nil)
	gerr = late("UpsertNodesBatch", "SELECT EXISTS (SELECT 1 FROM graph_nodes WHERE id = 'x0')", true, func(ctx context.Context) (err error) {
		if r.Intn(2) == 0 {
			res, err = G.UpsertNodesBatch(ctx, nodes)
		} else {
			res, err = G.ExecuteBatch(ctx, &graph.BatchGraphOperation{NodeUpserts: nodes})
		}
		return err
	})
	kn := rows("graph_nodes")
	c.Check(gerr == nil && kn == res.SuccessCount || gerr != nil && kn == 0, "partial-effect:UpsertNodesBatch", "the node batch answered %v and stored %d of %d nodes", gerr, kn, n)
	findN := func(when string) {
		for _, id := range sortedKeys(vecs) {
			hits, err := G.HNSWSearch(bg, cpVec(vecs[id]), 2, 0)
			w.ok(err, "HNSWSearch")
			c.Check(len(hits) > 0 && hits[0].Node.ID == id, "index-partial:graph", "%s: node %q is stored, but a search for its vector does not find it", when, id)
		}
	}
	if kn == n {
		findN("after the node batch")
	}
	if k == 0 {
		return
	}
	// deletes
	var gone []string
	for i := 0; i < n/2; i++ {
		gone = append(gone, fmt.Sprint("x", i))
	}
	del := "SELECT EXISTS (SELECT 1 FROM embeddings WHERE id = 'x0')"
	err = late("DeleteBatch", del, false, func(ctx context.Context) error { return w.S.DeleteBatch(ctx, gone) })
	k = rows("embeddings")
	c.Check(err == nil && k == n-len(gone) || err != nil && k == n, "partial-effect:DeleteBatch", "DeleteBatch answered %v and left %d of %d records", err, k, n)
	if err == nil {
		for _, id := range gone {
			hits, err := w.S.Search(bg, cpVec(vecs[id]), core.SearchOptions{TopK: 5})
			w.ok(err, "Search")
			c.Check(len(hits) == 5, "index-partial", "a search for 5 of %d records gives %v after DeleteBatch", k, ids(hits))
		}
	}
	w.close()
}
