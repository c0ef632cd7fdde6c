package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C05", Level: "exploration",
		Rule: "a case is one random store history under an HNSW or IVF index (plain, scalar or binary quantization) with every search judged for soundness, count and self-recall against the live records; non-trivial when the index (not the scan) answered searches after updates and deletes",
		Run: func(r *Run) {
			r.Parallel("history", r.N(80, 800), 0, c05history)
			r.Parallel("selective", r.N(32, 200), 0, c05selective)
			r.Parallel("recall", r.N(12, 60), 0, c05recall)
			r.Parallel("rebuild", r.N(24, 160), 0, c05rebuild)
			r.Parallel("purge", r.N(12, 72), 0, c05purge)
		}})
}

var idxKinds = []string{"hnsw", "ivf", "hnsw+sq8", "hnsw+bq", "ivf", "hnsw"}

func generalPos(w *World, q []float32, k int) bool {
	n := 0
	for _, x := range w.Recs {
		if bitsEq(x.Vec, q) {
			n++
		}
	}
	return n <= k
}

func norm0(v []float32) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// searchIndexed runs one random search and judges it. self-recall is judged for kinds that keep full vectors.
func (w *World) searchIndexed(kind, sim string) {
	c := w.c
	q, self := w.query()
	o := w.options()
	cand := w.rank(sim, q, optPred(o))
	o.Threshold = w.threshold(cand)
	c.Op("Search %v %s", q, optStr(o))
	res, err := w.S.Search(bg, cpVec(q), o)
	w.ok(err, "Search")
	w.checkResults("Search", res, cand, kOf(o), o.Threshold, searchMode{noCount: o.Threshold > 0})
	c.Count("searches", 1)
	if self == nil || sim == "dot" || kind == "hnsw+sq8" || kind == "hnsw+bq" || o.Threshold > 0 {
		return
	}
	if len(w.Recs) > 150 || norm0(q) || !generalPos(w, q, kOf(o)) || !optPred(o)(self) {
		return
	}
	best := refSim(sim, q, self.Vec)
	c.Check(len(res) > 0 && res[0].Score >= best-1e-6*scaleOf(sim, q, self.Vec), "lost-record:self-recall", "search for the vector of %q does not return it or an equal one: got %v", self.ID, ids(res))
	c.Count("self_recall", 1)
}

func ids(res []core.ScoredEmbedding) []string {
	var o []string
	for _, x := range res {
		o = append(o, fmt.Sprintf("%s=%.6g", x.ID, x.Score))
	}
	return o
}

func c05history(c *Case) {
	r := c.R
	kind := idxKinds[c.Idx%len(idxKinds)]
	sim := sims[(c.Idx/len(idxKinds))%3]
	dim := 2 + r.Intn(6)
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, sim))
	w.VecStyle = []int{0, 0, 1, 2}[(c.Idx/3)%4]
	w.OnlyGood = true
	w.IDs = pool(r, "id", 60, 0.2)
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	c.Op("%s %s dim %d style %d", kind, sim, dim, w.VecStyle)
	c.Seen("config", kind+"/"+sim)
	del := 0
	for i := 0; i < 90; i++ {
		op := w.Step()
		c.Seen("op", kind+"/"+op)
		if op != "Upsert" && op != "UpsertBatch" {
			del++
		}
		if kind == "ivf" && i == 30 && len(w.Recs) > 4 {
			c.Op("TrainIndex")
			w.ok(w.S.TrainIndex(bg, 1+r.Intn(5)), "TrainIndex")
		}
		if i%5 != 4 {
			continue
		}
		for j := 0; j < 6; j++ {
			w.searchIndexed(kind, sim)
		}
	}
	if del > 3 && len(w.Recs) > 5 {
		c.Nontrivial()
	}
	w.close()
}

// c05selective: few matching records among many that are closer to the query.
func c05selective(c *Case) {
	r := c.R
	kind := idxKinds[c.Idx%len(idxKinds)]
	sim := pick(r, []string{"cosine", "euclid"})
	dim := 6
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, sim))
	w.VecStyle = 0
	w.open()
	defer w.S.Close()
	_, err := w.S.CreateCollection(bg, "rare", dim)
	w.ok(err, "CreateCollection")
	w.Colls["rare"] = true
	n := 120 + r.Intn(150)
	rare := 1 + r.Intn(6)
	base := randVec(r, dim, 0)
	var embs []*core.Embedding
	for i := 0; i < n; i++ {
		v := randVec(r, dim, 0)
		if i >= rare { // the common ones sit around the query
			for j := range v {
				v[j] = base[j] + v[j]*0.05
			}
		}
		x := &Rec{ID: fmt.Sprint("s", i), Vec: v, Content: "alpha", Coll: "default", Meta: map[string]string{"kind": "common"}}
		if i < rare {
			x.Meta["kind"] = "rare"
			if r.Intn(2) == 0 {
				x.Coll = "rare"
			}
		}
		embs = append(embs, x.emb())
		w.put(x)
	}
	r.Shuffle(len(embs), func(i, j int) { embs[i], embs[j] = embs[j], embs[i] })
	w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	if kind == "ivf" {
		w.ok(w.S.TrainIndex(bg, 2+r.Intn(6)), "TrainIndex")
	}
	c.Op("%s %s: %d records, %d rare", kind, sim, n, rare)
	for round := 0; round < 2; round++ {
		for i := 0; i < 10; i++ {
			o := core.SearchOptions{TopK: 1 + r.Intn(10)}
			if i%2 == 0 {
				o.Collection = "rare"
			} else {
				o.Filter = map[string]string{"kind": "rare"}
			}
			cand := w.rank(sim, base, optPred(o))
			res, err := w.S.Search(bg, base, o)
			c.Op("Search %s", optStr(o))
			w.ok(err, "Search")
			w.checkResults("Search", res, cand, kOf(o), 0, searchMode{})
			c.Count("selective_searches", 1)
		}
		// delete the whole neighbourhood of the query: what is left must still be found
		var ids []string
		for i := rare; i < n; i++ {
			if r.Intn(10) > 0 {
				ids = append(ids, fmt.Sprint("s", i))
			}
		}
		c.Op("DeleteBatch of %d of %d", len(ids), n)
		if round == 0 {
			w.ok(w.S.DeleteBatch(bg, ids), "DeleteBatch")
			for _, id := range ids {
				delete(w.Recs, id)
			}
		}
		for k := 1; k <= len(w.Recs)+1; k += 1 + k/3 {
			o := core.SearchOptions{TopK: k}
			res, err := w.S.Search(bg, base, o)
			c.Op("Search %s", optStr(o))
			w.ok(err, "Search")
			w.checkResults("Search", res, w.rank(sim, base, nil), k, 0, searchMode{})
			c.Count("after_mass_delete", 1)
		}
		c.Op("reopen")
		w.reopen()
	}
	c.Nontrivial()
	w.close()
}

// c05recall: statistical quality on a larger set, with a floor far below what is measured.
func c05recall(c *Case) {
	r := c.R
	kind := []string{"hnsw", "ivf", "hnsw+sq8"}[c.Idx%3]
	sim := []string{"cosine", "euclid"}[(c.Idx/3)%2]
	dim := 12
	w := newWorld(c, mkConfig(dbPath(c), kind, dim, sim))
	w.open()
	defer w.S.Close()
	n := 500
	mk := func(i int) *Rec {
		return &Rec{ID: fmt.Sprint("q", i), Vec: randVec(r, dim, 0), Content: "x", Coll: "default"}
	}
	var embs []*core.Embedding
	for i := 0; i < n; i++ {
		x := mk(i)
		embs = append(embs, x.emb())
		w.put(x)
	}
	w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	if kind == "ivf" {
		w.ok(w.S.TrainIndex(bg, 8), "TrainIndex")
	}
	// churn: overwrite and delete a third
	for i := 0; i < n/3; i++ {
		if i%2 == 0 {
			x := mk(i)
			w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
			w.put(x)
		} else {
			w.ok(w.S.Delete(bg, fmt.Sprint("q", i)), "Delete")
			delete(w.Recs, fmt.Sprint("q", i))
		}
	}
	if c.Idx%2 == 1 {
		w.reopen()
	}
	hit, total, self, selfN := 0, 0, 0, 0
	for i := 0; i < 60; i++ {
		q := randVec(r, dim, 0)
		var want *Rec
		if i%2 == 0 {
			want = w.Recs[pick(r, sortedKeys(w.Recs))]
			q = want.Vec
		}
		res, err := w.S.Search(bg, q, core.SearchOptions{TopK: 10})
		w.ok(err, "Search")
		cand := w.rank(sim, q, nil)
		w.checkResults("Search", res, cand, 10, 0, searchMode{})
		got := map[string]bool{}
		for _, x := range res {
			got[x.ID] = true
		}
		for _, x := range cand[:10] {
			total++
			if got[x.rec.ID] {
				hit++
			}
		}
		if want != nil {
			selfN++
			if got[want.ID] {
				self++
			}
		}
	}
	rec := float64(hit) / float64(total)
	c.Op("%s %s recall %.3f self %d/%d", kind, sim, rec, self, selfN)
	c.Count(fmt.Sprintf("recall_%s_pct", kind), int(math.Round(rec*100)))
	floor := map[string]float64{"hnsw": 0.93, "ivf": 0.35, "hnsw+sq8": 0.85}[kind]
	c.Check(rec >= floor, "recall-collapsed:"+kind, "recall@10 %.3f over 60 queries on %d records (floor %.2f)", rec, len(w.Recs), floor)
	c.Check(float64(self) >= 0.9*float64(selfN), "self-recall-collapsed:"+kind, "%d of %d stored vectors found by their own query", self, selfN)
	c.Nontrivial()
	w.close()
}

// c05rebuild: the index is built from the stored records when a store opens without a usable
// snapshot: after a crash, or with another kind of index than the one that wrote the file.
func c05rebuild(c *Case) {
	r := c.R
	from := []string{"flat", "ivf", "hnsw", "hnsw+sq8"}[c.Idx%4]
	to := []string{"hnsw", "hnsw+sq8", "hnsw", "ivf", "hnsw+bq"}[c.Idx%5]
	sim := []string{"cosine", "euclid"}[(c.Idx/2)%2]
	dim := 6 + r.Intn(6)
	w := newWorld(c, mkConfig(dbPath(c), from, dim, sim))
	w.VecStyle = []int{0, 0, 2}[c.Idx%3]
	w.NoClear = true
	w.OnlyGood = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	n := []int{40, 99, 100, 140, 600, 1300}[c.Idx%6]
	group := map[string]string{} // what is special about a record
	put := func(x *Rec, g string) {
		w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
		w.put(x)
		group[x.ID] = g
	}
	_, err := w.S.CreateCollection(bg, "side", dim)
	w.ok(err, "CreateCollection")
	w.Colls["side"] = true
	w.Fill(n)
	c.Op("30 records of a collection, 15 pairs of equal vectors")
	for i := 0; i < 30; i++ {
		x := w.newRec(fmt.Sprint("side", i))
		x.Coll = "side"
		put(x, "side")
	}
	for i := 0; i < 15; i++ {
		x := w.newRec(fmt.Sprint("twin", i, "a"))
		put(x, "first twin")
		y := *x
		y.ID = fmt.Sprint("twin", i, "b")
		put(&y, "second twin")
	}
	if from == "ivf" {
		w.ok(w.S.TrainIndex(bg, 4), "TrainIndex")
	}
	for i := 0; i < 15; i++ {
		w.Step()
	}
	crash := r.Intn(2) == 0
	images := 0
	image := func() { // opens a copy of the files as a crash would leave them
		images++
		dir := filepath.Join(c.Dir, fmt.Sprint("crash", images))
		c.Must(os.Mkdir(dir, 0o755), "mkdir")
		for _, suf := range []string{"", "-wal"} {
			b, err := os.ReadFile(w.Cfg.Path + suf)
			if err != nil && suf != "" {
				continue
			}
			c.Must(err, "copy")
			c.Must(os.WriteFile(filepath.Join(dir, "t.db"+suf), b, 0o644), "copy")
		}
		w.close()
		w.Cfg.Path = filepath.Join(dir, "t.db")
	}
	if crash {
		image()
	} else {
		w.close()
	}
	path := w.Cfg.Path
	w.Cfg = mkConfig(path, to, dim, sim)
	c.Op("open a store of %d records written under %s as %s (%s, crash image %v)", len(w.Recs), from, to, sim, crash)
	w.open()
	c.Seen("rebuild", fmt.Sprintf("%s>%s/%v", from, to, crash))
	if to == "ivf" && r.Intn(2) == 0 {
		w.ok(w.S.TrainIndex(bg, 4), "TrainIndex")
	}
	for round := 0; round < 4; round++ {
		for i := 0; i < 8; i++ {
			w.searchIndexed(to, sim)
		}
		// every stored vector leads to its record
		hit, tot := 0, 0
		ghit, gtot := map[string]int{}, map[string]int{}
		live := sortedKeys(w.Recs)
		var probe []*Rec
		for i := 0; i < 40; i++ {
			probe = append(probe, w.Recs[pick(r, live)])
		}
		for _, id := range sortedKeys(group) {
			if w.Recs[id] != nil {
				probe = append(probe, w.Recs[id])
			}
		}
		for _, x := range probe {
			if norm0(x.Vec) || !generalPos(w, x.Vec, 10) {
				continue
			}
			res, err := w.S.Search(bg, cpVec(x.Vec), core.SearchOptions{TopK: 10})
			w.ok(err, "Search")
			w.checkResults("Search", res, w.rank(sim, x.Vec, nil), 10, 0, searchMode{})
			tot++
			gtot[group[x.ID]]++
			for _, e := range res {
				if e.ID == x.ID {
					hit++
					ghit[group[x.ID]]++
				}
			}
		}
		c.Count("rebuilt_self_searches", tot)
		if to == "hnsw" || to == "ivf" || to == "hnsw+sq8" && w.VecStyle == 0 { // a quantizer cannot tell apart magnitudes far below the largest
			c.Check(float64(hit) >= 0.8*float64(tot), "self-recall-collapsed:"+to, "%d of %d stored vectors found by their own query after the index was rebuilt", hit, tot)
			for _, g := range sortedKeys(gtot) {
				c.Check(gtot[g] < 10 || float64(ghit[g]) >= 0.5*float64(gtot[g]), "self-recall-group:"+to, "%d of %d stored vectors of the group %q found by their own query after the index was rebuilt", ghit[g], gtot[g], g)
				c.Seen("group", g)
			}
		}
		switch round {
		case 0:
			for i := 0; i < 15; i++ {
				w.Step()
			}
		case 1:
			w.reopen()
		case 2:
			// the index snapshot is older than the records
			c.Op("rewrites and deletes, then a crash image")
			for i, at := range r.Perm(len(live))[:min(len(live), 54)] {
				id := live[at]
				x := w.newRec(id)
				old := w.Recs[id]
				if old == nil {
					continue
				}
				how := "rewritten"
				switch i % 4 {
				case 0, 1:
					how = "rewritten but for the first component"
					x.Vec[0] = old.Vec[0]
				case 2: // the vectors differ in their last half only
					how = "rewritten in half"
					copy(x.Vec[:dim/2], old.Vec[:dim/2])
				}
				put(x, how)
			}
			var gone [][]float32
			for i := 0; i < 12; i++ {
				id := pick(r, live)
				if x := w.Recs[id]; x != nil && !strings.HasPrefix(group[id], "rewritten") {
					w.ok(w.S.Delete(bg, id), "Delete")
					delete(w.Recs, id)
					gone = append(gone, x.Vec)
				}
			}
			image()
			w.open()
			for _, v := range gone {
				if !norm0(v) {
					res, err := w.S.Search(bg, cpVec(v), core.SearchOptions{TopK: 5})
					w.ok(err, "Search")
					w.checkResults("Search", res, w.rank(sim, v, nil), 5, 0, searchMode{})
				}
			}
		}
	}
	c.Nontrivial()
	w.close()
}

// c05purge deletes more than a thousand indexed records at once, in every way there is.
func c05purge(c *Case) {
	r := c.R
	kind := []string{"hnsw", "ivf", "hnsw+sq8"}[c.Idx/6%3]
	sim := pick(r, []string{"cosine", "euclid"})
	w := newWorld(c, mkConfig(dbPath(c), kind, 6, sim))
	w.Cfg.HNSW.EfConstruction = 40
	w.VecStyle = 0
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	_, err := w.S.CreateCollection(bg, "bulk", 6)
	w.ok(err, "CreateCollection")
	w.Colls["bulk"] = true
	for _, d := range []string{"bulk", "other"} {
		w.Docs[d] = &core.Document{ID: d, Title: d, Version: 1}
		w.ok(w.S.CreateDocument(bg, w.Docs[d]), "CreateDocument")
	}
	var batch []*core.Embedding
	var bulk []string
	n, keep := 1080+r.Intn(300), 12+r.Intn(30)
	for i := 0; i < n+keep; i++ {
		x := w.newRec(fmt.Sprintf("p%04d", i))
		x.Doc, x.Coll, x.Meta = "", "default", map[string]string{"kind": "stays"}
		if i < n {
			x.Doc, x.Coll, x.Meta = "bulk", "bulk", map[string]string{"kind": "goes"}
			bulk = append(bulk, x.ID)
		} else if r.Intn(2) == 0 {
			x.Doc = "other"
		}
		w.put(x)
		batch = append(batch, x.emb())
	}
	r.Shuffle(len(batch), func(i, j int) { batch[i], batch[j] = batch[j], batch[i] })
	w.ok(w.S.UpsertBatch(bg, batch), "UpsertBatch")
	if kind == "ivf" {
		w.ok(w.S.TrainIndex(bg, 4), "TrainIndex")
	}
	goes := func(x *Rec) bool { return x.Coll == "bulk" }
	purge := func(how int) {
		switch how {
		case 0:
			c.Op("DeleteBatch of %d", n)
			w.ok(w.S.DeleteBatch(bg, append([]string(nil), bulk...)), "DeleteBatch")
		case 1:
			c.Op("DeleteByFilter of %d", n)
			w.ok(w.S.DeleteByFilter(bg, core.NewMetadataFilter().Equal("kind", "goes")), "DeleteByFilter")
		case 2:
			c.Op("DeleteByDocID of %d", n)
			w.ok(w.S.DeleteByDocID(bg, "bulk"), "DeleteByDocID")
		case 3:
			c.Op("DeleteDocument of %d", n)
			w.ok(w.S.DeleteDocument(bg, "bulk"), "DeleteDocument")
			delete(w.Docs, "bulk")
		case 4:
			c.Op("DeleteCollection of %d", n)
			w.ok(w.S.DeleteCollection(bg, "bulk"), "DeleteCollection")
			delete(w.Colls, "bulk")
		case 5:
			c.Op("Clear and write %d again", keep)
			w.ok(w.S.Clear(bg), "Clear")
			for _, id := range w.liveWith(func(x *Rec) bool { return !goes(x) }) {
				w.ok(w.S.Upsert(bg, w.Recs[id].emb()), "Upsert")
			}
		}
		w.drop(goes)
	}
	judge := func() {
		for i := 0; i < 6; i++ {
			w.searchIndexed(kind, sim)
			q := w.vec()
			o := core.SearchOptions{TopK: pick(r, []int{1, 5, keep, keep + 5})}
			if i%2 == 0 {
				o.Collection = "default"
			}
			res, err := w.S.Search(bg, cpVec(q), o)
			w.ok(err, "Search")
			w.checkResults("Search", res, w.rank(sim, q, optPred(o)), kOf(o), 0, searchMode{})
			c.Count("searches", 1)
		}
	}
	how := c.Idx % 6
	purge(how)
	judge()
	// Some of the ids come back with other vectors
	for i := 0; i < 40; i++ {
		x := w.newRec(pick(r, bulk))
		x.Doc, x.Coll = "", "default"
		w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
		w.put(x)
	}
	judge()
	w.reopen()
	judge()
	w.CheckFull()
	c.Nontrivial()
	c.Seen("purge", fmt.Sprint(how, kind))
	w.close()
}
