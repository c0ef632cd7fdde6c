package main

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C13", Level: "exploration",
		Rule: "a case is one store history that is dumped (whole or filtered), loaded into another store (empty or not, other index) and compared record by record, backed up, or loaded after damage at many positions; non-trivial when at least five records with documents and collections were involved",
		Run: func(r *Run) {
			r.Parallel("roundtrip", r.N(60, 600), 0, c13roundtrip)
			r.Parallel("large", r.N(4, 20), 0, c13roundtrip)
			r.Parallel("backup", r.N(24, 200), 0, c13backup)
			r.Parallel("damage", r.N(24, 200), 0, c13damage)
			r.Parallel("index", r.N(20, 150), 0, c13index)
		}})
}

// side opens a second store with its own model.
func side(c *Case, cfg core.Config, name string) *World {
	cfg.Path = filepath.Join(c.Dir, name)
	w := newWorld(c, cfg)
	w.open()
	return w
}

func (w *World) needed() (docs map[string]bool, colls map[string]bool) {
	docs, colls = map[string]bool{}, map[string]bool{"default": true}
	for _, x := range w.Recs {
		if x.Doc != "" {
			docs[x.Doc] = true
		}
		colls[x.Coll] = true
	}
	return
}

func c13roundtrip(c *Case) {
	r := c.R
	dim := 2 + r.Intn(3)
	sim := sims[c.Idx/5%3]
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], dim, sim))
	if c.Part == "large" {
		w.Cfg = mkConfig(dbPath(c), "flat", dim, sim)
	}
	w.OnlyGood, w.VecStyle = true, r.Intn(4)
	w.NoClear = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for i := 0; i < 40; i++ {
		w.Step()
	}
	rounds := 4
	if c.Part == "large" {
		rounds = 2
		for i := 0; i < 560; i++ {
			d := &core.Document{ID: fmt.Sprint("many", i), Version: 1 + r.Intn(4), Author: pick(r, authors), Title: fmt.Sprint("t", i)}
			w.Docs[d.ID] = d
			w.ok(w.S.CreateDocument(bg, d), "CreateDocument")
			x := w.newRec(fmt.Sprint("of", i))
			x.Doc = d.ID
			w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
			w.put(x)
		}
		w.Fill(500 + r.Intn(600))
	}
	for round := 0; round < rounds; round++ {
		format := []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL}[(c.Idx+round+r.Intn(2)*(rounds/4))%2]
		opt := core.DumpOptions{Format: format, IncludeVectors: true, BatchSize: pick(r, []int{0, 1, 1000})}
		sel := func(*Rec) bool { return true }
		if c.Part != "large" && r.Intn(2) == 0 {
			g := &filterGen{r: r, keys: metaKeys, vals: metaVals}
			f := g.leaf()
			if b, ok := builder(r, f, map[*core.MetadataFilter]*core.FilterExpression{}); ok {
				opt.Filter = b
				sel = func(x *Rec) bool { return refFilter(f, x.Meta) }
				c.Op("filter %s", fstr(f))
			}
		}
		var buf bytes.Buffer
		c.Op("Dump %s", format)
		st, err := w.S.Dump(bg, &buf, opt)
		w.ok(err, "Dump")
		want := w.liveWith(sel)
		c.Check(st.TotalEmbeddings == len(want), "dump-count", "Dump reports %d records, selected %d", st.TotalEmbeddings, len(want))

		// another store, which may hold other records, documents and collections already
		v := side(c, mkConfig("", pick(r, cfgNames), dim, sim), fmt.Sprintf("l%d.db", round))
		v.IDs, v.DocPool, v.CollPool = w.IDs, w.DocPool, w.CollPool
		v.OnlyGood, v.NoClear = true, true
		busy := r.Intn(2) == 0
		if c.Part == "large" {
			v.Cfg = mkConfig(v.Cfg.Path, "flat", dim, sim)
			v.reopen()
		}
		if busy {
			for i := 0; i < 20; i++ {
				v.Step()
			}
		}
		skip := r.Intn(2) == 0
		// the documents and collections the selected records need
		for _, id := range want {
			x := w.Recs[id]
			if !v.Colls[x.Coll] && !(skip && v.Recs[id] != nil) || format == core.DumpFormatJSON {
				v.Colls[x.Coll] = true
			}
			if x.Doc != "" && v.Docs[x.Doc] == nil {
				v.Docs[x.Doc] = w.Docs[x.Doc]
			}
		}
		skipped := 0
		for _, id := range want {
			if skip && v.Recs[id] != nil {
				skipped++
				continue
			}
			v.Recs[id] = w.Recs[id]
		}
		lo := core.LoadOptions{Format: format, SkipExisting: skip, Upsert: true, BatchSize: pick(r, []int{0, 1, 100})}
		c.Op("Load %s skip=%v into a store with %d records", format, skip, len(v.Recs)-len(want)+skipped)
		var ist *core.ImportStats
		if r.Intn(2) == 0 {
			f := filepath.Join(c.Dir, "dump")
			c.Must(os.WriteFile(f, buf.Bytes(), 0o644), "write")
			ist, err = v.S.LoadFromFile(bg, f, lo)
		} else {
			ist, err = v.S.Load(bg, iotestReader(bytes.NewReader(buf.Bytes())), lo)
		}
		w.ok(err, "Load")
		c.Check(ist.FailedCount == 0 && ist.SkippedCount == skipped && ist.TotalEmbeddings == len(want)-skipped, "load-count", "Load reports %+v, want %d loaded, %d skipped", ist, len(want)-skipped, skipped)
		v.CheckFull()
		for i := 0; i < 4; i++ {
			t, m := keywordQuery(r)
			v.keyword(t, m, "")
			q, _ := v.query()
			o := v.options()
			res, err := v.S.Search(bg, cpVec(q), o)
			v.ok(err, "Search")
			cand := v.rank(sim, q, optPred(o))
			v.checkResults("Search after Load", res, cand, kOf(o), 0, searchMode{})
		}
		if r.Intn(2) == 0 {
			v.reopen()
			v.CheckFull()
		}
		// loading again changes nothing
		ist, err = v.S.Load(bg, bytes.NewReader(buf.Bytes()), core.LoadOptions{Format: format, SkipExisting: true})
		v.ok(err, "Load")
		c.Check(ist.SkippedCount == len(want) && ist.TotalEmbeddings == 0 && ist.FailedCount == 0, "load-twice", "second Load reports %+v, want %d skipped", ist, len(want))
		v.CheckFull()
		c.Count("records", len(want))
		c.Count("roundtrips", 1)
		v.close()
		docs, colls := w.needed()
		if len(want) >= 5 && len(docs) > 0 && len(colls) > 1 {
			c.Nontrivial()
		}
	}
	// CSV carries the plain fields
	var buf bytes.Buffer
	_, err := w.S.Dump(bg, &buf, core.DumpOptions{Format: core.DumpFormatCSV, IncludeVectors: true})
	w.ok(err, "Dump csv")
	rows, err := csv.NewReader(bytes.NewReader(buf.Bytes())).ReadAll()
	c.Check(err == nil && len(rows) == len(w.Recs)+1, "csv", "CSV dump has %d rows, want %d (%v)", len(rows)-1, len(w.Recs), err)
	for _, row := range rows[1:] {
		x := w.Recs[row[0]]
		c.Check(x != nil, "csv", "CSV dump has a row for %q", row[0])
		var vec []float32
		var meta map[string]string
		c.Check(json.Unmarshal([]byte(row[4]), &vec) == nil && bitsEq(vec, x.Vec), "csv", "CSV vector of %q: %s want %v", x.ID, row[4], x.Vec)
		if row[3] != "" {
			c.Check(json.Unmarshal([]byte(row[3]), &meta) == nil, "csv", "CSV metadata of %q: %s", x.ID, row[3])
		}
		c.Check(row[1] == x.Content && row[2] == x.Doc && metaEq(meta, x.Meta), "csv", "CSV row %q want %v", row, x)
	}
	// a writer that fails makes the dump fail
	for _, f := range []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL, core.DumpFormatCSV} {
		buf.Reset()
		_, err := w.S.Dump(bg, &buf, core.DumpOptions{Format: f, IncludeVectors: true})
		w.ok(err, "Dump")
		if buf.Len() > 0 {
			n := r.Intn(buf.Len())
			_, err = w.S.Dump(bg, &limitWriter{n: n}, core.DumpOptions{Format: f, IncludeVectors: true})
			c.Check(err != nil, "dump-write-error", "Dump %s to a writer that failed after %d of %d bytes reported success", f, n, buf.Len())
			c.Count("write_faults", 1)
		}
	}
	gone, cancel := context.WithCancel(bg)
	cancel()
	for _, f := range []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL, core.DumpFormatCSV} {
		part := filepath.Join(c.Dir, "partial-"+string(f))
		if _, err := w.S.DumpToFile(gone, part, core.DumpOptions{Format: f, IncludeVectors: true}); err != nil {
			_, err = os.Stat(part)
			c.Check(os.IsNotExist(err), "dump-partial", "a dump that failed left the file %s behind", part)
			c.Count("failed_file_dumps", 1)
		}
	}
	_, err = w.S.DumpToFile(bg, filepath.Join(c.Dir, "no", "such", "dir"), core.DefaultDumpOptions())
	c.Check(err != nil, "dump-write-error", "DumpToFile to an impossible path succeeded")
	_, err = w.S.Dump(bg, io.Discard, core.DumpOptions{Format: "xml"})
	c.Check(err != nil, "dump-format", "Dump to an unknown format succeeded")
	w.CheckFull()
	w.close()
}

type limitWriter struct{ n int }

func (l *limitWriter) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, errors.New("injected write error")
	}
	l.n -= len(p)
	return len(p), nil
}

type smallReader struct {
	r io.Reader
	k int
}

func (s *smallReader) Read(p []byte) (int, error) {
	s.k = s.k*31%97 + 1
	if len(p) > s.k {
		p = p[:s.k]
	}
	return s.r.Read(p)
}

func iotestReader(r io.Reader) io.Reader { return &smallReader{r, 7} }

func c13backup(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	w := newWorld(c, mkConfig(dbPath(c), kind, 3, "cosine"))
	w.OnlyGood = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	g := newGWorld(c, "cosine", 3)
	g.Cfg = w.Cfg
	h := newChat(c, w.S, "cosine", 3)
	attach := func() {
		g.S, h.S = w.S, w.S
		g.G = graph.NewGraphStore(w.S)
		g.ok(g.G.InitGraphSchema(bg), "InitGraphSchema")
	}
	attach()
	for i := 0; i < 60; i++ {
		switch i % 4 {
		case 0:
			g.Step()
			w.S = g.S
			h.S = g.S
		case 1:
			h.Step()
		default:
			w.Step()
			if g.S != w.S {
				attach()
			}
		}
	}
	path := filepath.Join(c.Dir, "backup's.db")
	c.Op("Backup")
	w.ok(w.S.Backup(bg, path), "Backup")
	c.Check(w.S.Backup(bg, path) != nil, "backup-overwrite", "Backup onto an existing database file succeeded")
	w.ok(w.S.Backup(bg, path+"2"), "Backup")
	// later changes do not reach the backup
	w.ok(w.S.Upsert(bg, &core.Embedding{ID: "later", Vector: []float32{1, 2, 3}, Content: "later"}), "Upsert")
	old := *w
	for _, p := range []string{path, path + "2"} {
		v := old
		v.Cfg.Path = p
		if p != path {
			v.Cfg = mkConfig(p, pick(r, cfgNames), 3, "cosine")
		}
		v.open()
		v.CheckFull()
		gg := *g
		gg.S = v.S
		gg.G = graph.NewGraphStore(v.S)
		g.ok(gg.G.InitGraphSchema(bg), "InitGraphSchema")
		gg.CheckGraph()
		hh := *h
		hh.S = v.S
		hh.CheckHistory()
		hh.CheckSearch()
		for i := 0; i < 6; i++ {
			t, m := keywordQuery(r)
			v.keyword(t, m, "")
			q, _ := v.query()
			res, err := v.S.Search(bg, q, core.SearchOptions{TopK: 1000})
			v.ok(err, "Search")
			v.checkResults("Search in backup", res, v.rank("cosine", q, nil), 1000, 0, searchMode{})
		}
		for _, t := range []string{"chunks_fts", "messages_fts"} {
			c.Check(ftsCheck(v.S.GetDB(), t) == nil, "backup-fts", "the full-text index %s of the backup disagrees with its rows", t)
		}
		// the backup is a working database
		x := v.newRec("after")
		v.ok(v.S.Upsert(bg, x.emb()), "Upsert")
		v.keyword(pick(r, vocab), func(string) bool { return false }, "no such collection")
		v.close()
		c.Count("backups", 1)
	}
	w.ok(w.S.Delete(bg, "later"), "Delete")
	w.CheckFull()
	// backups during writes hold whole batches only
	if c.Idx%3 == 0 {
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var werr error
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := newRand(int64(c.Idx))
			for n := 0; n < 100000; n++ {
				select {
				case <-stop:
					return
				default:
				}
				var embs []*core.Embedding
				for j := 0; j < 5; j++ {
					embs = append(embs, &core.Embedding{ID: fmt.Sprint("hot", j), Vector: randVec(rr, 3, 0), Content: fmt.Sprint("gen", n)})
				}
				if werr = w.S.UpsertBatch(bg, embs); werr != nil {
					return
				}
			}
		}()
		for i := 0; i < 4; i++ {
			p := filepath.Join(c.Dir, fmt.Sprint("hot", i, ".db"))
			w.ok(w.S.Backup(bg, p), "Backup")
			v := side(c, w.Cfg, fmt.Sprint("hot", i, ".db"))
			gens := map[string]int{}
			for j := 0; j < 5; j++ {
				if e, err := v.S.GetByID(bg, fmt.Sprint("hot", j)); err == nil {
					gens[e.Content]++
				}
			}
			c.Check(len(gens) <= 1, "backup-torn", "the backup holds parts of different batches: %v", gens)
			for gname, n := range gens {
				c.Check(n == 5, "backup-torn", "the backup holds %d of 5 records of batch %s", n, gname)
			}
			v.close()
			c.Count("hot_backups", 1)
		}
		close(stop)
		wg.Wait()
		c.Check(werr == nil, "spurious-error:UpsertBatch", "UpsertBatch during backups: %v", werr)
	}
	if len(w.Recs) >= 5 {
		c.Nontrivial()
	}
	w.close()
}

// c13damage: damaged input is reported and harms nothing that was stored.
func c13damage(c *Case) {
	r := c.R
	const dim = 3
	w := newWorld(c, mkConfig(dbPath(c), "flat", dim, "cosine"))
	w.OnlyGood, w.NoClear = true, true
	w.open()
	for i := 0; i < 25; i++ {
		w.Step()
	}
	for len(w.Recs) < 4 {
		x := w.newRec(fmt.Sprint("m", len(w.Recs)))
		w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
		w.put(x)
	}
	format := []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL}[c.Idx%2]
	var buf bytes.Buffer
	_, err := w.S.Dump(bg, &buf, core.DumpOptions{Format: format, IncludeVectors: true})
	w.ok(err, "Dump")
	n := len(w.Recs)
	w.close()
	good := buf.Bytes()

	v := side(c, mkConfig("", cfgNames[c.Idx%len(cfgNames)], dim, "cosine"), "v.db")
	defer func() {
		if v.S != nil {
			v.S.Close()
		}
	}()
	v.IDs = pool(r, "mine", 6, 0)
	v.OnlyGood = true
	for i := 0; i < 20; i++ {
		v.Step()
	}
	keep := map[string]*Rec{}
	for id, x := range v.Recs {
		keep[id] = x
	}
	own := func() {
		for id, x := range keep {
			e, err := v.S.GetByID(bg, id)
			c.Check(err == nil, "damaged-load-lost", "record %q is gone after loading damaged input: %v", id, err)
			d := diffRec(e, x, true)
			c.Check(d == "", "damaged-load-changed", "record %q after loading damaged input: %s", id, d)
		}
	}
	trunc := func(b []byte) bool { // is the end of the input missing?
		if format == core.DumpFormatJSON {
			return len(bytes.TrimSpace(b)) < len(bytes.TrimSpace(good))
		}
		t := bytes.TrimSpace(b)
		return len(t) > 0 && len(t) < len(bytes.TrimSpace(good)) && !json.Valid(t[bytes.LastIndexByte(t, '\n')+1:])
	}
	try := func(what string, in []byte, mustFail bool) {
		c.Op("Load %s", what)
		st, err := v.S.Load(bg, iotestReader(bytes.NewReader(in)), core.LoadOptions{Format: format, SkipExisting: true})
		if mustFail {
			c.Check(err != nil || st.FailedCount > 0, "damage-unnoticed", "Load of %s reported %+v and no error", what, st)
		}
		if err != nil || st.FailedCount > 0 {
			c.Count("rejected", 1)
		}
		c.Count("damaged_loads", 1)
	}
	for i := 0; i < 60; i++ {
		k := r.Intn(len(good))
		in := good[:k]
		try(fmt.Sprintf("the first %d of %d bytes", k, len(good)), in, trunc(in))
	}
	own()
	frag := []string{"null", "[]", "{}", `""`, "1e999", "-", "NaN", "true", `{"a":`, "[[[[[[", `"\u0000"`, `"\ud800"`, "0x1", "]", "}", ",", `"id":""`, `"vector":[]`, `"vector":null`, `"vector":"x"`, `"vector":[1,2]`, `"vector":[1e39,0,0]`, `"metadata":{"a":1}`, `"metadata":[1]`, `"doc_id":"nope"`, `"collection":"new"`, `"acl":{}`, `"document":{}`, `"documents":[null]`, `"embeddings":[null,{}]`, `"collections":[{},null]`}
	for i := 0; i < 90; i++ {
		b := append([]byte(nil), good...)
		switch r.Intn(4) {
		case 0:
			for j := 1 + r.Intn(3); j > 0; j-- {
				b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
			}
		case 1:
			a := r.Intn(len(b))
			e := a + r.Intn(len(b)-a)
			if e > a+200 {
				e = a + 200
			}
			b = append(b[:a], b[e:]...)
		case 2:
			a := r.Intn(len(b))
			b = append(append(append([]byte(nil), b[:a]...), pick(r, frag)...), b[a:]...)
		default: // replace one value
			s := string(b)
			key := pick(r, []string{`"id":`, `"vector":`, `"metadata":`, `"doc_id":`, `"collection":`, `"acl":`, `"content":`, `"embeddings":`, `"documents":`})
			at := strings.Index(s[r.Intn(len(s)):], key)
			if at >= 0 {
				b = []byte(s[:at] + pick(r, frag) + "," + s[at:])
			}
		}
		try(fmt.Sprintf("damaged input %d", i), b, false)
		if i%10 == 9 {
			own()
		}
	}
	for _, in := range []string{"", "null", "[]", "{}", "x", `{"embeddings":[{"id":"z1","vector":[1,2,3],"content":"x"},null,{"id":"","vector":[1,2,3]},{"id":"z2"},{"id":"z3","vector":[1,2]},{"id":"z4","vector":[1,2,3],"doc_id":"missing"}]}`, strings.Repeat("[", 20000), `{"embeddings":` + strings.Repeat("[", 20000)} {
		try(fmt.Sprintf("%q", clip(in, 60)), []byte(in), in == "x" || strings.HasPrefix(in, "[[") || strings.HasSuffix(in, "[["))
	}
	own()
	// records that cannot be stored are counted, and the others are stored
	for k := 0; k < 4; k++ {
		var lines []string
		var fit []string
		unfit := 0
		for i := 0; i < 3+r.Intn(6); i++ {
			if r.Intn(3) == 0 {
				lines = append(lines, pick(r, []string{"null", `{"id":"","vector":[1,2,3],"content":"nobody"}`}))
				unfit++
				continue
			}
			fit = append(fit, fmt.Sprint("fit", k, "-", i))
			lines = append(lines, fmt.Sprintf(`{"id":%q,"vector":[1,%d,3],"content":"c"}`, fit[len(fit)-1], i))
		}
		in := strings.Join(lines, "\n")
		if format == core.DumpFormatJSON {
			in = `{"embeddings":[` + strings.Join(lines, ",") + `]}`
		}
		c.Op("Load of %d fit and %d unfit records", len(fit), unfit)
		st, err := v.S.Load(bg, strings.NewReader(in), core.LoadOptions{Format: format})
		if err == nil {
			c.Check(st.TotalEmbeddings == len(fit) && st.FailedCount == unfit && st.SkippedCount == 0, "load-count", "Load of %s reports %+v, want %d loaded, %d failed", in, st, len(fit), unfit)
			for _, id := range fit {
				_, err := v.S.GetByID(bg, id)
				c.Check(err == nil, "load-lost", "%q is missing after Load of %s: %v", id, in, err)
			}
		} else {
			c.Check(unfit > 0, "load-failed", "Load of %s failed: %v", in, err)
		}
		c.Count("unfit_records", unfit)
	}
	own()
	// whatever was loaded is well-formed
	res, err := v.S.Search(bg, []float32{1, 2, 3}, core.SearchOptions{TopK: 100000})
	v.ok(err, "Search")
	st, err := v.S.Stats(bg)
	v.ok(err, "Stats")
	c.Check(int64(len(res)) == st.Count, "damaged-load-invisible", "%d records stored, %d searchable", st.Count, len(res))
	for _, e := range res {
		x, err := v.S.GetByID(bg, e.ID)
		c.Check(err == nil && len(x.Vector) == dim, "damaged-load-dimension", "record %q was loaded with %d components (%v)", e.ID, len(x.Vector), err)
		c.Check(e.ID != "", "damaged-load-id", "a record without id was loaded")
	}
	// a reader that fails
	_, err = v.S.Load(bg, io.MultiReader(bytes.NewReader(good[:r.Intn(len(good))]), errReader{}), core.LoadOptions{Format: format, SkipExisting: true})
	c.Check(err != nil, "damage-unnoticed", "Load from a failing reader succeeded")
	_, err = v.S.LoadFromFile(bg, filepath.Join(c.Dir, "missing"), core.LoadOptions{Format: format})
	c.Check(err != nil, "damage-unnoticed", "LoadFromFile of a missing file succeeded")
	// and the intact dump still loads completely
	ist, err := v.S.Load(bg, bytes.NewReader(good), core.LoadOptions{Format: format})
	v.ok(err, "Load")
	c.Check(ist.TotalEmbeddings == n && ist.FailedCount == 0, "load-count", "Load of the intact dump reports %+v, want %d", ist, n)
	for _, x := range w.Recs {
		e, err := v.S.GetByID(bg, x.ID)
		c.Check(err == nil, "load-lost", "%q is missing after Load: %v", x.ID, err)
		d := diffRec(e, x, true)
		c.Check(d == "", "load-changed", "%q after Load: %s", x.ID, d)
	}
	own()
	v.reopen()
	own()
	c.Nontrivial()
	v.close()
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("injected read error") }

// c13index: exported indexes, foreign or damaged index files never change what a search sees.
func c13index(c *Case) {
	r := c.R
	kind := []string{"hnsw", "ivf", "hnsw+sq8", "hnsw+bq"}[c.Idx%4]
	sim := sims[c.Idx/4%3]
	w := newWorld(c, mkConfig(dbPath(c), kind, 3, sim))
	w.OnlyGood, w.NoClear = true, true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	damaged := false
	judge := func(when string) {
		for i := 0; i < 5; i++ {
			q, _ := w.query()
			o := w.options()
			res, err := w.S.Search(bg, cpVec(q), o)
			w.ok(err, "Search")
			w.checkResults("Search "+when, res, w.rank(sim, q, optPred(o)), kOf(o), 0, searchMode{})
		}
		for i := 0; i < 12 && !damaged; i++ { // a damaged index may rank badly
			w.searchIndexed(kind, sim)
		}
	}
	for i := 0; i < 30; i++ {
		w.Step()
	}
	if kind == "ivf" && len(w.Recs) > 4 {
		c.Op("TrainIndex")
		w.ok(w.S.TrainIndex(bg, 1+r.Intn(5)), "TrainIndex")
	}
	f := filepath.Join(c.Dir, "index")
	c.Op("ExportIndex")
	w.ok(w.S.ExportIndex(bg, f), "ExportIndex")
	judge("after ExportIndex")
	for i := 0; i < 15; i++ {
		w.Step()
	}
	if c.Idx%2 == 0 {
		w.Fill(40) // many that the export lacks
	}
	// the exported file is now out of date
	c.Op("ImportIndex of an old export")
	err := w.S.ImportIndex(bg, f)
	w.ok(err, "ImportIndex")
	judge("after importing an old index")
	data, err := os.ReadFile(f)
	c.Must(err, "read")
	damaged = true
	for i := 0; i < 12; i++ {
		b := append([]byte(nil), data...)
		switch r.Intn(3) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			if len(b) > 0 {
				for j := 0; j < 4; j++ {
					b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
				}
			}
		default:
			b = make([]byte, r.Intn(200))
			r.Read(b)
		}
		c.Must(os.WriteFile(f, b, 0o644), "write")
		c.Op("ImportIndex of damaged file %d", i)
		err := w.S.ImportIndex(bg, f)
		if err != nil {
			c.Count("rejected", 1)
		}
		c.Count("imports", 1)
		judge("after importing a damaged index")
		w.Step()
		judge("after a write that follows a damaged import")
	}
	c.Check(w.S.ImportIndex(bg, filepath.Join(c.Dir, "missing")) != nil, "index-missing", "ImportIndex of a missing file succeeded")
	w.CheckFull()
	w.reopen()
	judge("after reopen")
	w.CheckFull()
	c.Nontrivial()
	w.close()
}
