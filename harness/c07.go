package main

import (
	"bytes"
	"fmt"
	"path/filepath"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C07", Level: "exploration",
		Rule: "a case is one store history with hostile principals, after every few steps of which access-controlled searches for random principal sets are judged against the effective list of every record; non-trivial when a search had both permitted and forbidden records",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 900), 0, c07history)
			r.Parallel("pairs", r.N(12, 60), 0, c07pairs)
			r.Parallel("large", r.N(10, 60), 0, c07large)
		}})
}

var principals = []string{"alice", "alic", "alice2", "Alice", "ALICE", "al%", "a_ice", "%", "_", "*", "?", `al"ice`, `"alice"`, `alice"`, `["alice"]`, `["alice","bob"]`, "[]", "null", "NULL", "bob,alice", "bob", "o'brien", "' OR 1=1 --", `al\ice`, `al\"ice`, "group:x", "group:xy", "group", "ünï", "中文", "😀", " alice", "alice ", "1", "1.0", "true", "0", "{}", "$[0]", "a\nb", "a\tb", "<b>", "&amp;", "\u2028"}

// effective returns the access list that governs a record; nil = public.
func (w *World) effective(x *Rec) []string {
	if len(x.ACL) > 0 {
		return x.ACL
	}
	if d := w.Docs[x.Doc]; d != nil {
		return d.ACL
	}
	return nil
}

func (w *World) permitted(x *Rec, who []string) bool {
	acl := w.effective(x)
	if len(acl) == 0 {
		return true
	}
	for _, a := range acl {
		for _, p := range who {
			if a == p {
				return true
			}
		}
	}
	return false
}

func (w *World) searchACL(sim string, who []string, o core.SearchOptions) (yes, no int) {
	c := w.c
	q, _ := w.query()
	base := optPred(o)
	cand := w.rank(sim, q, func(x *Rec) bool { return base(x) && w.permitted(x, who) })
	for _, x := range w.Recs {
		if base(x) {
			if w.permitted(x, who) {
				yes++
			} else {
				no++
			}
		}
	}
	o.Threshold = w.threshold(cand)
	c.Op("SearchWithACL %q %s", who, optStr(o))
	whoCopy := append([]string(nil), who...)
	res, err := w.S.SearchWithACL(bg, cpVec(q), who, o)
	w.ok(err, "SearchWithACL")
	c.Check(strsEq(who, whoCopy), "principals-modified", "SearchWithACL changed the principals to %q", who)
	k := o.TopK
	if k < 0 {
		k = 0
	}
	for _, e := range res {
		if x := w.Recs[e.ID]; x != nil && !w.permitted(x, who) {
			c.Fail("forbidden-record", "SearchWithACL for %q returned %v, governed by %q (document %q)", who, x, w.effective(x), x.Doc)
		}
	}
	w.checkResults("SearchWithACL", res, cand, k, o.Threshold, searchMode{exact: true})
	c.Count("searches", 1)
	c.Count("forbidden", no)
	c.Count("permitted", yes)
	return
}

func c07history(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	sim := sims[c.Idx/5%3]
	w := newWorld(c, mkConfig(dbPath(c), kind, 2+r.Intn(3), sim))
	w.OnlyGood = true
	w.ACLPool = nil
	for i := 0; i < 6; i++ {
		w.ACLPool = append(w.ACLPool, pick(r, principals))
	}
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	c.Op("%s %s", kind, sim)
	who := func() []string {
		var out []string
		for i := r.Intn(4); i > 0; i-- {
			if r.Intn(3) == 0 {
				out = append(out, pick(r, principals))
			} else {
				out = append(out, pick(r, w.ACLPool))
			}
		}
		return out
	}
	for i := 0; i < 60; i++ {
		w.Step()
		if i%5 == 4 {
			for j := 0; j < 6; j++ {
				if y, n := w.searchACL(sim, who(), w.options()); y > 0 && n > 0 {
					c.Nontrivial()
				}
			}
		}
		if i%30 == 29 {
			// the lists survive dump and load
			var buf bytes.Buffer
			opt := core.DefaultDumpOptions()
			if r.Intn(2) == 0 {
				opt.Format = core.DumpFormatJSONL
			}
			c.Op("Dump %s and Load elsewhere", opt.Format)
			_, err := w.S.Dump(bg, &buf, opt)
			w.ok(err, "Dump")
			cfg := w.Cfg
			cfg.Path = filepath.Join(c.Dir, fmt.Sprint("load", i, ".db"))
			s2, err := core.NewWithConfig(cfg)
			c.Must(err, "harness")
			w.ok(s2.Init(bg), "Init")
			_, err = s2.Load(bg, bytes.NewReader(buf.Bytes()), core.LoadOptions{Format: opt.Format})
			w.ok(err, "Load")
			old := w.S
			w.S = s2
			for j := 0; j < 6; j++ {
				w.searchACL(sim, who(), w.options())
			}
			w.S = old
			w.ok(s2.Close(), "Close")
		}
	}
	w.close()
}

// c07pairs: every principal against a record listing every other one.
func c07pairs(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 2, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	viaDoc := c.Idx/5%2 == 1
	for i, p := range principals {
		x := &Rec{ID: fmt.Sprint("r", i), Vec: randVec(r, 2, 0), Content: "x", Coll: "default"}
		acl := []string{p}
		for j := r.Intn(3); j > 0; j-- {
			acl = append(acl, pick(r, principals))
		}
		if viaDoc {
			d := &core.Document{ID: fmt.Sprint("d", i), Title: "t", ACL: acl}
			w.ok(w.S.CreateDocument(bg, d), "CreateDocument")
			w.Docs[d.ID] = d
			x.Doc = d.ID
		} else {
			x.ACL = acl
		}
		w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
		w.put(x)
	}
	w.put(&Rec{ID: "pub", Vec: []float32{1, 0}, Content: "x", Coll: "default"})
	w.ok(w.S.Upsert(bg, w.Recs["pub"].emb()), "Upsert")
	for _, p := range principals {
		w.searchACL("cosine", []string{p}, core.SearchOptions{})
		w.searchACL("cosine", []string{p, pick(r, principals)}, core.SearchOptions{TopK: 3})
	}
	w.searchACL("cosine", nil, core.SearchOptions{})
	w.searchACL("cosine", []string{""}, core.SearchOptions{})
	c.Nontrivial()
	w.close()
}

// c07large: long access lists, many principals and more than a thousand records, so that the
// entry that grants or denies access may come late in either list.
func c07large(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	sim := sims[c.Idx/5%3]
	w := newWorld(c, mkConfig(dbPath(c), kind, 3, sim))
	w.OnlyGood = true
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	long := func(n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("group:%d", 100+r.Intn(900)))
		}
		for i := r.Intn(3); i > 0; i-- {
			out = append(out, pick(r, principals))
		}
		return out
	}
	for i := 0; i < 30; i++ {
		d := &core.Document{ID: fmt.Sprint("big", i), Title: "t", ACL: long([]int{0, 1, 60, 300}[i%4])}
		if i%4 == 0 {
			d.ACL = nil
		}
		w.ok(w.S.CreateDocument(bg, d), "CreateDocument")
		w.Docs[d.ID] = d
	}
	var embs []*core.Embedding
	for i := 0; i < 1200+r.Intn(300); i++ {
		x := &Rec{ID: fmt.Sprint("r", i), Vec: randVec(r, 3, 0), Content: "x", Coll: "default"}
		if r.Intn(3) > 0 {
			x.Doc = fmt.Sprint("big", r.Intn(30))
		}
		switch r.Intn(5) {
		case 0:
			x.ACL = long(1)
		case 1:
			x.ACL = long(20 + r.Intn(200))
		}
		embs = append(embs, x.emb())
		w.put(x)
	}
	w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
	c.Op("%s %s: %d records", kind, sim, len(embs))
	for i := 0; i < 24; i++ {
		var who []string
		for j := []int{0, 1, 5, 900, 3000}[i%5]; j > 0; j-- {
			who = append(who, fmt.Sprintf("group:1%04d", r.Intn(9999)))
		}
		for j := r.Intn(4); j > 0; j-- {
			who = append(who, pick(r, []string{pick(r, principals), fmt.Sprintf("group:%d", 100+r.Intn(900))}))
		}
		o := w.options()
		if i%2 == 0 {
			o.TopK = pick(r, []int{0, 10, 100, 5000})
		}
		if y, n := w.searchACL(sim, who, o); y > 0 && n > 0 {
			c.Nontrivial()
		}
	}
	w.close()
}
