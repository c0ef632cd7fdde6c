package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	hs "github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
)

func init() {
	register(&Prop{ID: "C28", Level: "exploration",
		Rule: "a case is one history of bank creation and deletion, retains, observations, fact extraction and restarts over banks with look-alike identifiers and shared memory identifiers, where every memory is tagged with its bank and each recall strategy, their fusion, Reflect and GetObservations are compared with brute force over the model (part banks), the same with a crowding bank of over a thousand memories (part scale), one conversation with automatic retention whose windows are compared with the message log (part chat), or several agents at once (part shared, which also runs under the race detector in C11); non-trivial when the answer left out memories of another bank that matched better or came after a restart",
		Run: func(r *Run) {
			r.Parallel("banks", r.N(150, 4000), 0, c28banks)
			r.Parallel("chat", r.N(40, 1000), 0, c28chat)
			r.Parallel("shared", r.N(6, 80), 0, c28shared)
			r.Parallel("scale", r.N(2, 16), 0, c28scale)
		}})
}

type mem28 struct {
	id, bank string
	typ      hs.MemoryType
	content  string
	word     string // occurs in this memory only
	vec      []float32
	ents     []string
	conf     float64
	meta     map[string]string
	at       time.Time
	obs      *hs.Observation
	auto     bool // creation time set by the system
}

type bank28 struct {
	b      hs.Bank
	d      hs.Disposition
	lo, hi int64
}

type w28 struct {
	c       *Case
	r       *rand.Rand
	sys     *hs.System
	coll    string
	cfgDim  int
	dim     int
	banks   map[string]*bank28
	mems    map[string]map[string]*mem28 // bank, id
	foreign map[string]*core.Embedding
	node    map[string]bool
	n       int
	reopens int
	confs   []float64
}

var ids28 = []string{"b", "b1", "B", "b%", "b_", "1", "1.0", "bank_id", "b,b1", "b' OR '1'='1", "Ünï", "m1"}
var keys28 = []string{"bank_id", "memory_type", "created_at", "confidence", "entities", "memory_id", "created_at_nsec", "source", "observation_type", "reasoning", "user_metadata.bank_id", "doc_id", "π", "", "a.b", "Source", "camelCase", " padded "}
var ents28 = []string{"Alice", "Al", "Bob", "Acme, Inc.", "[x", "b1", "b", "Zoë", "bank_id", "a\"q", " Bob ", "bob"}

func c28banks(c *Case) {
	w := new28(c, pick(c.R, []int{4, 8}))
	for i, n := 0, 25+c.R.Intn(40); i < n; i++ {
		w.step()
	}
	w.all()
	w.restart()
	w.all()
	w.broken()
}

func new28(c *Case, dim int) *w28 {
	w := &w28{c: c, r: c.R, dim: dim, coll: pick(c.R, []string{"memories", "", "notes", "Notes 2"}), banks: map[string]*bank28{}, mems: map[string]map[string]*mem28{}, foreign: map[string]*core.Embedding{}, node: map[string]bool{}}
	if w.r.Intn(3) > 0 {
		w.cfgDim = dim
	}
	w.open()
	return w
}

func (w *w28) open() {
	sys, err := hs.New(&hs.Config{DBPath: dbPath(w.c), VectorDim: w.cfgDim, Collection: w.coll})
	w.c.Check(err == nil, "open", "New failed: %v", err)
	w.sys = sys
}

func (w *w28) restart() {
	w.c.Op("restart")
	idleStore(w.c, w.sys.Store())
	err := w.sys.Close()
	w.c.Check(err == nil, "close", "Close failed: %v", err)
	w.open()
	w.reopens++
}

func (w *w28) ok(err error, what string) {
	w.c.Check(err == nil, "error:"+what, "%s failed: %v", what, err)
}

func (w *w28) vec() []float32 {
	v := make([]float32, w.dim)
	for i := range v {
		v[i] = float32(w.r.NormFloat64())
	}
	return v
}

func (w *w28) newMem(bank string) *mem28 {
	r := w.r
	w.n++
	m := &mem28{bank: bank, typ: pick(r, []hs.MemoryType{hs.WorldMemory, hs.BankMemory, hs.OpinionMemory, hs.ObservationMemory}), vec: w.vec(), word: fmt.Sprintf("uniq%dx", w.n)}
	m.id = pick(r, []string{"m1", "m2", "m3", "b1", "own", "M1", "m%"})
	if r.Intn(3) == 0 {
		m.id = fmt.Sprintf("r%d", w.n)
	}
	m.content = strings.Join([]string{sentence(r, vocab, 1+r.Intn(5)), m.word, pick(r, []string{"東京", "it's", "prefers tea", "because", "100%", "😀"})}, " ")
	if m.typ == hs.OpinionMemory || m.typ == hs.ObservationMemory {
		m.conf = pick(r, []float64{0, 1, 0.5, r.Float64(), r.Float64() * 1e-5})
	}
	seen := map[string]bool{}
	for i, n := 0, r.Intn(4); i < n; i++ {
		if e := pick(r, ents28); !seen[e] {
			seen[e] = true
			m.ents = append(m.ents, e)
		}
	}
	m.at = time.Unix(1700000000+int64(r.Intn(40)), int64(r.Intn(3))*250000000)
	m.meta = map[string]string{}
	return m
}

func (w *w28) put(m *mem28) {
	if w.mems[m.bank] == nil {
		w.mems[m.bank] = map[string]*mem28{}
	}
	w.mems[m.bank][m.id] = m
}

func (w *w28) retain(bank string) *mem28 { return w.retainAs(bank, "") }

// retainAs retains a memory under the given identifier, or under one of its own choice.
func (w *w28) retainAs(bank, id string) *mem28 {
	m := w.newMem(bank)
	if id != "" {
		m.id = id
	}
	meta := map[string]any{}
	for i, n := 0, w.r.Intn(4); i < n; i++ {
		k := pick(w.r, keys28)
		if k == "" {
			continue
		}
		v := pick(w.r, []any{"x", "b1", "", 7, true, 2.5, "2020", "a,b"})
		meta[k], m.meta[k] = v, fmt.Sprint(v)
	}
	in := &hs.Memory{ID: m.id, BankID: bank, Type: m.typ, Content: m.content, Vector: append([]float32(nil), m.vec...), Entities: append([]string(nil), m.ents...), Confidence: m.conf, Metadata: meta, CreatedAt: m.at}
	if id == "" && w.r.Intn(12) == 0 {
		in.ID = ""
	}
	lo := time.Now()
	if w.r.Intn(12) == 0 {
		in.CreatedAt, m.auto = time.Time{}, true
	}
	w.c.Op("retain %q in %q: %s, entities %q, meta %v", in.ID, bank, m.content, m.ents, meta)
	w.ok(w.sys.Retain(bg, in), "Retain")
	w.c.Check(in.ID != "" && (m.id == in.ID || !strings.HasPrefix(in.ID, "m")), "retain-id", "Retain gave the memory the ID %q", in.ID)
	m.id = in.ID
	if m.auto {
		w.c.Check(!in.CreatedAt.Before(lo) && !in.CreatedAt.After(time.Now()), "retain-time", "Retain set the creation time to %v", in.CreatedAt)
		m.at = in.CreatedAt
	}
	w.put(m)
	return m
}

func (w *w28) observation(bank string) {
	m := w.newMem(bank)
	m.typ, m.ents = hs.ObservationMemory, nil
	o := &hs.Observation{ID: m.id, BankID: bank, Content: m.content, Vector: append([]float32(nil), m.vec...), Confidence: pick(w.r, []float64{w.r.Float64(), w.r.Float64(), 0, 1}), ObservationType: pick(w.r, []hs.ObservationType{hs.RiskObservation, hs.PatternObservation, hs.CausalObservation, ""}), Reasoning: pick(w.r, []string{"", "since, because", "x"}), CreatedAt: m.at}
	for i, n := 0, w.r.Intn(3); i < n; i++ {
		o.SourceMemoryIDs = append(o.SourceMemoryIDs, pick(w.r, []string{"m1", "m,2", "r1", "[q", "", " m1"}))
	}
	m.conf, m.obs = o.Confidence, o
	w.c.Op("observe %q in %q: %+v", m.id, bank, *o)
	cp := *o
	w.ok(w.sys.AddObservation(bg, &cp), "AddObservation")
	w.put(m)
}

// extract stores facts through the extractor hook.
func (w *w28) extract(bank string) {
	var facts []hs.ExtractedFact
	var ms []*mem28
	skipped, refused := 0, 0
	for i, n := 0, 1+w.r.Intn(5); i < n; i++ {
		m := w.newMem(bank)
		m.auto = true
		f := hs.ExtractedFact{ID: m.id, Type: m.typ, Content: m.content, Vector: m.vec, Entities: m.ents, Confidence: m.conf, Metadata: map[string]any{"source": "chat"}}
		m.meta = map[string]string{"source": "chat"}
		switch w.r.Intn(7) {
		case 0:
			f.ID = ""
			skipped++
		case 6:
			f.Vector = append([]float32(nil), m.vec...)
			f.Vector[w.r.Intn(len(f.Vector))] = float32(math.NaN())
			refused++
		case 1:
			f.Vector = nil
			skipped++
		case 2:
			f.Type, m.typ = "", hs.WorldMemory
			m.conf = 0
			fallthrough
		default:
			ms = append(ms, m)
		}
		facts = append(facts, f)
	}
	w.sys.SetFactExtractor(func(_ context.Context, b string, msgs []*core.Message) ([]hs.ExtractedFact, error) {
		w.c.Check(b == bank && len(msgs) == 1, "extract-args", "the extractor was called for bank %q with %d messages instead of %q with 1", b, len(msgs), bank)
		return facts, nil
	})
	w.c.Op("extract %d facts for %q", len(facts), bank)
	lo := time.Now()
	res, err := w.sys.RetainFromText(bg, bank, []*core.Message{{ID: "x", Content: "y"}})
	w.ok(err, "RetainFromText")
	w.c.Check(res.Retained == len(ms) && res.Skipped == skipped && len(res.Errors) == skipped+refused, "extract-counts", "RetainFromText retained %d and skipped %d of %d facts with %d errors; %d of them lack an ID or a vector and %d have a vector that is not finite", res.Retained, res.Skipped, len(facts), len(res.Errors), skipped, refused)
	w.c.Count("extracted facts that could not be stored", refused)
	for _, m := range ms {
		m.at = lo
		w.put(m)
	}
	w.sys.SetFactExtractor(nil)
}

func (w *w28) bankIDs() []string {
	var out []string
	for b := range w.mems {
		out = append(out, b)
	}
	sort.Strings(out)
	return out
}

func (w *w28) step() {
	r := w.r
	switch r.Intn(15) {
	case 14:
		// The caller deletes an own embedding, which frees its identifier
		if ids := sortedKeys(w.foreign); len(ids) > 0 {
			id := pick(r, ids)
			w.c.Op("delete own embedding %q", id)
			w.ok(w.sys.Store().(*core.SQLiteStore).Delete(bg, id), "Delete")
			delete(w.foreign, id)
			for _, b := range w.bankIDs() {
				if w.mems[b][id] != nil {
					w.retainAs(b, id)
					w.c.Count("memories replaced after their identifier became free", 1)
				}
			}
		}
	case 0, 1, 2, 3, 4:
		w.retain(pick(r, ids28))
	case 5:
		w.observation(pick(r, ids28))
	case 6:
		w.extract(pick(r, ids28))
	case 7, 8:
		w.createBank(pick(r, ids28))
	case 9:
		if ks := sortedKeys(w.banks); len(ks) > 0 {
			id := pick(r, ks)
			w.c.Op("delete bank %q", id)
			w.ok(w.sys.DeleteBank(id), "DeleteBank")
			delete(w.banks, id)
		} else {
			w.c.Check(w.sys.DeleteBank("none") != nil, "delete-missing", "DeleteBank of a bank that was never created succeeded")
		}
	case 10:
		// The caller's own data in the same database
		id := pick(r, []string{"own", "m3", "m9"})
		if _, dup := w.foreign[id]; dup {
			return
		}
		st := w.sys.Store().(*core.SQLiteStore)
		if _, err := st.GetByID(bg, id); err == nil {
			return
		}
		if _, err := st.GetCollection(bg, "mine"); err != nil {
			_, err := st.CreateCollection(bg, "mine", w.dim)
			w.ok(err, "CreateCollection")
		}
		e := &core.Embedding{ID: id, Collection: "mine", Vector: w.vec(), Content: "my own " + id, Metadata: map[string]string{"bank_id": pick(r, ids28), "k": "v"}}
		w.c.Op("own embedding %q", id)
		w.ok(st.Upsert(bg, &core.Embedding{ID: e.ID, Collection: e.Collection, Vector: append([]float32(nil), e.Vector...), Content: e.Content, Metadata: e.Metadata}), "Upsert")
		w.foreign[id] = e
	case 11:
		id := pick(r, ents28)
		if _, err := w.sys.Graph().GetNode(bg, id); err != nil {
			w.c.Op("own node %q", id)
			w.ok(w.sys.Graph().UpsertNode(bg, &graph.GraphNode{ID: id, Vector: w.vec(), Content: "my node", NodeType: "mine"}), "UpsertNode")
			if !bankLike(id) {
				w.node[id] = true
			}
		}
	case 12:
		w.restart()
		w.checkBanks()
	case 13:
		w.probe()
	}
}

func bankLike(id string) bool {
	for _, b := range ids28 {
		if b == id {
			return true
		}
	}
	return false
}

func (w *w28) createBank(id string) {
	_, dup := w.banks[id]
	b := &bank28{b: hs.Bank{ID: id, Name: pick(w.r, []string{"n", "", "name ünï", "a\nb"}), Description: pick(w.r, []string{"", "d", "a \"b\""}), Background: pick(w.r, []string{"", "bg"})}}
	b.d = hs.Disposition{Skepticism: w.r.Intn(6), Literalism: w.r.Intn(6), Empathy: w.r.Intn(6)}
	in := b.b
	in.Disposition = &hs.Disposition{Skepticism: b.d.Skepticism, Literalism: b.d.Literalism, Empathy: b.d.Empathy}
	if w.r.Intn(5) == 0 {
		in.Disposition, b.d = nil, *hs.DefaultDisposition()
	}
	w.c.Op("create bank %q", id)
	b.lo = time.Now().Unix()
	err := w.sys.CreateBank(bg, &in)
	b.hi = time.Now().Unix()
	if dup {
		w.c.Check(err != nil, "duplicate-bank", "creating the bank %q again succeeded", id)
		return
	}
	w.ok(err, "CreateBank")
	w.banks[id] = b
}

func (w *w28) checkBanks() {
	got := map[string]*hs.Bank{}
	for _, b := range w.sys.ListBanks() {
		w.c.Check(got[b.ID] == nil, "bank-twice", "ListBanks lists %q twice", b.ID)
		got[b.ID] = b
	}
	w.c.Check(len(got) == len(w.banks), "bank-list", "ListBanks lists %q instead of %q", sortedKeys(got), sortedKeys(w.banks))
	for _, id := range sortedKeys(w.banks) {
		m := w.banks[id]
		b2, ok := w.sys.GetBank(id)
		w.c.Check(ok && got[id] != nil, "bank-lost", "the bank %q is gone (restarts: %d)", id, w.reopens)
		for _, b := range []*hs.Bank{got[id], b2} {
			w.c.Check(b.ID == id && b.Name == m.b.Name && b.Description == m.b.Description && b.Background == m.b.Background, "bank-fields", "the bank %q has become %+v (restarts: %d)", id, *b, w.reopens)
			w.c.Check(b.Disposition != nil && *b.Disposition == m.d, "bank-disposition", "the disposition of bank %q is %+v instead of %+v (restarts: %d)", id, b.Disposition, m.d, w.reopens)
			w.c.Check(b.CreatedAt >= m.lo && b.CreatedAt <= m.hi, "bank-created", "the bank %q was created at %d..%d but says %d (restarts: %d)", id, m.lo, m.hi, b.CreatedAt, w.reopens)
			m.lo, m.hi = b.CreatedAt, b.CreatedAt
		}
	}
	for _, id := range ids28 {
		if _, want := w.banks[id]; !want {
			_, ok := w.sys.GetBank(id)
			w.c.Check(!ok, "bank-ghost", "GetBank finds %q, which does not exist", id)
		}
	}
	if w.reopens > 0 {
		w.c.Count("banks checked after a restart", len(w.banks))
	}
}

// same checks a memory that came back for bank against the model.
func (w *w28) same(what, bank string, g *hs.Memory) *mem28 {
	c := w.c
	c.Check(g != nil, "nil-memory", "%s returned a nil memory", what)
	c.Check(g.BankID == bank, "leak", "%s on bank %q returned a memory of bank %q: %q", what, bank, g.BankID, g.Content)
	m := w.mems[bank][g.ID]
	c.Check(m != nil, "unknown-memory", "%s on bank %q returned the memory %q (%q), which was never retained there", what, bank, g.ID, g.Content)
	c.Check(g.Content == m.content, "content", "%s on bank %q: memory %q has content %q instead of %q", what, bank, g.ID, g.Content, m.content)
	c.Check(g.Type == m.typ, "type", "%s on bank %q: memory %q has type %q instead of %q", what, bank, g.ID, g.Type, m.typ)
	if m.typ == hs.OpinionMemory || m.typ == hs.ObservationMemory {
		c.Check(g.Confidence == m.conf, "confidence", "%s on bank %q: memory %q has confidence %v instead of %v", what, bank, g.ID, g.Confidence, m.conf)
	}
	c.Check(strsEq(g.Entities, m.ents), "entities", "%s on bank %q: memory %q has entities %q instead of %q", what, bank, g.ID, g.Entities, m.ents)
	c.Check(bitsEq(g.Vector, m.vec), "vector", "%s on bank %q: memory %q has another vector", what, bank, g.ID)
	if m.auto {
		d := g.CreatedAt.Sub(m.at)
		c.Check(d > -time.Second && d < time.Hour, "created", "%s on bank %q: memory %q was created at %v instead of after %v", what, bank, g.ID, g.CreatedAt, m.at)
	} else {
		c.Check(g.CreatedAt.Equal(m.at), "created", "%s on bank %q: memory %q was created at %v instead of %v", what, bank, g.ID, g.CreatedAt, m.at)
	}
	for k, v := range m.meta {
		got, ok := g.Metadata[k]
		c.Check(ok && fmt.Sprint(got) == v, "metadata", "%s on bank %q: metadata %q of memory %q is %v instead of %q", what, bank, k, g.ID, got, v)
	}
	if m.obs == nil {
		c.Check(len(g.Metadata) == len(m.meta), "metadata-extra", "%s on bank %q: memory %q has metadata %v instead of %v", what, bank, g.ID, g.Metadata, m.meta)
	}
	return m
}

func (w *w28) list(bank string, f func(*mem28) bool) (out []*mem28) {
	for _, id := range sortedKeys(w.mems[bank]) {
		if m := w.mems[bank][id]; f == nil || f(m) {
			out = append(out, m)
		}
	}
	return out
}

// recall runs one request and checks what holds for every recall.
func (w *w28) recall(what string, req *hs.RecallRequest) []*hs.RecallResult {
	c := w.c
	strat := req.Strategy
	cp := *req
	res, err := w.sys.Recall(bg, &cp)
	w.ok(err, "Recall:"+what)
	c.Check(cp.Strategy == strat, "request-changed", "Recall changed the caller's request")
	c.Check(req.TopK <= 0 || len(res) <= req.TopK, "limit:"+what, "%s recall from %q returned %d memories for a limit of %d", what, req.BankID, len(res), req.TopK)
	seen := map[string]bool{}
	for i, g := range res {
		c.Check(g != nil, "nil-result", "%s recall returned a nil result", what)
		w.same(what+" recall", req.BankID, g.Memory)
		c.Check(!seen[g.ID], "twice:"+what, "%s recall from %q returned %q twice", what, req.BankID, g.ID)
		seen[g.ID] = true
		if i > 0 {
			c.Check(g.Score <= res[i-1].Score, "order:"+what, "%s recall from %q is not sorted: %v after %v", what, req.BankID, g.Score, res[i-1].Score)
		}
	}
	c.Count("memories recalled", len(res))
	return res
}

func ids28of(res []*hs.RecallResult) (out []string) {
	for _, g := range res {
		out = append(out, g.ID)
	}
	return out
}

// ranked checks that res holds the best of want by similarity to q, exactly.
func (w *w28) ranked(what string, res []*hs.RecallResult, want []*mem28, q []float32, k int) {
	c := w.c
	n := min(k, len(want))
	in := map[string]*mem28{}
	for _, m := range want {
		in[m.id] = m
	}
	for _, g := range res {
		c.Check(in[g.ID] != nil, "wrong:"+what, "%s recall returned %q, which does not satisfy it", what, g.ID)
	}
	c.Check(len(res) == n, "count:"+what, "%s recall returned %d of %d memories that satisfy it (limit %d): %q", what, len(res), len(want), k, ids28of(res))
	if q == nil {
		return
	}
	got := map[string]bool{}
	worst := math.Inf(1)
	for _, g := range res {
		s := cos64(q, in[g.ID].vec)
		c.Check(math.Abs(s-g.Score) < 1e-4, "score:"+what, "%s recall scores %q %v instead of %v", what, g.ID, g.Score, s)
		got[g.ID] = true
		worst = math.Min(worst, s)
	}
	for _, m := range want {
		if !got[m.id] {
			c.Check(cos64(q, m.vec) <= worst+1e-4, "missed:"+what, "%s recall left out %q, which is more similar than another result", what, m.id)
		}
	}
}

func (w *w28) probe() {
	bs := w.bankIDs()
	if len(bs) == 0 {
		return
	}
	w.probeBank(pick(w.r, bs))
}

func (w *w28) probeBank(bank string) {
	r, c := w.r, w.c
	total := len(w.mems[bank])
	q := w.vec()
	k := 1 + r.Intn(6)
	if r.Intn(2) == 0 {
		k = total + r.Intn(3)
	}
	if k == 0 {
		k = 1
	}
	if w.reopens > 0 || len(w.mems) > 1 {
		c.Nontrivial()
	}
	c.Op("probe %q, limit %d of %d", bank, k, total)

	// Semantic
	sem := w.recall("semantic", &hs.RecallRequest{BankID: bank, QueryVector: q, Strategy: &hs.RecallStrategy{Memory: true}, TopK: k})
	c.Check(len(sem) == min(k, total), "count:semantic", "semantic recall from %q returned %d of %d memories for a limit of %d", bank, len(sem), total, k)
	for _, g := range sem {
		s := cos64(q, w.mems[bank][g.ID].vec)
		c.Check(math.Abs(s-g.Score) < 1e-4, "score:semantic", "semantic recall scores %q %v instead of %v", g.ID, g.Score, s)
	}
	self := w.list(bank, nil)[r.Intn(max(1, total))]
	one := w.recall("semantic", &hs.RecallRequest{BankID: bank, QueryVector: self.vec, Strategy: &hs.RecallStrategy{Memory: true, TopK: 1}, TopK: 1})
	c.Check(len(one) == 1 && (one[0].ID == self.id || cos64(one[0].Vector, self.vec) > 1-1e-5), "self:semantic", "the vector of %q in %q recalls %q", self.id, bank, ids28of(one))

	// Temporal, with and without a query vector
	tf := &hs.TemporalFilter{}
	pivot := pick(r, w.list(bank, nil)).at
	if r.Intn(4) > 0 {
		t := pivot.Add(time.Duration(r.Intn(3)-1) * pick(r, []time.Duration{time.Nanosecond, 250 * time.Millisecond, time.Second, 5 * time.Second}))
		tf.Start = &t
	}
	if r.Intn(4) > 0 {
		t := pivot.Add(time.Duration(r.Intn(3)) * pick(r, []time.Duration{0, 250 * time.Millisecond, time.Second, 10 * time.Second}))
		tf.End = &t
	}
	sharp := true // creation times near "now" are not known exactly
	if tf.Start != nil && tf.Start.Year() > 2023 || tf.End != nil && tf.End.Year() > 2023 {
		sharp = false
	}
	tq := q
	if r.Intn(3) == 0 {
		tq = nil
	}
	tmp := w.recall("temporal", &hs.RecallRequest{BankID: bank, QueryVector: tq, Strategy: &hs.RecallStrategy{Temporal: tf}, TopK: k})
	if sharp {
		w.ranked("temporal", tmp, w.list(bank, func(m *mem28) bool {
			return !(tf.Start != nil && m.at.Before(*tf.Start)) && !(tf.End != nil && m.at.After(*tf.End))
		}), tq, k)
	}

	// Entity: exact names must match, names that do not even contain the entity must not
	var ents []string
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		ents = append(ents, pick(r, ents28))
	}
	eq := q
	if r.Intn(3) == 0 {
		eq = nil
	}
	ent := w.recall("entity", &hs.RecallRequest{BankID: bank, QueryVector: eq, Strategy: &hs.RecallStrategy{Entity: ents}, TopK: k})
	has := func(m *mem28, f func(have, want string) bool) bool {
		for _, h := range m.ents {
			for _, x := range ents {
				if f(h, x) {
					return true
				}
			}
		}
		return false
	}
	exact := w.list(bank, func(m *mem28) bool { return has(m, func(h, x string) bool { return h == x }) })
	loose := w.list(bank, func(m *mem28) bool {
		return has(m, func(h, x string) bool { return strings.Contains(strings.ToLower(h), strings.ToLower(x)) })
	})
	if len(exact) == len(loose) {
		w.ranked("entity", ent, exact, eq, k)
	} else {
		got := map[string]bool{}
		for _, g := range ent {
			got[g.ID] = true
			c.Check(has(w.mems[bank][g.ID], func(h, x string) bool { return strings.Contains(strings.ToLower(h), strings.ToLower(x)) }), "wrong:entity", "entity recall for %q returned %q with entities %q", ents, g.ID, g.Entities)
		}
		if len(loose) <= k {
			for _, m := range exact {
				c.Check(got[m.id], "missed:entity", "entity recall for %q from %q missed %q with entities %q", ents, bank, m.id, m.ents)
			}
		}
	}

	// Keyword
	kk := max(k, 2)
	kw := w.recall("keyword", &hs.RecallRequest{BankID: bank, Query: self.word, QueryVector: q, Strategy: &hs.RecallStrategy{Priming: true}, TopK: kk})
	derived := strings.HasPrefix(self.word, "none")
	c.Check(derived || contains28(kw, self.id), "missed:keyword", "the word %q of memory %q in %q recalls only %q (limit %d)", self.word, self.id, bank, ids28of(kw), kk)
	kt := w.recall("text", &hs.RecallRequest{BankID: bank, Query: self.content, Strategy: &hs.RecallStrategy{Priming: true}, TopK: 5})
	c.Check(derived || contains28(kt, self.id), "missed:text", "the text of memory %q in %q recalls only %q", self.id, bank, ids28of(kt))

	// Fusion: the scores are those of the single strategies' ranks
	st := &hs.RecallStrategy{TopK: k}
	parts := [][]*hs.RecallResult{}
	add := func(x []*hs.RecallResult) { parts = append(parts, x) }
	if r.Intn(3) > 0 {
		st.Memory = true
		add(sem)
	}
	if r.Intn(2) == 0 && tq != nil {
		st.Temporal = tf
		add(tmp)
	}
	if r.Intn(2) == 0 && eq != nil {
		st.Entity = ents
		add(ent)
	}
	query := ""
	if r.Intn(2) == 0 {
		st.Priming, query = true, self.word
		add(w.recall("keyword", &hs.RecallRequest{BankID: bank, Query: query, QueryVector: q, Strategy: &hs.RecallStrategy{Priming: true, TopK: k}}))
	}
	fk := 1 + r.Intn(2*k)
	req := &hs.RecallRequest{BankID: bank, Query: query, QueryVector: q, Strategy: st, TopK: fk}
	fused := w.recall("fused", req)
	if len(parts) > 1 {
		want := map[string]float64{}
		for _, p := range parts {
			for i, g := range p {
				want[g.ID] += 1 / (60 + float64(i+1))
			}
		}
		c.Check(len(fused) == min(fk, len(want)), "count:fused", "fused recall returned %d of %d memories for a limit of %d", len(fused), len(want), fk)
		worst := math.Inf(1)
		for _, g := range fused {
			c.Check(math.Abs(g.Score-want[g.ID]) < 1e-9, "score:fused", "fused recall scores %q %v; its ranks give %v", g.ID, g.Score, want[g.ID])
			worst = math.Min(worst, g.Score)
			delete(want, g.ID)
		}
		for id, s := range want {
			c.Check(s <= worst+1e-9, "missed:fused", "fused recall left out %q, which ranks higher than another result", id)
		}
		again := w.recall("fused", req)
		c.Check(sameStrings(ids28of(again), ids28of(fused)) && strings.Join(ids28of(again), "\x00") == strings.Join(ids28of(fused), "\x00"), "unstable:fused", "repeating a fused recall changed the order from %q to %q", ids28of(fused), ids28of(again))
	}

	// Reranker
	if r.Intn(2) == 0 {
		fail := r.Intn(2) == 0
		w.sys.SetReranker(func(_ context.Context, _ string, x []*hs.RecallResult) ([]*hs.RecallResult, error) {
			for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
				x[i], x[j] = x[j], x[i]
			}
			if fail {
				return nil, errors.New("reranker down")
			}
			return x, nil
		})
		rq := &hs.RecallRequest{BankID: bank, Query: self.word, QueryVector: q, Strategy: &hs.RecallStrategy{Priming: true, TopK: kk}, TopK: kk}
		rr, err := w.sys.Recall(bg, rq)
		w.ok(err, "Recall:reranked")
		want := ids28of(kw)
		if !fail {
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
		}
		c.Check(strings.Join(ids28of(rr), "\x00") == strings.Join(want, "\x00"), "rerank", "with a reversing reranker (failing: %v) the recall gives %q instead of %q", fail, ids28of(rr), want)
		w.sys.SetReranker(nil)
	}

	w.reflect(bank, q, k)
	w.observations(bank)
	if r.Intn(3) == 0 {
		w.observe(bank, q)
	}
}

func contains28(res []*hs.RecallResult, id string) bool {
	for _, g := range res {
		if g.ID == id {
			return true
		}
	}
	return false
}

func (w *w28) reflect(bank string, q []float32, k int) {
	c := w.c
	for _, budget := range []int{0, 1 + w.r.Intn(60)} {
		st := &hs.RecallStrategy{Memory: true}
		res, err := w.sys.Reflect(bg, &hs.ContextRequest{BankID: bank, Query: "東京 " + fmt.Sprint(w.r.Intn(9)), QueryVector: q, Strategy: st, TopK: k, TokenBudget: budget})
		w.ok(err, "Reflect")
		c.Check(len(res.Memories) == min(k, len(w.mems[bank])), "count:reflect", "Reflect on %q used %d of %d memories for a limit of %d", bank, len(res.Memories), len(w.mems[bank]), k)
		c.Check(utf8.ValidString(res.Context), "reflect-utf8", "Reflect with a budget of %d tokens cut its context in the middle of a character: %q", budget, res.Context)
		for _, g := range res.Memories {
			w.same("Reflect", bank, g)
			if budget == 0 {
				c.Check(strings.Contains(res.Context, g.Content), "reflect-content", "Reflect leaves %q out of its context", g.Content)
			}
		}
		if budget > 0 {
			c.Check(res.TokenCount <= budget && len(res.Context) <= 4*budget+3, "reflect-budget", "Reflect returned %d bytes (%d tokens) for a budget of %d tokens", len(res.Context), res.TokenCount, budget)
		}
		for _, other := range w.bankIDs() {
			if other != bank {
				for _, m := range w.list(other, nil) {
					if c.R.Intn(4) == 0 {
						c.Check(!strings.Contains(res.Context, m.word), "leak:reflect", "the context for %q contains %q of bank %q", bank, m.content, other)
					}
				}
			}
		}
	}
}

func (w *w28) observations(bank string) {
	c := w.c
	got, err := w.sys.GetObservations(bg, bank)
	w.ok(err, "GetObservations")
	want := w.list(bank, func(m *mem28) bool { return m.typ == hs.ObservationMemory })
	seen := map[string]bool{}
	for _, o := range got {
		m := w.mems[bank][o.ID]
		c.Check(m != nil && m.typ == hs.ObservationMemory && o.BankID == bank, "wrong:observations", "GetObservations(%q) returned %q of bank %q", bank, o.ID, o.BankID)
		c.Check(!seen[o.ID], "twice:observations", "GetObservations(%q) returned %q twice", bank, o.ID)
		seen[o.ID] = true
		c.Check(o.Content == m.content && o.Confidence == m.conf && bitsEq(o.Vector, m.vec), "observation-fields", "the observation %q of %q has become %+v", o.ID, bank, *o)
		if m.obs != nil {
			c.Check(o.ObservationType == m.obs.ObservationType && o.Reasoning == m.obs.Reasoning && strsEq(o.SourceMemoryIDs, m.obs.SourceMemoryIDs) && o.CreatedAt.Equal(m.at), "observation-fields", "the observation %q of %q has become %+v instead of %+v", o.ID, bank, *o, *m.obs)
		}
	}
	c.Check(len(got) == len(want), "count:observations", "GetObservations(%q) returned %d of %d observations", bank, len(got), len(want))
	c.Count("observations read back", len(got))
}

// observe derives observations from what it recalls and stores them in the bank.
func (w *w28) observe(bank string, q []float32) {
	c := w.c
	min := pick(w.r, append([]float64{0, 0.15, 0.99}, w.confs...))
	req := &hs.ReflectRequest{BankID: bank, Query: "x", QueryVector: q, Strategy: &hs.RecallStrategy{Memory: true}, TopK: 8, MinConfidence: min}
	if w.r.Intn(2) == 0 {
		req.ObservationTypes = []hs.ObservationType{pick(w.r, []hs.ObservationType{hs.CausalObservation, hs.PreferenceObservation, hs.RiskObservation})}
	}
	before := len(w.mems[bank])
	res, err := w.sys.Observe(bg, req)
	w.ok(err, "Observe")
	src := map[string]bool{}
	for _, g := range res.SourceMemories {
		w.same("Observe", bank, g)
		src[g.ID] = true
		c.Check(g.Type == hs.ObservationMemory || strings.Contains(res.Context, g.Content), "observe-content", "Observe leaves %q out of its context", g.Content)
	}
	c.Check(len(src) == minInt(8, before), "count:observe", "Observe used %d of %d memories", len(src), before)
	for _, o := range res.Observations {
		c.Check(o.BankID == bank, "leak:observe", "Observe on %q made an observation for %q", bank, o.BankID)
		if len(req.ObservationTypes) > 0 {
			c.Check(o.ObservationType == req.ObservationTypes[0], "observe-type", "Observe for %q made a %q observation", req.ObservationTypes, o.ObservationType)
		}
		for _, id := range o.SourceMemoryIDs {
			c.Check(src[id], "observe-source", "Observe derived %q from %q, which it did not recall", o.Content, id)
		}
		c.Check(strings.Contains(res.Context, o.Content), "observe-content", "Observe leaves its observation %q out of its context", o.Content)
		if len(w.confs) < 9 {
			w.confs = append(w.confs, o.Confidence)
		}
		if o.Confidence >= min {
			w.n++
			cp := *o
			w.put(&mem28{id: o.ID, bank: bank, typ: hs.ObservationMemory, content: o.Content, word: fmt.Sprintf("none%dx", w.n), vec: append([]float32(nil), o.Vector...), conf: o.Confidence, at: o.CreatedAt, obs: &cp})
			c.Count("observations derived", 1)
		}
	}
	w.observations(bank)
}

func minInt(a, b int) int { return min(a, b) }

func (w *w28) checkForeign() {
	st := w.sys.Store().(*core.SQLiteStore)
	for _, id := range sortedKeys(w.foreign) {
		e := w.foreign[id]
		g, err := st.GetByID(bg, id)
		w.c.Check(err == nil, "foreign-lost", "the caller's own record %q is gone: %v", id, err)
		w.c.Check(g.Collection == "mine" && g.Content == e.Content && bitsEq(g.Vector, e.Vector) && metaEq(g.Metadata, e.Metadata), "foreign-changed", "the caller's own record %q was overwritten by a memory: %+v", id, *g)
	}
	for _, id := range sortedKeys(w.node) {
		n, err := w.sys.Graph().GetNode(bg, id)
		w.c.Check(err == nil, "node-lost", "the caller's own graph node %q is gone: %v", id, err)
		w.c.Check(n.NodeType == "mine" && n.Content == "my node", "node-changed", "the caller's own graph node %q has become %+v", id, *n)
	}
}

func (w *w28) all() {
	w.checkBanks()
	w.checkForeign()
	for _, b := range w.bankIDs() {
		// Everything that was retained is there
		res := w.recall("semantic", &hs.RecallRequest{BankID: b, QueryVector: w.vec(), Strategy: &hs.RecallStrategy{Memory: true, TopK: len(w.mems[b]) + 5}})
		w.c.Check(len(res) == len(w.mems[b]), "lost", "%d memories were retained in %q and %d can be recalled (restarts: %d): %q", len(w.mems[b]), b, len(res), w.reopens, ids28of(res))
		w.probeBank(b)
	}
	for _, b := range ids28 {
		if len(w.mems[b]) == 0 {
			res := w.recall("semantic", &hs.RecallRequest{BankID: b, QueryVector: w.vec(), Query: "x"})
			w.c.Check(len(res) == 0, "leak:empty", "the empty bank %q recalls %q", b, ids28of(res))
		}
	}
}

// broken: failures are reported, not taken for empty answers.
func (w *w28) broken() {
	bs := w.bankIDs()
	if len(bs) == 0 {
		w.ok(w.sys.Close(), "Close")
		return
	}
	b := pick(w.r, bs)
	st := []*hs.RecallStrategy{{Memory: true}, {Temporal: &hs.TemporalFilter{}}, {Entity: []string{"Alice"}}, {Priming: true}, nil}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	for i, s := range st {
		res, err := w.sys.Recall(ctx, &hs.RecallRequest{BankID: b, Query: "x", QueryVector: w.vec(), Strategy: s})
		w.c.Check(err != nil || len(res) > 0, "cancelled-empty", "a cancelled recall (strategy %d) reports success with no memories", i)
	}
	w.ok(w.sys.Close(), "Close")
	for i, s := range st {
		_, err := w.sys.Recall(bg, &hs.RecallRequest{BankID: b, Query: "x", QueryVector: w.vec(), Strategy: s})
		w.c.Check(err != nil, "closed-empty", "a recall (strategy %d) after Close reports success", i)
	}
	w.c.Check(w.sys.Retain(bg, &hs.Memory{BankID: b, Content: "x", Vector: w.vec()}) != nil, "closed-retain", "Retain after Close reports success")
	w.c.Check(w.sys.CreateBank(bg, hs.NewBank("new", "x")) != nil, "closed-bank", "CreateBank after Close reports success")
	for _, id := range sortedKeys(w.banks) {
		w.c.Check(w.sys.DeleteBank(id) != nil, "closed-delete", "DeleteBank after Close reports success")
		break
	}
	w.open()
	w.checkBanks()
	w.ok(w.sys.Close(), "Close")
}

func c28scale(c *Case) {
	w := new28(c, 8)
	w.cfgDim = 8
	r := c.R
	for _, b := range []string{"b", "b1"} {
		w.createBank(b)
	}
	// A crowd in one bank around every query, a few memories and many observations in the other
	n := 1300 + r.Intn(400)
	for i := 0; i < n; i++ {
		m := w.newMem("b")
		m.id = fmt.Sprintf("c%d", i)
		if i%7 == 0 {
			m.id = fmt.Sprintf("o%d", i/7)
		}
		m.meta = map[string]string{}
		w.ok(w.sys.Retain(bg, &hs.Memory{ID: m.id, BankID: m.bank, Type: m.typ, Content: m.content, Vector: append([]float32(nil), m.vec...), Entities: m.ents, Confidence: m.conf, CreatedAt: m.at}), "Retain")
		w.put(m)
	}
	for i := 0; i < 130; i++ {
		w.observation("b1")
	}
	for i := 0; i < 30; i++ {
		w.retain("b1")
	}
	for i := 0; i < 140; i++ {
		m := w.newMem("b1")
		m.id, m.typ, m.ents, m.meta = fmt.Sprintf("o%d", i), hs.ObservationMemory, nil, map[string]string{}
		w.ok(w.sys.Retain(bg, &hs.Memory{ID: m.id, BankID: m.bank, Type: m.typ, Content: m.content, Vector: append([]float32(nil), m.vec...), Confidence: m.conf, CreatedAt: m.at}), "Retain")
		w.put(m)
	}
	for round := 0; round < 2; round++ {
		for _, b := range []string{"b", "b1"} {
			for i := 0; i < 4; i++ {
				w.probeBank(b)
			}
		}
		w.all()
		w.restart()
	}
	c.Count("memories in the crowded bank", n)
	w.broken()
}

func c28chat(c *Case) {
	w := new28(c, 4)
	r := c.R
	bank := pick(r, ids28)
	sess := "s"
	w.ok(w.sys.CreateSession(bg, &core.Session{ID: sess, UserID: "u"}), "CreateSession")
	type call struct{ bank, key string }
	var mu sync.Mutex
	var calls []call
	facts := 0
	type stored struct {
		id, content string
	}
	var got []stored
	delay := r.Intn(3)
	w.sys.SetFactExtractor(func(_ context.Context, b string, msgs []*core.Message) ([]hs.ExtractedFact, error) {
		if delay > 0 {
			time.Sleep(time.Duration(delay) * time.Millisecond)
		}
		var k []string
		for _, m := range msgs {
			k = append(k, m.Content)
		}
		mu.Lock()
		defer mu.Unlock()
		calls = append(calls, call{b, strings.Join(k, "|")})
		facts++
		f := hs.ExtractedFact{ID: fmt.Sprintf("f%d", facts), Content: fmt.Sprintf("fact %d", facts), Vector: []float32{float32(facts), 1, 0, 1}}
		if facts%5 == 0 {
			return nil, errors.New("extractor down")
		}
		got = append(got, stored{f.ID, f.Content})
		return []hs.ExtractedFact{f}, nil
	})
	cfg := &hs.AutoRetainConfig{Enabled: true, WindowSize: r.Intn(6), TriggerEvery: pick(r, []int{0, 1, 2, 3, 5, 9, 16})}
	if r.Intn(2) == 0 {
		cfg.RoleFilter = pick(r, [][]string{{"user"}, {"user", "tool"}, {"assistant", "user"}, {}})
	}
	window, every := cfg.WindowSize, cfg.TriggerEvery
	if window <= 0 {
		window = 6
	}
	if every <= 0 {
		every = 2
	}
	roles := map[string]bool{}
	for _, x := range cfg.RoleFilter {
		roles[x] = true
	}
	w.sys.SetAutoRetain(cfg)
	c.Op("auto-retain %+v", *cfg)
	var log []string
	var want []string
	count, off := 0, false
	for i, n := 0, 4+every*2+r.Intn(30); i < n; i++ {
		switch r.Intn(14) {
		case 0:
			off = true
			if r.Intn(2) == 0 {
				c.Op("auto-retain nil")
				w.sys.SetAutoRetain(nil)
			} else {
				c.Op("auto-retain disabled")
				w.sys.SetAutoRetain(&hs.AutoRetainConfig{WindowSize: 2, TriggerEvery: 1})
			}
		case 1:
			// Set up again: the count starts anew
			window, every, count, off = 1+r.Intn(5), 1+r.Intn(4), 0, false
			cfg.WindowSize, cfg.TriggerEvery, cfg.Enabled = window, every, true
			c.Op("auto-retain %+v", *cfg)
			w.sys.SetAutoRetain(cfg)
		}
		role := pick(r, []string{"user", "assistant", "tool", "uber", "user", "users", "ass"})
		text := fmt.Sprintf("message %d", i)
		c.Op("%s: %s", role, text)
		ctx, cancel := context.WithCancel(bg) // The context of one request, which ends with it
		err := w.sys.AddMessage(ctx, bank, &core.Message{ID: fmt.Sprintf("id%d", i), SessionID: sess, Role: role, Content: text})
		cancel()
		w.ok(err, "AddMessage")
		log = append(log, text)
		if !off && (len(roles) == 0 || roles[role]) {
			count++
		}
		if !off && count == every {
			count = 0
			want = append(want, strings.Join(log[max(0, len(log)-window):], "|"))
		}
	}
	w.ok(w.sys.Close(), "Close")
	var have []string
	for _, x := range calls {
		c.Check(x.bank == bank, "extract-bank", "facts of a conversation for bank %q were extracted for bank %q", bank, x.bank)
		have = append(have, x.key)
	}
	c.Count("extractions observed", len(have))
	if len(have) > 1 {
		c.Nontrivial()
	}
	sort.Strings(have)
	sort.Strings(want)
	c.Check(sameStrings(have, want), "windows", "every %d messages of %q, the last %d should go to the extractor: windows %q instead of %q", every, sortedKeys(roles), window, have, want)
	w.open()
	hist, err := w.sys.Store().GetSessionHistory(bg, sess, 1000)
	w.ok(err, "GetSessionHistory")
	c.Check(len(hist) == len(log), "messages", "%d messages were added and %d are stored", len(log), len(hist))
	res, err := w.sys.Recall(bg, &hs.RecallRequest{BankID: bank, QueryVector: []float32{1, 1, 0, 1}, Strategy: &hs.RecallStrategy{Memory: true}, TopK: 1000})
	w.ok(err, "Recall")
	a, b := []string{}, []string{}
	for _, g := range res {
		a = append(a, g.ID+"="+g.Content)
		c.Check(g.Type == hs.WorldMemory, "fact-type", "an extracted fact without a type has type %q", g.Type)
	}
	for _, s := range got {
		b = append(b, s.id+"="+s.content)
	}
	sort.Strings(a)
	sort.Strings(b)
	c.Check(sameStrings(a, b), "facts", "the extractor returned %q and the bank has %q after Close and reopen", b, a)
	w.ok(w.sys.Close(), "Close")
}

// c28shared: several agents use one system at once, with the same memory IDs in their own banks.
func c28shared(c *Case) {
	w := new28(c, 4)
	banks := ids28[:4]
	c.Op("agents in %q, collection %q, salt %d", banks, w.coll, c.R.Int63())
	type upd struct {
		id, content string
		vec         []float32
	}
	final := make([]map[string]upd, len(banks))
	var wg sync.WaitGroup
	for a, b := range banks {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := map[string]upd{}
			if err := w.sys.CreateBank(bg, hs.NewBank(b, "n")); err != nil {
				c.Report("error:CreateBank", "concurrent CreateBank failed: %v", err)
				return
			}
			for i := 0; i < 12; i++ {
				u := upd{fmt.Sprintf("m%d", r.Intn(5)), fmt.Sprintf("%s says %d", b, i), []float32{float32(a + 1), float32(i), 1, 2}}
				if err := w.sys.Retain(bg, &hs.Memory{ID: u.id, BankID: b, Type: hs.WorldMemory, Content: u.content, Vector: u.vec, Entities: []string{b, "Alice"}}); err != nil {
					c.Report("error:Retain", "concurrent Retain failed: %v", err)
					return
				}
				last[u.id] = u
				res, err := w.sys.Recall(bg, &hs.RecallRequest{BankID: b, Query: "says", QueryVector: u.vec, Strategy: &hs.RecallStrategy{Memory: true, Entity: []string{"Alice"}, Temporal: &hs.TemporalFilter{}, TopK: 20}})
				if err != nil {
					c.Report("error:Recall", "concurrent Recall failed: %v", err)
					return
				}
				got := map[string]string{}
				for _, g := range res {
					if g.BankID != b {
						c.Report("leak", "a recall from %q returned a memory of %q", b, g.BankID)
						return
					}
					got[g.ID] = g.Content
				}
				for id, x := range last {
					if got[id] != x.content {
						c.Report("shared-lost", "agent %q retained %q as %q and recalls it as %q while others retain in their own banks", b, id, x.content, got[id])
						return
					}
				}
			}
			final[a] = last
		}()
	}
	wg.Wait()
	c.Nontrivial()
	w.ok(w.sys.Close(), "Close")
	w.open()
	// After the restart every agent asks for every bank, and the settings are read from the graph
	missing := make([]string, len(banks))
	for a := range banks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range banks {
				b := banks[(a+i)%len(banks)]
				if _, ok := w.sys.GetBank(b); !ok {
					missing[a] = b
				}
				if _, err := w.sys.Reflect(bg, &hs.ContextRequest{BankID: b, Query: "says", QueryVector: []float32{1, 2, 1, 2}}); err != nil {
					c.Report("error:Reflect", "concurrent Reflect failed: %v", err)
				}
			}
		}()
	}
	wg.Wait()
	for a, b := range missing {
		c.Check(b == "", "bank-lost", "agent %d does not find the bank %q after a restart", a, b)
	}
	for a, b := range banks {
		_, ok := w.sys.GetBank(b)
		c.Check(ok, "bank-lost", "the bank %q is gone after concurrent retains with an entity of that name", b)
		res, err := w.sys.Recall(bg, &hs.RecallRequest{BankID: b, QueryVector: []float32{1, 1, 1, 1}, Strategy: &hs.RecallStrategy{Memory: true}, TopK: 50})
		w.ok(err, "Recall")
		c.Check(len(res) == len(final[a]), "shared-count", "bank %q has %d memories instead of %d", b, len(res), len(final[a]))
	}
	w.ok(w.sys.Close(), "Close")
}
