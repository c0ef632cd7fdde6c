package main

import (
	"context"
	"database/sql"
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

var bg = context.Background()

// Rec is the reference model of one stored record.
type Rec struct {
	ID      string
	Vec     []float32
	Content string
	Doc     string
	Coll    string
	Meta    map[string]string
	ACL     []string
}

func (r *Rec) emb() *core.Embedding {
	e := &core.Embedding{ID: r.ID, Vector: append([]float32(nil), r.Vec...), Content: r.Content, DocID: r.Doc, Collection: r.Coll, ACL: append([]string(nil), r.ACL...)}
	if r.Coll == "default" && len(r.ID)%2 == 0 {
		e.Collection = ""
	}
	if r.Meta != nil {
		e.Metadata = map[string]string{}
		for k, v := range r.Meta {
			e.Metadata[k] = v
		}
	}
	return e
}

func (r *Rec) String() string {
	return fmt.Sprintf("{%q v=%v c=%q doc=%q coll=%q m=%v acl=%v}", r.ID, r.Vec, clip(r.Content, 60), r.Doc, r.Coll, r.Meta, r.ACL)
}

// World drives a core store and its reference model in lockstep.
type World struct {
	BeforeClose func() // lets go of what the case itself holds
	c           *Case
	R           *rand.Rand
	S           *core.SQLiteStore
	Cfg         core.Config
	Recs        map[string]*Rec
	Docs        map[string]*core.Document
	Colls       map[string]bool
	Dim         int // 0 = not known yet

	IDs, DocPool, CollPool []string
	Words                  []string // vocabulary of the contents
	VecStyle               int
	GenMeta                func() map[string]string
	GenVec                 func() []float32
	ACLPool                []string
	NoClear                bool
	OnlyGood               bool   // no rejected calls
	Big                    bool   // thousands of records: observe a sample
	Shared                 string // the store is used by others at the same time: this actor's name
}

var hostile = []string{"a'b", `q"uote`, "100%", "under_score", "semi;colon--", "ünïcødé", "中文", "sp ace", "tab\tid", "nl\nid", "\\back", "[x]", "{\"j\":1}", "😀", "NULL", "' OR 1=1 --", "a___b", "x:y", "*", "%", "_", "é", "e\u0301", "Ab", "aB", "0", "00", "1e3", "/../x", "a\u200bb"}

func pool(r *rand.Rand, prefix string, n int, nasty float64) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		s := fmt.Sprintf("%s%d", prefix, len(out))
		if r.Float64() < nasty {
			s = hostile[r.Intn(len(hostile))]
			if r.Intn(2) == 0 {
				s = prefix + s
			}
			if len(out) > 0 && r.Intn(3) == 0 { // nearly the same as another one
				s = twin(r, pick(r, out))
			}
		}
		if !seen[s] && strings.TrimSpace(s) != "" {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// twin returns a string that sloppy comparisons take for s.
func twin(r *rand.Rand, s string) string {
	switch r.Intn(7) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s + " "
	case 2:
		return " " + s
	case 3:
		return s + "0"
	case 4:
		return s + "%"
	case 5:
		return string([]rune(s)[:len([]rune(s))-1]) + "_"
	}
	return strings.ReplaceAll(s, "d", "D")
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

var vocab = strings.Fields("alpha bravo charlie golfing echo k golf hotel india golfed kilo lima mike november oscar papa quebec romeo sierra tango uniform victor whiskey xray yankee zulu")

func sentence(r *rand.Rand, words []string, n int) string {
	p := make([]string, n)
	for i := range p {
		p[i] = pick(r, words)
	}
	return strings.Join(p, " ")
}

// randVec draws a vector; style selects the regime.
func randVec(r *rand.Rand, dim, style int) []float32 {
	v := make([]float32, dim)
	switch style {
	case 1: // small integers: many ties and duplicates, zero vectors
		for i := range v {
			v[i] = float32(r.Intn(3) - 1)
		}
	case 2: // mixed magnitudes
		m := math.Pow(10, float64(r.Intn(13)-6))
		for i := range v {
			v[i] = float32(r.NormFloat64() * m)
		}
		if r.Intn(6) == 0 {
			for i := range v {
				v[i] = 0
			}
		}
	case 3: // extreme magnitudes
		for i := range v {
			switch r.Intn(6) {
			case 0:
				v[i] = 0
			case 1:
				v[i] = math.MaxFloat32 * (r.Float32()*2 - 1)
			case 2:
				v[i] = math.SmallestNonzeroFloat32 * float32(r.Intn(5))
			case 3:
				v[i] = float32(math.Copysign(0, -1))
			default:
				v[i] = r.Float32()*2 - 1
			}
		}
	default:
		for i := range v {
			v[i] = float32(r.NormFloat64())
		}
	}
	return v
}

var cfgNames = []string{"flat", "hnsw", "ivf", "hnsw+sq8", "hnsw+bq"}

// mkConfig builds a store configuration of a given kind.
func mkConfig(path, kind string, dim int, sim string) core.Config {
	cfg := core.DefaultConfig()
	cfg.Path = path
	cfg.VectorDim = dim
	cfg.AutoSave.Interval = time.Hour
	switch sim {
	case "dot":
		cfg.SimilarityFn = core.DotProduct
	case "euclid":
		cfg.SimilarityFn = core.EuclideanDist
	default:
		cfg.SimilarityFn = core.CosineSimilarity
	}
	switch {
	case strings.HasPrefix(kind, "hnsw"):
		cfg.IndexType = core.IndexTypeHNSW
		cfg.HNSW.Enabled = true
		cfg.HNSW.EfSearch = 200
		cfg.HNSW.EfConstruction = 200
	case kind == "ivf":
		cfg.IndexType = core.IndexTypeIVF
		cfg.IVF.Enabled = true
		cfg.IVF.NCentroids = 4
		cfg.IVF.NProbe = 2
	default:
		cfg.IndexType = core.IndexTypeFlat
		cfg.HNSW.Enabled = false
	}
	if strings.HasSuffix(kind, "+sq8") {
		cfg.Quantization.Enabled = true
		cfg.Quantization.Type = "scalar"
		cfg.Quantization.NBits = 8
	}
	if strings.HasSuffix(kind, "+bq") {
		cfg.Quantization.Enabled = true
		cfg.Quantization.Type = "binary"
	}
	return cfg
}

func refSim(name string, a, b []float32) float64 {
	var dot, na, nb, d2 float64
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		dot += x * y
		na += x * x
		nb += y * y
		d2 += (x - y) * (x - y)
	}
	switch name {
	case "dot":
		return dot
	case "euclid":
		return -math.Sqrt(d2)
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return dot / (math.Sqrt(na) * math.Sqrt(nb))
}

// near compares scores with a tolerance relative to the magnitude of the operands.
func near(a, b, scale float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= 1e-6*math.Max(1e-30, math.Max(scale, math.Max(math.Abs(a), math.Abs(b))))
}

func newWorld(c *Case, cfg core.Config) *World {
	r := c.R
	w := &World{c: c, R: r, Cfg: cfg, Recs: map[string]*Rec{}, Docs: map[string]*core.Document{}, Colls: map[string]bool{"default": true}, Dim: cfg.VectorDim}
	w.IDs = pool(r, "id", 10+r.Intn(25), 0.4)
	w.DocPool = pool(r, "doc", 4, 0.4)
	w.CollPool = pool(r, "coll", 3, 0.4)
	w.Words = vocab
	w.ACLPool = []string{"alice", "bob", "group:x", "al", "a%", `q"uote`, "a"}
	return w
}

func (w *World) open() {
	s, err := core.NewWithConfig(w.Cfg)
	w.c.Check(err == nil, "open-failed", "NewWithConfig: %v", err)
	err = s.Init(bg)
	w.c.Check(err == nil, "open-failed", "Init: %v", err)
	w.S = s
}

func (w *World) close() {
	if w.S != nil {
		if w.BeforeClose != nil {
			w.BeforeClose()
		}
		idle(w.c, w.S.GetDB(), "the operations of this case")
		err := w.S.Close()
		w.S = nil
		w.c.Check(err == nil, "close-failed", "Close: %v", err)
	}
}

func (w *World) reopen() {
	w.close()
	w.open()
}

func dbPath(c *Case) string { return filepath.Join(c.Dir, "t.db") }

var metaKeys = []string{"type", "k", "n", "q'uote", "a.b", "ключ", "$x", "sp ace", "doc_idx"}
var metaVals = []string{"a", "b", "1", "2", "10", "1.0", "-3.5", "", "it's", `"q"`, "100%", "A", "ünï", "true", "null", "2024-01-02", "1e1", " 1", "\\", "zed\nline", "0.1234567", "1.23456789e+06", "12345678", "9007199254740993"}

func (w *World) meta() map[string]string {
	if w.GenMeta != nil {
		return w.GenMeta()
	}
	n := w.R.Intn(4)
	if n == 0 && w.R.Intn(2) == 0 && w.Shared == "" {
		return nil
	}
	m := map[string]string{}
	if w.Shared != "" {
		m["owner"] = w.Shared
	}
	for i := 0; i < n; i++ {
		m[pick(w.R, metaKeys)] = pick(w.R, metaVals)
	}
	return m
}

func (w *World) vec() []float32 {
	if w.GenVec != nil {
		return w.GenVec()
	}
	d := w.Dim
	if d == 0 {
		d = 4
	}
	return randVec(w.R, d, w.VecStyle)
}

func (w *World) newRec(id string) *Rec {
	r := w.R
	rec := &Rec{ID: id, Vec: w.vec(), Content: sentence(r, w.Words, 1+r.Intn(6)), Coll: "default", Meta: w.meta()}
	switch r.Intn(12) {
	case 0:
		rec.Content = ""
	case 1:
		rec.Content = pick(r, hostile)
	case 2:
		rec.Content = strings.Repeat(sentence(r, w.Words, 20)+" ", 20)
	}
	if r.Intn(2) == 0 && len(w.Docs) > 0 {
		rec.Doc = pick(r, sortedKeys(w.Docs))
	}
	if r.Intn(2) == 0 {
		rec.Coll = pick(r, sortedKeys(w.Colls))
	}
	if r.Intn(4) == 0 {
		n := 1 + r.Intn(3)
		if r.Intn(12) == 0 { // a long list, which names the principal last
			for i := 0; i < 33+r.Intn(60); i++ {
				rec.ACL = append(rec.ACL, fmt.Sprintf("member-%d", i))
			}
		}
		if r.Intn(8) == 0 { // a name that is nobody's, before the others
			rec.ACL = append(rec.ACL, "")
		}
		for i := 0; i < n; i++ {
			rec.ACL = append(rec.ACL, pick(r, w.ACLPool))
		}
	}
	if !w.Colls["default"] && rec.Coll == "default" {
		rec.Coll = pick(r, sortedKeys(w.Colls))
	}
	return rec
}

// liveWith returns the live ids that satisfy f, sorted.
func (w *World) liveWith(f func(*Rec) bool) []string {
	var out []string
	for id, r := range w.Recs {
		if f(r) {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

func (w *World) ok(err error, op string) {
	w.c.Check(err == nil, "spurious-error:"+op, "%s of valid input failed: %v", op, err)
}

func (w *World) bad(err error, op string) {
	w.c.Check(err != nil, "accepted-invalid:"+op, "%s of invalid input succeeded", op)
}

// badRec makes an inadmissible embedding; strict dimension policy is assumed.
func (w *World) badRec(id string) (*core.Embedding, string) {
	e := w.newRec(id).emb()
	k := w.R.Intn(6)
	if (k == 1) && w.Dim == 0 {
		k = 0
	}
	switch k {
	case 0:
		e.Vector[w.R.Intn(len(e.Vector))] = float32(math.NaN())
		return e, "NaN vector"
	case 1:
		e.Vector = append(e.Vector, 1)
		return e, "wrong dimension"
	case 2:
		e.Collection = "no such collection"
		return e, "unknown collection"
	case 3:
		e.DocID = "no such document"
		return e, "unknown document"
	case 4:
		e.ID = ""
		return e, "empty id"
	default:
		e.Vector[w.R.Intn(len(e.Vector))] = float32(math.Inf(1 - 2*w.R.Intn(2)))
		return e, "infinite vector"
	}
}

// Step performs one random operation on store and model and returns its name.
func (w *World) Step() string {
	r, c := w.R, w.c
	switch k := r.Intn(100); {
	case k < 30: // single upsert
		rec := w.newRec(pick(r, w.IDs))
		c.Op("Upsert %v", rec)
		w.ok(w.S.Upsert(bg, w.byCollID(rec.emb(), rec)), "Upsert")
		w.put(rec)
		return "Upsert"
	case k < 44: // batch, possibly with duplicate ids (last wins)
		n := 1 + r.Intn(6)
		var recs []*Rec
		var embs []*core.Embedding
		for i := 0; i < n; i++ {
			rec := w.newRec(pick(r, w.IDs))
			recs = append(recs, rec)
			embs = append(embs, w.byCollID(rec.emb(), rec))
		}
		c.Op("UpsertBatch %v", recs)
		w.ok(w.S.UpsertBatch(bg, embs), "UpsertBatch")
		for _, rec := range recs {
			w.put(rec)
		}
		return "UpsertBatch"
	case k < 50: // rejected write
		if w.OnlyGood {
			return w.Step()
		}
		e, why := w.badRec(pick(r, w.IDs))
		if r.Intn(2) == 0 {
			c.Op("Upsert %q invalid: %s", e.ID, why)
			w.bad(w.S.Upsert(bg, e), "Upsert("+why+")")
			return "Upsert!"
		}
		n := r.Intn(3)
		embs := []*core.Embedding{}
		for i := 0; i < n; i++ {
			embs = append(embs, w.newRec(pick(r, w.IDs)).emb())
		}
		embs = append(embs, e)
		for i := r.Intn(3); i > 0; i-- {
			embs = append(embs, w.newRec(pick(r, w.IDs)).emb())
		}
		c.Op("UpsertBatch of %d with element %d invalid: %s", len(embs), n, why)
		w.bad(w.S.UpsertBatch(bg, embs), "UpsertBatch("+why+")")
		return "UpsertBatch!"
	case k < 60:
		id := pick(r, w.IDs)
		c.Op("Delete %q", id)
		err := w.S.Delete(bg, id)
		if _, live := w.Recs[id]; live {
			w.ok(err, "Delete")
		} else {
			w.bad(err, "Delete(missing)")
		}
		delete(w.Recs, id)
		return "Delete"
	case k < 65:
		var ids []string
		any := false
		for i := 1 + r.Intn(5); i > 0; i-- {
			id := pick(r, w.IDs)
			ids = append(ids, id)
			if w.Recs[id] != nil {
				any = true
			}
		}
		c.Op("DeleteBatch %q", ids)
		err := w.S.DeleteBatch(bg, ids)
		if any {
			w.ok(err, "DeleteBatch")
		}
		for _, id := range ids {
			delete(w.Recs, id)
		}
		return "DeleteBatch"
	case k < 68:
		d := pick(r, w.DocPool)
		c.Op("DeleteByDocID %q", d)
		w.ok(w.S.DeleteByDocID(bg, d), "DeleteByDocID")
		w.drop(func(x *Rec) bool { return x.Doc == d })
		return "DeleteByDocID"
	case k < 70:
		ds := []string{pick(r, w.DocPool), pick(r, w.DocPool)}
		given := ds
		if at := r.Intn(6); at < 3 { // empty names are passed over
			given = append(append(append([]string{}, ds[:at]...), ""), ds[at:]...)
		}
		c.Op("ClearByDocID %q", given)
		w.ok(w.S.ClearByDocID(bg, given), "ClearByDocID")
		w.drop(func(x *Rec) bool { return x.Doc != "" && (x.Doc == ds[0] || x.Doc == ds[1]) })
		return "ClearByDocID"
	case k < 74:
		k, v := pick(r, metaKeys), pick(r, metaVals)
		if len(w.Recs) > 0 && r.Intn(2) == 0 {
			x := w.Recs[pick(r, sortedKeys(w.Recs))]
			if len(x.Meta) > 0 {
				k = pick(r, sortedKeys(x.Meta))
				v = x.Meta[k]
			}
		}
		c.Op("DeleteByFilter %q=%q", k, v)
		f := core.NewMetadataFilter().Equal(k, v)
		if w.Shared != "" {
			f = core.NewMetadataFilter().Equal("owner", w.Shared).And(f)
		}
		w.ok(w.S.DeleteByFilter(bg, f), "DeleteByFilter")
		w.drop(func(x *Rec) bool {
			have, ok := x.Meta[k]
			return ok && refEq(have, v)
		})
		return "DeleteByFilter"
	case k < 75:
		if w.NoClear {
			return w.Step()
		}
		c.Op("Clear")
		w.ok(w.S.Clear(bg), "Clear")
		w.Recs = map[string]*Rec{}
		return "Clear"
	case k < 82:
		d := pick(r, w.DocPool)
		doc := &core.Document{ID: d, Title: pick(r, hostile), Content: sentence(r, w.Words, 4), Version: 1 + r.Intn(3), Author: pick(r, authors), SourceURL: "u", Metadata: map[string]interface{}{"x": "y", "n": float64(r.Intn(9))}}
		switch r.Intn(6) {
		case 0:
			doc.Metadata = map[string]interface{}{"": ""}
		case 1:
			doc.Metadata = map[string]interface{}{"a": nil, "l": []interface{}{"x", 1.5, true}, "m": map[string]interface{}{"k": "v"}}
		}
		for r.Intn(3) == 0 {
			doc.ACL = append(doc.ACL, pick(r, w.ACLPool))
		}
		if r.Intn(3) == 0 {
			c.Op("UpdateDocument %q acl=%v", d, doc.ACL)
			err := w.S.UpdateDocument(bg, doc)
			if w.Docs[d] == nil {
				w.bad(err, "UpdateDocument(missing)")
			} else {
				w.ok(err, "UpdateDocument")
				w.Docs[d] = doc
			}
			return "UpdateDocument"
		}
		c.Op("CreateDocument %q acl=%v", d, doc.ACL)
		err := w.S.CreateDocument(bg, doc)
		if w.Docs[d] != nil {
			w.bad(err, "CreateDocument(existing)")
		} else {
			w.ok(err, "CreateDocument")
			w.Docs[d] = doc
		}
		return "CreateDocument"
	case k < 84:
		d := pick(r, w.DocPool)
		c.Op("DeleteDocument %q", d)
		w.ok(w.S.DeleteDocument(bg, d), "DeleteDocument")
		delete(w.Docs, d)
		w.drop(func(x *Rec) bool { return x.Doc == d })
		return "DeleteDocument"
	case k < 89:
		n := pick(r, w.CollPool)
		c.Op("CreateCollection %q", n)
		col, err := w.S.CreateCollection(bg, n, w.Dim)
		if w.Colls[n] {
			w.bad(err, "CreateCollection(existing)")
		} else {
			w.ok(err, "CreateCollection")
			c.Check(col != nil && col.Name == n && col.Dimensions == w.Dim, "create-collection-result", "CreateCollection(%q,%d) returned %+v", n, w.Dim, col)
			w.Colls[n] = true
		}
		return "CreateCollection"
	case k < 91:
		n := pick(r, w.CollPool)
		c.Op("DeleteCollection %q", n)
		err := w.S.DeleteCollection(bg, n)
		if w.Colls[n] {
			w.ok(err, "DeleteCollection")
		} else {
			w.bad(err, "DeleteCollection(missing)")
		}
		delete(w.Colls, n)
		w.drop(func(x *Rec) bool { return x.Coll == n })
		return "DeleteCollection"
	case k < 93:
		if w.Cfg.IndexType == core.IndexTypeIVF && len(w.Recs) > 4 {
			c.Op("TrainIndex")
			err := w.S.TrainIndex(bg, 1+r.Intn(4))
			w.ok(err, "TrainIndex")
			return "TrainIndex"
		}
		if w.Cfg.Quantization.Enabled && len(w.Recs) > 4 {
			c.Op("TrainQuantizer")
			w.ok(w.S.TrainQuantizer(bg), "TrainQuantizer")
			return "TrainQuantizer"
		}
		return w.Step()
	case k < 97:
		if w.Shared != "" {
			return w.Step()
		}
		c.Op("reopen")
		w.reopen()
		return "reopen"
	default:
		if len(w.Recs) == 0 {
			return w.Step()
		}
		// write again what is already stored
		rec := w.Recs[pick(r, sortedKeys(w.Recs))]
		c.Op("Upsert again %q", rec.ID)
		w.ok(w.S.Upsert(bg, rec.emb()), "Upsert")
		return "Upsert="
	}
}

// byCollID sometimes names the collection of a write by its number instead of its name.
func (w *World) byCollID(e *core.Embedding, rec *Rec) *core.Embedding {
	if w.R.Intn(6) > 0 {
		return e
	}
	x, err := w.S.GetCollection(bg, rec.Coll)
	w.c.Check(err == nil && x != nil && x.ID != 0, "spurious-error:GetCollection", "GetCollection(%q): %v, %v", rec.Coll, x, err)
	e.CollectionID, e.Collection = x.ID, pick(w.R, []string{"", rec.Coll})
	w.c.Op("%q names collection %q by its number", rec.ID, rec.Coll)
	return e
}

func (w *World) put(rec *Rec) {
	if w.Dim == 0 {
		w.Dim = len(rec.Vec)
	}
	w.Recs[rec.ID] = rec
}

func (w *World) drop(f func(*Rec) bool) {
	for id, x := range w.Recs {
		if f(x) {
			delete(w.Recs, id)
		}
	}
}

// refEq is the documented equality of filters: numeric when both sides are finite numbers, textual otherwise.
func refEq(have, want string) bool {
	a, ok1 := refNum(have)
	b, ok2 := refNum(want)
	if ok1 && ok2 {
		return a == b
	}
	return have == want
}

func refNum(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

func bitsEq(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return true
}

func metaEq(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func strsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diffRec describes how a returned embedding differs from the model ("" = equal).
func diffRec(e *core.Embedding, x *Rec, acl bool) string {
	switch {
	case e.ID != x.ID:
		return fmt.Sprintf("id %q want %q", e.ID, x.ID)
	case !bitsEq(e.Vector, x.Vec):
		return fmt.Sprintf("vector %v want %v", e.Vector, x.Vec)
	case e.Content != x.Content:
		return fmt.Sprintf("content %q want %q", e.Content, x.Content)
	case e.DocID != x.Doc:
		return fmt.Sprintf("document %q want %q", e.DocID, x.Doc)
	case e.Collection != x.Coll:
		return fmt.Sprintf("collection %q want %q", e.Collection, x.Coll)
	case !metaEq(e.Metadata, x.Meta):
		return fmt.Sprintf("metadata %v want %v", e.Metadata, x.Meta)
	case acl && !strsEq(e.ACL, x.ACL):
		return fmt.Sprintf("acl %q want %q", e.ACL, x.ACL)
	}
	return ""
}

// CheckPoint compares the lookups of all pool ids and the counts.
func (w *World) CheckPoint() {
	c := w.c
	for _, id := range w.IDs {
		e, err := w.S.GetByID(bg, id)
		x := w.Recs[id]
		if x == nil {
			c.Check(err != nil, "ghost-record", "GetByID(%q) returned a record that is not live: %+v", id, e)
			continue
		}
		c.Check(err == nil, "lost-record", "GetByID(%q): %v; last written %v", id, err, x)
		d := diffRec(e, x, true)
		c.Check(d == "", "wrong-record", "GetByID(%q): %s", id, d)
	}
	st, err := w.S.Stats(bg)
	w.ok(err, "Stats")
	c.Check(st.Count == int64(len(w.Recs)), "wrong-count", "Stats.Count=%d, live records %d", st.Count, len(w.Recs))
	if w.Dim != 0 && len(w.Recs) > 0 { // an emptied store adopts a dimension anew when it is opened
		c.Check(st.Dimensions == w.Dim, "wrong-dimension", "Stats.Dimensions=%d want %d", st.Dimensions, w.Dim)
	}
}

// CheckFull compares every listing with the model.
func (w *World) CheckFull() {
	c := w.c
	w.CheckPoint()
	docs := map[string]int{}
	for _, x := range w.Recs {
		if x.Doc != "" {
			docs[x.Doc]++
		}
	}
	for _, d := range w.DocPool {
		got, err := w.S.GetByDocID(bg, d)
		w.ok(err, "GetByDocID")
		w.checkSet("GetByDocID("+d+")", got, w.liveWith(func(x *Rec) bool { return x.Doc == d }))
		doc, err := w.S.GetDocument(bg, d)
		if w.Docs[d] == nil {
			c.Check(err != nil, "ghost-document", "GetDocument(%q) returned %+v", d, doc)
		} else {
			c.Check(err == nil, "lost-document", "GetDocument(%q): %v", d, err)
			m := w.Docs[d]
			c.Check(sameDoc(doc, m), "wrong-document", "GetDocument(%q)=%+v want %+v", d, doc, m)
		}
	}
	ld, err := w.S.ListDocuments(bg)
	w.ok(err, "ListDocuments")
	c.Check(strsEq(ld, sortedKeys(docs)), "wrong-listing", "ListDocuments=%q want %q", ld, sortedKeys(docs))
	li, err := w.S.ListDocumentsWithInfo(bg)
	w.ok(err, "ListDocumentsWithInfo")
	c.Check(len(li) == len(docs), "wrong-listing", "ListDocumentsWithInfo has %d entries, want %d", len(li), len(docs))
	for _, d := range li {
		c.Check(docs[d.DocID] == d.EmbeddingCount, "wrong-listing", "ListDocumentsWithInfo(%q)=%d want %d", d.DocID, d.EmbeddingCount, docs[d.DocID])
	}
	for _, t := range []string{"a", "1", "it's", `"q"`} {
		got, err := w.S.GetDocumentsByType(bg, t)
		w.ok(err, "GetDocumentsByType")
		w.checkSet("GetDocumentsByType("+t+")", got, w.liveWith(func(x *Rec) bool { return x.Meta["type"] == t }))
	}
	all, err := w.S.ListDocumentsWithFilter(bg, "", 1000)
	w.ok(err, "ListDocumentsWithFilter")
	c.Check(len(all) == len(w.Docs), "wrong-listing", "ListDocumentsWithFilter has %d entries, want %d", len(all), len(w.Docs))
	last := time.Time{}
	for i, d := range all {
		m := w.Docs[d.ID]
		c.Check(m != nil, "ghost-document", "ListDocumentsWithFilter lists %q", d.ID)
		c.Check(sameDoc(d, m), "wrong-document", "ListDocumentsWithFilter lists %+v want %+v", d, m)
		c.Check(i == 0 || !d.CreatedAt.After(last), "wrong-order", "ListDocumentsWithFilter: %q, created %v, comes after one created %v", d.ID, d.CreatedAt, last)
		last = d.CreatedAt
	}
	for _, a := range authors {
		ann, err := w.S.ListDocumentsWithFilter(bg, a, 1000)
		w.ok(err, "ListDocumentsWithFilter")
		n := 0
		for _, d := range w.Docs {
			if d.Author == a {
				n++
			}
		}
		c.Check(len(ann) == n, "wrong-listing", "ListDocumentsWithFilter(%q) has %d entries, want %d", a, len(ann), n)
	}
	w.CheckCollections()
}

func (w *World) CheckCollections() {
	c := w.c
	cols, err := w.S.ListCollections(bg)
	w.ok(err, "ListCollections")
	names := map[string]bool{}
	for _, col := range cols {
		c.Check(!names[col.Name], "duplicate-collection", "collection %q listed twice", col.Name)
		names[col.Name] = true
	}
	c.Check(reflect.DeepEqual(names, w.Colls), "wrong-collections", "ListCollections=%v want %v", sortedKeys(names), sortedKeys(w.Colls))
	for n := range w.Colls {
		st, err := w.S.GetCollectionStats(bg, n)
		w.ok(err, "GetCollectionStats")
		want := len(w.liveWith(func(x *Rec) bool { return x.Coll == n }))
		c.Check(st.Count == int64(want) && st.Name == n, "wrong-collection-count", "GetCollectionStats(%q)=%+v want count %d", n, st, want)
		if want == 0 {
			c.Check(st.Size == 0 && st.LastInsertedAt.IsZero(), "wrong-collection-stats", "empty collection %q has statistics %+v", n, st)
		} else {
			var last string
			err := w.S.GetDB().QueryRow("SELECT CAST(MAX(e.created_at) AS TEXT) FROM embeddings e JOIN collections c ON c.id = e.collection_id WHERE c.name = ?", n).Scan(&last)
			c.Must(err, "last insertion")
			c.Check(st.Size > 0 && strings.HasPrefix(last, st.LastInsertedAt.UTC().Format("2006-01-02 15:04:05")), "wrong-collection-stats", "collection %q has statistics %+v, its last record was written %s", n, st, last)
		}
		g, err := w.S.GetCollection(bg, n)
		w.ok(err, "GetCollection")
		c.Check(g.Name == n, "wrong-collection", "GetCollection(%q)=%+v", n, g)
	}
	for _, n := range w.CollPool {
		if !w.Colls[n] {
			_, err := w.S.GetCollection(bg, n)
			c.Check(err != nil, "ghost-collection", "GetCollection(%q) succeeded", n)
			_, err = w.S.GetCollectionStats(bg, n)
			c.Check(err != nil, "ghost-collection", "GetCollectionStats(%q) succeeded", n)
		}
	}
}

func (w *World) checkSet(what string, got []*core.Embedding, want []string) {
	seen := map[string]bool{}
	for _, e := range got {
		w.c.Check(!seen[e.ID], "duplicate-result", "%s returned %q twice", what, e.ID)
		seen[e.ID] = true
		x := w.Recs[e.ID]
		w.c.Check(x != nil, "ghost-record", "%s returned %q, which is not live", what, e.ID)
		d := diffRec(e, x, true)
		w.c.Check(d == "", "wrong-record", "%s, record %q: %s", what, e.ID, d)
	}
	w.c.Check(strsEq(sortedKeys(seen), want), "wrong-set", "%s returned %q want %q", what, sortedKeys(seen), want)
}

// tableDump renders the whole content of the given tables, for before/after comparison.
func tableDump(db *sql.DB, tables ...string) (string, error) {
	var sb strings.Builder
	for _, t := range tables {
		rows, err := db.Query("SELECT * FROM " + t + " ORDER BY rowid")
		if err != nil {
			return "", err
		}
		cols, _ := rows.Columns()
		for rows.Next() {
			vals := make([]any, len(cols))
			ptr := make([]any, len(cols))
			for i := range vals {
				ptr[i] = &vals[i]
			}
			if err := rows.Scan(ptr...); err != nil {
				rows.Close()
				return "", err
			}
			sb.WriteString(t)
			for i, v := range vals {
				if b, ok := v.([]byte); ok {
					v = fmt.Sprintf("%x", b)
				}
				fmt.Fprintf(&sb, "|%s=%v", cols[i], v)
			}
			sb.WriteByte('\n')
		}
		err = rows.Err()
		rows.Close()
		if err != nil {
			return "", err
		}
	}
	return sb.String(), nil
}

// ftsCheck runs the FTS5 integrity check that compares index and content table.
func ftsCheck(db *sql.DB, table string) error {
	_, err := db.Exec("INSERT INTO " + table + "(" + table + ", rank) VALUES('integrity-check', 1)")
	return err
}

func sprint(a ...any) string { return fmt.Sprint(a...) }

// Fill writes n further records in one batch.
func (w *World) Fill(n int) {
	var batch []*core.Embedding
	for i := 0; i < n; i++ {
		x := w.newRec(fmt.Sprintf("fill%05d", i))
		w.put(x)
		batch = append(batch, x.emb())
	}
	w.c.Op("UpsertBatch of %d", n)
	w.ok(w.S.UpsertBatch(bg, batch), "UpsertBatch")
}

var authors = []string{"ann", "ben", "o'c", "Ann", "a%", "_nn"}

func sameDoc(doc, m *core.Document) bool {
	return doc.Title == m.Title && doc.Content == m.Content && doc.Author == m.Author && doc.Version == m.Version && doc.SourceURL == m.SourceURL && strsEq(doc.ACL, m.ACL) &&
		(len(doc.Metadata) == 0 && len(m.Metadata) == 0 || reflect.DeepEqual(doc.Metadata, m.Metadata))
}
