package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	sr "github.com/liliang-cn/cortexdb/v2/pkg/semantic-router"
)

func init() {
	register(&Prop{ID: "C29", Level: "exploration",
		Rule: "a case is one history of adding, removing and routing over a dense router with an embedder that fails on schedule (part dense), the same over a persistent router with failing stores and reopened databases (part store), keyword encoders and routers against the documented formulas (part sparse), hybrid routers (part hybrid), function routing with hostile schemas and texts (part func), or concurrent actors under the race detector (part shared); every decision is compared with an independent argmax; non-trivial when a decision was both a match and a close call, or followed an injected failure",
		Run: func(r *Run) {
			r.Parallel("dense", r.N(120, 4000), 0, c29dense)
			r.Parallel("store", r.N(40, 1500), 0, c29store)
			r.Parallel("sparse", r.N(80, 3000), 0, c29sparse)
			r.Parallel("hybrid", r.N(80, 3000), 0, c29hybrid)
			r.Parallel("func", r.N(80, 3000), 0, c29func)
			r.Parallel("shared", r.N(10, 150), 0, c29shared)
		}})
}

// rtEmb adapts textEmb to the router's interface.
type rtEmb struct{ *textEmb }

func (e rtEmb) Dimensions() int { return e.dim }

var words29 = strings.Fields("refund order ship track price hello weather cancel invoice login password reset help account upgrade music alarm light door garden kitchen recipe flight hotel train tv pc the")

func phrase29(r *rand.Rand) string {
	n := 1 + r.Intn(4)
	if r.Intn(15) == 0 {
		n = 15 + r.Intn(30)
	}
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, pick(r, words29))
	}
	return strings.Join(p, " ")
}

func sim29(name string, a, b []float32) float64 {
	var dot, na, nb, d2 float64
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		dot += x * y
		na += x * x
		nb += y * y
		d2 += (x - y) * (x - y)
	}
	switch name {
	case "dot":
		return dot
	case "euclid":
		return -math.Sqrt(d2)
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return dot / math.Sqrt(na) / math.Sqrt(nb)
}

func fn29(name string) core.SimilarityFunc {
	switch name {
	case "dot":
		return core.DotProduct
	case "euclid":
		return core.EuclideanDist
	}
	return core.CosineSimilarity
}

type route29 struct {
	name string
	utt  []string
}

type model29 struct {
	c      *Case
	sim    string
	thr    float64
	dim    int
	routes []route29 // in order of addition
}

func (m *model29) names() []string {
	out := []string{}
	for _, x := range m.routes {
		out = append(out, x.name)
	}
	return out
}

func (m *model29) has(name string) int {
	for i, x := range m.routes {
		if x.name == name {
			return i
		}
	}
	return -1
}

// best gives the best score, the routes that reach it within tolerance and the exact first winner.
func (m *model29) best(q string) (score float64, close map[string]bool, any bool) {
	score = math.Inf(-1)
	qv := embedText(q, m.dim)
	per := map[string]float64{}
	for _, x := range m.routes {
		b := math.Inf(-1)
		for _, u := range x.utt {
			b = math.Max(b, sim29(m.sim, qv, embedText(u, m.dim)))
		}
		per[x.name] = b
		score = math.Max(score, b)
	}
	close = map[string]bool{}
	for n, b := range per {
		if b >= score-1e-5 {
			close[n] = true
		}
	}
	return score, close, len(per) > 0
}

func (m *model29) judge(what, q string, res *sr.RouteResult) {
	c := m.c
	c.Check(res != nil, "no-result:"+what, "%s(%q) gave no result and no error", what, q)
	if q == "" {
		c.Check(!res.Matched && res.RouteName == "", "empty-query:"+what, "%s of an empty query gave %+v", what, res)
		return
	}
	score, close, any := m.best(q)
	if !any {
		c.Check(!res.Matched && res.RouteName == "", "no-routes:"+what, "%s without routes gave %+v", what, res)
		return
	}
	c.Check(math.Abs(res.Score-score) <= 1e-5, "wrong-score:"+what, "%s(%q) scored %v (route %q), the best example scores %v (%v)", what, q, res.Score, res.RouteName, score, sortedKeys(close))
	if res.Matched {
		c.Check(close[res.RouteName], "wrong-route:"+what, "%s(%q) chose %q, the best are %v", what, q, res.RouteName, sortedKeys(close))
	} else if res.RouteName != "" {
		c.Check(close[res.RouteName], "wrong-route:"+what, "%s(%q) names %q, the best are %v", what, q, res.RouteName, sortedKeys(close))
	}
	if math.Abs(score-m.thr) > 2e-5 {
		c.Check(res.Matched == (score >= m.thr), "wrong-match:"+what, "%s(%q) says matched=%v for score %v with threshold %v", what, q, res.Matched, score, m.thr)
	}
	if res.Matched {
		c.Count("matched", 1)
		if len(m.routes) > 1 {
			c.Nontrivial()
		}
	} else {
		c.Count("unmatched", 1)
	}
	if len(close) > 1 {
		c.Count("ties", 1)
	}
	if score < 0 {
		c.Count("negative_best", 1)
	}
}

func (m *model29) query() string {
	r := m.c.R
	switch r.Intn(8) {
	case 0:
		return ""
	case 1, 2:
		if len(m.routes) > 0 {
			return pick(r, pick(r, m.routes).utt)
		}
	case 3:
		return "unheard " + phrase29(r)
	}
	return phrase29(r)
}

func (m *model29) newRoute() (*sr.Route, route29) {
	r := m.c.R
	rt := route29{name: pick(r, []string{"a", "b", "c", "d:1", "d", "d:1:0", "e'%", "ü", "f", "A", "D"})}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		if len(m.routes) > 0 && r.Intn(6) == 0 {
			rt.utt = append(rt.utt, pick(r, pick(r, m.routes).utt)) // a tie
		} else {
			rt.utt = append(rt.utt, phrase29(r))
		}
	}
	return &sr.Route{Name: rt.name, Utterances: append([]string(nil), rt.utt...)}, rt
}

func newModel29(c *Case) *model29 {
	r := c.R
	m := &model29{c: c, sim: pick(r, []string{"cosine", "cosine", "dot", "euclid"}), dim: 3 + r.Intn(12)}
	m.thr = pick(r, []float64{0.82, 0.5, 0, 0.99, -0.5, -1.2, 1.5})
	return m
}

// faults29 is an embedder failure schedule: calls fail while it is active.
func (m *model29) fault(e rtEmb) func() {
	r := m.c.R
	switch r.Intn(3) {
	case 0: // everything
		e.setFault(func(int, []string) error { return errEmbed })
	case 1: // a word
		w := pick(r, words29)
		e.setFault(func(_ int, texts []string) error {
			for _, t := range texts {
				if strings.Contains(t, w) {
					return errEmbed
				}
			}
			return nil
		})
	default: // every second call
		k := 2 + r.Intn(2)
		e.setFault(func(n int, _ []string) error {
			if n%k == 0 {
				return errEmbed
			}
			return nil
		})
	}
	return func() { e.setFault(nil) }
}

// route compares routing now with the model; while the embedder fails, an error is the only other answer.
func (m *model29) route(rt *sr.Router, faulty bool) {
	c, r, ctx := m.c, m.c.R, context.Background()
	if r.Intn(3) > 0 {
		q := m.query()
		res, err := rt.Route(ctx, q)
		c.Op("Route(%q) = %+v %v", q, res, err)
		if err != nil {
			c.Check(faulty, "route-failed", "Route(%q): %v", q, err)
			c.Check(errors.Is(err, errEmbed), "failure-hidden:Route", "Route failed with %v for an embedder failure", err)
			c.Count("failed_routes", 1)
			return
		}
		m.judge("Route", q, res)
		again, err := rt.Route(ctx, q)
		if err == nil {
			c.Check(again.RouteName == res.RouteName && again.Score == res.Score && again.Matched == res.Matched, "not-repeatable", "Route(%q) gave %+v, then %+v", q, res, again)
		} else {
			c.Check(faulty, "route-failed", "Route(%q): %v", q, err)
		}
		return
	}
	qs := make([]string, r.Intn(6))
	for i := range qs {
		qs[i] = m.query()
	}
	res, err := rt.RouteBatch(ctx, qs)
	if err != nil {
		c.Check(faulty, "routebatch-failed", "RouteBatch(%q): %v", qs, err)
		return
	}
	c.Check(len(res) == len(qs), "routebatch-length", "RouteBatch of %d queries gave %d results", len(qs), len(res))
	for i := range res {
		m.judge("RouteBatch", qs[i], res[i])
		if !faulty {
			one, err := rt.Route(ctx, qs[i])
			c.Check(err == nil, "route-failed", "Route(%q): %v", qs[i], err)
			c.Check(one.RouteName == res[i].RouteName && one.Score == res[i].Score && one.Matched == res[i].Matched, "batch-differs", "RouteBatch gave %+v for %q, Route %+v", res[i], qs[i], one)
		}
	}
}

func (m *model29) state(what string, rt *sr.Router) {
	c := m.c
	names := m.names()
	c.Check(reflect.DeepEqual(append([]string{}, rt.List()...), names), "wrong-list:"+what, "%s lists %q, live are %q", what, rt.List(), names)
	total := 0
	for _, x := range m.routes {
		g := rt.Get(x.name)
		c.Check(g != nil, "missing-route:"+what, "%s: Get(%q) finds nothing", what, x.name)
		c.Check(g.Name == x.name && reflect.DeepEqual(g.Utterances, x.utt), "wrong-route-data:"+what, "%s: Get(%q) = %q, added with %q", what, x.name, g.Utterances, x.utt)
		total += len(x.utt)
	}
	c.Check(rt.Get("never added") == nil, "phantom-route:"+what, "Get of an unknown name found a route")
	st := rt.Stats()
	c.Check(st["route_count"] == len(names) && st["total_utterances"] == total, "wrong-stats:"+what, "%s: Stats = %v, live are %d routes, %d examples", what, st, len(names), total)
}

// change adds or removes routes; may says that a failure is allowed.
func (m *model29) change(rt *sr.Router, may bool) {
	c, r := m.c, m.c.R
	switch r.Intn(5) {
	case 0, 1:
		x, rec := m.newRoute()
		err := rt.Add(x)
		c.Op("Add(%q, %q): %v", rec.name, rec.utt, err)
		switch {
		case m.has(rec.name) >= 0:
			c.Check(err != nil, "duplicate-added", "Add accepted a second route %q", rec.name)
		case err != nil:
			c.Check(may, "add-failed", "Add(%q): %v", rec.name, err)
			c.Count("failed_adds", 1)
		default:
			m.routes = append(m.routes, rec)
		}
	case 2:
		var xs []*sr.Route
		var recs []route29
		bad := false
		for i := r.Intn(4); i >= 0; i-- {
			x, rec := m.newRoute()
			for _, o := range recs {
				bad = bad || o.name == rec.name
			}
			bad = bad || m.has(rec.name) >= 0
			xs, recs = append(xs, x), append(recs, rec)
		}
		switch r.Intn(8) {
		case 0:
			xs[r.Intn(len(xs))] = nil
			bad = true
		case 1:
			xs[r.Intn(len(xs))].Utterances = nil
			bad = true
		case 2:
			xs[r.Intn(len(xs))].Name = ""
			bad = true
		}
		err := rt.AddBatch(xs)
		c.Op("AddBatch(%v): %v", recs, err)
		switch {
		case bad:
			c.Check(err != nil, "bad-batch-added", "AddBatch accepted a nil, empty or duplicate route: %v over %q", recs, m.names())
			c.Count("refused_batches", 1)
		case err != nil:
			c.Check(may, "addbatch-failed", "AddBatch(%v): %v", recs, err)
			c.Count("failed_adds", 1)
		default:
			m.routes = append(m.routes, recs...)
		}
	case 3:
		name := pick(r, []string{"a", "b", "c", "d:1", "d", "d:1:0", "e'%", "ü", "f", "A", "D", "big", "zz", ""})
		i := m.has(name)
		err := rt.Remove(name)
		c.Op("Remove(%q): %v", name, err)
		switch {
		case i < 0:
			c.Check(err != nil, "removed-missing", "Remove(%q) of no route succeeded", name)
		case err != nil:
			c.Check(may, "remove-failed", "Remove(%q): %v", name, err)
			c.Count("failed_removes", 1)
		default:
			m.routes = append(append([]route29{}, m.routes[:i]...), m.routes[i+1:]...)
			c.Count("removed", 1)
		}
	default:
		switch r.Intn(3) {
		case 0:
			c.Check(rt.Add(nil) != nil, "nil-added", "Add(nil) succeeded")
		case 1:
			c.Check(rt.Add(&sr.Route{Utterances: []string{"x"}}) != nil, "nameless-added", "Add without a name succeeded")
		default:
			c.Check(rt.Add(&sr.Route{Name: "empty"}) != nil, "empty-added", "Add without examples succeeded")
		}
	}
}

// reached gives a router the very score of a decision as its threshold: the score reaches it.
func (m *model29) reached(emb sr.Embedder, rt *sr.Router) {
	c := m.c
	if len(m.routes) == 0 {
		return
	}
	q := phrase29(c.R)
	res, err := rt.Route(bg, q)
	c.Check(err == nil, "route-failed", "Route(%q): %v", q, err)
	for i, thr := range []float64{res.Score, math.Nextafter(res.Score, math.Inf(1))} {
		two, err := sr.NewRouter(emb, sr.WithThreshold(thr), sr.WithSimilarityFunc(fn29(m.sim)))
		c.Check(err == nil, "new-failed", "NewRouter: %v", err)
		for _, x := range m.routes {
			err := two.Add(&sr.Route{Name: x.name, Utterances: append([]string(nil), x.utt...)})
			c.Check(err == nil, "add-failed", "Add: %v", err)
		}
		got, err := two.Route(bg, q)
		c.Op("Route(%q) with threshold %v = %+v %v", q, thr, got, err)
		c.Check(err == nil && got.Score == res.Score, "not-repeatable", "Route(%q) scored %v, a router with the same routes %v (%v)", q, res.Score, got.Score, err)
		c.Check(got.Matched == (i == 0), "wrong-match:exact", "Route(%q) says matched=%v for score %v with threshold %v", q, got.Matched, got.Score, thr)
	}
	c.Count("exact_thresholds", 1)
}

func c29dense(c *Case) {
	r := c.R
	m := newModel29(c)
	e := rtEmb{&textEmb{dim: m.dim}}
	var emb sr.Embedder = e
	if r.Intn(3) == 0 {
		emb = sr.NewCachedEmbedder(e)
	}
	cache := r.Intn(3) > 0
	rt, err := sr.NewRouter(emb, sr.WithThreshold(m.thr), sr.WithSimilarityFunc(fn29(m.sim)), sr.WithCacheEmbeddings(cache))
	c.Check(err == nil, "new-failed", "NewRouter: %v", err)
	c.Op("threshold %v, %s, cache %v", m.thr, m.sim, cache)
	if r.Intn(4) == 0 { // a batch call that answers too little
		e.bad = func(n int, v [][]float32) [][]float32 {
			if len(v) > 1 {
				return v[:len(v)-1]
			}
			return v
		}
	}
	for s := 0; s < 30; s++ {
		switch r.Intn(6) {
		case 0, 1:
			m.change(rt, false)
		case 2:
			heal := m.fault(e)
			for i := 0; i < 1+r.Intn(3); i++ {
				m.route(rt, true)
			}
			heal()
			c.Count("outages", 1)
			m.route(rt, false)
		default:
			m.route(rt, false)
		}
		m.state("router", rt)
	}
	if m.thr < 0 {
		c.Seen("threshold", "negative")
	}
	m.reached(emb, rt)
	m.owned(emb)
	c.Seen("similarity", m.sim)
}

// owned: what a caller does to the vectors an embedder gave it changes no later answer.
func (m *model29) owned(emb sr.Embedder) {
	c := m.c
	if _, ok := emb.(*sr.CachedEmbedder); !ok {
		return
	}
	spoil := func(v []float32) {
		for i := range v {
			v[i] = -9
		}
	}
	for i := 0; i < 6; i++ {
		q := phrase29(c.R)
		for k := 0; k < 4; k++ {
			var v []float32
			var err error
			if c.R.Intn(2) == 0 {
				v, err = emb.Embed(bg, q)
			} else {
				var vs [][]float32
				vs, err = emb.EmbedBatch(bg, []string{"other " + q, q})
				c.Check(err == nil && len(vs) == 2, "batch-size", "EmbedBatch of 2 gave %d (%v)", len(vs), err)
				v = vs[1]
				spoil(vs[0])
			}
			c.Op("embedding %q (%d)", q, k)
			c.Check(err == nil && bitsEq(v, embedText(q, m.dim)), "cache-changed", "the embedding of %q is %v (%v), the embedder's %v", q, v, err, embedText(q, m.dim))
			spoil(v)
		}
		c.Count("owned_vectors", 4)
	}
}

// faultStore fails writes on demand before or after they took effect nowhere.
type faultStore struct {
	core.Store
	fail *bool
}

var errStore29 = errors.New("store write refused")

func (f faultStore) err() error {
	if *f.fail {
		return errStore29
	}
	return nil
}
func (f faultStore) Upsert(ctx context.Context, e *core.Embedding) error {
	if err := f.err(); err != nil {
		return err
	}
	return f.Store.Upsert(ctx, e)
}
func (f faultStore) UpsertBatch(ctx context.Context, e []*core.Embedding) error {
	if err := f.err(); err != nil {
		return err
	}
	return f.Store.UpsertBatch(ctx, e)
}
func (f faultStore) Delete(ctx context.Context, id string) error {
	if err := f.err(); err != nil {
		return err
	}
	return f.Store.Delete(ctx, id)
}
func (f faultStore) DeleteBatch(ctx context.Context, ids []string) error {
	if err := f.err(); err != nil {
		return err
	}
	return f.Store.DeleteBatch(ctx, ids)
}
func (f faultStore) DeleteByFilter(ctx context.Context, x *core.MetadataFilter) error {
	if err := f.err(); err != nil {
		return err
	}
	return f.Store.DeleteByFilter(ctx, x)
}
func (f faultStore) DeleteByDocID(ctx context.Context, id string) error {
	if err := f.err(); err != nil {
		return err
	}
	return f.Store.DeleteByDocID(ctx, id)
}

func c29store(c *Case) {
	r, ctx := c.R, context.Background()
	m := newModel29(c)
	e := rtEmb{&textEmb{dim: m.dim}}
	path := filepath.Join(c.Dir, "routes.db")
	ix := pick(r, []string{"flat", "hnsw", "ivf"})
	var st *core.SQLiteStore
	fail := false
	cache := r.Intn(3) > 0
	open := func() *sr.Router {
		cfg := mkConfig(path, ix, m.dim, pick(r, []string{"cosine", "dot", "euclid"}))
		var err error
		st, err = core.NewWithConfig(cfg)
		c.Check(err == nil, "open-failed", "New: %v", err)
		c.Check(st.Init(ctx) == nil, "open-failed", "Init failed")
		rt, err := sr.NewRouterWithStore(faultStore{st, &fail}, e, sr.WithThreshold(m.thr), sr.WithSimilarityFunc(fn29(m.sim)), sr.WithCacheEmbeddings(cache))
		c.Check(err == nil, "reload-failed", "NewRouterWithStore: %v", err)
		return rt
	}
	rt := open()
	defer func() { st.Close() }()
	// Records of others, with look-alike metadata
	other := map[string]string{}
	for i := 0; i < r.Intn(30); i++ {
		id := fmt.Sprintf("other-%d", i)
		c.Check(st.Upsert(ctx, &core.Embedding{ID: id, Vector: embedText(phrase29(r), m.dim), Content: "x", Metadata: map[string]string{"route_name": pick(r, []string{"a", "b", "x"})}}) == nil, "upsert-failed", "Upsert failed")
		other[id] = "x"
	}
	if c.Idx%10 == 3 { // many examples in one route
		rec := route29{name: "big"}
		for i := 0; i < 1100; i++ {
			rec.utt = append(rec.utt, fmt.Sprintf("%s n%d", phrase29(r), i))
		}
		err := rt.Add(&sr.Route{Name: "big", Utterances: append([]string(nil), rec.utt...)})
		c.Check(err == nil, "add-failed", "Add of a route with %d examples: %v", len(rec.utt), err)
		m.routes = append(m.routes, rec)
		c.Count("big_routes", 1)
	}
	for s := 0; s < 20; s++ {
		switch r.Intn(8) {
		case 0, 1, 2:
			m.change(rt, false)
		case 3:
			heal := m.fault(e)
			m.change(rt, true)
			heal()
			c.Count("outages", 1)
			m.state("after outage", rt)
		case 4:
			fail = true
			m.change(rt, true)
			fail = false
			c.Count("store_outages", 1)
			m.state("after store outage", rt)
			c.Nontrivial()
		case 5:
			c.Check(st.Close() == nil, "close-failed", "Close failed")
			rt = open()
			c.Op("reopened")
			c.Count("reloads", 1)
		case 6:
			two, err := sr.NewRouterWithStore(st, e, sr.WithThreshold(m.thr), sr.WithSimilarityFunc(fn29(m.sim)))
			c.Check(err == nil, "reload-failed", "NewRouterWithStore: %v", err)
			m.state("second router", two)
			for i := 0; i < 3; i++ {
				q := m.query()
				a, err1 := rt.Route(ctx, q)
				b, err2 := two.Route(ctx, q)
				c.Check(err1 == nil && err2 == nil, "route-failed", "Route(%q): %v, %v", q, err1, err2)
				c.Check(a.RouteName == b.RouteName && a.Score == b.Score && a.Matched == b.Matched, "reload-differs", "Route(%q) gives %+v before and %+v after a reload", q, a, b)
			}
		default:
			m.route(rt, false)
		}
		m.state("router", rt)
	}
	c.Check(st.Close() == nil, "close-failed", "Close failed")
	rt = open()
	m.state("reopened", rt)
	for i := 0; i < 4; i++ {
		m.route(rt, false)
	}
	for id := range other {
		g, err := st.GetByID(ctx, id)
		c.Check(err == nil && g != nil, "other-record-lost", "a record outside the routes' collection is gone: %s: %v", id, err)
	}
	c.Seen("store", fmt.Sprint(ix, cache))
}

// bm29 and tf29 follow the documented formulas.
type enc29 struct {
	kind  string
	k1, b float64
	docs  []string
}

func (e *enc29) terms(t string) map[string]float64 {
	out := map[string]float64{}
	for _, w := range strings.Fields(strings.ToLower(t)) {
		if w != "the" { // a stop word
			out[w]++
		}
	}
	return out
}

func (e *enc29) encode(t string) map[string]float64 {
	df, total := map[string]float64{}, 0.0
	for _, d := range e.docs {
		for w, n := range e.terms(d) {
			df[w]++
			total += n
		}
	}
	n := float64(len(e.docs))
	tf := e.terms(t)
	length := 0.0
	for _, x := range tf {
		length += x
	}
	out := map[string]float64{}
	for w, f := range tf {
		d, known := df[w]
		switch e.kind {
		case "bm25":
			idf := 1.0
			if known {
				idf = math.Log((n-d+0.5)/(d+0.5) + 1)
			}
			ratio := 1.0
			if total > 0 {
				ratio = length / (total / n)
			}
			out[w] = idf * f * (e.k1 + 1) / (f + e.k1*(1-e.b+e.b*ratio))
		default:
			if !known {
				continue
			}
			v := f
			if e.kind == "sublinear" {
				v = 1 + math.Log(f)
			}
			out[w] = v * math.Log(n/d)
		}
	}
	return out
}

func cos29(a, b map[string]float64) float64 {
	var dot, na, nb float64
	for _, k := range sortedKeys(a) {
		dot += a[k] * b[k]
		na += a[k] * a[k]
	}
	for _, k := range sortedKeys(b) {
		nb += b[k] * b[k]
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return dot / math.Sqrt(na) / math.Sqrt(nb)
}

func (e *enc29) make(c *Case) sr.SparseEncoder {
	r := c.R
	e.kind = pick(r, []string{"bm25", "bm25", "tfidf", "sublinear"})
	e.k1, e.b = 1.2, 0.75
	fits := 1 + r.Intn(3) // the last corpus counts
	if e.kind == "bm25" {
		var x *sr.BM25Encoder
		if r.Intn(2) == 0 {
			x = sr.NewBM25Encoder()
		} else {
			e.k1, e.b = pick(r, []float64{0.5, 2}), pick(r, []float64{0, 0.4, 1})
			x = sr.NewBM25EncoderWithParams(e.k1, e.b)
		}
		for i := 0; i < fits; i++ {
			e.docs = corpus29(r)
			c.Check(x.Fit(context.Background(), e.docs) == nil, "fit-failed", "Fit failed")
		}
		return x
	}
	x := sr.NewTFIDFEncoder()
	if e.kind == "sublinear" {
		x = sr.NewTFIDFEncoderWithSublinearTF()
	}
	for i := 0; i < fits; i++ {
		e.docs = corpus29(r)
		c.Check(x.Fit(context.Background(), e.docs) == nil, "fit-failed", "Fit failed")
	}
	return x
}

func corpus29(r *rand.Rand) (out []string) {
	for i := r.Intn(12); i > 0; i-- {
		out = append(out, phrase29(r))
	}
	return
}

func (e *enc29) judge(c *Case, what, text string, got map[string]float64) {
	want := e.encode(text)
	for k, v := range got {
		c.Check(math.Abs(v-want[k]) <= 1e-9*math.Max(1, math.Abs(v)), "wrong-weight:"+e.kind, "%s(%q) weighs %q %v, the formula gives %v (corpus %q)", what, text, k, v, want[k], e.docs)
	}
	for k, v := range want {
		_, ok := got[k]
		c.Check(ok || v == 0, "missing-term:"+e.kind, "%s(%q) lacks %q, which weighs %v", what, text, k, v)
	}
}

func c29sparse(c *Case) {
	r, ctx := c.R, context.Background()
	e := &enc29{}
	x := e.make(c)
	vocab := map[string]bool{}
	for _, d := range e.docs {
		for w := range e.terms(d) {
			vocab[w] = true
		}
	}
	v := append([]string{}, x.Vocabulary()...)
	sort.Strings(v)
	c.Check(reflect.DeepEqual(v, append([]string{}, sortedKeys(vocab)...)) && x.Dimensions() == len(vocab), "wrong-vocabulary:"+e.kind, "Vocabulary = %q, the corpus has %q", v, sortedKeys(vocab))
	texts := []string{""}
	for i := 0; i < 12; i++ {
		texts = append(texts, phrase29(r))
	}
	batch := x.EncodeSparseBatch(texts)
	c.Check(len(batch) == len(texts), "batch-length", "EncodeSparseBatch of %d gave %d", len(texts), len(batch))
	for i, t := range texts {
		e.judge(c, "EncodeSparse", t, x.EncodeSparse(t))
		e.judge(c, "EncodeSparseBatch", t, batch[i])
		o := batch[r.Intn(len(batch))]
		s := sr.SparseSimilarity(batch[i], o)
		c.Check(math.Abs(s-cos29(batch[i], o)) <= 1e-9, "wrong-sparse-similarity", "SparseSimilarity(%v, %v) = %v, cosine is %v", batch[i], o, s, cos29(batch[i], o))
		for n := 0; n < 4; n++ {
			c.Check(sr.SparseSimilarity(batch[i], o) == s, "not-repeatable:SparseSimilarity", "SparseSimilarity gave %v, then something else", s)
		}
		k := r.Intn(5)
		top := sr.TopTerms(batch[i], k)
		n := len(batch[i])
		if k > 0 && k < n {
			n = k
		}
		c.Check(len(top) == n, "topterms-count", "TopTerms(%v, %d) gave %d terms", batch[i], k, len(top))
		for j, ts := range top {
			c.Check(batch[i][ts.Term] == ts.Score && (j == 0 || top[j-1].Score >= ts.Score), "topterms-wrong", "TopTerms(%v, %d) = %v", batch[i], k, top)
		}
		for _, ts := range top[:min(1, len(top))] {
			for _, w := range batch[i] {
				c.Check(w <= ts.Score, "topterms-wrong", "TopTerms(%v, %d) = %v misses weight %v", batch[i], k, top, w)
			}
		}
		c.Check(reflect.DeepEqual(top, sr.TopTerms(batch[i], k)), "not-repeatable:TopTerms", "TopTerms gave two orders")
	}
	thr := pick(r, []float64{0.3, 0.6, 0.95, 0.1})
	rt, err := sr.NewSparseRouter(x, sr.WithSparseThreshold(thr))
	c.Check(err == nil, "new-failed", "NewSparseRouter: %v", err)
	m := &sparse29{c: c, e: e, thr: thr}
	for s := 0; s < 15; s++ {
		if r.Intn(3) == 0 {
			m.add(func(x *sr.SparseRoute) error { return rt.Add(x) })
			c.Check(reflect.DeepEqual(append([]string{}, rt.List()...), m.names()), "wrong-list:sparse", "List = %q, live are %q", rt.List(), m.names())
			continue
		}
		q := phrase29(r)
		res, err := rt.Route(ctx, q)
		c.Check(err == nil, "route-failed:sparse", "Route(%q): %v", q, err)
		m.judge("SparseRouter.Route", q, res)
		again, _ := rt.Route(ctx, q)
		c.Check(again.RouteName == res.RouteName && again.Score == res.Score, "not-repeatable:sparse", "Route(%q) gave %+v, then %+v", q, res, again)
	}
	if len(m.routes) > 0 {
		q := pick(r, pick(r, m.routes).utt)
		res, err := rt.Route(ctx, q)
		c.Check(err == nil, "route-failed:sparse", "Route(%q): %v", q, err)
		if res.Score > 0 {
			two, _ := sr.NewSparseRouter(x, sr.WithSparseThreshold(res.Score))
			for _, y := range m.routes {
				c.Check(two.Add(&sr.SparseRoute{Name: y.name, Utterances: append([]string{}, y.utt...)}) == nil, "sparse-add", "Add failed")
			}
			got, err := two.Route(ctx, q)
			c.Check(err == nil && got.Score == res.Score && got.Matched, "wrong-match:exact", "Route(%q) with its score %v as the threshold gives %+v, %v", q, res.Score, got, err)
			c.Count("exact_thresholds", 1)
		}
	}
	// the combined embedder
	alpha := pick(r, []float64{0, 0.25, 0.5, 1})
	em := rtEmb{&textEmb{dim: 5}}
	hy := sr.NewHybridEmbedder(em, x)
	c.Check(hy.GetAlpha() == 0.5 && sr.NewHybridEmbedderWithAlpha(em, x, alpha).GetAlpha() == alpha && hy.Dimensions() == 5, "wrong-alpha", "a new hybrid embedder has alpha %v, dimension %d", hy.GetAlpha(), hy.Dimensions())
	hy.SetAlpha(alpha)
	for i := 0; i < 6; i++ {
		a, b := phrase29(r), phrase29(r)
		va, e1 := hy.Embed(ctx, a)
		vs, e2 := hy.EmbedBatch(ctx, []string{b, a})
		c.Check(e1 == nil && e2 == nil && len(vs) == 2 && bitsEq(va, vs[1]) && bitsEq(va, embedText(a, 5)), "hybrid-embedder", "Embed(%q): %v, %v", a, e1, e2)
		e.judge(c, "HybridEmbedder.EncodeSparse", a, hy.EncodeSparse(a))
		sb := hy.EncodeSparseBatch([]string{a, b})
		e.judge(c, "HybridEmbedder.EncodeSparseBatch", b, sb[1])
		want := alpha*sim29("cosine", va, vs[0]) + (1-alpha)*cos29(sb[0], sb[1])
		got := hy.HybridSimilarity(va, sb[0], vs[0], sb[1], core.CosineSimilarity)
		c.Check(math.Abs(got-want) <= 1e-5, "wrong-combination:embedder", "HybridSimilarity(%q, %q) = %v with alpha %v, want %v", a, b, got, alpha, want)
		got = hy.HybridSimilarity(nil, sb[0], nil, sb[1], core.CosineSimilarity)
		c.Check(math.Abs(got-(1-alpha)*cos29(sb[0], sb[1])) <= 1e-9, "wrong-combination:embedder", "HybridSimilarity without vectors = %v", got)
	}
	c.Seen("encoder", fmt.Sprintf("%s/%d docs", e.kind, len(e.docs)))
}

type sparse29 struct {
	c      *Case
	e      *enc29
	thr    float64
	routes []route29
}

func (m *sparse29) names() []string {
	out := []string{}
	for _, x := range m.routes {
		out = append(out, x.name)
	}
	return out
}

func (m *sparse29) add(f func(*sr.SparseRoute) error) {
	c, r := m.c, m.c.R
	rec := route29{name: pick(r, []string{"a", "b", "c", "s1", "s2"})}
	for i := r.Intn(3); i >= 0; i-- {
		rec.utt = append(rec.utt, phrase29(r))
	}
	dup := contains(m.names(), rec.name)
	err := f(&sr.SparseRoute{Name: rec.name, Utterances: append([]string{}, rec.utt...)})
	c.Check((err != nil) == dup, "sparse-add", "Add(%q) over %q: %v", rec.name, m.names(), err)
	if err == nil {
		m.routes = append(m.routes, rec)
	}
}

func (m *sparse29) best(q string) (float64, map[string]bool) {
	score := 0.0
	per := map[string]float64{}
	qv := m.e.encode(q)
	for _, x := range m.routes {
		for _, u := range x.utt {
			s := cos29(qv, m.e.encode(u))
			per[x.name] = math.Max(per[x.name], s)
			score = math.Max(score, s)
		}
	}
	close := map[string]bool{}
	for n, s := range per {
		if s >= score-1e-9 {
			close[n] = true
		}
	}
	return score, close
}

func (m *sparse29) judge(what, q string, res *sr.RouteResult) {
	c := m.c
	score, close := m.best(q)
	c.Check(math.Abs(res.Score-score) <= 1e-9, "wrong-score:sparse", "%s(%q) scored %v, best is %v", what, q, res.Score, score)
	if res.RouteName != "" {
		c.Check(close[res.RouteName], "wrong-route:sparse", "%s(%q) chose %q, best are %v", what, q, res.RouteName, sortedKeys(close))
	}
	if math.Abs(score-m.thr) > 1e-8 {
		c.Check(res.Matched == (score >= m.thr && len(close) > 0), "wrong-match:sparse", "%s(%q) says matched=%v for score %v, threshold %v", what, q, res.Matched, score, m.thr)
		c.Check(!res.Matched || res.RouteName != "", "match-without-route:sparse", "%s(%q) matched no route", what, q)
	}
	if res.Matched {
		c.Nontrivial()
		c.Count("sparse_matched", 1)
	}
}

func c29hybrid(c *Case) {
	r, ctx := c.R, context.Background()
	e := &enc29{}
	enc := e.make(c)
	d := &model29{c: c, sim: pick(r, []string{"cosine", "dot"}), dim: 4 + r.Intn(8), thr: pick(r, []float64{0.82, 0.5, 0.97})}
	s := &sparse29{c: c, e: e, thr: pick(r, []float64{0.3, 0.7})}
	alpha, thr := pick(r, []float64{0, 0.3, 0.5, 0.7, 1}), pick(r, []float64{0.6, 0.3, 0.9})
	em := rtEmb{&textEmb{dim: d.dim}}
	h, err := sr.NewHybridRouter(em, enc, sr.WithHybridAlpha(alpha), sr.WithHybridThreshold(thr), sr.WithDenseThreshold(d.thr), sr.WithHybridSparseThreshold(s.thr), sr.WithHybridSimilarityFunc(fn29(d.sim)))
	c.Check(err == nil, "new-failed", "NewHybridRouter: %v", err)
	for step := 0; step < 25; step++ {
		switch r.Intn(6) {
		case 0:
			// Both halves or none
			x, rec := d.newRoute()
			srec := route29{name: pick(r, []string{rec.name, "s1", "s2", "s3"}), utt: []string{phrase29(r)}}
			dup := d.has(rec.name) >= 0 || contains(s.names(), srec.name)
			err := h.Add(x, &sr.SparseRoute{Name: srec.name, Utterances: append([]string{}, srec.utt...)})
			c.Op("Add(%q, %q): %v", rec.name, srec.name, err)
			c.Check((err != nil) == dup, "hybrid-add", "Add(%q, %q) over %q and %q: %v", rec.name, srec.name, d.names(), s.names(), err)
			if err == nil {
				d.routes, s.routes = append(d.routes, rec), append(s.routes, srec)
			}
		case 1:
			var xs []*sr.Route
			var ys []*sr.SparseRoute
			var recs, srecs []route29
			dup := false
			for i := r.Intn(3); i > 0; i-- {
				x, rec := d.newRoute()
				dup = dup || d.has(rec.name) >= 0
				for _, o := range recs {
					dup = dup || o.name == rec.name
				}
				xs, recs = append(xs, x), append(recs, rec)
			}
			for i := r.Intn(3); i > 0; i-- {
				rec := route29{name: pick(r, []string{"a", "s1", "s2", "s3", "s4"}), utt: []string{phrase29(r)}}
				dup = dup || contains(s.names(), rec.name)
				for _, o := range srecs {
					dup = dup || o.name == rec.name
				}
				ys, srecs = append(ys, &sr.SparseRoute{Name: rec.name, Utterances: append([]string{}, rec.utt...)}), append(srecs, rec)
			}
			err := h.AddBatch(xs, ys)
			c.Op("AddBatch(%v, %v): %v", recs, srecs, err)
			c.Check((err != nil) == dup, "hybrid-addbatch", "AddBatch(%v, %v) over %q and %q: %v", recs, srecs, d.names(), s.names(), err)
			if err == nil {
				d.routes, s.routes = append(d.routes, recs...), append(s.routes, srecs...)
			} else {
				c.Count("refused_batches", 1)
			}
		case 2:
			alpha = pick(r, []float64{0, 0.25, 0.5, 0.75, 1})
			h.SetAlpha(alpha)
			c.Check(h.GetAlpha() == alpha, "wrong-alpha", "GetAlpha = %v after SetAlpha(%v)", h.GetAlpha(), alpha)
		default:
			q := d.query()
			if q == "" || strings.HasPrefix(q, "unheard") {
				q = phrase29(r)
			}
			if r.Intn(6) == 0 {
				heal := d.fault(em)
				_, err := h.Route(ctx, q)
				c.Check(err == nil || errors.Is(err, errEmbed), "failure-hidden:hybrid", "Route failed with %v for an embedder failure", err)
				heal()
			}
			res, err := h.RouteBatch(ctx, []string{q})
			c.Check(err == nil && len(res) == 1, "route-failed:hybrid", "RouteBatch(%q): %v", q, err)
			h29judge(c, d, s, alpha, thr, q, res[0])
			one, err := h.Route(ctx, q)
			c.Check(err == nil, "route-failed:hybrid", "Route(%q): %v", q, err)
			h29judge(c, d, s, alpha, thr, q, one)
			c.Check(one.RouteName == res[0].RouteName && one.Score == res[0].Score && one.Matched == res[0].Matched, "batch-differs:hybrid", "RouteBatch gave %+v for %q, Route %+v", res[0], q, one)
		}
		want := map[string]bool{}
		for _, n := range append(d.names(), s.names()...) {
			want[n] = true
		}
		got := append([]string{}, h.List()...)
		sort.Strings(got)
		c.Check(reflect.DeepEqual(got, append([]string{}, sortedKeys(want)...)), "wrong-list:hybrid", "List = %q, live are %q and %q", got, d.names(), s.names())
	}
}

func h29judge(c *Case, d *model29, s *sparse29, alpha, thr float64, q string, res *sr.HybridRouteResult) {
	ds, dclose, any := d.best(q)
	if !any {
		ds = 0
	}
	ss, sclose := s.best(q)
	comb := alpha*ds + (1-alpha)*ss
	c.Check(math.Abs(res.DenseScore-ds) <= 1e-5 && math.Abs(res.SparseScore-ss) <= 1e-9, "wrong-score:hybrid", "Route(%q) has dense %v and keyword %v, best are %v and %v", q, res.DenseScore, res.SparseScore, ds, ss)
	c.Check(math.Abs(res.CombinedScore-comb) <= 1e-5 && res.Score == res.CombinedScore, "wrong-combination", "Route(%q) combined %v (score %v), %v*%v+(1-%v)*%v is %v", q, res.CombinedScore, res.Score, alpha, ds, alpha, ss, comb)
	if math.Abs(comb-thr) > 2e-5 {
		c.Check(res.Matched == (comb >= thr), "wrong-match:hybrid", "Route(%q) says matched=%v for %v with threshold %v", q, res.Matched, comb, thr)
	}
	if math.Abs(ds-d.thr) < 2e-5 || math.Abs(ss-s.thr) < 1e-8 || math.Abs(comb-thr) < 2e-5 || math.Abs(ds-ss) < 2e-5 {
		return
	}
	switch {
	case any && ds >= d.thr:
		c.Check(dclose[res.RouteName], "wrong-route:hybrid", "Route(%q) chose %q, the dense match is %v", q, res.RouteName, sortedKeys(dclose))
		c.Count("hybrid_dense", 1)
	case ss >= s.thr:
		c.Check(sclose[res.RouteName], "wrong-route:hybrid", "Route(%q) chose %q, the keyword match is %v", q, res.RouteName, sortedKeys(sclose))
		c.Count("hybrid_keyword", 1)
	case comb >= thr && ds > ss:
		c.Check(dclose[res.RouteName], "wrong-route:hybrid", "Route(%q) chose %q, the higher score is dense %v", q, res.RouteName, sortedKeys(dclose))
		c.Count("hybrid_combined", 1)
	case comb >= thr:
		c.Check(sclose[res.RouteName], "wrong-route:hybrid", "Route(%q) chose %q, the higher score is keyword %v", q, res.RouteName, sortedKeys(sclose))
		c.Count("hybrid_combined", 1)
	}
	if res.Matched && len(d.routes)+len(s.routes) > 2 {
		c.Nontrivial()
	}
}

type ext29 struct{ out map[string]any }

func (x ext29) Extract(context.Context, string, *sr.FunctionSchema) (map[string]any, []string, error) {
	return x.out, nil, nil
}

func c29func(c *Case) {
	r, ctx := c.R, context.Background()
	e := rtEmb{&textEmb{dim: 16}}
	base, err := sr.NewRouter(e, sr.WithThreshold(0.9))
	c.Check(err == nil, "new-failed", "NewRouter: %v", err)
	fr := sr.NewFunctionRouter(base)
	fns := map[string]*fn29s{}
	for i := 0; i < 1+r.Intn(4); i++ {
		f := &fn29s{utt: fmt.Sprintf("command%d %s", i, phrase29(r))}
		name := fmt.Sprintf("fn%d", i)
		b := sr.NewSchemaBuilder(name, pick(r, hostile))
		for j := 0; j < r.Intn(4); j++ {
			p := fmt.Sprintf("param%d", j)
			desc := pick(r, []string{"", "amount (in USD)", "a[b", "**", "value? +1", pick(r, hostile)})
			ty := pick(r, []string{"string", "integer", "number", "boolean", "array", "object", ""})
			switch r.Intn(4) {
			case 0:
				b.AddParameterWithDefault(p, ty, desc, r.Intn(2) == 0, "dflt")
			case 1:
				b.AddParameterWithEnum(p, desc, r.Intn(2) == 0, []any{"red", "Blue", 7})
			default:
				b.AddParameter(p, ty, desc, r.Intn(2) == 0)
			}
		}
		b.SetHandler(func(ctx context.Context, params map[string]any) (any, error) { f.called++; return len(params), nil })
		f.schema = b.Build()
		req := []string{}
		for p, ps := range f.schema.Parameters {
			if ps.Required {
				req = append(req, p)
			}
		}
		sort.Strings(req)
		built := append([]string{}, b.Build().Required...)
		sort.Strings(built)
		c.Check(reflect.DeepEqual(req, built), "wrong-required", "Build lists %q as required, set were %q", built, req)
		// Through JSON and back
		js, err := f.schema.ToJSON()
		c.Check(err == nil, "tojson-failed", "ToJSON: %v", err)
		back, err := sr.ParseFunctionSchema(js)
		c.Check(err == nil, "parse-failed", "ParseFunctionSchema of ToJSON's output: %v", err)
		j1, _ := json.Marshal(f.schema)
		j2, _ := json.Marshal(back)
		c.Check(string(j1) == string(j2), "schema-changed", "schema %s came back as %s", j1, j2)
		if r.Intn(3) == 0 { // required by list only, as parsed schemas may be
			for _, ps := range back.Parameters {
				ps.Required = false
			}
			back.Handler = f.schema.Handler
			f.schema = back
		}
		if r.Intn(5) == 0 {
			f.own = true
			f.schema.Extractor = ext29{map[string]any{"own": true}}
		}
		route := name
		if r.Intn(2) == 0 {
			route = "route " + name
		}
		rt := sr.CreateRouteWithFunction(route, []string{f.utt}, f.schema)
		c.Check(base.Add(rt.Route) == nil && fr.Add(rt) == nil, "add-failed:func", "Add failed")
		fns[name] = f
	}
	c.Check(fr.Add(nil) != nil && fr.Add(&sr.RouteWithFunction{Route: &sr.Route{Name: "x"}}) != nil, "bad-function-added", "Add accepted a function route without schema")
	for step := 0; step < 12; step++ {
		name := pick(r, sortedKeys(fns))
		f := fns[name]
		call, err := fr.Route(ctx, f.utt)
		c.Check(err == nil && call != nil, "function-not-found", "Route(%q) = %v, %v; it is an example of %s", f.utt, call, err, name)
		c.Check(call.Name == name, "wrong-function", "Route(%q) called %q, it is an example of %q", f.utt, call.Name, name)
		f.check(c, call)
		// Parameter values named in the text
		text := f.utt
		want := map[string]string{}
		for _, p := range sortedKeys(f.schema.Parameters) {
			if r.Intn(2) == 0 {
				v := pick(r, []string{"17", "-4", "yes", "red"})
				text += " " + p + " " + v
				want[p] = v
			}
		}
		params, missing, err := sr.NewRegexExtractor().Extract(ctx, text, f.schema)
		c.Check(err == nil, "extract-failed", "Extract: %v", err)
		for p, v := range want {
			got, ok := params[p]
			c.Check(ok && !contains(missing, p), "parameter-lost", "Extract(%q) = %v (missing %q) without %q", text, params, missing, p)
			switch f.schema.Parameters[p].Type {
			case "string":
				c.Check(got == v, "wrong-parameter", "Extract(%q)[%q] = %v", text, p, got)
				c.Count("parameters", 1)
			case "integer":
				if v == "17" || v == "-4" {
					c.Check(fmt.Sprint(got) == v, "wrong-parameter", "Extract(%q)[%q] = %v", text, p, got)
					c.Count("parameters", 1)
				}
			case "number":
				if v == "17" || v == "-4" {
					c.Check(got == map[string]float64{"17": 17, "-4": -4}[v], "wrong-parameter", "Extract(%q)[%q] = %v", text, p, got)
				}
			case "boolean":
				c.Check(got == (v == "yes"), "wrong-parameter", "Extract(%q)[%q] = %v", text, p, got)
			}
		}
		// defaults stand in for what the text does not give
		params, missing, err = sr.NewRegexExtractor().Extract(ctx, "§", f.schema)
		c.Check(err == nil, "extract-failed", "Extract: %v", err)
		for p, ps := range f.schema.Parameters {
			if ps.Default != nil {
				c.Check(fmt.Sprint(params[p]) == fmt.Sprint(ps.Default) && !contains(missing, p), "default-ignored", "Extract gave %v, missing %q; %q has the default %v", params, missing, p, ps.Default)
				c.Count("defaults", 1)
			}
		}
		// patterns of the caller
		if len(f.schema.Parameters) > 0 {
			p := pick(r, sortedKeys(f.schema.Parameters))
			ex := sr.NewRegexExtractor()
			ex.RegisterPattern(f.schema.Name, p, `#(\d+)`)
			ex.RegisterPattern("another", p, `#(\d)`)
			params, missing, err = ex.Extract(ctx, "take #4217 now", f.schema)
			c.Check(err == nil && !contains(missing, p), "pattern-ignored", "Extract with a pattern for %q: missing %q, %v", p, missing, err)
			switch got := params[p]; f.schema.Parameters[p].Type {
			case "integer":
				c.Check(fmt.Sprint(got) == "4217" && fmt.Sprintf("%T", got) != "string", "wrong-parameter", "Extract by pattern gave %v (%T)", got, got)
			case "number":
				c.Check(got == 4217.0, "wrong-parameter", "Extract by pattern gave %v (%T)", got, got)
			case "string", "":
				c.Check(got == "4217", "wrong-parameter", "Extract by pattern gave %v (%T)", got, got)
			}
			c.Count("patterns", 1)
		}
		f2 := pick(r, hostile) + " param0 " + pick(r, hostile)
		params, missing, err = sr.NewRegexExtractor().Extract(ctx, f2, f.schema)
		c.Check(err == nil, "extract-failed", "Extract: %v", err)
		for p, ps := range f.schema.Parameters {
			_, ok := params[p]
			req := ps.Required || contains(f.schema.Required, p)
			c.Check(contains(missing, p) == (req && !ok), "wrong-missing", "Extract(%q) = %v, missing %q; %q is required=%v", f2, params, missing, p, req)
		}
		none, err := fr.Route(ctx, "entirely unrelated words zebra quartz")
		c.Check(err == nil && none == nil, "unmatched-call", "Route of an unrelated text = %v, %v", none, err)
		c.Nontrivial()
	}
}

type fn29s struct {
	schema *sr.FunctionSchema
	utt    string
	called int
	own    bool
}

func (f *fn29s) check(c *Case, call *sr.FunctionCall) {
	if f.own {
		c.Check(reflect.DeepEqual(call.Arguments, map[string]any{"own": true}) && call.Complete, "extractor-ignored", "the schema's own extractor was not used: %v", call.Arguments)
	} else {
		for p, ps := range f.schema.Parameters {
			_, ok := call.Arguments[p]
			req := ps.Required || contains(f.schema.Required, p)
			c.Check(contains(call.Missing, p) == (req && !ok), "wrong-missing", "call has %v, missing %q; %q is required=%v", call.Arguments, call.Missing, p, req)
		}
		c.Check(call.Complete == (len(call.Missing) == 0), "wrong-complete", "complete=%v with missing %q", call.Complete, call.Missing)
	}
	n := f.called
	out, err := call.Execute(context.Background())
	if call.Complete {
		c.Check(err == nil && f.called == n+1 && out == len(call.Arguments), "not-executed", "Execute of a complete call: %v, %v (handler called %d times)", out, err, f.called-n)
		c.Count("executed", 1)
	} else {
		c.Check(err != nil && f.called == n, "executed-incomplete", "Execute ran a call that lacks %q", call.Missing)
		c.Count("incomplete", 1)
	}
}

func c29shared(c *Case) {
	r, ctx := c.R, context.Background()
	e := rtEmb{&textEmb{dim: 8}}
	var emb sr.Embedder = e
	if r.Intn(2) == 0 {
		emb = sr.NewCachedEmbedder(e)
	}
	enc := sr.NewBM25Encoder()
	c.Check(enc.Fit(ctx, []string{"refund order", "hello weather", "music alarm light"}) == nil, "fit-failed", "Fit failed")
	h, err := sr.NewHybridRouter(emb, enc)
	c.Check(err == nil, "new-failed", "NewHybridRouter: %v", err)
	rt, err := sr.NewRouter(emb, sr.WithThreshold(0.9))
	c.Check(err == nil, "new-failed", "NewRouter: %v", err)
	// Permanent routes; each actor adds and removes one of its own.
	perm := &model29{c: c, sim: "cosine", dim: 8, thr: 0.9}
	for i := 0; i < 4; i++ {
		rec := route29{name: fmt.Sprintf("perm%d", i), utt: []string{phrase29(r) + fmt.Sprintf(" perm%d", i), phrase29(r)}}
		perm.routes = append(perm.routes, rec)
		c.Check(rt.Add(&sr.Route{Name: rec.name, Utterances: rec.utt}) == nil, "add-failed", "Add failed")
		c.Check(h.Add(&sr.Route{Name: rec.name, Utterances: rec.utt}, &sr.SparseRoute{Name: rec.name, Utterances: rec.utt}) == nil, "add-failed", "Add failed")
	}
	fork(c, 6, func(a int, r *rand.Rand) {
		own := fmt.Sprintf("own%d", a)
		utt := fmt.Sprintf("flicker%d unique%d", a, a)
		live := false
		for s := 0; s < 40; s++ {
			switch r.Intn(6) {
			case 0:
				if !live {
					err := rt.Add(&sr.Route{Name: own, Utterances: []string{utt}})
					c.Check(err == nil, "add-failed:shared", "Add of the actor's own route: %v", err)
				} else {
					err := rt.Remove(own)
					c.Check(err == nil, "remove-failed:shared", "Remove of the actor's own route: %v", err)
				}
				live = !live
			case 1:
				res, err := rt.Route(ctx, utt)
				c.Check(err == nil, "route-failed:shared", "Route: %v", err)
				c.Check((res.RouteName == own) == live, "own-route:shared", "the actor's own route is live=%v, its example routed to %q", live, res.RouteName)
			case 2:
				x := pick(r, perm.routes)
				res, err := rt.Route(ctx, x.utt[0])
				c.Check(err == nil && res.Matched && res.RouteName == x.name, "permanent-route:shared", "an example of %q routed to %+v, %v", x.name, res, err)
			case 3:
				h.SetAlpha(float64(a) / 10)
				g := h.GetAlpha()
				c.Check(g >= 0 && g <= 0.7, "wrong-alpha", "GetAlpha = %v", g)
			case 4:
				res, err := h.Route(ctx, pick(r, perm.routes).utt[0])
				c.Check(err == nil && res.DenseScore > 0.999, "route-failed:shared-hybrid", "Route: %+v, %v", res, err)
				lo, hi := min(res.DenseScore, res.SparseScore), max(res.DenseScore, res.SparseScore)
				c.Check(res.CombinedScore >= lo-1e-9 && res.CombinedScore <= hi+1e-9, "wrong-combination:shared", "combined %v of %v and %v", res.CombinedScore, res.DenseScore, res.SparseScore)
			default:
				switch r.Intn(4) {
				case 0:
					rt.List()
					h.List()
				case 1:
					rt.Stats()
					h.Stats()
				case 2:
					err := enc.Fit(ctx, []string{"refund order", "hello weather", "music alarm light"})
					c.Check(err == nil, "fit-failed", "Fit: %v", err)
				default:
					enc.Vocabulary()
					if ce, ok := emb.(*sr.CachedEmbedder); ok {
						_, err := ce.EmbedBatch(ctx, []string{phrase29(r), phrase29(r)})
						c.Check(err == nil, "embed-failed", "EmbedBatch: %v", err)
						ce.CacheSize()
					}
				}
			}
			jitter(r)
		}
		if live {
			c.Check(rt.Remove(own) == nil, "remove-failed:shared", "Remove of the actor's own route failed")
		}
	})
	got := append([]string{}, rt.List()...)
	c.Check(reflect.DeepEqual(got, perm.names()), "wrong-list:shared", "after all actors List = %q, permanent are %q", got, perm.names())
	c.Nontrivial()
}
