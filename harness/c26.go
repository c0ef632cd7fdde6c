package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func init() {
	register(&Prop{ID: "C26", Level: "exploration",
		Rule: "a case is one history of memory saves, overwrites, moves, updates, deletes, gets and searches over buckets with look-alike names, with an embedder that fails on schedule, ordinary chat messages beside them and reopened databases (part history), one bucket of hundreds of memories of which many have expired (part expiry), or concurrent actors in the same buckets under the race detector (part shared); every answer is compared with a reference model and every hit with the bucket it was saved under; non-trivial when a search had matching memories in other buckets or expired ones to leave out",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 2500), 0, c26history)
			r.Parallel("expiry", r.N(16, 200), 16, c26expiry)
			r.Parallel("shared", r.N(10, 150), 0, c26shared)
		}})
}

type mem26 struct {
	scope, owner, ns string // the bucket
	user             string
	role, content    string
	meta             map[string]any
	imp              float64
	ttl              int
	t0, t1           time.Time // around the last write
	ttl0             time.Time // the first write that set this ttl
	vec              bool
}

func (m *mem26) bucket() string { return fmt.Sprintf("%q/%q/%q", m.scope, m.owner, m.ns) }
func (m *mem26) gone(now time.Time) bool {
	return m.ttl > 0 && m.ttl < 1e9 && now.After(m.t1.Add(time.Duration(m.ttl)*time.Second))
}
func (m *mem26) alive(now time.Time) bool {
	return m.ttl <= 0 || m.ttl >= 1e9 || now.Before(m.ttl0.Add(time.Duration(m.ttl)*time.Second))
}

type memw26 struct {
	c    *Case
	r    *rand.Rand
	db   *cortexdb.DB
	e    *textEmb
	ix   core.IndexType
	m    map[string]*mem26
	sess map[string]string // bucket -> session id seen
	chat map[string]string
}

var users26 = []string{"a", "a:b", "a:b:c", "a%3Ab", "A", "ü", "u'x", "%", "a ", "user"}
var spaces26 = []string{"", "default", "c", "b:c", "b%3Ac", "b", ":", "%", "c:", "C", "'"}
var words26 = []string{"kiwi", "plum", "lemon", "mango", "grape", "olive", "peach", "melon", "berry", "apple"}

func (w *memw26) open() {
	cfg := cortexdb.Config{Path: dbPath(w.c), Dimensions: 6, SimilarityFn: core.CosineSimilarity, IndexType: w.ix}
	var opts []cortexdb.Option
	if w.e != nil {
		opts = append(opts, cortexdb.WithEmbedder(w.e))
	}
	db, err := cortexdb.Open(cfg, opts...)
	w.c.Check(err == nil, "open-failed", "Open: %v", err)
	w.db = db
}

func (w *memw26) text() string {
	n := 1 + w.r.Intn(6)
	var t []string
	for i := 0; i < n; i++ {
		t = append(t, pick(w.r, words26))
	}
	return strings.Join(t, " ")
}

// where draws a bucket: the request fields and the bucket they mean.
func (w *memw26) where() (scope, user, session, ns, rscope, owner, rns string) {
	r := w.r
	user, session, ns = "", "", pick(r, spaces26)
	rns = strings.TrimSpace(ns)
	if rns == "" {
		rns = "default"
	}
	switch r.Intn(3) {
	case 0:
		user = pick(r, users26)
		scope, rscope, owner = pick(r, []string{"", "user", "USER"}), "user", user
	case 1:
		session = pick(r, users26)
		if r.Intn(2) == 0 {
			user = pick(r, users26)
		}
		scope, rscope, owner = pick(r, []string{"", "session"}), "session", session
	default:
		scope, rscope, owner = pick(r, []string{"", "global"}), "global", ""
	}
	return
}

func (w *memw26) meta() map[string]any {
	r := w.r
	out := map[string]any{}
	for i := r.Intn(4); i > 0; i-- {
		out[pick(r, []string{"k", "tag", "ключ", "a.b", "q'"})] = pick(r, []any{"v", "", true, 2.5, "it's", "ü"})
	}
	if len(out) == 0 && r.Intn(2) == 0 {
		return nil
	}
	return out
}

func (w *memw26) same(what, id string, g cortexdb.MemoryRecord) {
	c, m := w.c, w.m[id]
	c.Check(g.ID == id && g.Content == m.content && g.Role == m.role, "wrong-memory:"+what, "%s(%q) = %q (%s), saved %q (%s)", what, id, g.Content, g.Role, m.content, m.role)
	c.Check(g.Scope == m.scope && g.Namespace == m.ns, "wrong-bucket:"+what, "%s(%q) says %s/%s, saved under %s", what, id, g.Scope, g.Namespace, m.bucket())
	c.Check(g.Importance == m.imp && g.TTLSeconds == m.ttl, "wrong-attributes:"+what, "%s(%q) has importance %v, ttl %d; saved %v, %d", what, id, g.Importance, g.TTLSeconds, m.imp, m.ttl)
	if m.scope == "user" {
		c.Check(g.UserID == m.owner, "wrong-user:"+what, "%s(%q) belongs to user %q, saved by %q", what, id, g.UserID, m.owner)
	}
	c.Check((g.ExpiresAt != nil) == (m.ttl > 0), "wrong-expiry:"+what, "%s(%q) expires %v with ttl %d", what, id, g.ExpiresAt, m.ttl)
	got := map[string]any{}
	for k, v := range g.Metadata {
		switch k {
		case "kind", "scope", "namespace", "importance", "ttl_seconds", "expires_at":
		default:
			got[k] = v
		}
	}
	want := m.meta
	if want == nil {
		want = map[string]any{}
	}
	c.Check(reflect.DeepEqual(got, want), "wrong-metadata:"+what, "%s(%q) has metadata %v, saved %v", what, id, got, want)
	b := m.bucket()
	if s, ok := w.sess[b]; ok {
		c.Check(s == g.SessionID, "bucket-split:"+what, "%s is session %q and %q", b, s, g.SessionID)
	}
	w.sess[b] = g.SessionID
	for o, s := range w.sess {
		c.Check(o == b || s != g.SessionID, "buckets-collide:"+what, "%s and %s share session %q", b, o, s)
	}
}

func (w *memw26) id() string {
	return fmt.Sprintf("m%d%s", w.r.Intn(14), pick(w.r, []string{"", "", "'", "%"}))
}

func (w *memw26) save(id string, ttl int) {
	c, r := w.c, w.r
	scope, user, session, ns, rs, owner, rns := w.where()
	req := cortexdb.MemorySaveRequest{MemoryID: id, UserID: user, SessionID: session, Scope: scope, Namespace: ns, Content: w.text(), Metadata: w.meta(), Importance: float64(r.Intn(5)) / 4, TTLSeconds: ttl}
	if r.Intn(4) == 0 {
		req.Role = pick(r, []string{"user", "assistant", "note"})
	}
	m := &mem26{scope: rs, owner: owner, ns: rns, user: user, role: "memory", content: req.Content, imp: req.Importance, ttl: ttl, vec: w.e != nil}
	if req.Role != "" {
		m.role = req.Role
	}
	for k, v := range req.Metadata {
		if m.meta == nil {
			m.meta = map[string]any{}
		}
		m.meta[k] = v
	}
	m.t0 = time.Now()
	m.ttl0 = m.t0
	res, err := w.db.SaveMemory(bg, req)
	m.t1 = time.Now()
	c.Op("SaveMemory(%q, %s, %q, ttl %d): %v", id, m.bucket(), m.content, ttl, err)
	if err != nil {
		c.Check(w.e != nil && w.e.fault != nil && errors.Is(err, cortexdb.ErrEmbeddingFailed), "save-failed", "SaveMemory(%q) under %s: %v", id, m.bucket(), err)
		c.Count("failed_saves", 1)
		return
	}
	w.m[id] = m
	w.same("SaveMemory", id, res.Memory)
}

func (w *memw26) get(id string) {
	c := w.c
	now := time.Now()
	res, err := w.db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: id})
	m := w.m[id]
	if m == nil || m.gone(now) {
		c.Check(err != nil && errors.Is(err, core.ErrNotFound), "ghost-memory:GetMemory", "GetMemory(%q) = %+v, %v; it is not there or has expired", id, res, err)
		return
	}
	if err != nil {
		c.Check(!m.alive(time.Now()) && errors.Is(err, core.ErrNotFound), "lost-memory:GetMemory", "GetMemory(%q): %v", id, err)
		return
	}
	w.same("GetMemory", id, res.Memory)
}

func (w *memw26) update(id string) {
	c, r := w.c, w.r
	req := cortexdb.MemoryUpdateRequest{MemoryID: id}
	if r.Intn(2) == 0 {
		t := w.text()
		req.Content = &t
	}
	if r.Intn(2) == 0 {
		req.Metadata = w.meta()
	}
	if r.Intn(3) == 0 {
		x := float64(r.Intn(9)) / 8
		req.Importance = &x
	}
	if r.Intn(3) == 0 {
		x := pick(r, []int{0, 3600, 86400})
		req.TTLSeconds = &x
	}
	t0 := time.Now()
	res, err := w.db.UpdateMemory(bg, req)
	c.Op("UpdateMemory(%q): %v", id, err)
	m := w.m[id]
	if m == nil || m.gone(t0) {
		c.Check(err != nil, "updated-missing", "UpdateMemory(%q) of no live memory succeeded", id)
		return
	}
	if err != nil {
		c.Check(!m.alive(time.Now()) || req.Content != nil && w.e != nil && w.e.fault != nil && errors.Is(err, cortexdb.ErrEmbeddingFailed), "update-failed", "UpdateMemory(%q): %v", id, err)
		return
	}
	n := *m
	n.meta = map[string]any{}
	for k, v := range m.meta {
		n.meta[k] = v
	}
	for k, v := range req.Metadata {
		n.meta[k] = v
	}
	if req.Content != nil {
		n.content, n.vec = *req.Content, w.e != nil
	}
	if req.Importance != nil {
		n.imp = *req.Importance
	}
	if req.TTLSeconds != nil {
		n.ttl, n.ttl0 = *req.TTLSeconds, t0
	}
	n.t0, n.t1 = t0, time.Now()
	w.m[id] = &n
	w.same("UpdateMemory", id, res.Memory)
}

func (w *memw26) del(id string) {
	c := w.c
	_, err := w.db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: id})
	c.Op("DeleteMemory(%q): %v", id, err)
	if m := w.m[id]; m == nil {
		c.Check(err != nil, "deleted-missing", "DeleteMemory(%q) of no memory succeeded", id)
	} else if err != nil {
		c.Check(!m.alive(time.Now()), "delete-failed", "DeleteMemory(%q): %v", id, err)
		return
	}
	delete(w.m, id)
}

func count26(text, word string) (n int) {
	for _, t := range strings.Fields(text) {
		if t == word {
			n++
		}
	}
	return
}

func (w *memw26) search() {
	c, r := w.c, w.r
	scope, user, session, ns, rs, owner, rns := w.where()
	if len(w.m) > 0 && r.Intn(3) > 0 { // a bucket that holds something
		m := w.m[pick(r, sortedKeys(w.m))]
		scope, ns, rs, owner, rns = m.scope, m.ns, m.scope, m.owner, m.ns
		user, session = "", ""
		if rs == "user" {
			user = owner
		} else if rs == "session" {
			session = owner
		}
	}
	probe := &mem26{scope: rs, owner: owner, ns: rns}
	qw := []string{pick(r, words26)}
	if r.Intn(2) == 0 {
		qw = append(qw, pick(r, words26))
	}
	query := strings.Join(qw, " ")
	req := cortexdb.MemorySearchRequest{UserID: user, SessionID: session, Scope: scope, Namespace: ns, TopK: pick(r, []int{0, 1, 2, 3, 10, 1000})}
	single := len(qw) == 1
	switch r.Intn(6) {
	case 0:
		query = pick(r, []string{`"`, "(", "NOT ", "*", "^", "-", "{", "content:", "'"}) + query + pick(r, []string{"", `"`, ")", "*", " AND", "?"})
		single = false
	case 1:
		x := pick(r, words26)
		req.Keywords = []string{x}
		qw = append(qw, x)
		single = false
	case 2:
		x := pick(r, words26)
		req.AlternateQueries = []string{x}
		qw = append(qw, x)
		single = false
	}
	req.Query = query
	lexical := w.e == nil
	if r.Intn(2) == 0 {
		req.RetrievalMode = cortexdb.RetrievalModeLexical
		lexical = true
	}
	before := time.Now()
	res, err := w.db.SearchMemory(bg, req)
	after := time.Now()
	c.Op("SearchMemory(%q, %s, k=%d, %s): %v", query, probe.bucket(), req.TopK, req.RetrievalMode, err)
	c.Check(err == nil, "search-failed", "SearchMemory(%q) in %s: %v", query, probe.bucket(), err)
	w.judge(probe.bucket(), req, qw, lexical, single, res, before, after)
}

func (w *memw26) judge(bucket string, req cortexdb.MemorySearchRequest, qw []string, lexical, single bool, res *cortexdb.MemorySearchResponse, before, after time.Time) {
	c := w.c
	k := req.TopK
	if k <= 0 {
		k = 5
	}
	faulty := w.e != nil && w.e.fault != nil
	// What can and what must be found
	qv := embedText(req.Query, 6)
	type cand struct {
		must bool
		sim  float64
		lex  bool
	}
	cands := map[string]cand{}
	others, expired := 0, 0
	for id, m := range w.m {
		lex := false
		for _, q := range qw {
			lex = lex || count26(m.content, q) > 0
		}
		if m.bucket() != bucket {
			if lex {
				others++
			}
			continue
		}
		if m.gone(before) {
			expired++
			continue
		}
		cands[id] = cand{m.alive(after), sim29("cosine", qv, embedText(m.content, 6)), lex}
	}
	ids := map[string]bool{}
	for i, h := range res.Results {
		m := w.m[h.Memory.ID]
		c.Check(m != nil, "ghost-memory:SearchMemory", "SearchMemory in %s returned %q, which is not there: %+v", bucket, h.Memory.ID, h.Memory)
		c.Check(m.bucket() == bucket, "foreign-memory", "SearchMemory in %s returned %q of %s", bucket, h.Memory.ID, m.bucket())
		_, ok := cands[h.Memory.ID]
		c.Check(ok, "expired-memory", "SearchMemory in %s returned %q, which expired", bucket, h.Memory.ID)
		c.Check(!ids[h.Memory.ID], "duplicate-hit", "SearchMemory returned %q twice", h.Memory.ID)
		ids[h.Memory.ID] = true
		w.same("SearchMemory", h.Memory.ID, h.Memory)
		if i > 0 {
			c.Check(res.Results[i-1].Score >= h.Score, "wrong-order", "SearchMemory scores rise: %v then %v", res.Results[i-1].Score, h.Score)
		}
	}
	c.Check(len(res.Results) <= k, "too-many", "SearchMemory returned %d with TopK %d", len(res.Results), req.TopK)
	semantic := !lexical && !faulty
	any := false
	for id, x := range cands {
		any = any || x.must && w.m[id].vec
	}
	if semantic && !any {
		semantic = false
	}
	if faulty && !lexical {
		return // either mode may have answered
	}
	if semantic {
		lo := 2.0
		for i, h := range res.Results {
			s := cands[h.Memory.ID].sim
			c.Check(i == 0 || s <= lo+1e-5, "wrong-order:semantic", "SearchMemory(%q) lists %q (similarity %v) after one of %v", req.Query, h.Memory.Content, s, lo)
			lo = min(lo, s)
		}
		for id, x := range cands {
			if x.must && !ids[id] && w.m[id].vec {
				c.Check(len(res.Results) == k && x.sim <= lo+1e-5, "missed-memory:semantic", "SearchMemory(%q) in %s with TopK %d returned %d, the last of similarity %v, without %q of similarity %v", req.Query, bucket, req.TopK, len(res.Results), lo, id, x.sim)
			}
		}
		c.Count("semantic_searches", 1)
	} else {
		for _, h := range res.Results {
			c.Check(cands[h.Memory.ID].lex, "unmatched-hit", "SearchMemory(%q, keywords %q, alternates %q) returned %q", req.Query, req.Keywords, req.AlternateQueries, h.Memory.Content)
		}
		for id, x := range cands {
			if x.must && x.lex && !ids[id] {
				c.Check(len(res.Results) == k, "missed-memory:lexical", "SearchMemory(%q, keywords %q) in %s with TopK %d returned %d hits without %q (%q)", req.Query, req.Keywords, bucket, req.TopK, len(res.Results), id, w.m[id].content)
				if single {
					last := w.m[res.Results[k-1].Memory.ID]
					c.Check(!better26(w.m[id].content, last.content, qw[0]), "wrong-cut:lexical", "SearchMemory(%q) kept %q and left %q out", req.Query, last.content, w.m[id].content)
				}
			}
		}
		if single {
			for i := 1; i < len(res.Results); i++ {
				a, b := res.Results[i-1].Memory.Content, res.Results[i].Memory.Content
				c.Check(!better26(b, a, qw[0]), "wrong-order:lexical", "SearchMemory(%q) lists %q before %q", req.Query, a, b)
			}
			c.Count("ranked_lexical", 1)
		}
		c.Count("lexical_searches", 1)
	}
	if others > 0 || expired > 0 {
		c.Nontrivial()
	}
	c.Count("hits", len(res.Results))
	c.Count("expired_left_out", expired)
	c.Count("matches_elsewhere", others)
}

// better26 says that a is a better match for one word than b by any sensible measure.
func better26(a, b, word string) bool {
	ta, tb := count26(a, word), count26(b, word)
	la, lb := len(strings.Fields(a)), len(strings.Fields(b))
	return ta >= tb && la <= lb && (ta > tb || la < lb)
}

func (w *memw26) chats() {
	c := w.c
	h, err := w.db.Vector().(*core.SQLiteStore).GetSessionHistory(bg, "chat", 100)
	c.Check(err == nil, "history-failed", "GetSessionHistory: %v", err)
	got := map[string]string{}
	for _, m := range h {
		got[m.ID] = m.Content
	}
	c.Check(reflect.DeepEqual(got, w.chat), "chat-changed", "the chat session holds %v, written were %v", got, w.chat)
}

func newMem26(c *Case, emb bool) *memw26 {
	w := &memw26{c: c, r: c.R, m: map[string]*mem26{}, sess: map[string]string{}, chat: map[string]string{}}
	w.ix = pick(c.R, []core.IndexType{core.IndexTypeFlat, core.IndexTypeHNSW})
	if emb {
		w.e = &textEmb{dim: 6}
	}
	w.open()
	s := w.db.Vector().(*core.SQLiteStore)
	c.Check(s.CreateSession(bg, &core.Session{ID: "chat", UserID: "a"}) == nil, "chat-failed", "CreateSession failed")
	for i := 0; i < 3; i++ {
		id, t := fmt.Sprintf("chat%d", i), w.text()
		c.Check(s.AddMessage(bg, &core.Message{ID: id, SessionID: "chat", Role: "user", Content: t, Vector: embedText(t, 6)}) == nil, "chat-failed", "AddMessage failed")
		w.chat[id] = t
	}
	return w
}

func c26history(c *Case) {
	r := c.R
	w := newMem26(c, c.Idx%3 > 0)
	defer func() { w.db.Close() }()
	for s := 0; s < 45; s++ {
		if w.e != nil && r.Intn(8) == 0 {
			w.e.setFault(func(int, []string) error { return errEmbed })
			c.Count("outages", 1)
		}
		switch r.Intn(12) {
		case 0, 1, 2:
			w.save(w.id(), pick(r, []int{0, 0, -1, 3600, 1 << 40}))
		case 3, 4:
			w.update(w.id())
		case 5:
			w.del(w.id())
		case 6:
			id := pick(r, sortedKeys(w.chat))
			_, err := w.db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: id})
			c.Check(err != nil, "chat-as-memory", "GetMemory(%q) returned a chat message", id)
			switch r.Intn(3) {
			case 0:
				_, err = w.db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: id})
			case 1:
				t := "changed"
				_, err = w.db.UpdateMemory(bg, cortexdb.MemoryUpdateRequest{MemoryID: id, Content: &t})
			default:
				_, err = w.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: id, Content: "changed"})
			}
			c.Check(err != nil, "chat-as-memory", "a memory operation on chat message %q succeeded", id)
			w.chats()
		case 7:
			if r.Intn(3) == 0 {
				idleStore(c, w.db.Vector())
				c.Check(w.db.Close() == nil, "close-failed", "Close failed")
				w.open()
				c.Count("reopened", 1)
			}
		case 8:
			_, err := w.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: w.id(), Scope: "user", UserID: " ", Content: "x"})
			c.Check(err != nil, "bad-save", "SaveMemory for a blank user succeeded")
			_, err = w.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: w.id(), Scope: "nowhere", Content: "x"})
			c.Check(err != nil, "bad-save", "SaveMemory in an unknown scope succeeded")
			_, err = w.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: w.id(), Content: " \n"})
			c.Check(err != nil, "bad-save", "SaveMemory without content succeeded")
			_, err = w.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: w.id(), Content: "x", Metadata: map[string]any{"f": func() {}}})
			c.Check(err != nil, "bad-save", "SaveMemory with metadata that cannot be stored succeeded")
		default:
			w.search()
		}
		if w.e != nil {
			w.e.setFault(nil)
		}
		if s%5 == 4 {
			for _, id := range sortedKeys(w.m) {
				w.get(id)
			}
		}
		w.get(w.id())
	}
	w.chats()
}

func c26expiry(c *Case) {
	r := c.R
	w := newMem26(c, c.Idx%2 > 0)
	defer func() { w.db.Close() }()
	w.r = rand.New(rand.NewSource(r.Int63()))
	// One bucket; the best matches expire
	n, searches := 30+r.Intn(60), 8
	if c.Idx == 0 {
		n, searches = 1100, 3
	}
	for i := 0; i < n; i++ {
		ttl := pick(r, []int{0, 0, 1, 1, 1, 3600})
		t := w.text()
		if ttl == 1 {
			t = "kiwi kiwi"
		}
		id := fmt.Sprintf("x%d", i)
		m := &mem26{scope: "user", owner: "a", ns: "default", role: "memory", content: t, ttl: ttl, vec: w.e != nil, t0: time.Now()}
		m.ttl0 = m.t0
		res, err := w.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: id, UserID: "a", Content: t, TTLSeconds: ttl})
		m.t1 = time.Now()
		c.Check(err == nil, "save-failed", "SaveMemory: %v", err)
		w.m[id] = m
		w.same("SaveMemory", id, res.Memory)
		w.get(id)
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < searches; i++ {
			req := cortexdb.MemorySearchRequest{Query: "kiwi", UserID: "a", TopK: pick(r, []int{1, 3, 10, 5000})}
			if i%2 == 0 {
				req.RetrievalMode = cortexdb.RetrievalModeLexical
			}
			before := time.Now()
			res, err := w.db.SearchMemory(bg, req)
			c.Check(err == nil, "search-failed", "SearchMemory: %v", err)
			w.judge((&mem26{scope: "user", owner: "a", ns: "default"}).bucket(), req, []string{"kiwi"}, w.e == nil || i%2 == 0, true, res, before, time.Now())
		}
		if round == 0 {
			time.Sleep(1050 * time.Millisecond)
		}
	}
	for i := 0; i < n; i++ {
		w.get(fmt.Sprintf("x%d", i))
	}
	// A dead id can be used again
	for i, id := range sortedKeys(w.m) {
		if w.m[id].gone(time.Now()) && i%3 == 0 {
			w.save(id, 0)
			w.get(id)
		}
	}
}

func c26shared(c *Case) {
	w := newMem26(c, c.Idx%2 > 0)
	defer func() { w.db.Close() }()
	db := w.db
	var mu sync.Mutex
	live := map[string]string{}
	_, err := db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: "both", UserID: "u", Content: "start"})
	c.Check(err == nil, "save-failed", "SaveMemory: %v", err)
	last := make([]int, 6)
	fork(c, 6, func(a int, r *rand.Rand) {
		mine := map[string]string{}
		for s := 0; s < 25; s++ {
			id := fmt.Sprintf("a%d-%d", a, r.Intn(3))
			switch r.Intn(5) {
			case 0, 1:
				t := fmt.Sprintf("kiwi %s v%d", strings.ReplaceAll(id, "-", "x"), s)
				res, err := db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: id, UserID: "u", Namespace: pick(r, []string{"n1", "n2"}), Content: t})
				c.Check(err == nil, "save-failed:shared", "SaveMemory of the actor's own memory: %v", err)
				c.Check(res.Memory.Content == t, "wrong-memory:shared", "SaveMemory answered %q for %q", res.Memory.Content, t)
				mine[id] = t
			case 2:
				_, err := db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: id})
				_, had := mine[id]
				c.Check((err == nil) == had, "delete-verdict:shared", "DeleteMemory of the actor's own memory (live=%v): %v", had, err)
				delete(mine, id)
			case 3:
				res, err := db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "kiwi", UserID: "u", Namespace: pick(r, []string{"n1", "n2"}), TopK: 100})
				c.Check(err == nil, "search-failed:shared", "SearchMemory: %v", err)
				c.Count("hits", len(res.Results))
			default:
				// Every actor updates its own key of one memory
				last[a]++
				req := cortexdb.MemoryUpdateRequest{MemoryID: "both", Metadata: map[string]any{fmt.Sprintf("key%d", a): float64(last[a])}}
				_, err := db.UpdateMemory(bg, req)
				c.Check(err == nil, "update-failed:shared", "UpdateMemory: %v", err)
			}
			if t, ok := mine[id]; ok {
				res, err := db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: id})
				c.Check(err == nil && res.Memory.Content == t, "lost-memory:shared", "GetMemory of the actor's own memory = %+v, %v; saved %q", res, err, t)
			}
			jitter(r)
		}
		mu.Lock()
		for id, t := range mine {
			live[id] = t
		}
		mu.Unlock()
	})
	res, err := db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: "both"})
	c.Check(err == nil, "lost-memory:shared", "GetMemory: %v", err)
	for a, n := range last {
		if n > 0 {
			c.Check(res.Memory.Metadata[fmt.Sprintf("key%d", a)] == float64(n), "lost-update", "actor %d's last update of its key was %d, the memory has %v", a, n, res.Memory.Metadata)
		}
	}
	var got []string
	for _, ns := range []string{"n1", "n2"} {
		res, err := db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "kiwi", UserID: "u", Namespace: ns, TopK: 1000, RetrievalMode: cortexdb.RetrievalModeLexical})
		c.Check(err == nil, "search-failed:shared", "SearchMemory: %v", err)
		for _, h := range res.Results {
			c.Check(live[h.Memory.ID] == h.Memory.Content, "wrong-memory:shared", "found %q = %q, last saved %q", h.Memory.ID, h.Memory.Content, live[h.Memory.ID])
			got = append(got, h.Memory.ID)
		}
	}
	sort.Strings(got)
	c.Check(reflect.DeepEqual(got, append([]string(nil), sortedKeys(live)...)) || len(got)+len(live) == 0, "lost-memory:shared", "searches find %q, live are %q", got, sortedKeys(live))
	c.Nontrivial()
}
