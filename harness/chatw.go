package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// Chat is the reference model of sessions and messages, in the order of their addition.
type Chat struct {
	c        *Case
	R        *rand.Rand
	S        *core.SQLiteStore
	Sim      string
	Dim      int
	Sessions map[string]*core.Session
	Msgs     []*core.Message
	SIDs     []string
	Users    []string
	next     int
	VecStyle int
}

func newChat(c *Case, s *core.SQLiteStore, sim string, dim int) *Chat {
	return &Chat{c: c, R: c.R, S: s, Sim: sim, Dim: dim, Sessions: map[string]*core.Session{}, SIDs: pool(c.R, "s", 6, 0.5), Users: pool(c.R, "u", 3, 0.5)}
}

func (h *Chat) ok(err error, op string) {
	h.c.Check(err == nil, "spurious-error:"+op, "%s of valid input failed: %v", op, err)
}

func (h *Chat) meta() map[string]interface{} {
	switch h.R.Intn(3) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	}
	return map[string]interface{}{"k": pick(h.R, hostile), "n": float64(h.R.Intn(100)) / 4, "l": []interface{}{"a", true, nil}}
}

func (h *Chat) newMsg(sid string) *core.Message {
	r := h.R
	h.next++
	m := &core.Message{ID: fmt.Sprintf("m%d", h.next), SessionID: sid, Role: pick(r, []string{"user", "assistant", "system", "tool'x"}), Content: sentence(r, vocab, 1+r.Intn(6)), Metadata: h.meta()}
	if r.Intn(5) == 0 {
		m.ID = pick(r, hostile) + fmt.Sprint(h.next)
	}
	switch r.Intn(10) {
	case 0:
		m.Content = ""
	case 1:
		m.Content = pick(r, hostile)
	case 2:
		m.Content = strings.ToUpper(m.Content) + "."
	}
	if r.Intn(3) > 0 {
		m.Vector = randVec(r, h.Dim, h.VecStyle)
	}
	return m
}

func (h *Chat) of(sid string) []*core.Message {
	var out []*core.Message
	for _, m := range h.Msgs {
		if m.SessionID == sid {
			out = append(out, m)
		}
	}
	return out
}

func (h *Chat) dropSession(sid string) {
	delete(h.Sessions, sid)
	var keep []*core.Message
	for _, m := range h.Msgs {
		if m.SessionID != sid {
			keep = append(keep, m)
		}
	}
	h.Msgs = keep
}

// Step performs one operation.
func (h *Chat) Step() {
	r, c := h.R, h.c
	sid := pick(r, h.SIDs)
	switch k := r.Intn(20); {
	case k < 3:
		s := &core.Session{ID: sid, UserID: pick(r, h.Users), Metadata: h.meta()}
		c.Op("CreateSession %q of %q", sid, s.UserID)
		err := h.S.CreateSession(bg, s)
		if h.Sessions[sid] != nil {
			c.Check(err != nil, "duplicate-session", "session %q was created twice", sid)
		} else {
			h.ok(err, "CreateSession")
			h.Sessions[sid] = s
		}
	case k < 4:
		c.Op("delete session %q", sid)
		_, err := h.S.GetDB().Exec("DELETE FROM sessions WHERE id = ?", sid)
		h.ok(err, "delete session")
		h.dropSession(sid)
	case k < 5 && len(h.Msgs) > 0: // a used message id is rejected and changes nothing
		m := h.newMsg(sid)
		m.ID = pick(r, h.Msgs).ID
		c.Op("AddMessage with used id %q", m.ID)
		c.Check(h.S.AddMessage(bg, m) != nil, "duplicate-message", "message id %q was accepted twice", m.ID)
	default:
		m := h.newMsg(sid)
		c.Op("AddMessage %q to %q: %q", m.ID, sid, m.Content)
		cp := *m
		cp.Vector = cpVec(m.Vector)
		err := h.S.AddMessage(bg, &cp)
		if h.Sessions[sid] == nil {
			c.Check(err != nil, "orphan-message", "a message was added to missing session %q", sid)
		} else {
			h.ok(err, "AddMessage")
			h.Msgs = append(h.Msgs, m)
		}
	}
}

// Fill creates sessions and spreads n messages over them.
func (h *Chat) Fill(sids []string, n int) {
	h.SIDs = sids
	for _, sid := range sids {
		s := &core.Session{ID: sid, UserID: h.Users[0]}
		h.ok(h.S.CreateSession(bg, s), "CreateSession")
		h.Sessions[sid] = s
	}
	for i := 0; i < n; i++ {
		sid := sids[0]
		if h.R.Intn(10) == 0 {
			sid = pick(h.R, sids)
		}
		m := h.newMsg(sid)
		h.ok(h.S.AddMessage(bg, m), "AddMessage")
		h.Msgs = append(h.Msgs, m)
	}
}

func (h *Chat) diff(got, want *core.Message) string {
	if got.ID != want.ID {
		return fmt.Sprintf("id %q, want %q", got.ID, want.ID)
	}
	if got.SessionID != want.SessionID || got.Role != want.Role || got.Content != want.Content {
		return fmt.Sprintf("%+v, want %+v", got, want)
	}
	if len(want.Vector) != len(got.Vector) || len(want.Vector) > 0 && !bitsEq(got.Vector, want.Vector) {
		return fmt.Sprintf("vector %v, want %v", got.Vector, want.Vector)
	}
	if len(got.Metadata) != len(want.Metadata) || len(want.Metadata) > 0 && !reflect.DeepEqual(got.Metadata, want.Metadata) {
		return fmt.Sprintf("metadata %v, want %v", got.Metadata, want.Metadata)
	}
	return ""
}

// CheckHistory compares sessions and histories with the model.
func (h *Chat) CheckHistory() {
	c, r := h.c, h.R
	for _, sid := range h.SIDs {
		s, err := h.S.GetSession(bg, sid)
		want := h.of(sid)
		if h.Sessions[sid] == nil {
			c.Check(err != nil, "ghost-session", "GetSession(%q) returned %+v", sid, s)
		} else {
			h.ok(err, "GetSession")
			m := h.Sessions[sid]
			c.Check(s.ID == sid && s.UserID == m.UserID && len(s.Metadata) == len(m.Metadata) && (len(m.Metadata) == 0 || reflect.DeepEqual(s.Metadata, m.Metadata)), "wrong-session", "GetSession(%q)=%+v want %+v", sid, s, m)
		}
		for _, lim := range []int{1, 1 + r.Intn(5), len(want), len(want) + 1, 20000} {
			if lim == 0 {
				continue
			}
			got, err := h.S.GetSessionHistory(bg, sid, lim)
			h.ok(err, "GetSessionHistory")
			exp := want
			if len(exp) > lim {
				exp = exp[len(exp)-lim:]
				c.Count("cut_histories", 1)
			}
			c.Check(len(got) == len(exp), "history-length", "history of %q, limit %d: %d messages, want %d", sid, lim, len(got), len(exp))
			for i := range got {
				d := h.diff(got[i], exp[i])
				c.Check(d == "", "history-message", "history of %q, limit %d, message %d: %s", sid, lim, i, d)
			}
			c.Count("histories", 1)
		}
	}
}

// judge a ranked list of messages.
func (h *Chat) judge(op string, got []*core.Message, cand []*core.Message, q []float32, lim int) {
	c := h.c
	byID := map[string]*core.Message{}
	for _, m := range cand {
		byID[m.ID] = m
	}
	seen := map[string]bool{}
	last := 0.0
	tol := func(m *core.Message) float64 { return 1e-6 * scaleOf(h.Sim, q, m.Vector) }
	for i, m := range got {
		want := byID[m.ID]
		c.Check(want != nil, "foreign-message:"+op, "%s returned %q of session %q, which is outside its scope", op, m.ID, m.SessionID)
		c.Check(!seen[m.ID], "duplicate-message:"+op, "%s returned %q twice", op, m.ID)
		seen[m.ID] = true
		d := h.diff(m, want)
		c.Check(d == "", "wrong-message:"+op, "%s: %s", op, d)
		if q != nil {
			s := refSim(h.Sim, q, want.Vector)
			if i > 0 {
				c.Check(s <= last+2*tol(want)+2*tol(byID[got[i-1].ID]), "wrong-order:"+op, "%s: result %d (%v) ranks above result %d (%v)", op, i-1, last, i, s)
			}
			last = s
		}
	}
	n := len(cand)
	if n > lim {
		n = lim
		c.Count("cut_searches", 1)
	}
	c.Check(len(got) == n, "wrong-count:"+op, "%s returned %d messages, %d match, limit %d", op, len(got), len(cand), lim)
	if q != nil && len(got) > 0 {
		for _, m := range cand {
			if !seen[m.ID] {
				s := refSim(h.Sim, q, m.Vector)
				c.Check(s <= last+2*tol(m)+2*tol(byID[got[len(got)-1].ID]), "not-best:"+op, "%s left out %q (%v) for %v", op, m.ID, s, last)
			}
		}
	}
	c.Count("chat_searches", 1)
}

// CheckSearch runs semantic and keyword searches over sessions and users.
func (h *Chat) CheckSearch() {
	r := h.R
	q := randVec(r, h.Dim, h.VecStyle)
	for _, sid := range append([]string{"no such session"}, h.SIDs...) {
		var cand []*core.Message
		for _, m := range h.of(sid) {
			if len(m.Vector) > 0 {
				cand = append(cand, m)
			}
		}
		lim := pick(r, []int{1, 2, 5, 20000})
		h.c.Op("SearchChatHistory %q limit %d", sid, lim)
		got, err := h.S.SearchChatHistory(bg, cpVec(q), sid, lim)
		h.ok(err, "SearchChatHistory")
		h.judge("SearchChatHistory", got, cand, q, lim)
	}
	for _, u := range append([]string{"nobody"}, h.Users...) {
		ex := ""
		if r.Intn(2) == 0 {
			ex = pick(r, h.SIDs)
		}
		mine := func(m *core.Message) bool {
			s := h.Sessions[m.SessionID]
			return s != nil && s.UserID == u && (ex == "" || m.SessionID != ex)
		}
		var cand []*core.Message
		for _, m := range h.Msgs {
			if mine(m) && len(m.Vector) > 0 {
				cand = append(cand, m)
			}
		}
		lim := pick(r, []int{1, 2, 5, 20000})
		h.c.Op("SearchMessagesByUser %q excluding %q limit %d", u, ex, lim)
		got, err := h.S.SearchMessagesByUser(bg, u, cpVec(q), ex, lim)
		h.ok(err, "SearchMessagesByUser")
		h.judge("SearchMessagesByUser", got, cand, q, lim)
		for i := 0; i < 3; i++ {
			text, match := keywordQuery(r)
			cand = nil
			for _, m := range h.Msgs {
				if mine(m) && match(m.Content) {
					cand = append(cand, m)
				}
			}
			lim = pick(r, []int{1, 3, 20000})
			h.c.Op("KeywordSearchMessages %q of %q excluding %q limit %d", text, u, ex, lim)
			got, err = h.S.KeywordSearchMessages(bg, text, u, ex, lim)
			h.ok(err, "KeywordSearchMessages")
			h.judge("KeywordSearchMessages", got, cand, nil, lim)
			h.ranked(text, got, cand)
		}
	}
}

// ranked: the messages come in the order of their BM25 rank, and none that was left out ranks before the last.
func (h *Chat) ranked(text string, got, cand []*core.Message) {
	rows, err := h.S.GetDB().Query("SELECT m.id, bm25(messages_fts) FROM messages_fts JOIN messages m ON m.rowid = messages_fts.rowid WHERE messages_fts MATCH ?", text)
	h.ok(err, "BM25 query")
	defer rows.Close()
	rank := map[string]float64{}
	for rows.Next() {
		var id string
		var x float64
		h.ok(rows.Scan(&id, &x), "BM25 query")
		rank[id] = x
	}
	h.ok(rows.Err(), "BM25 query")
	if len(got) == 0 {
		return
	}
	last := got[len(got)-1].ID
	in := map[string]bool{}
	for i, m := range got {
		in[m.ID] = true
		h.c.Check(i == 0 || rank[got[i-1].ID] <= rank[m.ID], "keyword-order", "keyword search for %q returns %q (BM25 %v) after %q (%v)", text, m.ID, rank[m.ID], got[max(0, i-1)].ID, rank[got[max(0, i-1)].ID])
	}
	for _, m := range cand {
		h.c.Check(in[m.ID] || rank[last] <= rank[m.ID], "keyword-cut", "keyword search for %q leaves out %q (BM25 %v) and ends with %q (%v)", text, m.ID, rank[m.ID], last, rank[last])
	}
	if rank[got[0].ID] != rank[last] {
		h.c.Count("keyword answers with different ranks", 1)
	}
}

// keywordQuery draws an FTS query over the vocabulary and its meaning.
func keywordQuery(r *rand.Rand) (string, func(string) bool) {
	w := func() string { return pick(r, vocab) }
	switch r.Intn(6) {
	case 0:
		a, b := w(), w()
		return a + " " + b, func(t string) bool { return hasWord(t, a) && hasWord(t, b) }
	case 1:
		a, b := w(), w()
		return a + " OR " + b, func(t string) bool { return hasWord(t, a) || hasWord(t, b) }
	case 2:
		a := w()
		return `"` + a + `"`, func(t string) bool { return hasWord(t, a) }
	case 3:
		a := w() // long enough that no hostile text starts with it, even without its diacritics
		if len(a) > 4 {
			a = a[:4]
		}
		return a + "*", func(t string) bool {
			for _, x := range vocab {
				if strings.HasPrefix(x, a) && hasWord(t, x) {
					return true
				}
			}
			return false
		}
	case 4:
		a, b := w(), w()
		if a == b {
			return a, func(t string) bool { return hasWord(t, a) }
		}
		return a + " NOT " + b, func(t string) bool { return hasWord(t, a) && !hasWord(t, b) }
	}
	a := w()
	if r.Intn(2) == 0 {
		return strings.ToUpper(a[:1]) + a[1:], func(t string) bool { return hasWord(t, a) }
	}
	return a, func(t string) bool { return hasWord(t, a) }
}

func sortedMsgs(m []*core.Message) []string {
	var out []string
	for _, x := range m {
		out = append(out, x.ID)
	}
	sort.Strings(out)
	return out
}
