package main

import (
	"fmt"
	"sync"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C14", Level: "exploration",
		Rule: "a case is one history of sessions and messages (hostile names, several users, reopen, concurrent appenders) whose histories and searches are compared with the reference after every few steps; non-trivial when a history was cut by its limit and a search had matches",
		Run: func(r *Run) {
			r.Parallel("history", r.N(90, 900), 0, c14history)
			r.Parallel("long", r.N(3, 12), 0, c14long)
			r.Parallel("appenders", r.N(24, 200), 0, c14appenders)
		}})
}

func c14history(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	dim := 1 + r.Intn(4)
	w := newWorld(c, mkConfig(dbPath(c), "flat", dim, sim))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	h := newChat(c, w.S, sim, dim)
	h.VecStyle = c.Idx / 3 % 3
	for i := 0; i < 80; i++ {
		h.Step()
		if r.Intn(25) == 0 {
			c.Op("reopen")
			w.reopen()
			h.S = w.S
		}
		if i%8 == 7 {
			h.CheckHistory()
			h.CheckSearch()
		}
	}
	if len(h.Msgs) > 5 {
		c.Nontrivial()
	}
	w.close()
}

// c14long: sessions far longer than any history limit.
func c14long(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), "flat", 2, sims[c.Idx%3]))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	h := newChat(c, w.S, sims[c.Idx%3], 2)
	h.Fill([]string{"long", "other"}, 1300+r.Intn(300))
	for i := 0; i < 6; i++ {
		h.CheckHistory()
		h.CheckSearch()
	}
	c.Nontrivial()
	w.close()
}

// c14appenders: concurrent appenders to a few sessions; each appender's messages keep its order and none is lost.
func c14appenders(c *Case) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 2, "cosine"))
	w.open()
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	ns, na, nm := 1+r.Intn(3), 3+r.Intn(4), 15
	for s := 0; s < ns; s++ {
		w.ok(w.S.CreateSession(bg, &core.Session{ID: fmt.Sprint("s", s), UserID: "u"}), "CreateSession")
	}
	var wg sync.WaitGroup
	errs := make([]error, na)
	acked := make([]map[string]int, na)
	stop := make(chan struct{})
	readErr := make(chan string, 1)
	for a := 0; a < na; a++ {
		acked[a] = map[string]int{}
		wg.Add(1)
		go func(a int) {
			defer wg.Done()
			for i := 0; i < nm; i++ {
				sid := fmt.Sprint("s", (a+i/5)%ns)
				err := w.S.AddMessage(bg, &core.Message{ID: fmt.Sprintf("a%d-%d", a, i), SessionID: sid, Role: "user", Content: fmt.Sprintf("word%d from %d", i, a), Vector: []float32{float32(a), float32(i)}})
				if err != nil {
					errs[a] = err
					return
				}
				acked[a][sid]++
			}
		}(a)
	}
	var rg sync.WaitGroup
	rg.Add(1)
	go func() {
		defer rg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			got, err := w.S.GetSessionHistory(bg, "s0", 1000)
			bad := ""
			if err != nil {
				bad = err.Error()
			}
			last := map[int]int{}
			for _, m := range got {
				var a, i int
				fmt.Sscanf(m.ID, "a%d-%d", &a, &i)
				if p, ok := last[a]; ok && i <= p {
					bad = fmt.Sprintf("appender %d: message %d after %d", a, i, p)
				}
				last[a] = i
			}
			if bad != "" {
				select {
				case readErr <- bad:
				default:
				}
				return
			}
		}
	}()
	wg.Wait()
	close(stop)
	rg.Wait()
	for a, err := range errs {
		c.Check(err == nil, "spurious-error:AddMessage", "appender %d: %v", a, err)
	}
	select {
	case s := <-readErr:
		c.Fail("concurrent-history", "a history read during the appends: %s", s)
	default:
	}
	total := 0
	for s := 0; s < ns; s++ {
		sid := fmt.Sprint("s", s)
		got, err := w.S.GetSessionHistory(bg, sid, 10000)
		w.ok(err, "GetSessionHistory")
		last := map[int]int{}
		count := map[int]int{}
		for _, m := range got {
			var a, i int
			fmt.Sscanf(m.ID, "a%d-%d", &a, &i)
			if p, ok := last[a]; ok {
				c.Check(i > p, "history-order", "session %s: appender %d: message %d after %d", sid, a, i, p)
			}
			c.Check(m.SessionID == sid && m.Content == fmt.Sprintf("word%d from %d", i, a) && bitsEq(m.Vector, []float32{float32(a), float32(i)}), "history-message", "session %s: %+v", sid, m)
			last[a] = i
			count[a]++
		}
		for a := range acked {
			c.Check(count[a] == acked[a][sid], "lost-message", "session %s holds %d messages of appender %d, %d were acknowledged", sid, count[a], a, acked[a][sid])
		}
		total += len(got)
	}
	c.Check(total == na*nm, "lost-message", "%d messages stored, want %d", total, na*nm)
	c.Count("concurrent_messages", total)
	for i := 0; i < nm; i++ {
		got, err := w.S.KeywordSearchMessages(bg, fmt.Sprint("word", i), "u", "", 1000)
		w.ok(err, "KeywordSearchMessages")
		c.Check(len(got) == na, "keyword-missing", "keyword word%d finds %d messages, want %d", i, len(got), na)
	}
	c.Nontrivial()
	w.close()
}
