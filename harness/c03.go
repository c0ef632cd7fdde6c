package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C03", Level: "fault_enumeration",
		Rule: "a case runs a scripted writer in its own process, kills it with SIGKILL at a hooked row event, at a random instant of an operation or during close or a snapshot save, reopens the file and compares everything readable with the states allowed by the acknowledgement log, over several generations; non-trivial when at least one kill happened inside an operation or after acknowledged writes",
		Run: func(r *Run) {
			r.Parallel("kill", r.N(70, 700), 0, c03case)
			r.Parallel("big", r.N(20, 150), 0, c03case)
		}})
	auxRoles["c03"] = c03writer
}

type c03arg struct {
	Path, Log, Kind, Sim string
	Dim                  int
	Seed                 int64
	From                 int
	Mode                 string // row, time, close, end
	N                    int
	Micros               int
	AutoSaveMS           int
	Extra                bool // graph and chat operations too
	Big                  bool // batches of hundreds
}

func (a *c03arg) config() core.Config {
	cfg := mkConfig(a.Path, a.Kind, a.Dim, a.Sim)
	if a.AutoSaveMS > 0 {
		cfg.AutoSave.Interval = time.Duration(a.AutoSaveMS) * time.Millisecond
	}
	return cfg
}

// c03model is the reference state of a crash script.
type c03model struct {
	Recs  map[string]*Rec
	Docs  map[string]bool
	Colls map[string]bool
	Msgs  map[string][]string
	Nodes map[string]*graph.GraphNode
	Edges map[string]*graph.GraphEdge
}

func (m *c03model) render() string {
	var l []string
	for id, x := range m.Recs {
		l = append(l, recLine(id, x.Vec, x.Content, x.Doc, x.Coll, x.Meta, x.ACL))
	}
	for d := range m.Docs {
		l = append(l, fmt.Sprintf("doc %q", d))
	}
	for d := range m.Colls {
		l = append(l, fmt.Sprintf("coll %q", d))
	}
	for s, ms := range m.Msgs {
		l = append(l, fmt.Sprintf("session %q %q", s, ms))
	}
	for id, n := range m.Nodes {
		l = append(l, fmt.Sprintf("node %q %q %q %x %s", id, n.Content, n.NodeType, n.Vector, propsStr(n.Properties)))
	}
	for id, e := range m.Edges {
		l = append(l, fmt.Sprintf("edge %q %q %q %q %v %s", id, e.FromNodeID, e.ToNodeID, e.EdgeType, e.Weight, propsStr(e.Properties)))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func recLine(id string, vec []float32, content, doc, coll string, meta map[string]string, acl []string) string {
	var ms []string
	for k, v := range meta {
		ms = append(ms, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ms)
	return fmt.Sprintf("rec %q %x %q doc=%q coll=%q %v acl=%q", id, vec, content, doc, coll, ms, acl)
}

type c03op struct {
	name string
	do   func(s *core.SQLiteStore, g *graph.GraphStore) error
}

// c03script generates the operations and the rendered state after each of them
// (states[i] = state before op i).
func c03script(a *c03arg, n int) (ops []c03op, states []string, models []*c03model) {
	r := rand.New(rand.NewSource(a.Seed))
	w := &World{R: r, Recs: map[string]*Rec{}, Docs: map[string]*core.Document{}, Colls: map[string]bool{"default": true}, Dim: a.Dim, Words: vocab, ACLPool: []string{"alice", "bob"}}
	nIDs, nNodes, nEdges, size := 30, 8, 10, func(k, n int) int { return k + r.Intn(n) }
	if a.Big {
		nIDs, nNodes, nEdges, size = 1500, 400, 800, func(int, int) int { return 150 + r.Intn(1000) }
	}
	w.IDs = pool(r, "id", nIDs, 0.01)
	if !a.Big {
		w.IDs = pool(r, "id", nIDs, 0.3)
	}
	w.DocPool = pool(r, "doc", 4, 0.3)
	w.CollPool = pool(r, "coll", 3, 0.3)
	g := &GWorld{R: r, Dim: a.Dim, Nodes: map[string]*graph.GraphNode{}, Edges: map[string]*graph.GraphEdge{}, NIDs: pool(r, "n", nNodes, 3/float64(nNodes)), EIDs: pool(r, "e", nEdges, 3/float64(nEdges))}
	msgs := map[string][]string{}
	snap := func() {
		m := &c03model{Recs: map[string]*Rec{}, Docs: map[string]bool{}, Colls: map[string]bool{}, Msgs: map[string][]string{}, Nodes: map[string]*graph.GraphNode{}, Edges: map[string]*graph.GraphEdge{}}
		for k, v := range w.Recs {
			m.Recs[k] = v
		}
		for k := range w.Docs {
			m.Docs[k] = true
		}
		for k := range w.Colls {
			m.Colls[k] = true
		}
		for k, v := range msgs {
			m.Msgs[k] = v
		}
		for k, v := range g.Nodes {
			m.Nodes[k] = v
		}
		for k, v := range g.Edges {
			m.Edges[k] = v
		}
		models = append(models, m)
		states = append(states, m.render())
	}
	snap()
	msgN := 0
	for len(ops) < n {
		var op c03op
		x := r.Intn(100)
		if a.Big && r.Intn(2) == 0 {
			x = pick(r, []int{20, 20, 20, 44, 82, 90})
		}
		if !a.Extra && x >= 72 {
			x = r.Intn(72)
		}
		switch {
		case x < 18:
			rec := w.newRec(pick(r, w.IDs))
			op = c03op{"Upsert " + rec.ID, func(s *core.SQLiteStore, _ *graph.GraphStore) error { return s.Upsert(bg, rec.emb()) }}
			w.put(rec)
		case x < 34:
			var recs []*Rec
			for _, id := range subset(r, w.IDs, size(2, 8)) {
				recs = append(recs, w.newRec(id))
			}
			op = c03op{fmt.Sprintf("UpsertBatch %d", len(recs)), func(s *core.SQLiteStore, _ *graph.GraphStore) error {
				var e []*core.Embedding
				for _, x := range recs {
					e = append(e, x.emb())
				}
				return s.UpsertBatch(bg, e)
			}}
			for _, x := range recs {
				w.put(x)
			}
		case x < 42:
			if len(w.Recs) == 0 {
				continue
			}
			id := pick(r, sortedKeys(w.Recs))
			op = c03op{"Delete " + id, func(s *core.SQLiteStore, _ *graph.GraphStore) error { return s.Delete(bg, id) }}
			delete(w.Recs, id)
		case x < 48:
			if len(w.Recs) < 4 {
				continue
			}
			ids := subset(r, sortedKeys(w.Recs), size(2, 5))
			op = c03op{fmt.Sprintf("DeleteBatch %d", len(ids)), func(s *core.SQLiteStore, _ *graph.GraphStore) error { return s.DeleteBatch(bg, ids) }}
			for _, id := range ids {
				delete(w.Recs, id)
			}
		case x < 51:
			k, v := pick(r, metaKeys), pick(r, metaVals)
			op = c03op{fmt.Sprintf("DeleteByFilter %q=%q", k, v), func(s *core.SQLiteStore, _ *graph.GraphStore) error {
				return s.DeleteByFilter(bg, core.NewMetadataFilter().Equal(k, v))
			}}
			w.drop(func(x *Rec) bool { h, ok := x.Meta[k]; return ok && refEq(h, v) })
		case x < 58:
			d := pick(r, w.DocPool)
			if w.Docs[d] != nil {
				continue
			}
			w.Docs[d] = &core.Document{ID: d}
			op = c03op{"CreateDocument " + d, func(s *core.SQLiteStore, _ *graph.GraphStore) error {
				return s.CreateDocument(bg, &core.Document{ID: d, Title: "t", Version: 1})
			}}
		case x < 61:
			if len(w.Docs) == 0 {
				continue
			}
			d := pick(r, sortedKeys(w.Docs))
			del := r.Intn(2) == 0
			op = c03op{fmt.Sprintf("delete document %s (%v)", d, del), func(s *core.SQLiteStore, _ *graph.GraphStore) error {
				if del {
					return s.DeleteDocument(bg, d)
				}
				return s.DeleteByDocID(bg, d)
			}}
			if del {
				delete(w.Docs, d)
			}
			w.drop(func(x *Rec) bool { return x.Doc == d })
		case x < 66:
			n := pick(r, w.CollPool)
			if w.Colls[n] {
				if r.Intn(2) == 0 {
					continue
				}
				op = c03op{"DeleteCollection " + n, func(s *core.SQLiteStore, _ *graph.GraphStore) error { return s.DeleteCollection(bg, n) }}
				delete(w.Colls, n)
				w.drop(func(x *Rec) bool { return x.Coll == n })
			} else {
				op = c03op{"CreateCollection " + n, func(s *core.SQLiteStore, _ *graph.GraphStore) error {
					_, err := s.CreateCollection(bg, n, a.Dim)
					return err
				}}
				w.Colls[n] = true
			}
		case x < 69:
			if a.Kind != "ivf" || len(w.Recs) < 6 {
				continue
			}
			op = c03op{"TrainIndex", func(s *core.SQLiteStore, _ *graph.GraphStore) error { return s.TrainIndex(bg, 3) }}
		case x < 72:
			f := pick(r, []string{"a", "b"})
			e := &core.MultiVectorEntity{ID: "ent" + f, Content: "echo", Vectors: map[string][]float32{"x": w.vec(), "y": w.vec(), "z": w.vec()}}
			op = c03op{"UpsertMultiVector", func(s *core.SQLiteStore, _ *graph.GraphStore) error { return s.UpsertMultiVector(bg, e) }}
			for k, v := range e.Vectors {
				w.put(&Rec{ID: e.ID + "___" + k, Vec: v, Content: "echo", Coll: "default", Meta: map[string]string{"_entity_id": e.ID, "_vector_field": k}})
			}
		case x < 80:
			sid := pick(r, []string{"s1", "s2"})
			if _, ok := msgs[sid]; !ok {
				msgs[sid] = nil
				op = c03op{"CreateSession " + sid, func(s *core.SQLiteStore, _ *graph.GraphStore) error {
					return s.CreateSession(bg, &core.Session{ID: sid, UserID: "u"})
				}}
				break
			}
			msgN++
			id, text := fmt.Sprint("m", msgN), fmt.Sprintf("%d %s", msgN, sentence(r, vocab, 3))
			vec := w.vec()
			op = c03op{"AddMessage " + id, func(s *core.SQLiteStore, _ *graph.GraphStore) error {
				return s.AddMessage(bg, &core.Message{ID: id, SessionID: sid, Role: "user", Content: text, Vector: vec})
			}}
			msgs[sid] = append(append([]string(nil), msgs[sid]...), text)
		case x < 88:
			var nodes []*graph.GraphNode
			for _, id := range subset(r, g.NIDs, size(1, 4)) {
				nodes = append(nodes, g.newNode(id))
			}
			op = c03op{"UpsertNodesBatch", func(_ *core.SQLiteStore, G *graph.GraphStore) error {
				_, err := G.UpsertNodesBatch(bg, nodes)
				return err
			}}
			for _, x := range nodes {
				g.putNode(x)
			}
		case x < 95:
			if len(g.Nodes) == 0 {
				continue
			}
			k := sortedKeys(g.Nodes)
			var edges []*graph.GraphEdge
			for _, id := range subset(r, g.EIDs, size(1, 4)) {
				e := g.newEdge(id, pick(r, k), pick(r, k))
				e.Vector = nil
				edges = append(edges, e)
			}
			op = c03op{"UpsertEdgesBatch", func(_ *core.SQLiteStore, G *graph.GraphStore) error {
				_, err := G.UpsertEdgesBatch(bg, edges)
				return err
			}}
			for _, e := range edges {
				g.putEdge(e)
			}
		default:
			if len(g.Nodes) == 0 {
				continue
			}
			id := pick(r, sortedKeys(g.Nodes))
			op = c03op{"DeleteNode " + id, func(_ *core.SQLiteStore, G *graph.GraphStore) error { return G.DeleteNode(bg, id) }}
			g.dropNode(id)
		}
		ops = append(ops, op)
		snap()
	}
	return
}

func (a *c03arg) ops() int {
	if a.Big {
		return 16
	}
	return 45
}

var c03tables = []string{"embeddings", "documents", "collections", "messages", "sessions", "graph_nodes", "graph_edges"}

func c03writer(arg string) {
	var a c03arg
	if json.Unmarshal([]byte(arg), &a) != nil {
		os.Exit(9)
	}
	lf, err := os.OpenFile(a.Log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		os.Exit(9)
	}
	say := func(f string, x ...any) { fmt.Fprintf(lf, f+"\n", x...) }
	die := func() { syscall.Kill(os.Getpid(), syscall.SIGKILL); select {} }
	ops, _, _ := c03script(&a, a.ops())
	s, err := core.NewWithConfig(a.config())
	if err == nil {
		err = s.Init(bg)
	}
	if err != nil {
		say("O %v", err)
		return
	}
	g := graph.NewGraphStore(s)
	if err := g.InitGraphSchema(bg); err != nil {
		say("O %v", err)
		return
	}
	var left atomic.Int64
	left.Store(int64(a.N))
	if a.Mode == "row" {
		hit := func() error {
			if left.Add(-1) == 0 {
				say("K")
				die()
			}
			return nil
		}
		for i, t := range c03tables {
			for _, ev := range []string{"INSERT", "DELETE", "UPDATE"} {
				when := []string{"BEFORE ", "AFTER "}[(i+a.N+len(ev))%2]
				if _, err := arm(s.GetDB(), when+ev+" ON "+t, "", hit); err != nil {
					say("H arm %s: %v", t, err)
					return
				}
			}
		}
	}
	for i := a.From; i < len(ops); i++ {
		if a.Mode == "time" && i == a.N {
			go func() {
				time.Sleep(time.Duration(a.Micros) * time.Microsecond)
				die()
			}()
		}
		say("B %d", i)
		if err := ops[i].do(s, g); err != nil {
			say("X %d %v", i, err)
			return
		}
		say("E %d", i)
		if a.Mode == "end" && i == a.N {
			die()
		}
		if a.AutoSaveMS > 0 {
			time.Sleep(time.Millisecond)
		}
	}
	if a.Mode == "close" {
		go func() {
			time.Sleep(time.Duration(a.Micros) * time.Microsecond)
			die()
		}()
	}
	say("C")
	if err := s.Close(); err != nil {
		say("X close %v", err)
		return
	}
	say("D")
}

func c03case(c *Case) {
	r := c.R
	a := &c03arg{Path: dbPath(c), Kind: cfgNames[c.Idx%len(cfgNames)], Sim: pick(r, []string{"cosine", "euclid"}), Dim: 3 + r.Intn(4), Seed: r.Int63(), Extra: c.Idx%2 == 0, Big: c.Part == "big"}
	_, states, models := c03script(a, a.ops())
	self, err := os.Executable()
	c.Must(err, "executable")
	pos := 0
	for gen := 0; gen < 3 && pos < a.ops(); gen++ {
		a.From = pos
		a.Log = filepath.Join(c.Dir, fmt.Sprintf("log%d", gen))
		a.Mode = []string{"row", "row", "time", "end", "close", "row"}[(c.Idx/5+gen)%6]
		a.AutoSaveMS = 0
		if r.Intn(3) == 0 {
			a.AutoSaveMS = 2
		}
		a.Micros = r.Intn(3000)
		if a.Big {
			a.Micros = r.Intn(150000)
		}
		switch a.Mode {
		case "row":
			a.N = 1 + r.Intn(60)
			if a.Big {
				a.N = 1 + r.Intn(4000)
			}
		case "time", "end":
			a.N = pos + r.Intn(a.ops()-pos)
			if gen < 2 && a.ops()-pos > 15 {
				a.N = pos + r.Intn(15)
			}
		}
		b, _ := json.Marshal(a)
		cmd := exec.Command(self, "-aux", "c03", "-auxarg", string(b))
		cmd.Dir = c.Dir
		out, cerr := cmd.CombinedOutput()
		killed := false
		if ee, ok := cerr.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				killed = true
			}
		}
		if cerr != nil && !killed {
			if strings.Contains(string(out), "github.com/liliang-cn/cortexdb/v2/pkg") {
				c.Fail("writer-crash", "writer process died: %v\n%s", cerr, clip(string(out), 4000))
			}
			c.Must(fmt.Errorf("%v: %s", cerr, clip(string(out), 2000)), "writer")
		}
		lg, _ := os.ReadFile(a.Log)
		done, inflight := pos, -1
		closed := false
		for _, line := range strings.Split(string(lg), "\n") {
			var i int
			switch {
			case strings.HasPrefix(line, "B "):
				fmt.Sscanf(line, "B %d", &i)
				inflight = i
			case strings.HasPrefix(line, "E "):
				fmt.Sscanf(line, "E %d", &i)
				done, inflight = i+1, -1
			case strings.HasPrefix(line, "X "), strings.HasPrefix(line, "O "):
				c.Fail("unexpected-error", "writer generation %d: %s", gen, line)
			case strings.HasPrefix(line, "H "):
				c.Must(fmt.Errorf("%s", line), "writer")
			case line == "D":
				closed = true
			}
		}
		c.Op("generation %d %s mode %s n=%d us=%d autosave=%d: killed=%v acknowledged %d..%d inflight %d closed %v", gen, a.Kind, a.Mode, a.N, a.Micros, a.AutoSaveMS, killed, pos, done, inflight, closed)
		if killed {
			c.Count("kill_"+a.Mode, 1)
			if inflight >= 0 {
				c.Count("kill_in_operation", 1)
			}
			if done > pos || inflight >= 0 {
				c.Nontrivial()
			}
		}
		next := c03verify(c, a, states, models, done, inflight)
		pos = next
	}
}

// c03verify reopens the database and returns the position of the script its state corresponds to.
func c03verify(c *Case, a *c03arg, states []string, models []*c03model, done, inflight int) int {
	s, err := core.NewWithConfig(a.config())
	c.Check(err == nil, "reopen-failed", "reopen: %v", err)
	err = s.Init(bg)
	c.Check(err == nil, "reopen-failed", "Init after the crash: %v", err)
	defer s.Close()
	g := graph.NewGraphStore(s)
	c.Check(g.InitGraphSchema(bg) == nil, "reopen-failed", "graph schema after the crash")
	// drop the hook triggers the writer left behind
	var trig []string
	rows, err := s.GetDB().Query("SELECT name FROM sqlite_master WHERE type='trigger' AND name LIKE 'zzverif%'")
	c.Must(err, "triggers")
	for rows.Next() {
		var n string
		rows.Scan(&n)
		trig = append(trig, n)
	}
	rows.Close()
	for _, n := range trig {
		_, err := s.GetDB().Exec("DROP TRIGGER " + n)
		c.Must(err, "drop trigger")
	}
	got := c03observe(c, s, g)
	pos := done
	if got != states[done] {
		if inflight < 0 {
			c.Fail("crash-state", "all %d acknowledged operations expected, but: %s", done, firstDiff(states[done], got))
		}
		if got != states[inflight+1] {
			c.Fail("crash-state", "state after the crash is neither before nor after operation %d: vs before: %s; vs after: %s", inflight, firstDiff(states[done], got), firstDiff(states[inflight+1], got))
		}
		pos = inflight + 1
		c.Count("inflight_committed", 1)
	} else if inflight >= 0 && states[inflight+1] != states[done] {
		c.Count("inflight_rolled_back", 1)
	}
	// derived structures agree with the records
	m := models[pos]
	w := &World{c: c, R: c.R, S: s, Cfg: a.config(), Recs: m.Recs, Docs: map[string]*core.Document{}, Colls: m.Colls, Dim: a.Dim, Words: vocab}
	err = ftsCheck(s.GetDB(), "chunks_fts")
	c.Check(err == nil, "fts-inconsistent", "keyword index after the crash: %v", err)
	for _, word := range vocab {
		w.checkWord(word)
	}
	for i := 0; i < 10; i++ {
		q, self := w.query()
		o := core.SearchOptions{TopK: pick(c.R, []int{1, 3, 10, len(w.Recs) + 1})}
		if i%3 == 0 {
			o.Collection = pick(c.R, sortedKeys(w.Colls))
		}
		res, err := s.Search(bg, q, o)
		w.ok(err, "Search")
		w.checkResults("Search", res, w.rank(a.Sim, q, optPred(o)), kOf(o), 0, searchMode{exact: a.Kind == "flat"})
		if self != nil && (a.Kind == "hnsw" || a.Kind == "ivf") && len(w.Recs) <= 150 && generalPos(w, q, kOf(o)) && optPred(o)(self) {
			c.Check(len(res) > 0 && res[0].Score >= refSim(a.Sim, q, self.Vec)-1e-6*scaleOf(a.Sim, q, self.Vec), "lost-record:self-recall", "after the crash, search for the vector of %q does not return it", self.ID)
		}
		c.Count("searches_after_crash", 1)
	}
	c.Check(s.Close() == nil, "close-failed", "close after recovery")
	return pos
}

// checkWord compares the keyword index with the live texts.
func (w *World) checkWord(word string) {
	rows, err := w.S.GetDB().Query("SELECT e.id FROM chunks_fts f JOIN embeddings e ON e.rowid = f.rowid WHERE chunks_fts MATCH ?", word)
	w.c.Must(err, "match")
	got := map[string]bool{}
	n := 0
	for rows.Next() {
		var id string
		rows.Scan(&id)
		got[id] = true
		n++
	}
	rows.Close()
	want := w.liveWith(func(x *Rec) bool { return hasWord(x.Content, word) })
	for _, id := range want {
		w.c.Check(got[id], "keyword-missing", "keyword %q does not find %q: %q", word, id, clip(w.Recs[id].Content, 100))
	}
	w.c.Check(n == len(want), "keyword-stale", "keyword %q finds %d records, %d contain it", word, n, len(want))
}

func hasWord(text, word string) bool {
	for _, f := range strings.FieldsFunc(strings.ToLower(text), func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r > 127)
	}) {
		if f == word {
			return true
		}
	}
	return false
}

func c03observe(c *Case, s *core.SQLiteStore, g *graph.GraphStore) string {
	m := &c03model{Docs: map[string]bool{}, Colls: map[string]bool{}, Msgs: map[string][]string{}, Nodes: map[string]*graph.GraphNode{}, Edges: map[string]*graph.GraphEdge{}}
	strs := func(q string) []string {
		rows, err := s.GetDB().Query(q)
		c.Must(err, q)
		defer rows.Close()
		var o []string
		for rows.Next() {
			var x string
			c.Must(rows.Scan(&x), "scan")
			o = append(o, x)
		}
		return o
	}
	var recs []string
	for _, id := range strs("SELECT id FROM embeddings") {
		e, err := s.GetByID(bg, id)
		c.Check(err == nil, "unreadable-record", "GetByID(%q) after the crash: %v", id, err)
		recs = append(recs, recLine(e.ID, e.Vector, e.Content, e.DocID, e.Collection, e.Metadata, e.ACL))
	}
	for _, id := range strs("SELECT id FROM documents") {
		_, err := s.GetDocument(bg, id)
		c.Check(err == nil, "unreadable-record", "GetDocument(%q) after the crash: %v", id, err)
		m.Docs[id] = true
	}
	cols, err := s.ListCollections(bg)
	c.Check(err == nil, "unreadable-record", "ListCollections after the crash: %v", err)
	for _, x := range cols {
		m.Colls[x.Name] = true
	}
	for _, id := range strs("SELECT id FROM sessions") {
		h, err := s.GetSessionHistory(bg, id, 1000)
		c.Check(err == nil, "unreadable-record", "GetSessionHistory(%q) after the crash: %v", id, err)
		m.Msgs[id] = nil
		for _, x := range h {
			m.Msgs[id] = append(m.Msgs[id], x.Content)
		}
	}
	nodes, err := g.GetAllNodes(bg, nil)
	c.Check(err == nil, "unreadable-record", "GetAllNodes after the crash: %v", err)
	for _, n := range nodes {
		m.Nodes[n.ID] = cpNode(n)
		es, err := g.GetEdges(bg, n.ID, "out")
		c.Check(err == nil, "unreadable-record", "GetEdges after the crash: %v", err)
		for _, e := range es {
			m.Edges[e.ID] = cpEdge(e)
		}
	}
	out := m.render()
	l := append(recs, strings.Split(out, "\n")...)
	if out == "" {
		l = recs
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}
