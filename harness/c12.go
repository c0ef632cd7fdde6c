package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func init() {
	register(&Prop{ID: "C12", Level: "exploration",
		Rule: "a case closes a filled store or database and calls every public operation on it (part after), closes it from several goroutines while operations run and judges what each of them reported against the reopened file (part during), opens and closes it repeatedly with background saves about to run and watches goroutines, file handles and whether the closed store becomes unreachable (part leaks), or makes opening fail (part failed); non-trivial when operations were refused after a close, some operations succeeded and some were refused, a background save ran, or an open failed",
		Run: func(r *Run) {
			r.Parallel("after", r.N(15, 60), 4, c12after)
			r.Parallel("during", r.N(20, 200), 4, c12during)
			r.Parallel("each", r.N(16, 64), 4, c12each)
			r.Parallel("leaks", r.N(10, 100), 1, c12leaks)
			r.Parallel("failed", r.N(8, 40), 1, c12failed)
		}})
}

var dumpTables = []string{"embeddings", "documents", "collections", "sessions", "messages", "graph_nodes", "graph_edges"}

// dumpFile renders the content of a database file through a handle of its own.
func dumpFile(c *Case, path string) string {
	s, err := core.NewWithConfig(mkConfig(path, "flat", 0, "cosine"))
	c.Check(err == nil, "reopen-failed", "open %s: %v", filepath.Base(path), err)
	err = s.Init(bg)
	c.Check(err == nil, "reopen-failed", "init %s: %v", filepath.Base(path), err)
	defer s.Close()
	d, err := tableDump(s.GetDB(), dumpTables...)
	c.Check(err == nil, "reopen-failed", "read %s: %v", filepath.Base(path), err)
	return d
}

// openFDs lists the descriptors of this process that point into dir.
func openFDs(dir string) (out []string) {
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, t)
		}
	}
	return
}

func noFDs(c *Case, what string) {
	var l []string
	for i := 0; i < 500; i++ {
		if l = openFDs(c.Dir); len(l) == 0 {
			return
		}
		time.Sleep(time.Duration(1+i/10) * time.Millisecond)
	}
	c.Fail("file-leak", "after %s the process still holds %q", what, l)
}

func c12after(c *Case) {
	if c.Idx%3 == 2 {
		c12afterDB(c)
		return
	}
	kind := cfgNames[c.Idx%len(cfgNames)]
	gi := c.R.Intn(2) == 0
	e := newAPIEnv(c, kind, gi)
	inc := core.NewIncrementalIndex(e.S)
	ops := apiOps(kind, gi)
	for i := 0; i < 10; i++ {
		o := pick(c.R, ops)
		err := o.f(e, e.id())
		c.Check(err == nil, "spurious-error:"+o.name, "%s: %v", o.name, err)
	}
	inc.Close()
	before, err := tableDump(e.S.GetDB(), dumpTables...)
	c.Must(err, "dump")
	c.Op("%s: Close", kind)
	within(c, "Close", func() { err = e.S.Close() })
	c.Check(err == nil, "close-failed", "Close: %v", err)
	noFDs(c, "Close")
	st, serr := os.Stat(dbPath(c) + "-wal")
	c.Check(serr != nil || st.Size() == 0, "not-durable", "after Close the write-ahead log still holds %v", st)
	for round := 0; round < 2; round++ {
		for _, o := range ops {
			if o.name == "EnableHNSWIndex" && gi {
				continue
			}
			var err error
			within(c, o.name+" after Close", func() {
				err = guard(c, o.name+" after Close", func() error { return o.f(e, e.id()) })
			})
			c.Check(err != nil, "works-after-close:"+o.name, "%s succeeded after Close", o.name)
			c.Seen("operations_refused_after_close", o.name)
			c.Count("refused_after_close", 1)
		}
		err := e.S.Close()
		c.Check(err == nil, "second-close", "closing again: %v", err)
	}
	c.Nontrivial()
	noFDs(c, "operations on a closed store")
	for _, f := range []string{"dump", "bak", "ix"} {
		m, _ := filepath.Glob(filepath.Join(c.Dir, f+"[0-9]*"))
		_ = m
	}
	// a copy of the one file is the whole database
	data, err := os.ReadFile(dbPath(c))
	c.Must(err, "copy")
	cp := filepath.Join(c.Dir, "copy.db")
	c.Must(os.WriteFile(cp, data, 0o644), "copy")
	got := dumpFile(c, cp)
	c.Check(got == before, "content-changed", "the closed file differs from what was stored: %s", firstDiff(before, got))
	e.open(gi)
	got, err = tableDump(e.S.GetDB(), dumpTables...)
	c.Must(err, "dump")
	c.Check(got == before, "content-changed", "the reopened store differs: %s", firstDiff(before, got))
	for _, o := range ops {
		if !o.write {
			err := o.f(e, e.id())
			c.Check(err == nil, "spurious-error:"+o.name, "%s after reopening: %v", o.name, err)
		}
	}
	c.Check(e.S.Close() == nil, "close-failed", "Close failed")
}

// guard turns a panic of the repository into a violation.
func guard(c *Case, what string, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(caseStop); ok {
				panic(e)
			}
			c.Report("panic:"+what, "%s panicked: %v", what, e)
			err = fmt.Errorf("panic")
		}
	}()
	return f()
}

func c12afterDB(c *Case) {
	ix := []core.IndexType{core.IndexTypeHNSW, core.IndexTypeIVF, core.IndexTypeFlat}[c.Idx/3%3]
	db := dbOpen(c, ix, true)
	dbFill(c, db)
	tb := db.GraphRAGTools()
	ops := dbOps()
	for i := 0; i < 8; i++ {
		o := pick(c.R, ops)
		err := o.f(db, 1000+i)
		c.Check(err == nil, "spurious-error:"+o.name, "%s: %v", o.name, err)
	}
	before, err := tableDump(db.Vector().(*core.SQLiteStore).GetDB(), dumpTables...)
	c.Must(err, "dump")
	c.Op("database: Close")
	within(c, "Close", func() { err = db.Close() })
	c.Check(err == nil, "close-failed", "Close: %v", err)
	for round := 0; round < 2; round++ {
		for i, o := range ops {
			var err error
			within(c, o.name+" after Close", func() {
				err = guard(c, o.name+" after Close", func() error { return o.f(db, 2000+i) })
			})
			c.Check(err != nil, "works-after-close:"+o.name, "%s succeeded after Close", o.name)
			c.Seen("operations_refused_after_close", o.name)
			c.Count("refused_after_close", 1)
		}
		for _, d := range tb.Definitions() {
			within(c, "tool "+d.Name+" after Close", func() {
				guard(c, "tool "+d.Name+" after Close", func() error { return e2(tb.Call(bg, d.Name, []byte(`{}`))) })
			})
		}
		c.Check(db.Close() == nil, "second-close", "closing again failed")
	}
	noFDs(c, "Close")
	c.Nontrivial()
	got := dumpFile(c, dbPath(c))
	c.Check(got == before, "content-changed", "the closed file differs from what was stored: %s", firstDiff(before, got))
}

// c12during closes the store while operations run.
func c12during(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	gi := r.Intn(2) == 0
	e := newAPIEnv(c, kind, gi)
	ops := apiOps(kind, gi)
	if r.Intn(2) == 0 {
		// a short save interval makes background saves part of the race
		c.Check(e.S.Close() == nil, "close-failed", "Close failed")
		e.Cfg.AutoSave = core.AutoSaveConfig{Enabled: true, Interval: time.Duration(1+r.Intn(4)) * time.Millisecond}
		e.open(gi)
	}
	var closed atomic.Bool
	var okOps, refused atomic.Int64
	var mu sync.Mutex
	stored := map[string]int{}
	refusedIDs := map[string]bool{}
	closers := 1 + r.Intn(3)
	wait := r.Intn(60)
	var progress atomic.Int64
	c.Op("%s: %d closers after %d operations", kind, closers, wait)
	fork(c, closers+6, func(g int, r *rand.Rand) {
		if g < closers {
			for progress.Load() < int64(wait) {
				runtime.Gosched()
			}
			err := e.S.Close()
			closed.Store(true)
			c.Check(err == nil, "close-failed", "Close during operations: %v", err)
			return
		}
		after := 0
		for i := 0; i < 200 && after < 4; i++ {
			was := closed.Load()
			var err error
			what := ""
			if r.Intn(3) > 0 {
				n := e.id()
				id := fmt.Sprintf("own%d", n)
				what = "Upsert"
				if r.Intn(2) == 0 {
					err = e.S.Upsert(bg, tagEmb(id, n, e.Dim))
				} else {
					what = "UpsertBatch"
					err = e.S.UpsertBatch(bg, []*core.Embedding{tagEmb(id, n, e.Dim)})
				}
				mu.Lock()
				if err == nil {
					stored[id] = n
				} else {
					refusedIDs[id] = true
				}
				mu.Unlock()
			} else {
				o := pick(r, ops)
				if o.name == "EnableHNSWIndex" || o.name == "ImportIndex" {
					continue
				}
				what = o.name
				err = o.f(e, e.id())
			}
			progress.Add(1)
			if was {
				after++
				c.Check(err != nil, "works-after-close:"+what, "%s, begun after Close returned, succeeded", what)
			}
			if err == nil {
				okOps.Add(1)
			} else {
				refused.Add(1)
				c.Check(was || refusal(err), "spurious-error:"+what, "%s while the store is being closed: %v", what, err)
			}
		}
	})
	noFDs(c, "Close during operations")
	c.Count("operations_done", int(okOps.Load()))
	c.Count("operations_refused", int(refused.Load()))
	if okOps.Load() > 0 && refused.Load() > 0 {
		c.Nontrivial()
	}
	e.open(gi)
	defer e.S.Close()
	for id, n := range stored {
		x, err := e.S.GetByID(bg, id)
		c.Check(err == nil, "lost-record", "the write of %q reported success before the store was closed; now: %v", id, err)
		c.Check(whole(c, "GetByID", id, x.Content, x.Vector, x.Metadata) == n, "wrong-record", "record %q is %+v", id, x)
	}
	for id := range refusedIDs {
		_, err := e.S.GetByID(bg, id)
		c.Check(errors.Is(err, core.ErrNotFound), "refused-but-stored", "the write of %q was refused because of the close, and it is stored (%v)", id, err)
	}
	orphans(c, e.S.GetDB())
	err := ftsCheck(e.S.GetDB(), "chunks_fts")
	c.Check(err == nil, "fts-mismatch", "full-text index after the close: %v", err)
	res, err := e.S.Search(bg, e.v(2), core.SearchOptions{TopK: 10000})
	c.Check(err == nil, "spurious-error:Search", "Search: %v", err)
	found := map[string]bool{}
	for _, x := range res {
		found[x.ID] = true
	}
	if kind == "flat" {
		for id := range stored {
			c.Check(found[id], "lost-record", "record %q is not found after reopening", id)
		}
	}
}

// refusal tells errors that name the close from others.
// c12each lets every operation in turn run into a close: done or refused, and always properly synchronised.
func c12each(c *Case) {
	kind, gi := cfgNames[c.Idx/16*3%len(cfgNames)], c.Idx%2 == 0
	for i, o := range apiOps(kind, gi) {
		if i%16 != c.Idx%16 || o.name == "EnableHNSWIndex" || o.name == "ImportIndex" {
			continue
		}
		e := newAPIEnv(c, kind, gi)
		c.Op("%s: %s while closing", kind, o.name)
		n := make([]int, 5)
		fork(c, 5, func(g int, r *rand.Rand) {
			if g == 4 { // comes later, but nothing other than the store itself orders it after the close
				time.Sleep(25 * time.Millisecond)
				if o.f(e, 4000) == nil {
					n[g]++
				}
				return
			}
			if g == 0 {
				time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
				err := e.S.Close()
				c.Check(err == nil, "close-failed", "Close during %s: %v", o.name, err)
				return
			}
			for k := 0; k < 3; k++ {
				err := o.f(e, 1000*g+k)
				c.Check(err == nil || refusal(err), "spurious-error:"+o.name, "%s while the store is being closed: %v", o.name, err)
				if err == nil {
					n[g]++
				}
			}
		})
		err := o.f(e, 5000)
		c.Check(err != nil, "works-after-close:"+o.name, "%s succeeded after Close", o.name)
		done := n[1] + n[2] + n[3] + n[4]
		c.Count("operations_done", done)
		c.Count("operations_refused", 10-done)
		c.Seen("closed_under", o.name)
		c.Nontrivial()
		noFDs(c, "Close during "+o.name)
		for _, x := range []string{"", "-wal", "-shm"} {
			os.Remove(dbPath(c) + x)
		}
	}
}

func refusal(err error) bool {
	s := err.Error()
	return errors.Is(err, core.ErrStoreClosed) || strings.Contains(s, "closed") || strings.Contains(s, "interrupted") || strings.Contains(s, "not found")
}

// c12leaks opens and closes repeatedly; nothing may be left.
func c12leaks(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	base := dbGoroutines()
	var saves atomic.Int64
	for i := 0; i < 4; i++ {
		free := make(chan int, 1)
		interval := []time.Duration{time.Millisecond, 3 * time.Millisecond, time.Hour, 10 * time.Millisecond}[i]
		c12cycle(c, kind, interval, r, free, &saves)
		noFDs(c, "Close")
		n := 0
		for k := 0; k < 400; k++ {
			if n = dbGoroutines(); n <= base {
				break
			}
			time.Sleep(time.Duration(1+k/10) * time.Millisecond)
		}
		if n > base {
			c.Fail("goroutine-leak", "%d goroutines of the store or its pool are left after Close:\n%s", n-base, clip(allStacks(), 20000))
		}
		ok := false
		for k := 0; k < 300 && !ok; k++ {
			runtime.GC()
			select {
			case <-free:
				ok = true
			case <-time.After(time.Duration(1+k/4) * time.Millisecond):
			}
		}
		c.Check(ok, "retained", "the closed store is still reachable (a timer or goroutine keeps it), save interval %v", interval)
		c.Count("closed_stores_released", 1)
	}
	c.Count("background_saves_seen", int(saves.Load()))
	if saves.Load() > 0 || kind == "flat" {
		c.Nontrivial()
	}
}

// saveLog counts what the store logs.
type saveLog struct {
	n      *atomic.Int64
	closed atomic.Bool
	late   atomic.Int64
}

func (l *saveLog) note(msg string) {
	if strings.Contains(msg, "snapshot saved") {
		l.n.Add(1)
		if l.closed.Load() {
			l.late.Add(1)
		}
	}
}
func (l *saveLog) Debug(msg string, kv ...any) { l.note(msg) }
func (l *saveLog) Info(msg string, kv ...any)  { l.note(msg) }
func (l *saveLog) Warn(msg string, kv ...any)  { l.note(msg) }
func (l *saveLog) Error(msg string, kv ...any) { l.note(msg) }
func (l *saveLog) With(kv ...any) core.Logger  { return l }

//go:noinline
func c12cycle(c *Case, kind string, interval time.Duration, r *rand.Rand, free chan int, saves *atomic.Int64) {
	cfg := mkConfig(dbPath(c), kind, 4, "cosine")
	cfg.AutoSave = core.AutoSaveConfig{Enabled: true, Interval: interval}
	lg := &saveLog{n: saves}
	cfg.Logger = lg
	s, err := core.NewWithConfig(cfg)
	c.Check(err == nil, "open-failed", "open: %v", err)
	runtime.AddCleanup(s, func(int) { free <- 1 }, 0)
	err = s.Init(bg)
	c.Check(err == nil, "open-failed", "init: %v", err)
	inits := r.Intn(3)
	for i := 0; i < inits; i++ { // initialising again must not start a second timer
		err = s.Init(bg)
		c.Check(err == nil, "open-failed", "init again: %v", err)
	}
	c.Op("%s: open, %d further inits, save interval %v", kind, inits, interval)
	for i := 0; i < 10+r.Intn(20); i++ {
		err := s.Upsert(bg, tagEmb(fmt.Sprintf("r%d", i), i+1, 4))
		c.Check(err == nil, "spurious-error:Upsert", "Upsert: %v", err)
		if r.Intn(3) == 0 {
			_, err = s.Search(bg, tagVec(i, 4), core.SearchOptions{TopK: 3})
			c.Check(err == nil, "spurious-error:Search", "Search: %v", err)
		}
		jitter(r)
	}
	if interval < time.Second {
		time.Sleep(interval * time.Duration(r.Intn(4)))
	}
	within(c, "Close", func() { err = s.Close() })
	lg.closed.Store(true)
	c.Check(err == nil, "close-failed", "Close: %v", err)
	if interval < time.Second {
		time.Sleep(3 * interval)
	}
	c.Check(lg.late.Load() == 0, "save-after-close", "a snapshot was saved after Close returned")
}

// dbGoroutines counts goroutines of the store and of its connection pool.
func dbGoroutines() int {
	n := 0
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "connectionOpener") || strings.Contains(g, "cortexdb/v2/pkg/") {
			n++
		}
	}
	return n
}

// c12failed: an open that fails leaves nothing behind and the path stays usable.
func c12failed(c *Case) {
	r := c.R
	base := dbGoroutines()
	{ // an opening that was given up can be repeated
		s, err := core.NewWithConfig(mkConfig(filepath.Join(c.Dir, "again.db"), pick(r, []string{"flat", "hnsw", "ivf"}), 4, "cosine"))
		c.Check(err == nil, "open-failed", "open: %v", err)
		ctx, cancel := context.WithCancel(bg)
		cancel()
		err = s.Init(ctx)
		c.Op("Init under a cancelled context: %v", err)
		c.Check(err != nil, "bad-open", "Init under a cancelled context succeeded")
		if r.Intn(2) == 0 {
			err = s.Init(bg)
			c.Check(err == nil, "open-failed", "Init again: %v", err)
			err = s.Upsert(bg, tagEmb("x", 1, 4))
			c.Check(err == nil, "spurious-error:Upsert", "Upsert after the second Init: %v", err)
			_, err = s.GetByID(bg, "x")
			c.Check(err == nil, "spurious-error:GetByID", "GetByID after the second Init: %v", err)
		}
		c.Check(s.Close() == nil, "close-failed", "close failed")
		noFDs(c, "a failed Init")
	}
	for i := 0; i < 5; i++ {
		path := filepath.Join(c.Dir, fmt.Sprintf("f%d.db", i))
		why := ""
		switch (c.Idx + i) % 4 {
		case 0:
			b := make([]byte, 5000)
			r.Read(b)
			c.Must(os.WriteFile(path, b, 0o644), "write")
			why = "not a database"
		case 1:
			c.Must(os.Mkdir(path, 0o755), "mkdir")
			why = "a directory"
		case 2:
			path = filepath.Join(c.Dir, fmt.Sprintf("no%d", i), "such", "t.db")
			why = "missing directory"
		default:
			// a database whose page is damaged
			s, err := core.NewWithConfig(mkConfig(path, "flat", 4, "cosine"))
			c.Check(err == nil, "open-failed", "open: %v", err)
			c.Check(s.Init(bg) == nil, "open-failed", "init failed")
			for k := 0; k < 50; k++ {
				s.Upsert(bg, tagEmb(fmt.Sprint(k), k+1, 4))
			}
			c.Check(s.Close() == nil, "close-failed", "close failed")
			b, err := os.ReadFile(path)
			c.Must(err, "read")
			for k := 100; k < 4096; k++ {
				b[k] = byte(r.Intn(256))
			}
			c.Must(os.WriteFile(path, b, 0o644), "write")
			why = "damaged first page"
		}
		c.Op("open: %s", why)
		var db *cortexdb.DB
		var err error
		within(c, "Open", func() {
			err = guard(c, "Open of "+why, func() error {
				var err error
				db, err = cortexdb.Open(cortexdb.Config{Path: path, Dimensions: 4, IndexType: core.IndexTypeHNSW})
				return err
			})
		})
		if err == nil {
			c.Count("opened_anyway", 1)
			c.Check(why == "missing directory", "bad-open", "opening %s succeeded", why)
			c.Check(db.Close() == nil, "close-failed", "close failed")
		} else {
			c.Count("failed_opens", 1)
			c.Nontrivial()
		}
		noFDs(c, "a failed open ("+why+")")
		n := 0
		for k := 0; k < 300; k++ {
			if n = dbGoroutines(); n <= base {
				break
			}
			time.Sleep(time.Duration(1+k/10) * time.Millisecond)
		}
		c.Check(n <= base, "goroutine-leak:failed open", "%d goroutines are left by a failed open (%s)", n-base, why)
	}
}
