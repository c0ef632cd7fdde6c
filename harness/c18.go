package main

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C18", Level: "exploration",
		Rule: "a case is one stored set with range searches and streams of several batch sizes run to the end (part sets), streams cancelled, abandoned or overtaken by writes and closes at drawn points under the race detector (part ends), or one history of queued updates (part queue); non-trivial when a stream delivered several batches, was cut off part way, or an update was overwritten in the queue",
		Run: func(r *Run) {
			r.Parallel("sets", r.N(20, 300), 0, c18sets)
			r.Parallel("large", r.N(3, 24), 0, c18large)
			r.Parallel("ends", r.N(10, 150), 1, c18ends)
			r.Parallel("slow", r.N(3, 12), 0, c18slow)
			r.Parallel("queue", r.N(20, 240), 0, c18queue)
		}})
}

const never = time.Hour

func streamOf(ch <-chan core.StreamingResult) (out []core.ScoredEmbedding) {
	for x := range ch {
		out = append(out, x.ScoredEmbedding)
	}
	return
}

func c18sets(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	w := c17world(c, cfgNames[c.Idx%len(cfgNames)], sim)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	w.VecStyle = (c.Idx / 3) % 3
	if c.Idx%6 == 5 {
		w.Fill(300 + r.Intn(500))
	}
	for i := 0; i < 40; i++ {
		w.Step()
	}
	for i := 0; i < 10; i++ {
		for j := 0; j < 3; j++ {
			if sim != "dot" {
				w.c18range(sim)
			}
			w.c18stream(sim)
		}
		w.c18many(sim)
		w.Step()
	}
	w.close()
}

func (w *World) c18range(sim string) {
	c, r := w.c, w.R
	q, _ := w.query()
	o := w.options()
	dist := func(v []float32) (float64, float64) {
		s := refSim(sim, q, v)
		d := 1 - s
		if sim == "euclid" {
			d = -s
		}
		return d, 2e-6 * (scaleOf(sim, q, v) + math.Abs(d))
	}
	pred := optPred(o)
	var all []ranked
	for _, x := range w.Recs {
		if pred(x) {
			d, t := dist(x.Vec)
			all = append(all, ranked{x, -d, t})
		}
	}
	radius := float32(math.Abs(r.NormFloat64()) * 2)
	if len(all) > 0 && r.Intn(3) > 0 {
		radius = float32(-pick(r, all).score) * pick(r, []float32{1, 1.01, 0.99})
	}
	if r.Intn(10) == 0 {
		radius = pick(r, []float32{0, -1, 3e38, 1e-30})
	}
	c.Op("RangeSearch radius %v %s", radius, optStr(o))
	arg := cpVec(q)
	res, err := w.S.RangeSearch(bg, arg, radius, cpOpts(o))
	c.Check(bitsEq(arg, q), "argument-modified", "RangeSearch modified its query")
	if radius <= 0 {
		c.Check(err != nil, "radius-accepted", "RangeSearch accepted radius %v", radius)
		return
	}
	w.ok(err, "RangeSearch")
	var cand []ranked
	maybe := map[string]bool{}
	must := 0
	for _, x := range all {
		d := -x.score
		if d <= float64(radius)+x.tol {
			cand = append(cand, x)
			if d >= float64(radius)-x.tol {
				maybe[x.rec.ID] = true
			} else {
				must++
			}
		}
	}
	// the reported score is the distance: negate to judge it as a similarity
	neg := append([]core.ScoredEmbedding(nil), res...)
	for i := range neg {
		neg[i].Score = -neg[i].Score
	}
	w.checkResults("RangeSearch", neg, cand, o.TopK, 0, searchMode{noCount: true})
	lim := func(n int) int {
		if o.TopK > 0 {
			return min(n, o.TopK)
		}
		return n
	}
	c.Check(len(res) >= lim(must) && len(res) <= lim(must+len(maybe)), "wrong-count:RangeSearch", "RangeSearch returned %d records, %d lie within %v (and %d on it), K=%d", len(res), must, radius, len(maybe), o.TopK)
	in := map[string]bool{}
	last := math.Inf(-1)
	for _, e := range res {
		in[e.ID] = true
		last = e.Score
	}
	for _, x := range cand {
		if !in[x.rec.ID] && !maybe[x.rec.ID] {
			c.Check(o.TopK > 0 && len(res) == o.TopK && -x.score >= last-2*x.tol, "missing-result:RangeSearch", "RangeSearch within %v left out %q at distance %v (last result at %v, K=%d)", radius, x.rec.ID, -x.score, last, o.TopK)
		}
	}
	c.Count("range_searches", 1)
	if must > 0 && must < len(all) {
		c.Count("range_partial", 1)
	}
	if r.Intn(3) == 0 {
		qs := [][]float32{cpVec(q)}
		for len(qs) < 1+r.Intn(5) {
			v := w.vec()
			if len(w.Recs) > 0 && r.Intn(2) == 0 {
				v = cpVec(w.Recs[pick(r, sortedKeys(w.Recs))].Vec)
			}
			qs = append(qs, v)
		}
		r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
		b, err := w.S.BatchRangeSearch(bg, qs, radius, cpOpts(o))
		w.ok(err, "BatchRangeSearch")
		c.Check(len(b) == len(qs), "wrong-count:BatchRangeSearch", "BatchRangeSearch of %d queries gave %d answers", len(qs), len(b))
		for i, v := range qs {
			one, err := w.S.RangeSearch(bg, v, radius, cpOpts(o))
			w.ok(err, "RangeSearch")
			c.Check(strings.Join(sortedStr(ids(b[i])), "\n") == strings.Join(sortedStr(ids(one)), "\n") || hasTie(one), "batch-differs", "BatchRangeSearch gave %v where RangeSearch gave %v", ids(b[i]), ids(one))
			c.Count("batch_answers", 1)
		}
	}
}

func sortedStr(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

func hasTie(res []core.ScoredEmbedding) bool {
	for i := 1; i < len(res); i++ {
		if res[i].Score == res[i-1].Score {
			return true
		}
	}
	return false
}

func (w *World) c18stream(sim string) {
	c, r := w.c, w.R
	q, _ := w.query()
	o := core.StreamingOptions{SearchOptions: w.options(), BatchSize: pick(r, []int{0, -1, 1, 2, 3, 7, 50, len(w.Recs), 1000}), MaxLatency: never}
	pred := optPred(o.SearchOptions)
	cand := w.rank(sim, q, pred)
	o.Threshold = w.threshold(cand)
	k := pick(r, []int{1, 2, 5, len(cand), len(cand) + 3, 0, -1})
	var calls [][2]int
	o.ProgressCallback = func(done, total int) { calls = append(calls, [2]int{done, total}) }
	early := r.Intn(3) == 0
	if early {
		o.EarlyTerminate = true
		o.QualityThreshold = -1e30
		if len(cand) > 0 && r.Intn(3) > 0 {
			o.QualityThreshold = pick(r, cand).score
		}
	}
	c.Op("StreamSearch batch=%d early=%v quality=%v %s", o.BatchSize, early, o.QualityThreshold, optStr(o.SearchOptions))
	arg := cpVec(q)
	ch, err := w.S.StreamSearch(bg, arg, o)
	w.ok(err, "StreamSearch")
	for i := range arg {
		arg[i] = 99 // the caller may reuse its query
	}
	if r.Intn(2) == 0 && !early {
		top, err := core.CollectTopKFromStream(bg, ch, k)
		w.ok(err, "CollectTopKFromStream")
		if k <= 0 {
			c.Check(len(top) == 0, "wrong-count:CollectTopK", "CollectTopKFromStream of %d gave %d", k, len(top))
		} else {
			w.checkResults("CollectTopK", top, cand, k, o.Threshold, searchMode{exact: true})
		}
	} else {
		var got []core.ScoredEmbedding
		batches := map[int]bool{}
		good, goodSure := 0, 0
		for x := range ch {
			got = append(got, x.ScoredEmbedding)
			batches[x.BatchID] = true
			t := 2e-6 * scaleOf(sim, q, x.Vector)
			if x.Score >= o.QualityThreshold-t {
				good++
			}
			if x.Score >= o.QualityThreshold+t {
				goodSure++
			}
		}
		m := searchMode{unordered: true, noCount: early}
		w.checkResults("StreamSearch", got, cand, 0, o.Threshold, m)
		if early {
			full := 0
			for _, x := range cand {
				if o.Threshold <= 0 || x.score >= o.Threshold+x.tol {
					full++
				}
			}
			if len(got) < full {
				c.Check(o.TopK > 0 && good >= o.TopK, "ended-early", "the stream ended after %d of %d records with %d of the %d good results that were asked for", len(got), full, good, o.TopK)
				c.Count("early_ends", 1)
			}
			if o.TopK > 0 {
				c.Check(goodSure <= o.TopK, "ended-late", "the stream delivered %d good results, it was to stop at %d", goodSure, o.TopK)
			}
		}
		if len(batches) > 1 {
			c.Nontrivial()
			c.Count("multi_batch_streams", 1)
		}
	}
	if r.Intn(4) == 0 {
		stream := func(thr float64) []core.ScoredEmbedding {
			ch, err := w.S.StreamSearch(bg, cpVec(q), core.StreamingOptions{SearchOptions: core.SearchOptions{Collection: o.Collection, Filter: o.Filter, Threshold: thr}, MaxLatency: never})
			w.ok(err, "StreamSearch")
			return streamOf(ch)
		}
		w.exactThreshold("StreamSearch", stream(0), stream)
	}
	last := 0
	for _, x := range calls {
		c.Check(x[0] > last && x[0] <= x[1] && x[1] == len(cand), "progress", "progress reports %v for %d candidates", calls, len(cand))
		last = x[0]
	}
	c.Check(early || last == len(cand), "progress", "a stream over %d candidates that ended reported progress %v", len(cand), calls)
	c.Count("streams", 1)
}

// exactThreshold reruns a search with the score of one of its own results as the threshold: that result is not below it.
func (w *World) exactThreshold(op string, res []core.ScoredEmbedding, again func(thr float64) []core.ScoredEmbedding) {
	var pos []core.ScoredEmbedding
	for _, e := range res {
		if e.Score > 0 {
			pos = append(pos, e)
		}
	}
	if len(pos) == 0 {
		return
	}
	x := pick(w.R, pos)
	w.c.Op("%s with threshold %v, the score of %q", op, x.Score, x.ID)
	found := false
	for _, e := range again(x.Score) {
		found = found || e.ID == x.ID
		w.c.Check(e.Score >= x.Score, "below-threshold:"+op, "%s returned %q with score %v below the threshold %v", op, e.ID, e.Score, x.Score)
	}
	w.c.Check(found, "at-threshold:"+op, "%s with threshold %v left out %q, whose score it is", op, x.Score, x.ID)
	w.c.Count("exact_thresholds", 1)
}

// c18large: streams over more records than any plausible internal limit.
func c18large(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	w := c17world(c, []string{"flat", "hnsw", "ivf", "flat"}[c.Idx%4], sim)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	w.Fill(1050 + r.Intn(300))
	cand := func(q []float32) []ranked { return w.rank(sim, q, func(*Rec) bool { return true }) }
	for _, b := range []int{0, 400, 1000, 1 + len(w.Recs)/2, 5000} {
		q, _ := w.query()
		o := core.StreamingOptions{BatchSize: b, MaxLatency: never}
		c.Op("StreamSearch of %d batch=%d", len(w.Recs), b)
		ch, err := w.S.StreamSearch(bg, cpVec(q), o)
		w.ok(err, "StreamSearch")
		if b == 1000 {
			top, err := core.CollectTopKFromStream(bg, ch, 1020)
			w.ok(err, "CollectTopKFromStream")
			w.checkResults("CollectTopK", top, cand(q), 1020, 0, searchMode{exact: true})
		} else {
			w.checkResults("StreamSearch", streamOf(ch), cand(q), 0, 0, searchMode{unordered: true})
		}
		qs := w.examples(3)
		chs, err := w.S.ParallelStreamSearch(bg, cpVecs(qs), o)
		w.ok(err, "ParallelStreamSearch")
		n := 0
		for range core.MergeStreamResults(bg, chs...) {
			n++
		}
		c.Check(n == 3*len(w.Recs), "delivery:Merge", "three merged streams over %d records delivered %d results", len(w.Recs), n)
		c.Count("large_streams", 2)
	}
	if sim != "dot" {
		q, _ := w.query()
		for _, k := range []int{0, 1010, 5000} {
			c.Op("RangeSearch of everything K=%d", k)
			res, err := w.S.RangeSearch(bg, cpVec(q), 3e38, core.SearchOptions{TopK: k})
			w.ok(err, "RangeSearch")
			want := len(w.Recs)
			if k > 0 {
				want = min(want, k)
			}
			c.Check(len(res) == want, "wrong-count:RangeSearch", "RangeSearch returned %d of %d records within the radius, K=%d", len(res), len(w.Recs), k)
		}
	}
	c.Nontrivial()
	w.close()
}

// c18slow: a consumer that pauses loses nothing that its buffer or its patience covers.
func c18slow(c *Case) {
	r := c.R
	w := c17world(c, "flat", sims[c.Idx%3])
	defer w.S.Close()
	w.Fill(30 + r.Intn(30))
	pause := func(d time.Duration, f func() (core.StreamingResult, bool), what string, times int) {
		got := map[string]int{}
		for i := 0; ; i++ {
			if i < 3 || i%17 == 5 {
				time.Sleep(d)
			}
			x, ok := f()
			if !ok {
				break
			}
			got[x.ID]++
		}
		for id := range w.Recs {
			c.Check(got[id] == times, "delivery:slow", "%s: a consumer that paused received %q %d times, want %d", what, id, got[id], times)
		}
		c.Count("slow_streams", 1)
	}
	recv := func(ch <-chan core.StreamingResult) func() (core.StreamingResult, bool) {
		return func() (core.StreamingResult, bool) { x, ok := <-ch; return x, ok }
	}
	// a buffer smaller than the stream: only patience helps
	c.Op("slow reader of small batches")
	ch, err := w.S.StreamSearch(bg, w.vec(), core.StreamingOptions{BatchSize: 2, MaxLatency: never})
	w.ok(err, "StreamSearch")
	pause(150*time.Millisecond, recv(ch), "StreamSearch", 1)
	c.Op("slow reader of merged streams")
	chs, err := w.S.ParallelStreamSearch(bg, [][]float32{w.vec(), w.vec()}, core.StreamingOptions{BatchSize: 2, MaxLatency: never})
	w.ok(err, "ParallelStreamSearch")
	pause(150*time.Millisecond, recv(core.MergeStreamResults(bg, chs...)), "MergeStreamResults", 2)
	// a buffer as large as the stream: nobody has to wait
	c.Op("late reader of one batch")
	ch, err = w.S.StreamSearch(bg, w.vec(), core.StreamingOptions{BatchSize: len(w.Recs) + r.Intn(50), MaxLatency: 1200 * time.Millisecond})
	w.ok(err, "StreamSearch")
	time.Sleep(2 * time.Second)
	pause(0, recv(ch), "StreamSearch with room for every result", 1)
	c.Nontrivial()
	w.close()
}

// c18many: parallel and merged streams.
func (w *World) c18many(sim string) {
	c, r := w.c, w.R
	n := 1 + r.Intn(4)
	qs := w.examples(n)
	o := core.StreamingOptions{SearchOptions: core.SearchOptions{}, BatchSize: 1 + r.Intn(20), MaxLatency: never}
	if r.Intn(3) == 0 {
		o.Collection = pick(r, sortedKeys(w.Colls))
	} else if r.Intn(2) == 0 {
		o.SearchOptions = w.options()
	}
	pred := optPred(o.SearchOptions)
	c.Op("ParallelStreamSearch %d queries batch=%d %s", n, o.BatchSize, optStr(o.SearchOptions))
	chs, err := w.S.ParallelStreamSearch(bg, cpVecs(qs), o)
	w.ok(err, "ParallelStreamSearch")
	c.Check(len(chs) == n, "wrong-count:ParallelStreamSearch", "%d queries gave %d streams", n, len(chs))
	switch r.Intn(3) {
	case 0:
		for i := range chs {
			w.checkResults("ParallelStreamSearch", streamOf(chs[i]), w.rank(sim, qs[i], pred), 0, 0, searchMode{unordered: true})
		}
	case 1:
		got := map[string]int{}
		for x := range core.MergeStreamResults(bg, chs...) {
			got[x.ID]++
			ok := false
			for _, q := range qs {
				ok = ok || math.Abs(x.Score-refSim(sim, q, x.Vector)) <= 1e-6*scaleOf(sim, q, x.Vector)
			}
			c.Check(ok, "wrong-score:Merge", "the merged stream delivers %q with score %v, which is its similarity to no query", x.ID, x.Score)
		}
		for id, x := range w.Recs {
			want := 0
			if pred(x) {
				want = n
			}
			c.Check(got[id] == want, "delivery:Merge", "the merge of %d streams delivered %q %d times, want %d", n, id, got[id], want)
			delete(got, id)
		}
		c.Check(len(got) == 0, "stale-result:Merge", "the merged stream delivered %v, not stored", got)
	default:
		// the best similarity of each record over all queries ranks it
		k := pick(r, []int{1, 3, 10, 1000})
		top, err := core.CollectTopKFromStream(bg, core.MergeStreamResults(bg, chs...), k)
		w.ok(err, "CollectTopKFromStream")
		want := map[string]want17{}
		for id, x := range w.Recs {
			if pred(x) {
				y := want17{math.Inf(-1), 0}
				for _, q := range qs {
					y.score = math.Max(y.score, refSim(sim, q, x.Vec))
					y.tol = math.Max(y.tol, 1e-6*scaleOf(sim, q, x.Vec))
				}
				want[id] = y
			}
		}
		ids, sc := split(top)
		judgeRank(c, "CollectTopK-merged", ids, sc, want, k)
	}
}

// repoGoroutines counts goroutines running or created by the repository's core package.
func repoGoroutines() (int, string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	var txt []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "cortexdb/v2/pkg/") && !strings.Contains(g, "zzverif.c18ends") && !strings.Contains(g, "main.c18ends") {
			n++
			txt = append(txt, g)
		}
	}
	return n, strings.Join(txt, "\n\n")
}

// settle waits for the repository's goroutines to go back to at most n.
func settle(c *Case, n int, what string) {
	var got int
	var txt string
	for i := 0; i < 600; i++ {
		if got, txt = repoGoroutines(); got <= n {
			return
		}
		time.Sleep(time.Duration(1+i/4) * time.Millisecond)
	}
	c.Fail("goroutine-leak:"+what, "after %s %d goroutines of the repository keep running (at most %d did before):\n%s", what, got, n, txt)
}

// within runs f, which must come to an end: nothing it waits for is left outstanding.
func within(c *Case, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		buf := make([]byte, 1<<19)
		c.Fail("blocked:"+what, "%s has not come to an end:\n%s", what, buf[:runtime.Stack(buf, true)])
	}
}

func c18ends(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	w := c17world(c, cfgNames[c.Idx%len(cfgNames)], sim)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	w.Fill(60 + r.Intn(200))
	for i := 0; i < 10; i++ {
		w.Step()
	}
	base, _ := repoGoroutines()
	for i := 0; i < 8; i++ {
		snapshot := map[string]*Rec{}
		for id, x := range w.Recs {
			snapshot[id] = x
		}
		check := func(got []core.StreamingResult) {
			seen := map[string]bool{}
			for _, x := range got {
				c.Check(!seen[x.ID], "duplicate-result", "the stream delivered %q twice", x.ID)
				seen[x.ID] = true
				y := snapshot[x.ID]
				c.Check(y != nil, "stale-result", "the stream delivered %q, which was not stored when it began", x.ID)
				d := diffRec(&x.Embedding, y, false)
				c.Check(d == "", "stale-content", "the stream delivered %q with %s", x.ID, d)
			}
		}
		o := core.StreamingOptions{BatchSize: pick(r, []int{1, 2, 5, 20, 500}), MaxLatency: never}
		q, _ := w.query()
		ctx, cancel := context.WithCancel(bg)
		n := r.Intn(len(snapshot) + 1)
		mode := r.Intn(7)
		c.Op("mode %d: stream of %d, batch %d, %d taken", mode, len(snapshot), o.BatchSize, n)
		if mode == 6 {
			o.MaxLatency = time.Millisecond
		}
		var ch <-chan core.StreamingResult
		var err error
		if mode == 5 {
			var chs []<-chan core.StreamingResult
			chs, err = w.S.ParallelStreamSearch(ctx, [][]float32{q, w.vec(), w.vec()}, o)
			w.ok(err, "ParallelStreamSearch")
			ch = core.MergeStreamResults(ctx, chs...)
		} else {
			ch, err = w.S.StreamSearch(ctx, cpVec(q), o)
			w.ok(err, "StreamSearch")
		}
		var got []core.StreamingResult
		take := func(m int) {
			for len(got) < m {
				x, ok := <-ch
				if !ok {
					return
				}
				got = append(got, x)
			}
		}
		within(c, "receiving", func() { take(n) })
		switch mode {
		case 0, 1, 5: // cancel, then what is left is bounded and the channel is closed
			if mode == 1 {
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); cancel() }()
				within(c, "receiving during cancellation", func() { take(1 << 30) })
				wg.Wait()
			}
			cancel()
			if mode != 5 || r.Intn(2) == 0 {
				within(c, "draining a cancelled stream", func() { take(1 << 30) })
			}
			if mode != 5 {
				check(got)
			}
			c.Count("cancelled", 1)
			if n > 0 && n < len(snapshot) {
				c.Nontrivial()
			}
		case 2: // cancel and abandon without draining
			cancel()
			c.Count("abandoned", 1)
		case 3: // writers are not blocked by an open stream, and it goes on with what it began with
			within(c, "writing beside an open stream", func() {
				for j := 0; j < 6; j++ {
					w.Step()
				}
			})
			within(c, "draining", func() { take(1 << 30) })
			check(got)
			c.Check(len(got) == len(snapshot), "wrong-count", "a stream over %d records delivered %d", len(snapshot), len(got))
			c.Count("written_beside", 1)
		case 4: // collecting is ended by cancellation
			cancel()
			within(c, "collecting from a cancelled stream", func() {
				top, err := core.CollectTopKFromStream(ctx, ch, 5)
				c.Check(len(top) <= 5, "too-many", "%d collected", len(top))
				c.Check(err == nil || err == context.Canceled, "collect-error", "CollectTopKFromStream: %v", err)
				for _, e := range top {
					c.Check(snapshot[e.ID] != nil, "stale-result", "collected %q, which is not stored", e.ID)
				}
			})
			c.Count("collect_cancelled", 1)
		case 6: // abandoned without cancelling: it gives up by itself
			check(got)
			c.Count("abandoned_uncancelled", 1)
		}
		settle(c, base, fmt.Sprintf("ending a stream in mode %d", mode))
		cancel()
	}
	// a failing query among several leaves no stream behind
	c.Op("ParallelStreamSearch with a query of another length")
	_, err := w.S.ParallelStreamSearch(bg, [][]float32{w.vec(), w.vec(), make([]float32, w.Dim+3)}, core.StreamingOptions{BatchSize: 1, MaxLatency: never})
	if err != nil {
		settle(c, base, "a failed ParallelStreamSearch")
		c.Count("failed_parallel", 1)
	}
	// closing the store leaves an open stream to end by itself or to deliver the rest
	ch, err := w.S.StreamSearch(bg, w.vec(), core.StreamingOptions{BatchSize: 3, MaxLatency: never})
	w.ok(err, "StreamSearch")
	<-ch
	c.Op("Close with an open stream")
	within(c, "closing beside an open stream", func() { w.ok(w.S.Close(), "Close") })
	within(c, "draining after close", func() {
		for range ch {
		}
	})
	_, err = w.S.StreamSearch(bg, w.vec(), core.StreamingOptions{})
	c.Check(err != nil, "closed-accepted", "StreamSearch on a closed store succeeded")
	w.S = nil
}

// c18queue: the incremental index.
func c18queue(c *Case) {
	r := c.R
	sim := sims[c.Idx%3]
	w := c17world(c, cfgNames[c.Idx%len(cfgNames)], sim)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for i := 0; i < 10; i++ {
		w.Step()
	}
	idx := core.NewIncrementalIndex(w.S)
	open := true
	queued := map[string]bool{}
	refused := 0
	search := func() {
		q, _ := w.query()
		o := w.options()
		c.Op("SearchWithUpdates %s", optStr(o))
		res, err := idx.SearchWithUpdates(bg, cpVec(q), o)
		w.ok(err, "SearchWithUpdates")
		queued = map[string]bool{}
		w.checkResults("SearchWithUpdates", res, w.rank(sim, q, optPred(o)), kOf(o), 0, searchMode{exact: w.Cfg.IndexType == core.IndexTypeFlat})
		c.Count("searches_with_updates", 1)
	}
	for i := 0; i < 60; i++ {
		switch x := r.Intn(10); {
		case x < 7:
			n := 1 + r.Intn(4)
			if r.Intn(12) == 0 {
				n = 130 // more than the queue holds
			}
			for j := 0; j < n; j++ {
				id := pick(r, w.IDs)
				if n > 100 {
					id = fmt.Sprintf("bulk%03d", j)
				}
				x := w.newRec(id)
				if w.Docs[x.Doc] == nil {
					x.Doc = ""
				}
				if !w.Colls[x.Coll] {
					x.Coll = "default"
				}
				e := x.emb()
				err := idx.AddAsync(e)
				// the caller may reuse its record
				for k := range e.Vector {
					e.Vector[k] = 77
				}
				for k := range e.Metadata {
					e.Metadata[k] = "reused"
				}
				for k := range e.ACL {
					e.ACL[k] = "reused"
				}
				e.Content = "reused"
				c.Op("AddAsync %v: %v", x, err)
				if !open {
					c.Check(err != nil, "closed-accepted", "AddAsync on a closed index succeeded")
					continue
				}
				if err != nil {
					refused++
					c.Check(n > 100 || len(queued) > 0, "add-refused", "AddAsync refused %v: %v", x, err)
					continue
				}
				if queued[x.ID] {
					c.Nontrivial()
				}
				queued[x.ID] = true
				w.put(x)
				c.Count("queued", 1)
			}
		case x == 7:
			bad := []*core.Embedding{nil, {ID: "", Vector: randVec(r, w.Dim, 0)}, {ID: "nan", Vector: []float32{float32(math.NaN())}}}
			e := pick(r, bad)
			err := idx.AddAsync(e)
			c.Check(err != nil, "invalid-accepted", "AddAsync accepted %v", e)
		case x == 8:
			// accepted, but storing it fails: the others are stored all the same
			if err := idx.AddAsync(&core.Embedding{ID: "nodoc", DocID: "no such document", Vector: randVec(r, w.Dim, 0)}); err == nil {
				c.Count("poisoned", 1)
			}
		default:
			search()
			w.CheckPoint()
		}
		if i == 50 && c.Idx%2 == 0 {
			c.Op("Close of the incremental index")
			within(c, "closing the incremental index", func() { idx.Close(); idx.Close() })
			open = false
			w.CheckFull()
			c.Count("closed_flush", 1)
		}
	}
	if open {
		within(c, "closing the incremental index", func() { idx.Close() })
	}
	w.CheckFull()
	if refused > 0 {
		c.Count("refused_full", refused)
	}
	w.close()
}
