package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C08", Level: "exploration",
		Rule: "a case is one set of records with adversarial metadata on which random filter trees are evaluated through pre-filter, post-filter, dump and delete, and parsed from their text; non-trivial when some filter selected some but not all records",
		Run: func(r *Run) {
			r.Parallel("trees", r.N(60, 700), 0, c08trees)
			r.Parallel("parse", r.N(60, 600), 0, c08parse)
			r.Parallel("garbage", r.N(24, 200), 0, c08garbage)
		}})
}

var c08vals = append([]string{"0", "-0", "+1", "1", "01", "1.0", "1e0", "0x10", "1_0", "2", "10", "9", "-3.5", "nan", "inf", "Infinity", "1e400", "9007199254740993", "9007199254740992", "false", "True", "a%b", "a_b", "axb", "aXb", "AXB", "ÄB", "äb", "50%", "a b", "a  b", "(x)", "a AND b", "x OR y", "a\nb", "a.b", "a*b", "[ab]", "a\\b", "it''s", "é"}, metaVals...)
var c08keys = append([]string{"x.y", "a b", `q"k`, "k[0]", "$.k", "1", "a'b", "K", "", "key AND k"}, metaKeys...)

// refNumber: a metadata value or filter value as a number.
func refNumber(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case string:
		f, err := strconv.ParseFloat(x, 64)
		return f, err == nil && !math.IsNaN(f) && !math.IsInf(f, 0)
	case int:
		return float64(x), true
	case float64:
		return x, true
	case float32:
		return float64(x), true
	}
	switch x := reflect.ValueOf(v); {
	case !x.IsValid():
	case x.CanInt():
		return float64(x.Int()), true
	case x.CanUint():
		return float64(x.Uint()), true
	}
	return 0, false
}

func refCompare(have string, want interface{}) (less, equal bool) {
	a, an := refNumber(have)
	b, bn := refNumber(want)
	if an && bn {
		return a < b, a == b
	}
	s := fmt.Sprint(want)
	return have < s, have == s
}

// refLike: SQL LIKE with ASCII case folding, by dynamic programming over runes.
func refLike(pat, text string) bool {
	fold := func(s string) []rune {
		out := []rune(s)
		for i, x := range out {
			if x >= 'A' && x <= 'Z' {
				out[i] = x + 32
			}
		}
		return out
	}
	p, t := fold(pat), fold(text)
	row := make([]bool, len(t)+1)
	row[0] = true
	for _, pc := range p {
		next := make([]bool, len(t)+1)
		if pc == '%' {
			any := false
			for j := range next {
				any = any || row[j]
				next[j] = any
			}
		} else {
			for j := range t {
				if row[j] && (pc == '_' || pc == t[j]) {
					next[j+1] = true
				}
			}
		}
		row = next
	}
	return row[len(t)]
}

// refFilter is the reference meaning of a filter expression.
func refFilter(f *core.FilterExpression, m map[string]string) bool {
	if f == nil {
		return true
	}
	v, ok := m[f.Field]
	switch f.Operator {
	case core.FilterAND:
		for _, ch := range f.Children {
			if !refFilter(ch, m) {
				return false
			}
		}
		return true
	case core.FilterOR:
		for _, ch := range f.Children {
			if refFilter(ch, m) {
				return true
			}
		}
		return false
	case core.FilterNOT:
		return !refFilter(f.Children[0], m)
	case core.FilterNE:
		if !ok {
			return true
		}
		_, eq := refCompare(v, f.Value)
		return !eq
	}
	if !ok {
		return false
	}
	switch f.Operator {
	case core.FilterIN:
		for _, x := range f.Value.([]interface{}) {
			if _, eq := refCompare(v, x); eq {
				return true
			}
		}
		return false
	case core.FilterBETWEEN:
		b := f.Value.([]interface{})
		lt, _ := refCompare(v, b[0])
		le, eq := refCompare(v, b[1])
		return !lt && (le || eq)
	case core.FilterLIKE:
		return refLike(fmt.Sprint(f.Value), v)
	}
	lt, eq := refCompare(v, f.Value)
	switch f.Operator {
	case core.FilterEQ:
		return eq
	case core.FilterGT:
		return !lt && !eq
	case core.FilterGTE:
		return !lt
	case core.FilterLT:
		return lt
	case core.FilterLTE:
		return lt || eq
	}
	return false
}

type filterGen struct {
	r    *rand.Rand
	keys []string
	vals []string
	wide bool // long lists and many operands
}

func (g *filterGen) value() interface{} {
	s := pick(g.r, g.vals)
	if f, ok := refNumber(s); ok && g.r.Intn(2) == 0 {
		switch g.r.Intn(3) {
		case 0:
			if f == math.Trunc(f) && math.Abs(f) < 1e6 {
				ints := []interface{}{int(f), int64(f), int32(f)}
				if math.Abs(f) < 100 {
					ints = append(ints, int16(f), int8(f))
				}
				if f >= 0 {
					ints = append(ints, uint(f), uint32(f), uint64(f))
					if f < 100 {
						ints = append(ints, uint16(f), uint8(f))
					}
				}
				return pick(g.r, ints)
			}
		case 1:
			if math.Abs(f) < 1e6 {
				return float32(f)
			}
		}
		return f
	}
	return s
}

func (g *filterGen) leaf() *core.FilterExpression {
	f := &core.FilterExpression{Field: pick(g.r, g.keys)}
	switch g.r.Intn(9) {
	case 0, 1:
		f.Operator, f.Value = core.FilterEQ, g.value()
	case 2:
		f.Operator, f.Value = core.FilterNE, g.value()
	case 3:
		f.Operator, f.Value = pick(g.r, []core.FilterOperator{core.FilterGT, core.FilterGTE}), g.value()
	case 4:
		f.Operator, f.Value = pick(g.r, []core.FilterOperator{core.FilterLT, core.FilterLTE}), g.value()
	case 5:
		f.Operator, f.Value = core.FilterBETWEEN, []interface{}{g.value(), g.value()}
	case 6:
		vs := []interface{}{}
		k := g.r.Intn(4)
		if g.wide && g.r.Intn(2) == 0 {
			// the values that occur come last
			for i := g.r.Intn(1200); i > 0; i-- {
				vs = append(vs, pick(g.r, []interface{}{fmt.Sprint("none", i), -1000 - i, float64(i) + 0.123}))
			}
		}
		for i := k; i > 0; i-- {
			vs = append(vs, g.value())
		}
		f.Operator, f.Value = core.FilterIN, vs
	default:
		p := []rune(pick(g.r, g.vals))
		for i := range p {
			switch g.r.Intn(5) {
			case 0:
				p[i] = '_'
			case 1:
				p[i] = '%'
			case 2:
				if x := unicode.SimpleFold(p[i]); x != unicode.ReplacementChar {
					p[i] = x // of ASCII letters only, the case does not matter
				}
			}
		}
		s := string(p)
		if g.r.Intn(3) == 0 {
			s = "%" + s
		}
		if g.r.Intn(3) == 0 {
			s += "%"
		}
		f.Operator, f.Value = core.FilterLIKE, s
	}
	return f
}

func (g *filterGen) tree(depth int) *core.FilterExpression {
	if depth == 0 || g.r.Intn(3) == 0 {
		return g.leaf()
	}
	switch g.r.Intn(3) {
	case 0:
		return &core.FilterExpression{Operator: core.FilterNOT, Children: []*core.FilterExpression{g.tree(depth - 1)}}
	default:
		f := &core.FilterExpression{Operator: pick(g.r, []core.FilterOperator{core.FilterAND, core.FilterOR})}
		if g.wide && g.r.Intn(3) == 0 {
			for i := g.r.Intn(70); i > 0; i-- {
				f.Children = append(f.Children, g.leaf())
			}
		}
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			f.Children = append(f.Children, g.tree(depth-1))
			if depth > 5 {
				break // deep rather than wide
			}
		}
		return f
	}
}

// chain adds a leaf condition to a filter under construction.
func chain(m *core.MetadataFilter, f *core.FilterExpression) (*core.MetadataFilter, bool) {
	switch f.Operator {
	case core.FilterEQ:
		return m.Equal(f.Field, f.Value), true
	case core.FilterNE:
		return m.NotEqual(f.Field, f.Value), true
	case core.FilterGT:
		return m.GreaterThan(f.Field, f.Value), true
	case core.FilterGTE:
		return m.GreaterThanOrEqual(f.Field, f.Value), true
	case core.FilterLT:
		return m.LessThan(f.Field, f.Value), true
	case core.FilterLTE:
		return m.LessThanOrEqual(f.Field, f.Value), true
	case core.FilterIN:
		var ss []string
		for _, x := range f.Value.([]interface{}) {
			if s, ok := x.(string); ok {
				ss = append(ss, s)
			}
		}
		if len(ss) > 0 && len(ss) == len(f.Value.([]interface{})) {
			return m.StringIn(f.Field, ss...), true
		}
		return m.In(f.Field, f.Value.([]interface{})...), true
	case core.FilterBETWEEN:
		b := f.Value.([]interface{})
		return m.Between(f.Field, b[0], b[1]), true
	case core.FilterLIKE:
		return m.Like(f.Field, fmt.Sprint(f.Value)), true
	case core.FilterNOT:
		if ch := f.Children[0]; ch.Operator == core.FilterIN {
			return m.NotIn(ch.Field, ch.Value.([]interface{})...), true
		}
	}
	return nil, false
}

// builder expresses a tree with the fluent builder; ok is false where the builder has no way to say it.
// Leaves of a conjunction are added either by chaining or as filters of their own; operands that were
// combined into another filter are recorded in used.
func builder(r *rand.Rand, f *core.FilterExpression, used map[*core.MetadataFilter]*core.FilterExpression) (*core.MetadataFilter, bool) {
	if f.Operator != core.FilterAND && f.Operator != core.FilterOR {
		return chain(core.NewMetadataFilter(), f)
	}
	m := core.NewMetadataFilter()
	for i, ch := range f.Children {
		if (i == 0 || f.Operator == core.FilterAND) && r.Intn(2) == 0 {
			if n, ok := chain(m, ch); ok {
				m = n
				continue
			}
		}
		b, ok := builder(r, ch, used)
		if !ok {
			return nil, false
		}
		switch {
		case i == 0 && r.Intn(2) == 0:
			m = b
			continue
		case i == 0:
			m = m.And(b)
		case f.Operator == core.FilterAND:
			m = m.And(b)
		default:
			m = m.Or(b)
		}
		used[b] = ch
	}
	return m, true
}

// operands combines a filter into others in every way, extends both sides, and checks what each still selects.
func (g *filterGen) operands(w *World) {
	r, c := g.r, w.c
	and := func(f ...*core.FilterExpression) *core.FilterExpression {
		return &core.FilterExpression{Operator: core.FilterAND, Children: f}
	}
	leaf := func() *core.FilterExpression {
		for {
			if f := g.leaf(); f.Operator != core.FilterIN || len(f.Value.([]interface{})) < 9 {
				return f
			}
		}
	}
	add := func(m *core.MetadataFilter, f *core.FilterExpression) {
		_, ok := chain(m, f)
		c.Check(ok, "chain", "the builder has no %s", f.Operator)
	}
	is := func(what string, got, want *core.FilterExpression) {
		for _, x := range w.Recs {
			c.Check(refFilter(got, x.Meta) == refFilter(want, x.Meta), "filter:shared", "%s is now %s instead of %s", what, fstr(got), fstr(want))
		}
	}
	// a is a conjunction (or a single condition), b starts from it
	fa, a := leaf(), core.NewMetadataFilter()
	add(a, fa)
	for i := r.Intn(3); i > 0; i-- {
		f := leaf()
		add(a, f)
		fa = and(fa, f)
	}
	built := a.Build()
	b := core.NewMetadataFilter()
	fb := fa
	switch r.Intn(4) {
	case 0:
		b.And(a)
	case 1:
		b.Or(a)
	case 2:
		f := leaf()
		add(b, f)
		b.And(a)
		fb = and(f, fa)
	case 3:
		f := leaf()
		add(b, f)
		b.Or(a)
		fb = &core.FilterExpression{Operator: core.FilterOR, Children: []*core.FilterExpression{f, fa}}
	}
	was := fa
	for i := 1 + r.Intn(3); i > 0; i-- {
		f := leaf()
		if r.Intn(3) == 0 {
			add(a, f)
			fa = and(fa, f)
		} else {
			add(b, f)
			fb = and(fb, f)
		}
	}
	is("the operand", a.Build(), fa)
	is("the combination", b.Build(), fb)
	is("the expression built earlier", built, was)
	c.Count("shared_operands", 1)
}

func fstr(f *core.FilterExpression) string {
	if f == nil {
		return "nil"
	}
	if len(f.Children) > 0 {
		var p []string
		for _, ch := range f.Children {
			p = append(p, fstr(ch))
		}
		return string(f.Operator) + "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("[%q %s %#v]", f.Field, f.Operator, f.Value)
}

func c08world(c *Case, n int) (*World, *filterGen) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 3, sims[c.Idx/5%3]))
	w.OnlyGood = true
	g := &filterGen{r: r}
	for i := 0; i < 3; i++ {
		g.keys = append(g.keys, pick(r, c08keys))
	}
	for i := 0; i < 8; i++ {
		g.vals = append(g.vals, pick(r, c08vals))
	}
	g.vals = append(g.vals, pick(r, []string{"ÄB", "äb", "É", "étude", "ПРИВЕТ", "Straße", "10", "9"}))
	w.GenMeta = func() map[string]string {
		if r.Intn(8) == 0 {
			return nil
		}
		m := map[string]string{}
		for _, k := range g.keys {
			if r.Intn(4) > 0 {
				m[k] = pick(r, g.vals)
			}
		}
		return m
	}
	w.open()
	var batch []*core.Embedding
	for i := 0; i < n; i++ {
		x := w.newRec(fmt.Sprint("r", i))
		x.Doc = ""
		w.put(x)
		if n > 100 {
			batch = append(batch, x.emb())
			continue
		}
		w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
	}
	if len(batch) > 0 {
		w.ok(w.S.UpsertBatch(bg, batch), "UpsertBatch")
	}
	return w, g
}

func c08trees(c *Case) {
	r := c.R
	n, rounds, depth := 12+r.Intn(20), 60, 3
	if c.Idx%12 == 11 {
		n, rounds = 1100+r.Intn(500), 12
	}
	w, g := c08world(c, n)
	g.wide = c.Idx%4 == 3
	if c.Idx%8 == 5 {
		rounds, depth = 30, 12
	}
	sim := sims[c.Idx/5%3]
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for i := 0; i < rounds; i++ {
		pre, post := g.tree(depth), (*core.FilterExpression)(nil)
		switch r.Intn(3) {
		case 0:
			post = g.tree(2)
		case 1:
			pre, post = nil, pre
		}
		o := w.options()
		base := optPred(o)
		cand := w.rank(sim, mustQ(w), func(x *Rec) bool {
			return base(x) && refFilter(pre, x.Meta) && refFilter(post, x.Meta)
		})
		q, _ := w.query()
		cand = w.rank(sim, q, func(x *Rec) bool {
			return base(x) && refFilter(pre, x.Meta) && refFilter(post, x.Meta)
		})
		o.Threshold = w.threshold(cand)
		c.Op("SearchWithAdvancedFilter pre=%s post=%s %s", fstr(pre), fstr(post), optStr(o))
		res, err := w.S.SearchWithAdvancedFilter(bg, cpVec(q), core.AdvancedSearchOptions{SearchOptions: o, PreFilter: pre, PostFilter: post, NumericRanges: r.Intn(2) == 0, ArraySupport: r.Intn(2) == 0})
		w.ok(err, "SearchWithAdvancedFilter")
		k := o.TopK
		if k < 0 {
			k = 0
		}
		w.checkResults("SearchWithAdvancedFilter", res, cand, k, o.Threshold, searchMode{exact: true})
		if len(cand) > 0 && len(cand) < len(w.Recs) {
			c.Nontrivial()
			c.Count("selective", 1)
		}
		c.Count("filters", 1)
		f := pre
		if f == nil {
			f = post
		}
		c.Seen("operator", string(f.Operator))
		// the same filter through the builder: dump and delete
		used := map[*core.MetadataFilter]*core.FilterExpression{}
		b, ok := builder(r, f, used)
		if !ok {
			continue
		}
		// fold of the builder is left-associative over the same operator, so the meaning is unchanged
		want := w.liveWith(func(x *Rec) bool { return refFilter(f, x.Meta) })
		c.Op("search with the built filter of %s", fstr(f))
		res, err = w.S.SearchWithAdvancedFilter(bg, cpVec(q), core.AdvancedSearchOptions{PreFilter: b.Build()})
		w.ok(err, "SearchWithAdvancedFilter")
		c.Check(sameSet(plainIDs(res), want), "filter:builder", "the filter built for %s selects %q, want %q", fstr(f), ids(res), want)
		checked := 0
		for o, of := range used {
			if checked++; checked > 4 {
				break
			}
			c.Op("operand %s", fstr(of))
			res, err = w.S.SearchWithAdvancedFilter(bg, cpVec(q), core.AdvancedSearchOptions{PreFilter: o.Build()})
			w.ok(err, "SearchWithAdvancedFilter")
			wantO := w.liveWith(func(x *Rec) bool { return refFilter(of, x.Meta) })
			c.Check(sameSet(plainIDs(res), wantO), "filter:operand", "a filter that was combined into another one now selects %q, want %q (%s)", ids(res), wantO, fstr(of))
		}
		g.operands(w)
		if q, params := b.ToSQL(); q != "" && !emptyGroup(b.Build()) && len(params) < 900 && depth < 5 {
			c.Op("SQL of %s: %s %v", fstr(f), q, params)
			rows, err := w.S.GetDB().Query("SELECT id FROM embeddings WHERE "+q, params...)
			c.Check(err == nil, "filter:SQL", "the SQL built for %s does not run: %v\n%s", fstr(f), err, q)
			got := map[string]bool{}
			for rows.Next() {
				var id string
				c.Must(rows.Scan(&id), "scan")
				got[id] = true
			}
			rows.Close()
			n := 0
			for _, id := range sortedKeys(w.Recs) {
				if x := w.Recs[id]; sqlComparable(f, x.Meta) {
					n++
					c.Check(got[id] == refFilter(f, x.Meta), "filter:SQL", "the SQL built for %s selects %v: %v\n%s %v", fstr(f), x, got[id], q, params)
				}
			}
			c.Count("sql_filters", 1)
			c.Count("sql_records", n)
		}
		if i%4 == 0 {
			c.Op("Dump filtered by %s", fstr(f))
			var buf bytes.Buffer
			_, err := w.S.Dump(bg, &buf, core.DumpOptions{Format: core.DumpFormatJSONL, IncludeVectors: true, Filter: b})
			w.ok(err, "Dump")
			got := []string{}
			for _, line := range strings.Split(buf.String(), "\n") {
				var e struct {
					ID      string `json:"id"`
					Content *string
					Vector  []float32
				}
				if line != "" && json.Unmarshal([]byte(line), &e) == nil && w.Recs[e.ID] != nil && len(e.Vector) > 0 {
					got = append(got, e.ID)
				}
			}
			c.Check(sameSet(got, want), "filter:Dump", "Dump with %s selected %q, want %q", fstr(f), got, want)
			c.Count("dumps", 1)
		}
		if i%3 == 0 && len(want) < len(w.Recs)*2/3+1 {
			c.Op("DeleteByFilter %s", fstr(f))
			w.ok(w.S.DeleteByFilter(bg, b), "DeleteByFilter")
			w.drop(func(x *Rec) bool { return refFilter(f, x.Meta) })
			w.CheckPoint()
			c.Count("deletes", 1)
			c.Count("deleted", len(want))
			for len(w.Recs) < 10 {
				x := w.newRec(fmt.Sprint("n", i, "-", len(w.Recs)))
				x.Doc = ""
				w.put(x)
				w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
			}
		}
	}
	w.CheckFull()
	w.close()
}

func emptyGroup(f *core.FilterExpression) bool {
	if f.Operator == core.FilterAND || f.Operator == core.FilterOR {
		if len(f.Children) == 0 {
			return true
		}
	}
	for _, ch := range f.Children {
		if emptyGroup(ch) {
			return true
		}
	}
	return false
}

// sqlComparable: the SQL form of a filter compares values as SQLite stores them (text, or cast to
// a number for ranges), so it is judged on the records where that is the same comparison.
func sqlComparable(f *core.FilterExpression, m map[string]string) bool {
	for _, ch := range f.Children {
		if !sqlComparable(ch, m) {
			return false
		}
	}
	if len(f.Children) > 0 {
		return true
	}
	v, ok := m[f.Field]
	text := func(x interface{}) bool {
		s, is := x.(string)
		_, a := refNumber(s)
		_, b := refNumber(v)
		return is && !(a && b)
	}
	number := func(x interface{}) bool {
		_, is := x.(string)
		_, b := refNumber(v)
		return !is && (b && !strings.ContainsAny(v, "_xXpP") || !ok) // SQLite reads decimal numerals only
	}
	switch f.Operator {
	case core.FilterEQ:
		return text(f.Value)
	case core.FilterNE:
		return ok && text(f.Value)
	case core.FilterIN:
		for _, x := range f.Value.([]interface{}) {
			if !text(x) {
				return false
			}
		}
		return true
	case core.FilterBETWEEN:
		b := f.Value.([]interface{})
		return number(b[0]) && number(b[1])
	case core.FilterLIKE:
		return true
	}
	return number(f.Value)
}

func plainIDs(res []core.ScoredEmbedding) []string {
	out := []string{}
	for _, e := range res {
		out = append(out, e.ID)
	}
	return out
}

func mustQ(w *World) []float32 { q, _ := w.query(); return q }

func sameSet(a, b []string) bool {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return len(a) == len(b)
}

// text renders a tree in the filter language. prec: 0 top, 1 inside AND.
func ftext(r *rand.Rand, f *core.FilterExpression, prec int) string {
	val := func(v interface{}) string {
		switch x := v.(type) {
		case string:
			if strings.ContainsAny(x, `'`) {
				return `"` + x + `"`
			}
			_, num := refNumber(x)
			_, perr := strconv.ParseFloat(x, 64)
			word := x != "" && !num && perr != nil && strings.Trim(x, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_%éäÄ") == "" && !strings.EqualFold(x, "true") && !strings.EqualFold(x, "false")
			if word && r.Intn(2) == 0 {
				return x
			}
			if r.Intn(2) == 0 && !strings.Contains(x, `"`) {
				return `"` + x + `"`
			}
			return "'" + x + "'"
		default:
			return fmt.Sprint(v)
		}
	}
	paren := func(s string) string {
		if r.Intn(3) == 0 {
			return "(" + s + ")"
		}
		return s
	}
	switch f.Operator {
	case core.FilterAND, core.FilterOR:
		var parts []string
		for _, ch := range f.Children {
			p := 0
			if f.Operator == core.FilterAND {
				p = 1
			}
			parts = append(parts, ftext(r, ch, p))
		}
		s := strings.Join(parts, " "+string(f.Operator)+" ")
		if f.Operator == core.FilterOR && prec == 1 {
			return "(" + s + ")"
		}
		return paren(s)
	case core.FilterIN:
		var parts []string
		for _, v := range f.Value.([]interface{}) {
			parts = append(parts, val(v))
		}
		return paren(f.Field + " IN (" + strings.Join(parts, pick(r, []string{",", ", "})) + ")")
	case core.FilterBETWEEN:
		b := f.Value.([]interface{})
		return paren(f.Field + " BETWEEN " + val(b[0]) + " AND " + val(b[1]))
	}
	op := string(f.Operator)
	if f.Operator == core.FilterEQ {
		op = pick(r, []string{"=", ":", ":="})
	}
	if r.Intn(2) == 0 {
		op = " " + op + " "
	}
	return paren(f.Field + op + val(f.Value))
}

func c08parse(c *Case) {
	r := c.R
	w, g := c08world(c, 20)
	defer w.S.Close()
	sim := sims[c.Idx/5%3]
	// the text language has neither NOT nor LIKE, and fields are plain names
	names := []string{"type", "k", "n", "doc_idx", "K", "a.b", "ключ", "year"}
	g.keys = []string{pick(r, names), pick(r, names), pick(r, names)}
	// quoted text is never interpreted
	quoted := []string{`say "x" OR k != "zzz`, `"`, `say "x`, `it's (a) AND k = 1`, `a) OR (k != 1`, `'`, `((`, `))`, `a, b`, ` AND `, `BETWEEN 1 AND 2`, `k IN (1, 2)`, `x>=1`, `a:b`, `!=`, ` OR type != `, `don't, won't`, "tab\tOR\tk != 1"}
	for i := 0; i < 4; i++ {
		g.vals = append(g.vals, pick(r, quoted))
	}
	var gen func(depth int) *core.FilterExpression
	gen = func(depth int) *core.FilterExpression {
		if depth > 0 && r.Intn(3) > 0 {
			f := &core.FilterExpression{Operator: pick(r, []core.FilterOperator{core.FilterAND, core.FilterOR})}
			for i := 2 + r.Intn(2); i > 0; i-- {
				f.Children = append(f.Children, gen(depth-1))
			}
			return f
		}
		for {
			f := g.leaf()
			if f.Operator == core.FilterLIKE {
				continue
			}
			ok := true
			chk := func(v interface{}) {
				if s, is := v.(string); is && (strings.Contains(s, "'") && strings.Contains(s, `"`)) {
					ok = false
				}
				if x, is := v.(float32); is {
					_ = x
					ok = false // textual form of a float32 names another float64
				}
			}
			if l, is := f.Value.([]interface{}); is {
				if len(l) == 0 {
					continue
				}
				for _, v := range l {
					chk(v)
				}
			} else {
				chk(f.Value)
			}
			if ok {
				return f
			}
		}
	}
	for _, id := range sortedKeys(w.Recs) {
		x := w.Recs[id]
		w.put(x)
		x.Meta = w.meta()
		w.ok(w.S.Upsert(bg, x.emb()), "Upsert")
	}
	for i := 0; i < 60; i++ {
		f := gen(3)
		txt := ftext(r, f, 0)
		if r.Intn(3) == 0 {
			txt = "  " + txt + " "
		}
		c.Op("ParseFilterString %q", txt)
		p, err := core.ParseFilterString(txt)
		c.Check(err == nil && p != nil, "parse-rejected", "ParseFilterString(%q): %v", txt, err)
		cand := map[string]bool{}
		for _, x := range w.Recs {
			want, got := refFilter(f, x.Meta), refFilter(p, x.Meta)
			c.Check(want == got, "parse-meaning", "ParseFilterString(%q) means %s: record %v is selected=%v, want %v", txt, fstr(p), x.Meta, got, want)
			if want {
				cand[x.ID] = true
			}
		}
		if len(cand) > 0 && len(cand) < len(w.Recs) {
			c.Nontrivial()
			c.Count("selective", 1)
		}
		c.Count("parsed", 1)
		if i%5 == 0 {
			q := w.vec()
			rk := w.rank(sim, q, func(x *Rec) bool { return cand[x.ID] })
			res, err := w.S.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{PreFilter: p})
			w.ok(err, "SearchWithAdvancedFilter")
			w.checkResults("SearchWithAdvancedFilter(parsed)", res, rk, 0, 0, searchMode{exact: true})
		}
	}
}

// c08garbage: arbitrary filter text, field names and values never widen a selection or change data.
func c08garbage(c *Case) {
	r := c.R
	w, _ := c08world(c, 10)
	defer w.S.Close()
	before, err := tableDump(w.S.GetDB(), "embeddings", "collections", "documents")
	c.Must(err, "harness")
	frag := []string{"k", "=", "'", `"`, "(", ")", " AND ", " OR ", " BETWEEN ", " IN ", ",", "1", ":", ">", "<", "!", "--", ";", "DROP TABLE embeddings", "' OR '1'='1", "\x00", "é", " ", "%", "NOT ", "IN", "BETWEEN", "AND"}
	for i := 0; i < 150; i++ {
		var sb strings.Builder
		for j := r.Intn(10); j >= 0; j-- {
			sb.WriteString(pick(r, frag))
		}
		txt := sb.String()
		c.Op("ParseFilterString %q", txt)
		f, err := core.ParseFilterString(txt)
		c.Check(err != nil || f != nil, "parse-nothing", "ParseFilterString(%q) returned neither an error nor a filter", txt)
		if err != nil {
			c.Count("rejected", 1)
			continue
		}
		c.Count("accepted", 1)
		cand := w.rank("cosine", w.vec(), func(x *Rec) bool { return refFilter(f, x.Meta) })
		res, err := w.S.SearchWithAdvancedFilter(bg, w.vec(), core.AdvancedSearchOptions{PreFilter: f})
		w.ok(err, "SearchWithAdvancedFilter")
		w.checkResults("SearchWithAdvancedFilter(garbage)", res, cand, 0, 0, searchMode{anyScore: true})
	}
	inj := []string{"x') OR 1=1 --", "x' OR '1'='1", "$", "$.x", "k\") OR (1=1", "*", "'; DELETE FROM embeddings; --", "\x00", "", "json_each"}
	for _, k := range inj {
		for _, v := range inj {
			if len(w.liveWith(func(x *Rec) bool { h, ok := x.Meta[k]; return ok && h == v })) > 0 {
				continue // not an injection: some records have it
			}
			c.Op("inject %q=%q", k, v)
			res, err := w.S.SearchWithFilter(bg, w.vec(), core.SearchOptions{TopK: 100}, map[string]interface{}{k: v})
			c.Check(err != nil || len(res) == 0, "injection", "SearchWithFilter %q=%q returned %q", k, v, ids(res))
			if v != "" {
				res, err = w.S.Search(bg, w.vec(), core.SearchOptions{TopK: 100, Filter: map[string]string{k: v}})
				c.Check(err != nil || len(res) == 0, "injection", "Search with filter %q=%q returned %q", k, v, ids(res))
				res, err = w.S.HybridSearch(bg, w.vec(), pick(r, vocab), core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 100, Filter: map[string]string{k: v}}})
				c.Check(err != nil || len(res) == 0, "injection", "HybridSearch with filter %q=%q returned %q", k, v, ids(res))
			}
			res, err = w.S.Search(bg, w.vec(), core.SearchOptions{TopK: 100, Collection: k + "x"})
			c.Check(err != nil || len(res) == 0, "injection", "Search in collection %q returned %q", k+"x", ids(res))
			err = w.S.DeleteByFilter(bg, core.NewMetadataFilter().Equal(k, v))
			_ = err
			c.Count("injections", 1)
		}
	}
	after, err := tableDump(w.S.GetDB(), "embeddings", "collections", "documents")
	c.Must(err, "harness")
	c.Check(before == after, "data-changed", "a filter that matches nothing changed the data: %s", firstDiff(before, after))
	c.Nontrivial()
}
