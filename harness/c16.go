package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func init() {
	register(&Prop{ID: "C16", Level: "exploration",
		Rule: "a case is one store history with repeated random aggregation and facet requests, each recomputed from the live records; non-trivial when requests selected a proper non-empty subset",
		Run: func(r *Run) {
			r.Parallel("aggregate", r.N(90, 900), 0, c16aggregate)
			r.Parallel("facets", r.N(90, 900), 0, c16facets)
			r.Parallel("large", r.N(4, 20), 0, c16large)
		}})
}

// sqlReal is SQLite's conversion of text to a number: the longest numeric prefix, or zero.
func sqlReal(s string) float64 {
	s = strings.TrimLeft(s, " \t\n\v\f\r")
	i := 0
	digits := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	a := digits()
	b := false
	if i < len(s) && s[i] == '.' {
		i++
		b = digits()
	}
	if !a && !b {
		return 0
	}
	end := i
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if digits() {
			end = i
		}
	}
	f, _ := strconv.ParseFloat(s[:end], 64)
	return f
}

func c16world(c *Case) (*World, []string, []string) {
	r := c.R
	w := newWorld(c, mkConfig(dbPath(c), cfgNames[c.Idx%len(cfgNames)], 2, sims[c.Idx%3]))
	w.OnlyGood = true
	keys := []string{pick(r, c08keys), pick(r, c08keys), pick(r, metaKeys)}
	vals := []string{}
	for i := 0; i < 7; i++ {
		if r.Intn(2) == 0 {
			vals = append(vals, pick(r, []string{fmt.Sprint(math.Round(r.NormFloat64()*100) / 8), fmt.Sprint(r.Intn(1000)) + ".1", fmt.Sprint(16777217 + r.Intn(9))}))
			continue
		}
		v := pick(r, c08vals)
		if v != "1e400" {
			vals = append(vals, v)
		}
	}
	w.GenMeta = func() map[string]string {
		if r.Intn(8) == 0 {
			return nil
		}
		m := map[string]string{}
		for _, k := range keys {
			if r.Intn(4) > 0 {
				m[k] = pick(r, vals)
			}
		}
		return m
	}
	w.open()
	return w, keys, vals
}

func c16aggregate(c *Case) {
	w, keys, vals := c16world(c)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for i := 0; i < 12; i++ {
		for j := 0; j < 5; j++ {
			w.Step()
		}
		for j := 0; j < 12; j++ {
			w.aggregate(keys, vals)
		}
	}
	w.close()
}

func (w *World) aggregate(keys, vals []string) {
	c, r := w.c, w.R
	req := core.AggregationRequest{
		Type:  pick(r, []core.AggregationType{core.AggregationCount, core.AggregationSum, core.AggregationAvg, core.AggregationMin, core.AggregationMax, core.AggregationGroupBy, "", "median"}),
		Field: pick(r, append([]string{"", "missing"}, append(keys, keys...)...)),
	}
	if r.Intn(3) == 0 {
		req.Collection = pick(r, append(sortedKeys(w.Colls), "nope"))
	}
	if r.Intn(3) == 0 {
		req.Filters = map[string]interface{}{pick(r, keys): any(pick(r, vals))}
		if r.Intn(4) == 0 {
			req.Filters[pick(r, keys)] = pick(r, []interface{}{1, 2.5, true, int64(10)})
		}
	}
	if req.Type == core.AggregationGroupBy || r.Intn(3) == 0 {
		req.GroupBy = []string{pick(r, keys)}
		if k := pick(r, keys); r.Intn(2) == 0 && k != req.GroupBy[0] {
			req.GroupBy = append(req.GroupBy, k)
		}
		if r.Intn(12) == 0 {
			req.GroupBy = nil
		}
	}
	var sel []*Rec
	for _, id := range sortedKeys(w.Recs) {
		x := w.Recs[id]
		ok := req.Collection == "" || x.Coll == req.Collection
		for k, v := range req.Filters {
			h, has := x.Meta[k]
			ok = ok && has && h == fmt.Sprint(v)
		}
		if ok {
			sel = append(sel, x)
		}
	}
	needField := req.Type == core.AggregationSum || req.Type == core.AggregationAvg || req.Type == core.AggregationMin || req.Type == core.AggregationMax
	invalid := req.Type == "" || needField && req.Field == "" || req.Type == core.AggregationGroupBy && len(req.GroupBy) == 0 || req.Type == "median" && len(req.GroupBy) == 0
	if req.Type == "median" && len(req.GroupBy) > 0 {
		return // an unknown type with groups is not specified
	}
	// compute an aggregate: value nil when there is nothing to aggregate
	compute := func(recs []*Rec) (val float64, n int, mag float64) {
		switch req.Type {
		case core.AggregationCount, core.AggregationGroupBy:
			return float64(len(recs)), len(recs), 0
		}
		for _, x := range recs {
			s, has := x.Meta[req.Field]
			if !has {
				continue
			}
			f := sqlReal(s)
			mag += math.Abs(f)
			switch {
			case req.Type == core.AggregationSum || req.Type == core.AggregationAvg:
				val += f
			case n == 0 || req.Type == core.AggregationMin && f < val || req.Type == core.AggregationMax && f > val:
				val = f
			}
			n++
		}
		if req.Type == core.AggregationAvg && n > 0 {
			val /= float64(n)
		}
		return
	}
	c.Count("requests", 1)
	if len(sel) > 0 && len(sel) < len(w.Recs) {
		c.Nontrivial()
		c.Count("selective", 1)
	}
	if len(req.GroupBy) == 0 {
		c.Op("Aggregate %+v", req)
		res, err := w.S.Aggregate(bg, req)
		if invalid {
			c.Check(err != nil, "invalid-accepted", "Aggregate accepted %+v", req)
			return
		}
		w.ok(err, "Aggregate")
		c.Check(len(res.Results) == 1 && res.Total == 1, "wrong-shape", "Aggregate returned %+v", res)
		val, n, mag := compute(sel)
		got := toFloat(res.Results[0].Value)
		c.Check(res.Results[0].Count == n, "wrong-count", "Aggregate %+v counted %d, want %d", req, res.Results[0].Count, n)
		c.Check(math.Abs(got-val) <= 1e-9*(mag+1), "wrong-value", "Aggregate %+v = %v, want %v", req, got, val)
		c.Count("values", 1)
		return
	}
	// grouped
	type group struct {
		keys  []string
		null  []bool
		recs  []*Rec
		val   float64
		isNil bool
		mag   float64
	}
	groups := map[string]*group{}
	for _, x := range sel {
		g := &group{}
		for _, k := range req.GroupBy {
			v, has := x.Meta[k]
			g.keys, g.null = append(g.keys, v), append(g.null, !has)
		}
		id := fmt.Sprintf("%q%v", g.keys, g.null)
		if groups[id] == nil {
			groups[id] = g
		}
		groups[id].recs = append(groups[id].recs, x)
	}
	ids := sortedKeys(groups)
	for _, id := range ids {
		g := groups[id]
		n := 0
		g.val, n, g.mag = compute(g.recs)
		g.isNil = n == 0
	}
	badColumn := false
	if len(ids) > 0 && r.Intn(3) == 0 {
		g := groups[pick(r, ids)]
		switch r.Intn(4) {
		case 3: // both conditions at once, of one group or of two
			h := groups[pick(r, ids)]
			if r.Intn(2) == 0 {
				h = g
			}
			if h.null[0] {
				break
			}
			req.Having = map[string]interface{}{"count": len(g.recs), req.GroupBy[0]: h.keys[0]}
			c.Count("two conditions on groups", 1)
		case 0:
			req.Having = map[string]interface{}{pick(r, []string{"count", "COUNT(*)"}): len(g.recs)}
		case 1:
			if g.null[0] {
				break
			}
			req.Having = map[string]interface{}{req.GroupBy[0]: g.keys[0]}
		default:
			if r.Intn(6) == 0 {
				req.Having = map[string]interface{}{"no such column; DROP TABLE embeddings": 1}
				badColumn = true
			}
		}
	}
	// a group field named like one of the aliases takes precedence; the generator has none
	having := func(g *group) bool {
		for k, v := range req.Having {
			if k == req.GroupBy[0] {
				if g.null[0] || g.keys[0] != fmt.Sprint(v) {
					return false
				}
			} else if len(g.recs) != v {
				return false
			}
		}
		return true
	}
	order := pick(r, []string{"", "", "count", "value", "agg_value", req.GroupBy[0]})
	if r.Intn(25) == 0 {
		order, badColumn = "nope", true
	}
	req.OrderBy = order
	if r.Intn(3) == 0 {
		req.Limit = 1 + r.Intn(4)
	}
	c.Op("Aggregate %+v", req)
	res, err := w.S.Aggregate(bg, req)
	if invalid || badColumn {
		c.Check(err != nil, "invalid-accepted", "Aggregate accepted %+v", req)
		return
	}
	w.ok(err, "Aggregate")
	c.Check(res.Total == len(res.Results), "wrong-total", "Aggregate %+v: total %d with %d results", req, res.Total, len(res.Results))
	text := func(v string, null bool) string {
		if null {
			return "<nil>"
		}
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			return fmt.Sprint(f)
		}
		return v
	}
	// groups whose keys read alike as numbers (1, 1.0) are told apart by multiplicity
	pool := map[string][]*group{}
	eligible := 0
	for _, id := range ids {
		g := groups[id]
		if !having(g) {
			continue
		}
		eligible++
		k := ""
		for i := range g.keys {
			k += fmt.Sprintf("|%q", text(g.keys[i], g.null[i]))
		}
		pool[k] = append(pool[k], g)
	}
	used := map[*group]bool{}
	rank := func(g *group) (null bool, s string, f float64) {
		switch order {
		case "", "count":
			return false, "", float64(len(g.recs))
		case "value", "agg_value":
			return g.isNil, "", g.val
		}
		return g.null[0], g.keys[0], 0
	}
	less := func(a, b *group) bool { // strictly lower rank
		an, as, af := rank(a)
		bn, bs, bf := rank(b)
		if an || bn {
			return an && !bn
		}
		if order == "" || order == "count" || order == "value" || order == "agg_value" {
			return af < bf-1e-9*(a.mag+b.mag+1)
		}
		return as < bs
	}
	var prev *group
	ambiguous := false
	for i, x := range res.Results {
		k := ""
		c.Check(len(x.GroupKeys) == len(req.GroupBy), "wrong-keys", "Aggregate %+v: result %d has keys %v", req, i, x.GroupKeys)
		for _, f := range req.GroupBy {
			v, has := x.GroupKeys[f]
			c.Check(has, "wrong-keys", "Aggregate %+v: result %d has keys %v", req, i, x.GroupKeys)
			k += fmt.Sprintf("|%q", fmt.Sprint(v))
		}
		var hit *group
		for _, g := range pool[k] {
			v := toFloat(x.Value)
			if !used[g] && x.Count == len(g.recs) && (x.Value == nil) == g.isNil && (g.isNil || math.Abs(v-g.val) <= 1e-9*(g.mag+1)) {
				hit = g
				break
			}
		}
		c.Check(hit != nil, "wrong-group", "Aggregate %+v: result %d %+v matches no group of the live records", req, i, x)
		ambiguous = ambiguous || len(pool[k]) > 1
		used[hit] = true
		if prev != nil && !ambiguous {
			c.Check(!less(prev, hit), "wrong-order", "Aggregate %+v: result %d %+v is out of order", req, i, x)
		}
		prev = hit
	}
	n := eligible
	if req.Limit > 0 && n > req.Limit {
		n = req.Limit
		c.Count("limited", 1)
	}
	c.Check(len(res.Results) == n, "missing-group", "Aggregate %+v returned %d groups of %d", req, len(res.Results), eligible)
	if prev != nil && !ambiguous {
		for _, id := range ids {
			if g := groups[id]; having(g) && !used[g] {
				c.Check(!less(prev, g), "not-top", "Aggregate %+v left out group %q, which ranks higher than the last one returned", req, g.keys)
			}
		}
	}
	c.Count("groups", len(res.Results))
}

func toFloat(v interface{}) float64 {
	switch x := v.(type) {
	case int:
		return float64(x)
	case int64:
		return float64(x)
	case float64:
		return x
	}
	return math.NaN()
}

// refFacet evaluates a facet condition on a record: true, false or (for a record without the field) unknown.
func refFacet(f core.FacetFilter, v string, has bool) (val, known, active bool) {
	cond := func(b bool) (bool, bool, bool) { return b && has, has, true }
	switch f.Type {
	case core.FilterTypeEquals:
		if len(f.Values) > 0 {
			return cond(v == fmt.Sprint(f.Values[0]))
		}
	case core.FilterTypeIn:
		if len(f.Values) > 0 {
			hit := false
			for _, x := range f.Values {
				hit = hit || v == fmt.Sprint(x)
			}
			return cond(hit)
		}
	case core.FilterTypeRange:
		if f.Min != nil || f.Max != nil {
			x := sqlReal(v)
			ok := true
			if f.Min != nil {
				ok = ok && x >= toNum(f.Min)
			}
			if f.Max != nil {
				ok = ok && x <= toNum(f.Max)
			}
			return cond(ok)
		}
	case core.FilterTypeContains:
		if f.Pattern != "" {
			return cond(strings.Contains(asciiLower(v), asciiLower(f.Pattern)))
		}
	case core.FilterTypePrefix:
		if f.Pattern != "" {
			return cond(strings.HasPrefix(asciiLower(v), asciiLower(f.Pattern)))
		}
	case core.FilterTypeExists:
		return has, true, true
	case core.FilterTypeNested:
		all, any := true, false
		n := 0
		for _, ch := range f.Nested {
			b, _, act := refFacet(ch, v, has)
			if act {
				n++
				all, any = all && b, any || b
			}
		}
		if n == 0 {
			return false, true, false
		}
		switch f.Operator {
		case core.OperatorOR:
			return any, true, true
		case core.OperatorNOT:
			return !all, true, true
		}
		return all, true, true
	}
	return false, true, false
}

func toNum(v interface{}) float64 {
	if s, ok := v.(string); ok {
		return sqlReal(s)
	}
	return toFloat(v)
}

func asciiLower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

func (w *World) facet(vals []string, depth int) core.FacetFilter {
	r := w.R
	f := core.FacetFilter{Type: pick(r, []core.FacetFilterType{core.FilterTypeEquals, core.FilterTypeIn, core.FilterTypeRange, core.FilterTypeContains, core.FilterTypePrefix, core.FilterTypeExists, core.FilterTypeNested})}
	switch f.Type {
	case core.FilterTypeEquals, core.FilterTypeIn:
		for i := 0; i < 1+r.Intn(3); i++ {
			f.Values = append(f.Values, pick(r, vals))
		}
		if r.Intn(4) == 0 {
			f.Values = []interface{}{pick(r, []interface{}{1, 2.5, true, int64(-1)})}
		}
	case core.FilterTypeRange:
		if r.Intn(4) > 0 {
			f.Min = pick(r, []interface{}{-5, 0, 1.5, "2", int64(-100)})
		}
		if r.Intn(4) > 0 {
			f.Max = pick(r, []interface{}{0, 3, 10.25, "9", int64(100)})
		}
	case core.FilterTypeContains, core.FilterTypePrefix:
		f.Pattern = pick(r, vals)
		if n := len(f.Pattern); n > 1 && r.Intn(2) == 0 && f.Pattern[0] < 0x80 {
			f.Pattern = f.Pattern[:1]
		}
	case core.FilterTypeNested:
		if depth == 0 {
			f.Type = core.FilterTypeExists
			break
		}
		f.Operator = pick(r, []core.LogicalOperator{core.OperatorAND, core.OperatorOR, core.OperatorNOT, ""})
		for i := 0; i < 1+r.Intn(3); i++ {
			ch := w.facet(vals, depth-1)
			f.Nested = append(f.Nested, ch)
		}
	}
	return f
}

// hasNot: negations over a missing field have no documented meaning.
func hasNot(f core.FacetFilter) bool {
	if f.Type != core.FilterTypeNested {
		return false
	}
	for _, ch := range f.Nested {
		if hasNot(ch) {
			return true
		}
	}
	return f.Operator == core.OperatorNOT
}

func c16facets(c *Case) {
	w, keys, vals := c16world(c)
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	for i := 0; i < 12; i++ {
		for j := 0; j < 5; j++ {
			w.Step()
		}
		for j := 0; j < 8; j++ {
			w.facets(sims[c.Idx%3], keys, vals)
		}
	}
	w.close()
}

func (w *World) facets(sim string, keys, vals []string) {
	c, r := w.c, w.R
	o := w.options()
	fo := core.FacetedSearchOptions{ReturnFacets: r.Intn(4) > 0, Facets: map[string]core.FacetFilter{}, MaxFacetValues: pick(r, []int{0, -1, 1, 2, 3, 100, 101, 5000})}
	for i := 0; i < r.Intn(3); i++ {
		fo.Facets[pick(r, keys)] = w.facet(vals, 2)
	}
	if r.Intn(6) == 0 {
		fo.Facets["missing"] = core.FacetFilter{Type: core.FilterTypeNested, Operator: core.OperatorOR, Nested: []core.FacetFilter{{Type: core.FilterTypeEquals}}}
	}
	base := optPred(o)
	unclear := map[string]bool{}
	pred := func(x *Rec) bool {
		if !base(x) {
			return false
		}
		for k, f := range fo.Facets {
			v, has := x.Meta[k]
			if hasNot(f) && !has {
				unclear[x.ID] = true
			}
			b, _, act := refFacet(f, v, has)
			if act && !b && !unclear[x.ID] {
				return false
			}
		}
		return true
	}
	q, _ := w.query()
	cand := w.rank(sim, q, pred)
	for i := 0; i < len(cand); i++ {
		if unclear[cand[i].rec.ID] {
			return // a negated condition on a missing field decides the outcome: not specified
		}
	}
	o.Threshold = w.threshold(cand)
	fo.SearchOptions = o
	c.Op("SearchWithFacets %s %+v max %d", optStr(o), fo.Facets, fo.MaxFacetValues)
	res, fr, err := w.S.SearchWithFacets(bg, cpVec(q), fo)
	w.ok(err, "SearchWithFacets")
	w.checkResults("SearchWithFacets", res, cand, kOf(o), o.Threshold, searchMode{exact: true})
	c.Count("facet_searches", 1)
	if len(cand) > 0 && len(cand) < len(w.Recs) {
		c.Nontrivial()
	}
	if !fo.ReturnFacets {
		c.Check(len(fr) == 0, "facets-unasked", "facet counts were returned without being requested: %v", fr)
		return
	}
	lim := fo.MaxFacetValues
	if lim <= 0 {
		lim = 10
	}
	seen := map[string]bool{}
	for _, x := range fr {
		_, asked := fo.Facets[x.Field]
		c.Check(asked && !seen[x.Field], "facet-field", "facet counts for %q, asked %v", x.Field, fo.Facets)
		seen[x.Field] = true
	}
	for field := range fo.Facets {
		want := map[string]int{}
		for _, x := range w.Recs {
			if v, has := x.Meta[field]; has && base(x) {
				want[v]++
			}
		}
		counts := []int{}
		for _, n := range want {
			counts = append(counts, n)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(counts)))
		if len(counts) > lim {
			counts = counts[:lim]
			c.Count("facets_cut", 1)
		}
		got := core.FacetResult{}
		for _, x := range fr {
			if x.Field == field {
				got = x
			}
		}
		c.Check(len(got.Values) == len(counts), "facet-values", "facet %q has values %v, want the top %d of %v", field, got.Values, lim, want)
		total := 0
		var gc []int
		for v, n := range got.Values {
			c.Check(want[v] == n, "facet-count", "facet %q counts %d of %q, want %d", field, n, v, want[v])
			total += n
			gc = append(gc, n)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(gc)))
		c.Check(fmt.Sprint(gc) == fmt.Sprint(counts) || len(gc) == 0, "facet-top", "facet %q returned %v, not the most frequent of %v", field, got.Values, want)
		c.Check(got.Total == total, "facet-total", "facet %q: total %d, sum of the counts %d", field, got.Total, total)
		c.Count("facet_counts", len(gc))
	}
}

// c16large: more records than any internal page or batch.
func c16large(c *Case) {
	w, keys, vals := c16world(c)
	gen, n := w.GenMeta, 0
	w.GenMeta = func() map[string]string { // one field has a thousand values and more
		n++
		m := gen()
		if m != nil {
			m[keys[2]] = fmt.Sprintf("v%d", n)
		}
		return m
	}
	defer func() {
		if w.S != nil {
			w.S.Close()
		}
	}()
	w.Fill(1400 + c.R.Intn(800))
	for j := 0; j < 25; j++ {
		w.aggregate(keys, vals)
		if j%4 == 0 {
			w.facets(sims[c.Idx%3], keys, vals)
		}
	}
	w.close()
}
