package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/liliang-cn/cortexdb/v2/pkg/geo"
)

func init() {
	register(&Prop{ID: "C30", Level: "exploration",
		Rule: "a case is one history of inserts, moves, deletes and clears of geographic points with radius, nearest-neighbour, box and polygon queries (part history; part large with 1500 to 4000 points), or concurrent actors on one index (part shared, under the race detector); every answer is compared with brute force using an independent distance and containment computation; non-trivial when a radius query crossed the date line or contained a pole, or K cut the answer",
		Run: func(r *Run) {
			r.Parallel("history", r.N(200, 8000), 0, c30history)
			r.Parallel("large", r.N(8, 200), 0, c30large)
			r.Parallel("shared", r.N(6, 100), 0, c30shared)
		}})
}

type geoWorld struct {
	c    *Case
	g    *geo.GeoIndex
	m    map[string]geo.GeoPoint
	r    *rand.Rand
	mode int
}

// geoDist is the great-circle distance by the angle between position vectors, with its tolerance in km.
func geoDist(a, b geo.Coordinate) (float64, float64) {
	vec := func(p geo.Coordinate) [3]float64 {
		la, lo := p.Lat*math.Pi/180, p.Lng*math.Pi/180
		return [3]float64{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
	}
	x, y := vec(a), vec(b)
	cr := [3]float64{x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]}
	d := 6371 * math.Atan2(math.Sqrt(cr[0]*cr[0]+cr[1]*cr[1]+cr[2]*cr[2]), x[0]*y[0]+x[1]*y[1]+x[2]*y[2])
	tol := 1e-6
	if d > 19000 {
		tol = 0.5 // haversine loses precision near the antipode
	}
	return d, tol
}

// coord draws a position; clusters near poles, date line, equator and cell borders are common.
func (w *geoWorld) coord() geo.Coordinate {
	r := w.r
	clamp := func(p geo.Coordinate) geo.Coordinate {
		p.Lat = math.Max(-90, math.Min(90, p.Lat))
		p.Lng = math.Max(-180, math.Min(180, p.Lng))
		return p
	}
	switch n := r.Intn(12); {
	case n < 3 && len(w.m) > 0: // near another one
		p := w.m[pick(r, sortedKeys(w.m))].Coordinate
		s := math.Pow(10, float64(r.Intn(6)-4))
		return clamp(geo.Coordinate{Lat: p.Lat + r.NormFloat64()*s, Lng: p.Lng + r.NormFloat64()*s/math.Max(0.01, math.Cos(p.Lat*math.Pi/180))})
	case n == 3:
		return clamp(geo.Coordinate{Lat: r.NormFloat64() * 3, Lng: math.Copysign(180-r.ExpFloat64()*0.5, r.NormFloat64())})
	case n == 4:
		return clamp(geo.Coordinate{Lat: math.Copysign(90-r.ExpFloat64(), r.NormFloat64()), Lng: r.Float64()*360 - 180})
	case n == 5:
		return clamp(geo.Coordinate{Lat: math.Round(r.Float64()*1800-900) / 10, Lng: math.Round(r.Float64()*3600-1800) / 10})
	case n == 6:
		return geo.Coordinate{Lat: pick(r, []float64{-90, 90, 0, 45}), Lng: pick(r, []float64{-180, 180, 0, 90})}
	case n == 7:
		return geo.Coordinate{Lat: r.NormFloat64() * 0.2, Lng: r.NormFloat64() * 0.2}
	case n == 8 && len(w.m) > 0: // the antipode of another one
		p := w.m[pick(r, sortedKeys(w.m))].Coordinate
		lng := p.Lng + 180
		if lng > 180 {
			lng -= 360
		}
		return geo.Coordinate{Lat: -p.Lat, Lng: lng}
	case n == 9:
		return geo.Coordinate{Lat: 60 + r.Float64()*29.9, Lng: r.Float64()*360 - 180}
	}
	return geo.Coordinate{Lat: r.Float64()*180 - 90, Lng: r.Float64()*360 - 180}
}

func (w *geoWorld) put(id string) {
	p := geo.GeoPoint{ID: id, Coordinate: w.coord()}
	if w.r.Intn(2) == 0 {
		p.Metadata = map[string]interface{}{"n": w.r.Intn(100)}
	}
	q := p
	if p.Metadata != nil {
		q.Metadata = map[string]interface{}{"n": p.Metadata["n"]}
	}
	err := w.g.Insert(q)
	w.c.Check(err == nil, "insert-failed", "Insert %s at %v: %v", id, p.Coordinate, err)
	if q.Metadata != nil {
		q.Metadata["n"] = "scribbled"
	}
	w.m[id] = p
}

func (w *geoWorld) same(op string, got geo.GeoPoint) {
	want, ok := w.m[got.ID]
	w.c.Check(ok, "stale-point:"+op, "%s returned %q, which is not in the index", op, got.ID)
	w.c.Check(reflect.DeepEqual(got, want), "stale-point:"+op, "%s returned %+v, stored %+v", op, got, want)
	if got.Metadata != nil {
		got.Metadata["n"] = "scribbled"
	}
}

func (w *geoWorld) near(op string, res []geo.GeoSearchResult, at geo.Coordinate, unit float64) map[string]bool {
	c := w.c
	seen := map[string]bool{}
	for i, x := range res {
		w.same(op, x.Point)
		c.Check(!seen[x.Point.ID], "duplicate-point:"+op, "%s returned %q twice", op, x.Point.ID)
		seen[x.Point.ID] = true
		d, tol := geoDist(at, x.Point.Coordinate)
		c.Check(math.Abs(x.Distance*unit-d) <= tol+1e-9*d, "wrong-distance:"+op, "%s put %q %v at %v km from %v, it is %v km away", op, x.Point.ID, x.Point.Coordinate, x.Distance*unit, at, d)
		c.Check(i == 0 || x.Distance >= res[max(i-1, 0)].Distance, "wrong-order:"+op, "result %d at %v follows %v", i, x.Distance, res[max(i-1, 0)].Distance)
	}
	return seen
}

func (w *geoWorld) query() {
	c, r := w.c, w.r
	at := w.coord()
	switch r.Intn(4) {
	case 0:
		km := math.Pow(10, r.Float64()*6-1.5)
		if len(w.m) > 0 && r.Intn(3) == 0 { // just around some point
			d, _ := geoDist(at, w.m[pick(r, sortedKeys(w.m))].Coordinate)
			km = math.Max(0.001, d+pick(r, []float64{-0.01, 0.01, 1, -1}))
		}
		if r.Intn(40) == 0 {
			km = pick(r, []float64{1e12, math.Inf(1), 20100, 20015})
		}
		unit, name := 1.0, geo.Kilometers
		switch r.Intn(3) {
		case 0:
			unit, name = 1.60934, geo.Miles
		case 1:
			unit, name = 0.001, geo.Meters
		}
		var res []geo.GeoSearchResult
		var err error
		within(c, "SearchRadius", func() { res, err = w.g.SearchRadius(at, km/unit, name) })
		c.Op("SearchRadius %v %v %s: %d", at, km/unit, name, len(res))
		c.Check(err == nil, "radius-failed", "SearchRadius: %v", err)
		seen := w.near("SearchRadius", res, at, unit)
		for id, p := range w.m {
			d, tol := geoDist(at, p.Coordinate)
			tol += 1e-9 * d
			if seen[id] {
				c.Check(d <= km+tol, "radius-too-far", "SearchRadius(%v, %v km) returned %q %v, %v km away", at, km, id, p.Coordinate, d)
			} else {
				c.Check(d >= km-tol, "radius-missed", "SearchRadius(%v, %v km) missed %q %v, %v km away", at, km, id, p.Coordinate, d)
			}
			if seen[id] && math.Abs(at.Lng-p.Coordinate.Lng) > 180 {
				c.Nontrivial()
				c.Count("across_date_line", 1)
			}
			if seen[id] && math.Abs(at.Lat) > 60 && math.Abs(at.Lng-p.Coordinate.Lng)*111 > km*2 {
				c.Count("high_latitude", 1)
				c.Nontrivial()
			}
		}
		if len(res) > 0 && r.Intn(3) == 0 { // a point at exactly the radius is within it
			x := pick(r, res)
			var again []geo.GeoSearchResult
			within(c, "SearchRadius", func() { again, err = w.g.SearchRadius(at, x.Distance, name) })
			if x.Distance > 0 && name == geo.Kilometers {
				found := false
				for _, y := range again {
					found = found || y.Point.ID == x.Point.ID
				}
				c.Op("SearchRadius %v %v: %d", at, x.Distance, len(again))
				c.Check(err == nil && found, "radius-missed", "SearchRadius(%v, %v km) missed %q, which it puts at that distance (%v)", at, x.Distance, x.Point.ID, err)
				c.Count("exact_radius", 1)
			}
		}
		c.Count("radius_queries", 1)
	case 1:
		k := 1 + r.Intn(len(w.m)+3)
		if r.Intn(2) == 0 {
			k = 1 + r.Intn(5)
		}
		res, err := w.g.SearchKNN(at, k)
		c.Op("SearchKNN %v %d: %d", at, k, len(res))
		c.Check(err == nil && len(res) == min(k, len(w.m)), "knn-count", "SearchKNN(%d) of %d points returned %d (%v)", k, len(w.m), len(res), err)
		seen := w.near("SearchKNN", res, at, 1)
		for id, p := range w.m {
			if !seen[id] && len(res) > 0 {
				d, tol := geoDist(at, p.Coordinate)
				last, t2 := geoDist(at, res[len(res)-1].Point.Coordinate)
				c.Check(d >= last-tol-t2, "knn-missed", "SearchKNN left out %q at %v km, the last result is at %v", id, d, last)
				c.Nontrivial()
			}
		}
		c.Count("knn_queries", 1)
	case 2:
		b := w.coord()
		if r.Intn(2) == 0 && len(w.m) > 0 {
			b = geo.Coordinate{Lat: math.Min(90, at.Lat+r.ExpFloat64()), Lng: math.Min(180, at.Lng+r.ExpFloat64()*5)}
		}
		box := geo.BoundingBox{MinLat: math.Min(at.Lat, b.Lat), MaxLat: math.Max(at.Lat, b.Lat), MinLng: math.Min(at.Lng, b.Lng), MaxLng: math.Max(at.Lng, b.Lng)}
		if r.Intn(20) == 0 {
			box = geo.BoundingBox{MinLat: -90, MaxLat: 90, MinLng: -180, MaxLng: 180}
		}
		res, err := w.g.SearchBoundingBox(box)
		c.Op("SearchBoundingBox %+v: %d", box, len(res))
		c.Check(err == nil, "box-failed", "SearchBoundingBox(%+v): %v", box, err)
		seen := map[string]bool{}
		for _, p := range res {
			c.Check(!seen[p.ID], "duplicate-point:box", "SearchBoundingBox returned %q twice", p.ID)
			seen[p.ID] = true
			w.same("SearchBoundingBox", p)
		}
		for id, p := range w.m {
			in := p.Coordinate.Lat >= box.MinLat && p.Coordinate.Lat <= box.MaxLat && p.Coordinate.Lng >= box.MinLng && p.Coordinate.Lng <= box.MaxLng
			c.Check(in == seen[id], "box-wrong", "SearchBoundingBox(%+v): %q %v inside %v, returned %v", box, id, p.Coordinate, in, seen[id])
		}
		c.Count("box_queries", 1)
	case 3:
		w.polygon()
	}
}

// polygon queries a star-shaped polygon, convex or not.
func (w *geoWorld) polygon() {
	c, r := w.c, w.r
	at := w.coord()
	n := 3 + r.Intn(8)
	if r.Intn(6) == 0 {
		n = 60 + r.Intn(300)
	}
	size := math.Pow(10, r.Float64()*2.5-1)
	var poly []geo.Coordinate
	for i := 0; i < n; i++ {
		a := (float64(i) + r.Float64()*0.8) * 2 * math.Pi / float64(n)
		s := size * (0.3 + r.Float64())
		poly = append(poly, geo.Coordinate{Lat: at.Lat + s*math.Sin(a), Lng: at.Lng + s*math.Cos(a)})
	}
	if r.Intn(4) == 0 { // an axis-parallel rectangle through points of the index
		b := w.coord()
		poly = []geo.Coordinate{{Lat: at.Lat, Lng: at.Lng}, {Lat: b.Lat, Lng: at.Lng}, {Lat: b.Lat, Lng: b.Lng}, {Lat: at.Lat, Lng: b.Lng}}
	}
	if r.Intn(2) == 0 {
		for i, j := 0, len(poly)-1; i < j; i, j = i+1, j-1 {
			poly[i], poly[j] = poly[j], poly[i]
		}
	}
	if r.Intn(4) == 0 {
		poly = append(poly, poly[0]) // closed explicitly
	}
	keep := append([]geo.Coordinate(nil), poly...)
	res, err := w.g.SearchPolygon(poly)
	c.Op("SearchPolygon %v: %d", poly, len(res))
	c.Check(err == nil && reflect.DeepEqual(keep, poly), "polygon-failed", "SearchPolygon: %v", err)
	seen := map[string]bool{}
	for _, p := range res {
		c.Check(!seen[p.ID], "duplicate-point:polygon", "SearchPolygon returned %q twice", p.ID)
		seen[p.ID] = true
		w.same("SearchPolygon", p)
	}
	for id, p := range w.m {
		in, edge := inPolygon(p.Coordinate, poly)
		if edge {
			continue
		}
		c.Check(in == seen[id], "polygon-wrong", "SearchPolygon(%v): %q %v inside %v, returned %v", poly, id, p.Coordinate, in, seen[id])
		if in {
			c.Count("in_polygon", 1)
		}
	}
	c.Count("polygon_queries", 1)
}

// inPolygon decides containment by the winding angle; edge is true when the point is too close to the border.
func inPolygon(p geo.Coordinate, poly []geo.Coordinate) (in, edge bool) {
	sum := 0.0
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		ax, ay, bx, by := a.Lng-p.Lng, a.Lat-p.Lat, b.Lng-p.Lng, b.Lat-p.Lat
		// distance to the segment
		dx, dy := bx-ax, by-ay
		t := 0.0
		if l := dx*dx + dy*dy; l > 0 {
			t = math.Max(0, math.Min(1, -(ax*dx+ay*dy)/l))
		}
		if math.Hypot(ax+t*dx, ay+t*dy) < 1e-7 {
			return false, true
		}
		sum += math.Atan2(ax*by-ay*bx, ax*bx+ay*by)
	}
	return math.Abs(sum) > math.Pi, false
}

func (w *geoWorld) check() {
	w.c.Check(w.g.Size() == len(w.m), "wrong-size", "Size %d of %d points", w.g.Size(), len(w.m))
}

func c30history(c *Case) {
	r := c.R
	w := &geoWorld{c: c, g: geo.NewGeoIndex(), m: map[string]geo.GeoPoint{}, r: r}
	n := 3 + r.Intn(40)
	for s := 0; s < 60; s++ {
		id := fmt.Sprint("p", r.Intn(n))
		switch k := r.Intn(12); {
		case k < 4:
			w.put(id)
			c.Op("Insert %s %v", id, w.m[id].Coordinate)
		case k == 4:
			_, live := w.m[id]
			ok := w.g.Delete(id)
			c.Op("Delete %s: %v", id, ok)
			c.Check(ok == live, "delete-verdict", "Delete(%s) answered %v, live %v", id, ok, live)
			delete(w.m, id)
		case k == 5:
			if r.Intn(10) == 0 {
				w.g.Clear()
				c.Op("Clear")
				w.m = map[string]geo.GeoPoint{}
			}
		case k == 6:
			p, ok := w.g.GetPoint(id)
			_, live := w.m[id]
			c.Check(ok == live, "get-verdict", "GetPoint(%s) found %v, live %v", id, ok, live)
			if ok {
				w.same("GetPoint", *p)
			}
		case k == 7: // refused calls change nothing
			nan, inf := math.NaN(), math.Inf(1)
			bad := pick(r, []geo.Coordinate{{Lat: 90.0001}, {Lat: -91}, {Lng: 180.001}, {Lng: -200}, {Lat: nan}, {Lng: nan}, {Lat: inf}, {Lng: -inf}})
			err := w.g.Insert(geo.GeoPoint{ID: id, Coordinate: bad})
			c.Check(err != nil, "invalid-accepted", "Insert at %v accepted", bad)
			_, e1 := w.g.SearchRadius(bad, 1, geo.Kilometers)
			_, e2 := w.g.SearchKNN(bad, 1)
			_, e3 := w.g.SearchRadius(geo.Coordinate{}, pick(r, []float64{0, -1, nan, -inf}), geo.Kilometers)
			_, e4 := w.g.SearchKNN(geo.Coordinate{}, -r.Intn(3))
			_, e5 := w.g.SearchBoundingBox(pick(r, []geo.BoundingBox{{MinLat: 1}, {MinLng: 1}, {MinLat: -91}, {MaxLng: 181}, {MinLat: nan}, {MaxLng: nan}}))
			_, e6 := w.g.SearchPolygon(make([]geo.Coordinate, r.Intn(3)))
			e7 := w.g.Insert(geo.GeoPoint{})
			c.Check(e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil && e7 != nil, "invalid-accepted", "an invalid request was accepted: %v %v %v %v %v %v %v", e1, e2, e3, e4, e5, e6, e7)
			c.Count("refused", 8)
		default:
			w.query()
		}
		w.check()
	}
}

func c30large(c *Case) {
	r := c.R
	w := &geoWorld{c: c, g: geo.NewGeoIndex(), m: map[string]geo.GeoPoint{}, r: r}
	n := 1500 + r.Intn(2500)
	// coord picks from sortedKeys, so spread first
	for i := 0; i < n; i++ {
		keep := w.m
		if i%50 != 0 {
			w.m = nil
		}
		p := geo.GeoPoint{ID: fmt.Sprint("p", i), Coordinate: w.coord()}
		w.m = keep
		if i%3 == 0 {
			p.Coordinate = geo.Coordinate{Lat: r.NormFloat64() * 2, Lng: 100 + r.NormFloat64()*2}
		}
		c.Check(w.g.Insert(p) == nil, "insert-failed", "Insert failed")
		w.m[p.ID] = p
	}
	for i := 0; i < n; i += 3 {
		id := fmt.Sprint("p", r.Intn(n))
		if r.Intn(2) == 0 {
			w.g.Delete(id)
			delete(w.m, id)
		}
	}
	w.check()
	for i := 0; i < 40; i++ {
		w.query()
	}
	c.Seen("large", fmt.Sprint(n))
}

func c30shared(c *Case) {
	g := geo.NewGeoIndex()
	const n = 4
	ws := make([]*geoWorld, n)
	fork(c, n+2, func(i int, r *rand.Rand) {
		if i >= n {
			for s := 0; s < 40; s++ {
				res, err := g.SearchRadius(geo.Coordinate{Lat: r.Float64()*160 - 80, Lng: r.Float64()*360 - 180}, 2000, geo.Kilometers)
				c.Check(err == nil, "radius-failed", "SearchRadius: %v", err)
				for j := range res {
					c.Check(j == 0 || res[j].Distance >= res[j-1].Distance, "wrong-order:shared", "result %d out of order", j)
				}
				_, err = g.SearchKNN(geo.Coordinate{}, 3)
				c.Check(err == nil, "knn-failed", "SearchKNN: %v", err)
				_, err = g.SearchBoundingBox(geo.BoundingBox{MinLat: -10, MaxLat: 10, MinLng: -10, MaxLng: 10})
				c.Check(err == nil, "box-failed", "SearchBoundingBox: %v", err)
				poly, err := g.SearchPolygon([]geo.Coordinate{{Lat: -40, Lng: -60}, {Lat: 50, Lng: -60}, {Lat: 50, Lng: 70}, {Lat: -40, Lng: 70}})
				c.Check(err == nil, "polygon-failed", "SearchPolygon: %v", err)
				for _, p := range poly {
					c.Check(p.Coordinate.Lat >= -40.001 && p.Coordinate.Lat <= 50.001 && p.Coordinate.Lng >= -60.001 && p.Coordinate.Lng <= 70.001, "polygon-outside:shared", "SearchPolygon returned %+v", p)
				}
				g.Size()
				jitter(r)
			}
			return
		}
		w := &geoWorld{c: c, g: g, m: map[string]geo.GeoPoint{}, r: r}
		ws[i] = w
		for s := 0; s < 50; s++ {
			id := fmt.Sprintf("%d-%d", i, r.Intn(10))
			if _, live := w.m[id]; live && r.Intn(2) == 0 {
				c.Check(g.Delete(id), "delete-verdict", "Delete of the actor's own point failed")
				delete(w.m, id)
			} else {
				w.put(id)
			}
			if p, ok := g.GetPoint(id); ok {
				w.same("GetPoint", *p)
			}
			jitter(r)
		}
	})
	all := &geoWorld{c: c, g: g, m: map[string]geo.GeoPoint{}, r: c.R}
	for _, w := range ws {
		for id, p := range w.m {
			all.m[id] = p
		}
	}
	all.check()
	for i := 0; i < 10; i++ {
		all.query()
	}
}
