package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
)

func init() {
	register(&Prop{ID: "C20", Level: "exploration",
		Rule: "a case is one trained scalar, binary, projected binary or product quantizer; every code, reconstruction, distance and search of vectors inside and outside the training range is recomputed independently, before and after serialization, and malformed training sets, vectors, codes and serialized bytes are offered; non-trivial when vectors outside the training range and malformed input were judged",
		Run: func(r *Run) {
			r.Parallel("scalar", r.N(1600, 40000), 0, c20scalar)
			r.Parallel("binary", r.N(1200, 30000), 0, c20binary)
			r.Parallel("product", r.N(600, 15000), 0, c20product)
		}})
}

// trainSet20 draws training vectors; some dimensions may be constant, tiny or huge.
func trainSet20(r *rand.Rand, n, dim int) [][]float32 {
	out := make([][]float32, n)
	for i := range out {
		out[i] = make([]float32, dim)
	}
	for d := 0; d < dim; d++ {
		mode := r.Intn(7)
		base := float32(r.NormFloat64())
		if mode >= 4 {
			base *= float32(math.Pow(10, float64(r.Intn(50)-15)))
		}
		for i := range out {
			switch mode {
			case 0: // constant
				out[i][d] = base
			case 4: // constant of any magnitude
				out[i][d] = base
			case 5: // any magnitude
				out[i][d] = base * r.Float32()
			case 6: // the whole range
				out[i][d] = math.MaxFloat32 * (2*r.Float32() - 1)
			default:
				out[i][d] = base + float32(r.NormFloat64())
			}
		}
	}
	return out
}

func finite(v []float32) bool {
	for _, x := range v {
		if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
			return false
		}
	}
	return true
}

func c20scalar(c *Case) {
	r := c.R
	dim, bits := 1+r.Intn(20), 1+r.Intn(8)
	for _, b := range []int{0, -1, 9, 64} {
		_, err := quantization.NewScalarQuantizer(dim, b)
		c.Check(err != nil, "sq-bits", "%d bits accepted", b)
	}
	q, err := quantization.NewScalarQuantizer(dim, bits)
	c.Check(err == nil, "sq-new", "%v", err)
	_, e1 := q.Encode(make([]float32, dim))
	_, e2 := q.Decode(make([]byte, dim))
	c.Check(e1 != nil && e2 != nil, "sq-untrained", "an untrained quantizer encoded (%v) or decoded (%v)", e1, e2)
	n := 1 + r.Intn(30)
	set := trainSet20(r, n, dim)
	if r.Intn(2) == 0 { // a refused training set leaves it untrained
		bad := append([][]float32{}, set...)
		switch r.Intn(3) {
		case 0:
			bad = nil
		case 1:
			bad[r.Intn(n)] = randVec(r, dim+1, 0)
		case 2:
			bad[r.Intn(n)] = randVec(r, dim-1, 0)
		}
		err := q.Train(bad)
		c.Op("Train with a malformed set: %v", err)
		c.Check(err != nil, "sq-bad-train", "a malformed training set was accepted")
		_, e1 := q.Encode(make([]float32, dim))
		c.Check(e1 != nil, "sq-bad-train", "trained after a refused training set")
	}
	err = q.Train(set)
	c.Op("Train on %d vectors of %d dimensions, %d bits: %v", n, dim, bits, err)
	c.Check(err == nil, "sq-train", "Train: %v", err)
	lo, hi := cpVec(set[0]), cpVec(set[0])
	for _, v := range set {
		for d := range v {
			lo[d] = min(lo[d], v[d])
			hi[d] = max(hi[d], v[d])
		}
	}
	levels := float64(int(1)<<bits - 1)
	judge := func(q *quantization.ScalarQuantizer, v []float32, what string) []byte {
		in := cpVec(v)
		code, err := q.Encode(in)
		c.Check(err == nil && bitsEq(in, v), "sq-encode", "Encode: %v", err)
		c.Check(len(code) == (dim*bits+7)/8, "sq-code-length", "%d bytes for %d x %d bits", len(code), dim, bits)
		back, err := q.Decode(append([]byte(nil), code...))
		c.Check(err == nil && len(back) == dim, "sq-decode", "Decode: %v", err)
		for d := range v {
			x := math.Min(math.Max(float64(v[d]), float64(lo[d])), float64(hi[d]))
			span := float64(hi[d]) - float64(lo[d])
			tol := span/levels/2*(1+1e-4) + 4e-7*math.Max(math.Abs(float64(lo[d])), math.Abs(float64(hi[d]))) + 1.1e-6 + 1e-45
			c.Check(math.Abs(float64(back[d])-x) <= tol, "sq-error:"+what, "component %d: %v trained on [%v, %v] with %d bits reads back as %v, further than half a step (%v)", d, v[d], lo[d], hi[d], bits, back[d], tol)
			if v[d] < lo[d] || v[d] > hi[d] {
				c.Count("clamped", 1)
				c.Nontrivial()
			}
		}
		again, err := q.Encode(back)
		c.Check(err == nil && bytes.Equal(again, code) || hasDegenerate(lo, hi), "sq-unstable", "the reconstruction encodes to %x, the original to %x", again, code)
		c.Count("sq_vectors", 1)
		return code
	}
	var vs [][]float32
	var codes [][]byte
	for i := 0; i < 12; i++ {
		v := make([]float32, dim)
		for d := range v {
			switch r.Intn(6) {
			case 0:
				v[d] = lo[d]
			case 1:
				v[d] = hi[d]
			case 2:
				v[d] = float32(r.NormFloat64() * 1e6)
			case 3:
				v[d] = pick(r, []float32{math.MaxFloat32, -math.MaxFloat32, 0, math.SmallestNonzeroFloat32})
			default:
				v[d] = float32(float64(lo[d]) + r.Float64()*(float64(hi[d])-float64(lo[d])))
			}
		}
		vs = append(vs, v)
		codes = append(codes, judge(q, v, "fresh"))
	}
	// monotone: a larger component never gets a smaller reconstruction
	d := r.Intn(dim)
	last := math.Inf(-1)
	for i := 0; i <= 20; i++ {
		v := cpVec(set[0])
		v[d] = float32(float64(lo[d]) + float64(i)/20*(float64(hi[d])-float64(lo[d])))
		code, err := q.Encode(v)
		c.Check(err == nil, "sq-encode", "Encode: %v", err)
		back, err := q.Decode(code)
		c.Check(err == nil && float64(back[d]) >= last, "sq-monotone", "component %v reads back as %v, a smaller one as %v", v[d], back[d], last)
		last = float64(back[d])
	}
	for i := 0; i < 6; i++ {
		v := cpVec(vs[i])
		v[r.Intn(dim)] = pick(r, []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))})
		if code, err := q.Encode(v); err == nil {
			back, err := q.Decode(code)
			c.Check(err == nil && finite(back), "sq-nan", "%v reads back as %v (%v)", v, back, err)
		}
		_, e1 := q.Encode(randVec(r, dim+1+r.Intn(3), 0))
		_, e2 := q.Encode(randVec(r, r.Intn(dim), 0))
		_, e3 := q.Encode(nil)
		c.Check(e1 != nil && e2 != nil && e3 != nil, "sq-dimension", "a vector of another dimension was encoded")
		if n := (dim*bits + 7) / 8; n > 0 {
			_, e4 := q.Decode(codes[0][:r.Intn(n)])
			c.Check(e4 != nil, "sq-short", "a truncated code was decoded")
		}
	}
	// any code decodes inside the range
	for i := 0; i < 6; i++ {
		code := make([]byte, (dim*bits+7)/8)
		r.Read(code)
		back, err := q.Decode(code)
		c.Check(err == nil && finite(back), "sq-any-code", "code %x decodes to %v (%v)", code, back, err)
	}
	reload20(c, "sq", func(w interface{ Write([]byte) (int, error) }) error { return q.Save(w) }, func(b []byte) error {
		q2, err := quantization.NewScalarQuantizer(pick(r, []int{dim, 1, dim + 3}), 8)
		c.Check(err == nil, "sq-new", "%v", err)
		err = q2.Load(bytes.NewReader(b))
		if err == nil { // whatever was accepted must work
			if code, err := q2.Encode(make([]float32, q2.Dimension)); err == nil {
				q2.Decode(code)
			}
			q2.Decode([]byte{1})
		}
		return err
	})
	var b bytes.Buffer
	c.Check(q.Save(&b) == nil, "sq-save", "Save failed")
	q2, _ := quantization.NewScalarQuantizer(1, 8)
	err = q2.Load(&b)
	c.Check(err == nil, "sq-load", "Load: %v", err)
	for i, v := range vs {
		code := judge(q2, v, "loaded")
		c.Check(bytes.Equal(code, codes[i]), "sq-reload", "code %x after reload, %x before", code, codes[i])
		x, _ := q.Decode(code)
		y, _ := q2.Decode(code)
		c.Check(bitsEq(x, y), "sq-reload", "decoded %v after reload, %v before", y, x)
	}
	// retraining replaces what was learnt
	set2 := trainSet20(r, 5, dim)
	c.Check(q2.Train(set2) == nil, "sq-train", "retraining failed")
	q3, _ := quantization.NewScalarQuantizer(dim, bits)
	c.Check(q3.Train(set2) == nil, "sq-train", "training failed")
	for _, v := range vs {
		a, _ := q2.Encode(v)
		b, _ := q3.Encode(v)
		c.Check(bytes.Equal(a, b), "sq-retrain", "retrained quantizer encodes to %x, a fresh one to %x", a, b)
	}
}

// hasDegenerate reports dimensions whose steps vanish in float32.
func hasDegenerate(lo, hi []float32) bool {
	for d := range lo {
		if float64(hi[d])-float64(lo[d]) < 1e-3*math.Max(math.Abs(float64(hi[d])), math.Abs(float64(lo[d]))) || hi[d]-lo[d] < 1e-3 {
			return true
		}
	}
	return false
}

// reload20 offers truncated and altered serialized forms; none may panic.
func reload20(c *Case, what string, save func(w interface{ Write([]byte) (int, error) }) error, use func([]byte) error) {
	r := c.R
	var b bytes.Buffer
	c.Check(save(&b) == nil, what+"-save", "Save failed")
	raw := b.Bytes()
	load := func(x []byte) (err error) {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(runtime.Error); !ok {
					panic(p)
				}
				c.Check(false, what+"-crash", "loading %x (the saved form is %x) and using the result crashed: %v", x, raw, p)
			}
		}()
		return use(x)
	}
	for i := 0; i < 12; i++ {
		x := append([]byte(nil), raw...)
		switch r.Intn(4) {
		case 0:
			x = x[:r.Intn(len(x))]
			err := load(x)
			c.Check(err != nil, what+"-truncated", "a serialized form cut to %d of %d bytes was accepted", len(x), len(raw))
			continue
		case 1:
			x[r.Intn(len(x))] ^= 1 << r.Intn(8)
		case 2:
			for j := 0; j < 4; j++ {
				x[r.Intn(len(x))] = byte(r.Intn(256))
			}
		case 3:
			x = make([]byte, r.Intn(40))
			r.Read(x)
		}
		err := load(x)
		c.Seen(what+"_corrupt", fmt.Sprint(err != nil))
	}
	c.Nontrivial()
}

func c20binary(c *Case) {
	r := c.R
	dim := 1 + r.Intn(40)
	q := quantization.NewBinaryQuantizer(dim)
	_, e1 := q.Encode(make([]float32, dim))
	_, e2 := q.Decode(make([]byte, (dim+7)/8))
	c.Check(e1 != nil && e2 != nil, "bq-untrained", "an untrained quantizer encoded (%v) or decoded (%v)", e1, e2)
	n := 1 + r.Intn(30)
	set := trainSet20(r, n, dim)
	bad := append([][]float32{}, set...)
	bad[r.Intn(n)] = randVec(r, dim+1, 0)
	c.Check(q.Train(bad) != nil && q.Train(nil) != nil, "bq-bad-train", "a malformed training set was accepted")
	_, e1 = q.Encode(make([]float32, dim))
	c.Check(e1 != nil, "bq-bad-train", "trained after a refused training set")
	err := q.Train(set)
	c.Op("Train %d dims on %d vectors, first %v", dim, n, set[0])
	c.Check(err == nil, "bq-train", "Train: %v", err)
	mean := make([]float64, dim)
	scale := make([]float64, dim)
	for _, v := range set {
		for d := range v {
			mean[d] += float64(v[d]) / float64(n)
			scale[d] = math.Max(scale[d], math.Abs(float64(v[d])))
		}
	}
	var vs [][]float32
	var codes [][]byte
	for i := 0; i < 12; i++ {
		v := make([]float32, dim)
		for d := range v {
			v[d] = float32(mean[d] + r.NormFloat64()*(scale[d]+1))
			if r.Intn(5) == 0 {
				v[d] = set[0][d]
			}
			if !finite(v[d : d+1]) {
				v[d] = 0
			}
		}
		in := cpVec(v)
		code, err := q.Encode(in)
		c.Check(err == nil && bitsEq(in, v) && len(code) == (dim+7)/8, "bq-encode", "Encode: %d bytes, %v", len(code), err)
		back, err := q.Decode(code)
		c.Check(err == nil && len(back) == dim && finite(back), "bq-decode", "Decode: %v, %v", back, err)
		for d := range v {
			set := code[d/8]&(1<<(d%8)) != 0
			if math.Abs(float64(v[d])-mean[d]) > 1e-6*scale[d]+1e-30 {
				c.Check(set == (float64(v[d]) > mean[d]), "bq-sign", "component %d is %v, the training mean %v, its bit %v", d, v[d], mean[d], set)
				if scale[d] < 1e5 {
					c.Check((float64(back[d]) > mean[d]) == set, "bq-decoded-sign", "component %d decodes to %v, the training mean is %v, its bit %v", d, back[d], mean[d], set)
				}
			}
		}
		for d := dim; d < len(code)*8; d++ {
			c.Check(code[d/8]&(1<<(d%8)) == 0, "bq-padding", "padding bit %d of %x set", d, code)
		}
		vs, codes = append(vs, v), append(codes, code)
		c.Count("bq_vectors", 1)
	}
	bitsOf := func(a, b []byte) int {
		n := 0
		for d := 0; d < len(a)*8; d++ {
			if (a[d/8]^b[d/8])&(1<<(d%8)) != 0 {
				n++
			}
		}
		return n
	}
	for i := 0; i < 8; i++ {
		a, b := pick(r, codes), pick(r, codes)
		c.Check(q.HammingDistance(a, b) == bitsOf(a, b), "bq-hamming", "distance of %x and %x given as %d", a, b, q.HammingDistance(a, b))
		k := r.Intn(len(codes)+4) - 1
		db := append([][]byte{}, codes...)
		if r.Intn(2) == 0 {
			db[r.Intn(len(db))] = make([]byte, (dim+7)/8+1)
		}
		idx, ds := q.SearchBinary(a, db, k)
		ok := 0
		for _, e := range db {
			if len(e) == len(a) {
				ok++
			}
		}
		c.Check(len(idx) == len(ds) && len(idx) == min(max(k, 0), ok), "bq-search-count", "%d results, k=%d, %d codes of that length", len(idx), k, ok)
		seen := map[int]bool{}
		for j, x := range idx {
			c.Check(x >= 0 && x < len(db) && !seen[x] && len(db[x]) == len(a) && ds[j] == bitsOf(a, db[x]), "bq-search", "result %d names code %d at distance %d", j, x, ds[j])
			seen[x] = true
			c.Check(j == 0 || ds[j] >= ds[j-1], "bq-search-order", "distance %d follows %d", ds[j], ds[max(j-1, 0)])
		}
		for x, e := range db {
			if !seen[x] && len(e) == len(a) && len(ds) > 0 {
				c.Check(bitsOf(a, e) >= ds[len(ds)-1], "bq-search-missed", "code %d at distance %d left out, the last result is at %d", x, bitsOf(a, e), ds[len(ds)-1])
			}
		}
	}
	_, e1 = q.Encode(make([]float32, dim+1))
	_, e2 = q.Encode(nil)
	_, e3 := q.Decode(make([]byte, (dim+7)/8+1))
	_, e4 := q.Decode(nil)
	c.Check(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "bq-dimension", "a vector or code of another length was accepted")
	reload20(c, "bq", func(w interface{ Write([]byte) (int, error) }) error { return q.Save(w) }, func(b []byte) error {
		q2 := quantization.NewBinaryQuantizer(dim)
		err := q2.Load(bytes.NewReader(b))
		if err == nil {
			if code, err := q2.Encode(make([]float32, q2.Dimension)); err == nil {
				q2.Decode(code)
			}
		}
		return err
	})
	var b bytes.Buffer
	c.Check(q.Save(&b) == nil, "bq-save", "Save failed")
	q2 := quantization.NewBinaryQuantizer(1)
	c.Check(q2.Load(&b) == nil, "bq-load", "Load failed")
	for i, v := range vs {
		code, err := q2.Encode(v)
		c.Check(err == nil && bytes.Equal(code, codes[i]), "bq-reload", "code %x after reload, %x before", code, codes[i])
		x, _ := q.Decode(code)
		y, _ := q2.Decode(code)
		c.Check(bitsEq(x, y), "bq-reload", "decoded %v after reload, %v before", y, x)
	}

	// a component equal to the mean does not exceed it: sets whose mean is exact in single precision
	n = 1 << r.Intn(5)
	whole := make([][]float32, n)
	for i := range whole {
		whole[i] = make([]float32, dim)
		for d := range whole[i] {
			whole[i][d] = float32(r.Intn(2000)-1000) / 4
			if d%3 == 0 && i > 0 {
				whole[i][d] = whole[0][d]
			}
		}
	}
	q = quantization.NewBinaryQuantizer(dim)
	c.Check(q.Train(whole) == nil, "bq-train", "Train failed")
	at := make([]float32, dim)
	up, down := make([]float32, dim), make([]float32, dim)
	for d := range at {
		s := 0.0
		for _, v := range whole {
			s += float64(v[d])
		}
		at[d] = float32(s / float64(n))
		up[d], down[d] = math.Nextafter32(at[d], 1e9), math.Nextafter32(at[d], -1e9)
	}
	for i, v := range [][]float32{at, up, down} {
		code, err := q.Encode(v)
		c.Check(err == nil, "bq-encode", "Encode: %v", err)
		for d := range v {
			c.Check((code[d/8]&(1<<(d%8)) != 0) == (i == 1), "bq-sign", "component %d is %v, the training mean of %d vectors exactly %v, its bit %v", d, v[d], n, at[d], i != 1)
		}
	}
	c.Count("bq_exact_means", 1)

	// with random projections
	if r.Intn(3) == 0 {
		dim = 60 + r.Intn(300)
	}
	out := 1 + r.Intn(24)
	o := quantization.NewOptimizedBinaryQuantizer(dim, out)
	var ps [][]float32
	for i := 0; i < 20; i++ {
		v := randVec(r, dim, 0)
		in := cpVec(v)
		p := o.Project(in)
		c.Check(bitsEq(in, v) && len(p) == out, "obq-project", "%d components", len(p))
		for d := range p {
			want, abs := 0.0, 0.0
			for j := range v {
				t := float64(v[j]) * float64(o.Projections[d][j])
				want += t
				abs += math.Abs(t)
			}
			c.Check(math.Abs(float64(p[d])-want) <= 1e-4*abs+1e-9, "obq-project", "component %d of the projection is %v, the product with the projection vector is %v", d, p[d], want)
		}
		x, y := randVec(r, dim, 0), make([]float32, dim) // linear
		for d := range x {
			y[d] = x[d] + v[d]
		}
		px, py := o.Project(x), o.Project(y)
		for d := range p {
			c.Check(math.Abs(float64(py[d]-p[d]-px[d])) < 1e-3, "obq-linear", "the projection is not linear: %v + %v against %v", p[d], px[d], py[d])
		}
		ps = append(ps, p)
	}
	c.Check(o.Train(ps) == nil, "obq-train", "Train failed")
	for _, n := range []int{0, dim - 1, dim + 1, dim + 9} {
		p := o.Project(make([]float32, n))
		_, err := o.Encode(p)
		c.Check(n == dim || err != nil, "obq-dimension", "a vector of %d components was projected and encoded by a quantizer of %d", n, dim)
	}
	b.Reset()
	c.Check(o.Save(&b) == nil, "obq-save", "Save failed")
	o2 := quantization.NewOptimizedBinaryQuantizer(dim, out)
	c.Check(o2.Load(&b) == nil, "obq-load", "Load failed")
	for i := 0; i < 10; i++ {
		v := randVec(r, dim, 0)
		x, e1 := o.Encode(o.Project(v))
		y, e2 := o2.Encode(o2.Project(v))
		c.Check(e1 == nil && e2 == nil && bytes.Equal(x, y), "obq-reload", "code %x after reload, %x before", y, x)
	}
}

func c20product(c *Case) {
	r := c.R
	m, sub, k := 1+r.Intn(5), 1+r.Intn(4), 1+r.Intn(8)
	if r.Intn(10) == 0 {
		m, k = 1, 256
	}
	dim := m * sub
	for _, a := range [][3]int{{dim, 0, k}, {dim, m, 257}, {dim + 1, dim + 2, k}, {0, m, k}, {dim, m, 0}, {dim, -1, k}, {dim, m, -3}} {
		_, err := quantization.NewProductQuantizer(a[0], a[1], a[2])
		c.Check(err != nil, "pq-new", "NewProductQuantizer%v accepted", a)
	}
	q, err := quantization.NewProductQuantizer(dim, m, k)
	c.Check(err == nil, "pq-new", "%v", err)
	_, e1 := q.Encode(make([]float32, dim))
	_, e2 := q.Decode(make([]byte, m))
	_, e3 := q.ComputeDistance(make([]byte, m), make([]float32, dim))
	c.Check(e1 != nil && e2 != nil && e3 != nil && q.SerializeCodebooks() == nil, "pq-untrained", "an untrained quantizer answered")
	style := r.Intn(3)
	n := m*k + r.Intn(40)
	set := make([][]float32, n)
	for i := range set {
		set[i] = randVec(r, dim, style)
	}
	bad := append([][]float32{}, set...)
	bad[r.Intn(n)] = randVec(r, pick(r, []int{0, dim - 1, dim + 1}), 0)
	c.Check(q.Train(bad) != nil && q.Train(set[:m*k-1]) != nil, "pq-bad-train", "a malformed or too small training set was accepted")
	_, e1 = q.Encode(make([]float32, dim))
	c.Check(e1 != nil, "pq-bad-train", "trained after a refused training set")
	err = q.Train(set)
	c.Op("Train on %d vectors: %d subspaces of %d, %d centroids: %v", n, m, sub, k, err)
	c.Check(err == nil, "pq-train", "Train: %v", err)
	for _, v := range set {
		scribble(v)
	}
	// the codebook as seen through Decode
	word := make([][][]float32, m)
	for j := range word {
		for x := 0; x < k; x++ {
			code := make([]byte, m)
			code[j] = byte(x)
			v, err := q.Decode(code)
			c.Check(err == nil && len(v) == dim && finite(v), "pq-decode", "Decode(%x): %v %v", code, v, err)
			word[j] = append(word[j], v[j*sub:(j+1)*sub])
		}
	}
	var codes [][]byte
	var vs [][]float32
	judge := func(q *quantization.ProductQuantizer, v []float32, what string) []byte {
		in := cpVec(v)
		code, err := q.Encode(in)
		c.Check(err == nil && bitsEq(in, v) && len(code) == m, "pq-encode", "Encode: %x %v", code, err)
		for j := 0; j < m; j++ {
			c.Check(int(code[j]) < k, "pq-code", "code %d of %d centroids", code[j], k)
			have, tol := ref19("euclid", v[j*sub:(j+1)*sub], word[j][code[j]])
			for x := range word[j] {
				d, _ := ref19("euclid", v[j*sub:(j+1)*sub], word[j][x])
				c.Check(d >= have-tol, "pq-nearest:"+what, "subspace %d of %v encoded to a codeword at %v, another is at %v", j, v, have, d)
			}
		}
		c.Count("pq_vectors", 1)
		return code
	}
	for i := 0; i < 15; i++ {
		v := randVec(r, dim, pick(r, []int{style, 2}))
		vs = append(vs, v)
		codes = append(codes, judge(q, v, "fresh"))
	}
	dist := func(q *quantization.ProductQuantizer, v []float32, code []byte) (float64, float64) {
		back, err := q.Decode(code)
		c.Check(err == nil, "pq-decode", "Decode: %v", err)
		return ref19("euclid", v, back)
	}
	for i := 0; i < 10; i++ {
		v := randVec(r, dim, pick(r, []int{style, 2}))
		code := pick(r, codes)
		got, err := q.ComputeDistance(code, v)
		want, tol := dist(q, v, code)
		c.Check(err == nil && math.Abs(float64(got)-want) <= tol, "pq-distance", "ComputeDistance %v (%v), the reconstruction is at %v", got, err, want)
		topK := r.Intn(len(codes)+4) - 1
		db := append([][]byte{}, codes...)
		wrong := -1
		if r.Intn(2) == 0 {
			wrong = r.Intn(len(db))
			db[wrong] = make([]byte, pick(r, []int{0, m - 1, m + 1}))
			if k < 256 && r.Intn(2) == 0 {
				db[wrong] = bytes.Repeat([]byte{pick(r, []byte{255, byte(k)})}, m)
			}
		}
		ok := len(db)
		if wrong >= 0 {
			ok--
		}
		idx, ds := q.SearchPQ(v, db, topK)
		c.Check(len(idx) == len(ds) && len(idx) == min(max(topK, 0), ok), "pq-search-count", "%d results, k=%d, %d valid codes", len(idx), topK, ok)
		seen := map[int]bool{}
		for j, x := range idx {
			c.Check(x >= 0 && x < len(db) && x != wrong && !seen[x], "pq-search", "result %d names code %d", j, x)
			seen[x] = true
			want, tol := dist(q, v, db[x])
			c.Check(math.Abs(float64(ds[j])-want) <= tol, "pq-search-distance", "code %d at %v, its reconstruction is at %v", x, ds[j], want)
			c.Check(j == 0 || ds[j] >= ds[j-1], "pq-search-order", "distance %v follows %v", ds[j], ds[max(j-1, 0)])
		}
		for x, e := range db {
			if !seen[x] && x != wrong && len(ds) > 0 {
				want, tol := dist(q, v, e)
				c.Check(want >= float64(ds[len(ds)-1])-2*tol, "pq-search-missed", "code %d at %v left out, the last result is at %v", x, want, ds[len(ds)-1])
			}
		}
	}
	_, e1 = q.Encode(make([]float32, dim+1))
	_, e2 = q.Decode(make([]byte, m+1))
	_, e3 = q.ComputeDistance(make([]byte, m-1), make([]float32, dim))
	_, e4 := q.ComputeDistance(make([]byte, m), make([]float32, dim-1))
	var e5, e6 error = errEmbed, errEmbed
	if k < 256 {
		_, e5 = q.ComputeDistance(bytes.Repeat([]byte{255}, m), make([]float32, dim))
		_, e6 = q.Decode(bytes.Repeat([]byte{byte(k)}, m))
		if e5 != nil {
			_, e5 = q.ComputeDistance(bytes.Repeat([]byte{byte(k)}, m), make([]float32, dim))
		}
	}
	c.Check(e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil, "pq-dimension", "a malformed vector or code was accepted: %v %v %v %v %v %v", e1, e2, e3, e4, e5, e6)
	q.SearchPQ(make([]float32, dim+1), codes, 3)
	q.SearchPQ(nil, codes, 3)

	raw := q.SerializeCodebooks()
	reload20(c, "pq", func(w interface{ Write([]byte) (int, error) }) error { _, err := w.Write(raw); return err }, func(b []byte) error {
		q2, _ := quantization.NewProductQuantizer(dim, m, k)
		err := q2.DeserializeCodebooks(b)
		if err == nil {
			if code, err := q2.Encode(make([]float32, q2.D)); err == nil {
				q2.Decode(code)
				q2.ComputeDistance(code, make([]float32, q2.D))
			}
		} else {
			_, e := q2.Encode(make([]float32, dim))
			c.Check(e != nil, "pq-partial", "a refused codebook left the quantizer trained")
		}
		return err
	})
	// more centroids than a byte can name, in an otherwise consistent codebook
	wide := make([]byte, 16+dim*300*4)
	copy(wide, raw[:16])
	binary.LittleEndian.PutUint32(wide[4:], 300)
	for i := 16; i < len(wide); i += 4 {
		binary.LittleEndian.PutUint32(wide[i:], math.Float32bits(float32(i)))
	}
	if qw, _ := quantization.NewProductQuantizer(dim, m, k); qw.DeserializeCodebooks(wide) == nil {
		v := make([]float32, dim)
		for i := range v {
			v[i] = math.Float32frombits(binary.LittleEndian.Uint32(wide[len(wide)-4*dim/m+4*(i%(dim/m)):]))
		}
		code, err := qw.Encode(v)
		c.Check(err == nil, "pq-encode", "Encode: %v", err)
		back, err := qw.Decode(code)
		c.Check(err == nil && bitsEq(back[dim-dim/m:], v[dim-dim/m:]), "pq-wide", "a codebook of 300 words was loaded, and the last word comes back as %v", back)
	}
	// whatever shape the quantizer it is loaded into had
	q2, _ := quantization.NewProductQuantizer(dim, m, k)
	if r.Intn(2) == 0 {
		q2, _ = quantization.NewProductQuantizer(dim+3, 1, max(2, k/2))
	}
	err = q2.DeserializeCodebooks(raw)
	c.Check(err == nil, "pq-load", "DeserializeCodebooks: %v", err)
	c.Check(bytes.Equal(q2.SerializeCodebooks(), raw), "pq-load", "the loaded codebooks are written differently")
	for i, v := range vs {
		code := judge(q2, v, "loaded")
		x, e1 := q.Decode(codes[i])
		y, e2 := q2.Decode(code)
		c.Check(bytes.Equal(code, codes[i]) && e1 == nil && e2 == nil && bitsEq(x, y), "pq-reload", "code %x after reload, %x before", code, codes[i])
	}
	c.Nontrivial()
}
