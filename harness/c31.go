package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
	"github.com/liliang-cn/cortexdb/v2/pkg/index"
	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
)

func init() {
	register(&Prop{ID: "C31", Level: "exploration",
		Rule: "a case is a set of vectors and metadata maps encoded and decoded (part codec), a set of malformed byte strings given to one decoder with its allocation measured (part decoders), or one database file whose stored cells were overwritten with malformed bytes and on which every public operation is then called (part store); non-trivial when malformed input reached a decoder",
		Run: func(r *Run) {
			r.Parallel("codec", r.N(400, 20000), 0, c31codec)
			r.Parallel("decoders", r.N(60, 3000), 1, c31decoders)
			r.Parallel("store", r.N(100, 2000), 0, c31store)
		}})
}

// anyFloat draws any bit pattern.
func anyFloat(r *rand.Rand) float32 {
	switch r.Intn(4) {
	case 0:
		return math.Float32frombits(r.Uint32())
	case 1:
		return pick(r, []float32{0, float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())})
	}
	return float32(r.NormFloat64())
}

func anyText(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return pick(r, hostile)
	}
	n := r.Intn(12)
	var out []rune
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			out = append(out, rune(r.Intn(0x20)))
		case 1:
			out = append(out, pick(r, []rune{'"', '\\', '<', '>', '&', 0x2028, 0x2029, 0xFFFD, 0x10FFFF, 0x7F, 0xE000}))
		case 2:
			out = append(out, rune(0x4e00+r.Intn(200)))
		default:
			out = append(out, rune('a'+r.Intn(26)))
		}
	}
	return string(out)
}

func c31codec(c *Case) {
	r := c.R
	seen := map[string][]float32{}
	for i := 0; i < 30; i++ {
		n := r.Intn(8)
		if r.Intn(20) == 0 {
			n = 100 + r.Intn(4000)
		}
		v := make([]float32, n)
		for j := range v {
			v[j] = anyFloat(r)
		}
		in := cpVec(v)
		if in == nil {
			in = []float32{}
		}
		b, err := encoding.EncodeVector(in)
		c.Check(err == nil && bitsEq(in, v), "encode-vector", "EncodeVector of %d components: %v", n, err)
		keep := append([]byte(nil), b...)
		scribble(in)
		c.Check(bytes.Equal(b, keep), "encoding-aliased", "the encoding shares memory with the vector")
		back, err := encoding.DecodeVector(b)
		c.Check(err == nil && bitsEq(back, v), "vector-roundtrip", "%d components decode to %d (%v)", n, len(back), err)
		for j := range b {
			b[j] ^= 0xff
		}
		c.Check(bitsEq(back, v), "decoding-aliased", "the decoded vector shares memory with its bytes")
		if o, ok := seen[string(keep)]; ok {
			c.Check(bitsEq(o, v), "vector-collision", "%v and %v have the same encoding", o, v)
		}
		seen[string(keep)] = v
		if n > 0 {
			_, err = encoding.DecodeVector(keep[:r.Intn(len(keep))])
			c.Check(err != nil, "truncated-vector", "a truncated encoding of %d components was decoded", n)
		}
		// Other bytes: refused, or the vector that they encode
		x := mangle(r, keep)
		if r.Intn(3) == 0 {
			x = append(append([]byte(nil), keep...), make([]byte, 4*r.Intn(4))...)
		}
		if v, err := encoding.DecodeVector(x); err == nil {
			again, err := encoding.EncodeVector(v)
			c.Check(err == nil && bytes.HasPrefix(x, again), "decoded-otherwise", "%d bytes that begin with %x decode to a vector of %d components, which is encoded otherwise", len(x), x[:min(len(x), 12)], len(v))
			c.Count("damaged encodings that decode", 1)
		}
		c.Count("vectors", 1)
	}
	b, err := encoding.EncodeVector(nil)
	c.Check(err != nil, "nil-vector", "a nil vector was encoded to %x", b)
	for i := 0; i < 30; i++ {
		var m map[string]string
		if r.Intn(8) > 0 {
			m = map[string]string{}
			for j := r.Intn(6); j > 0; j-- {
				m[anyText(r)] = anyText(r)
			}
		}
		s, err := encoding.EncodeMetadata(m)
		c.Op("metadata %q", s)
		c.Check(err == nil, "encode-metadata", "EncodeMetadata(%q): %v", m, err)
		back, err := encoding.DecodeMetadata(s)
		c.Check(err == nil && metaEq(back, m), "metadata-roundtrip", "%q decodes to %q (%v)", m, back, err)
		c.Check((back == nil) == (m == nil), "metadata-nil", "%q decodes to %q", m, back)
		c.Count("maps", 1)
	}
	for _, s := range []string{"{", "[]", "1", "null", `{"a":1}`, `{"a":null}`, `{"a":{"b":[1]}}`, `{"a":"b"`, `{"a":"b"}x`, "\x00", `{"a":"\ud800"}`, string(bytes.Repeat([]byte(`{"a":`), 20000))} {
		m, err := encoding.DecodeMetadata(s)
		c.Seen("metadata_decode", fmt.Sprint(err == nil, len(m)))
	}
	for _, v := range [][]float32{nil, {}, {float32(math.NaN())}, {1, float32(math.Inf(1))}} {
		c.Check(encoding.ValidateVector(v) != nil, "validate", "%v validated", v)
	}
	c.Check(encoding.ValidateVector([]float32{0, math.MaxFloat32, -1}) == nil, "validate", "a finite vector was refused")
	c.Nontrivial()
}

// mangle derives a malformed byte string from a valid one.
func mangle(r *rand.Rand, raw []byte) []byte {
	x := append([]byte(nil), raw...)
	switch r.Intn(9) {
	case 0:
		if len(x) == 0 {
			return x
		}
		return x[:r.Intn(len(x))]
	case 1, 2, 3:
		for i := 1 + r.Intn(3); i > 0 && len(x) > 0; i-- {
			x[r.Intn(len(x))] ^= 1 << r.Intn(8)
		}
	case 4:
		for i := 1 + r.Intn(8); i > 0 && len(x) > 0; i-- {
			x[r.Intn(len(x))] = pick(r, []byte{0, 1, 0x7f, 0x80, 0xf8, 0xff, byte(r.Intn(256))})
		}
	case 5: // a claim of enormous length
		for i := 0; i < 4 && i < len(x); i++ {
			x[i] = 0xff
		}
		if len(x) > 3 {
			x[3] = 0x7f
		}
	case 6:
		x = make([]byte, r.Intn(64))
		r.Read(x)
	case 7: // splice
		if len(x) > 4 {
			a, b := r.Intn(len(x)), r.Intn(len(x))
			x = append(x[:a:a], x[b:]...)
		}
	case 8:
		x = append(x, x...)
	}
	return x
}

// decoder31 is one decoder of stored bytes with a valid sample; use exercises whatever was accepted.
type decoder31 struct {
	name  string
	raw   []byte
	load  func(b []byte) error
	use   func()
	grows bool // state survives between calls
}

func decoders31(c *Case) []*decoder31 {
	r := c.R
	dim := 1 + r.Intn(6)
	ok := func(err error) { c.Check(err == nil, "sample", "preparing a sample: %v", err) }
	var out []*decoder31
	v := randVec(r, 1+r.Intn(50), 0)
	raw, err := encoding.EncodeVector(v)
	ok(err)
	out = append(out, &decoder31{name: "vector", raw: raw, load: func(b []byte) error {
		v, err := encoding.DecodeVector(b)
		c.Check(len(v)*4 <= len(b), "vector-too-long", "%d components from %d bytes", len(v), len(b))
		return err
	}})

	h := index.NewHNSW(4, 20, index.EuclideanDistance)
	for i := 0; i < 15; i++ {
		ok(h.Insert(fmt.Sprint("v", i), randVec(r, dim, 0)))
	}
	ok(h.Delete("v3"))
	var b bytes.Buffer
	ok(h.Save(&b))
	var h2 *index.HNSW
	out = append(out, &decoder31{name: "hnsw", raw: append([]byte(nil), b.Bytes()...), load: func(b []byte) error {
		h2 = index.NewHNSW(4, 20, index.EuclideanDistance)
		ok(h2.Insert("kept", make([]float32, dim)))
		err := h2.Load(bytes.NewReader(b))
		if err != nil {
			ids, _ := h2.Search(make([]float32, dim), 3, 10)
			c.Check(len(ids) == 1 && ids[0] == "kept", "load-partial:hnsw", "a refused load changed the index: %v", ids)
		}
		return err
	}, use: func() {
		h2.Search(randVec(r, dim, 0), 5, 10)
		h2.Insert("new", randVec(r, dim, 0))
		h2.Upsert("v5", randVec(r, dim, 0))
		h2.Delete("v1")
		h2.Search(randVec(r, dim, 0), 50, 10)
		h2.Size()
		h2.Stats()
		h2.Save(&bytes.Buffer{})
	}})

	n := 1 + r.Intn(4)
	iv := index.NewIVFIndex(dim, n)
	ok(iv.Train(vecs19(r, 10, dim)))
	for i := 0; i < 15; i++ {
		ok(iv.Add(fmt.Sprint("v", i), randVec(r, dim, 0)))
	}
	b.Reset()
	ok(iv.Save(&b))
	var iv2 *index.IVFIndex
	out = append(out, &decoder31{name: "ivf", raw: append([]byte(nil), b.Bytes()...), load: func(b []byte) error {
		iv2 = index.NewIVFIndex(dim, n)
		ok(iv2.Train(vecs19(r, 10, dim)))
		ok(iv2.Add("kept", make([]float32, dim)))
		err := iv2.Load(bytes.NewReader(b))
		if err != nil {
			ids, _, err := iv2.Search(make([]float32, dim), 3)
			c.Check(err == nil && len(ids) == 1 && ids[0] == "kept", "load-partial:ivf", "a refused load changed the index: %v %v", ids, err)
		}
		return err
	}, use: func() {
		iv2.Search(randVec(r, dim, 0), 5)
		iv2.Add("new", randVec(r, dim, 0))
		iv2.Add("v5", randVec(r, dim, 0))
		iv2.Delete("v1")
		iv2.Search(randVec(r, dim, 0), 50)
		iv2.Train(vecs19(r, 12, dim))
		iv2.Search(randVec(r, dim, 0), 50)
		iv2.Stats()
		iv2.Save(&bytes.Buffer{})
	}})

	sq, err := quantization.NewScalarQuantizer(dim, 1+r.Intn(8))
	ok(err)
	ok(sq.Train(vecs19(r, 5, dim)))
	b.Reset()
	ok(sq.Save(&b))
	var sq2 *quantization.ScalarQuantizer
	out = append(out, &decoder31{name: "scalar", raw: append([]byte(nil), b.Bytes()...), load: func(b []byte) error {
		sq2, _ = quantization.NewScalarQuantizer(dim, 8)
		return sq2.Load(bytes.NewReader(b))
	}, use: func() {
		for _, v := range [][]float32{make([]float32, dim), make([]float32, min(max(sq2.Dimension, 0), 100)), {1}} {
			if code, err := sq2.Encode(v); err == nil {
				sq2.Decode(code)
			}
		}
		sq2.Decode(make([]byte, dim))
		sq2.Train(vecs19(r, 3, dim))
	}})
	bq := quantization.NewBinaryQuantizer(dim)
	ok(bq.Train(vecs19(r, 5, dim)))
	b.Reset()
	ok(bq.Save(&b))
	var bq2 *quantization.BinaryQuantizer
	out = append(out, &decoder31{name: "binary", raw: append([]byte(nil), b.Bytes()...), load: func(b []byte) error {
		bq2 = quantization.NewBinaryQuantizer(dim)
		return bq2.Load(bytes.NewReader(b))
	}, use: func() {
		for _, v := range [][]float32{make([]float32, dim), make([]float32, min(max(bq2.Dimension, 0), 100)), {1}} {
			if code, err := bq2.Encode(v); err == nil {
				bq2.Decode(code)
			}
		}
		bq2.Decode(make([]byte, (dim+7)/8))
		bq2.Train(vecs19(r, 3, dim))
	}})
	pq, err := quantization.NewProductQuantizer(dim*2, 2, 3)
	ok(err)
	ok(pq.Train(vecs19(r, 10, dim*2)))
	var pq2 *quantization.ProductQuantizer
	out = append(out, &decoder31{name: "product", raw: pq.SerializeCodebooks(), load: func(b []byte) error {
		pq2, _ = quantization.NewProductQuantizer(dim*2, 2, 3)
		return pq2.DeserializeCodebooks(b)
	}, use: func() {
		if code, err := pq2.Encode(make([]float32, pq2.D)); err == nil {
			pq2.Decode(code)
			pq2.ComputeDistance(code, make([]float32, pq2.D))
		}
		pq2.Decode([]byte{0, 1})
		pq2.SearchPQ(make([]float32, dim*2), [][]byte{{0, 0}, {2, 2}, {9}}, 2)
	}})
	return out
}

func c31decoders(c *Case) {
	r := c.R
	for _, d := range decoders31(c) {
		c.Check(d.load(d.raw) == nil, "valid-refused:"+d.name, "a valid encoding was refused")
		for i := 0; i < 40; i++ {
			x := mangle(r, d.raw)
			if d.name == "product" && r.Intn(3) == 0 && len(x) >= 16 { // plausible headers
				binary.LittleEndian.PutUint32(x[4*r.Intn(4):], pick(r, []uint32{0, 1, 2, 255, 256, 257, 1 << 16, 1 << 28, 1 << 31, math.MaxUint32}))
			}
			c.Op("%s: %x", d.name, x)
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			err := d.load(x)
			runtime.ReadMemStats(&b)
			alloc := b.TotalAlloc - a.TotalAlloc
			// gob reads a message of claimed length in chunks of 10 MB; anything beyond is driven by the input
			c.Check(alloc <= uint64(len(x))*200+(32<<20), "allocation:"+d.name, "decoding %d malformed bytes allocated %d bytes (%v)", len(x), alloc, err)
			c.Count("malformed:"+d.name, 1)
			if err == nil {
				c.Count("accepted:"+d.name, 1)
				if d.use != nil {
					within(c, "using a decoded "+d.name, d.use)
				}
			}
		}
	}
	c.Nontrivial()
}

var cells31 = [][2]string{
	{"embeddings", "vector"}, {"embeddings", "metadata"}, {"embeddings", "acl"},
	{"documents", "metadata"}, {"documents", "acl"}, {"collections", "metadata"},
	{"sessions", "metadata"}, {"messages", "vector"}, {"messages", "metadata"},
	{"graph_nodes", "vector"}, {"graph_nodes", "properties"}, {"graph_edges", "properties"}, {"graph_edges", "vector"},
	{"index_snapshots", "data"},
}

// c31store overwrites stored cells with malformed bytes and calls everything.
func c31store(c *Case) {
	r := c.R
	kind := cfgNames[c.Idx%len(cfgNames)]
	gi := r.Intn(2) == 0
	e := newAPIEnv(c, kind, gi)
	hit := map[string]bool{}
	closeFirst := r.Intn(2) == 0
	if closeFirst { // a closed store has written its snapshots
		c.Check(e.S.Close() == nil, "close-failed", "Close failed")
		e.open(gi)
	}
	db := e.S.GetDB()
	for i := 1 + r.Intn(5); i > 0; i-- {
		cell := cells31[r.Intn(len(cells31))]
		if r.Intn(3) == 0 {
			cell = cells31[0]
		}
		rows, err := db.Query(fmt.Sprintf("SELECT rowid, %s FROM %s", cell[1], cell[0]))
		c.Must(err, "reading "+cell[0])
		var ids []int64
		var raws [][]byte
		for rows.Next() {
			var id int64
			var raw []byte
			c.Must(rows.Scan(&id, &raw), "scan")
			ids, raws = append(ids, id), append(raws, raw)
		}
		rows.Close()
		if len(ids) == 0 {
			continue
		}
		j := r.Intn(len(ids))
		x := mangle(r, raws[j])
		var val any = x
		if len(x) == 0 { // the driver would store NULL
			val = ""
		}
		if r.Intn(3) == 0 || cell[1] != "vector" && cell[1] != "data" && r.Intn(2) == 0 {
			val = pick(r, []any{string(x), int64(7), "", "{", "null", "[1,2", `{"a":1,"b":[1]}`, `["x",3]`, 3.5})
		}
		var name string
		if cell[0] == "embeddings" {
			c.Must(db.QueryRow("SELECT id FROM embeddings WHERE rowid = ?", ids[j]).Scan(&name), "id")
			hit[name] = true
		}
		_, err = db.Exec(fmt.Sprintf("UPDATE %s SET %s = ? WHERE rowid = ?", cell[0], cell[1]), val, ids[j])
		c.Must(err, "overwriting "+cell[0])
		c.Op("%s.%s of row %d (%s) := %T %x", cell[0], cell[1], ids[j], name, val, val)
		c.Seen("cells", cell[0]+"."+cell[1])
	}
	call := func(when string, writes bool) {
		for _, o := range apiOps(kind, gi) {
			if o.write != writes {
				continue
			}
			within(c, o.name, func() {
				err := guard(c, o.name+when, func() error { return o.f(e, e.id()) })
				if err != nil {
					c.Count("refused", 1)
				} else {
					c.Count("answered", 1)
				}
			})
		}
	}
	healthy := func() {
		for i := 0; i < 24; i++ {
			id := fmt.Sprintf("r%d", i)
			if hit[id] {
				continue
			}
			got, err := e.S.GetByID(bg, id)
			c.Check(err == nil && bitsEq(got.Vector, e.v(i)) && got.Content == fmt.Sprintf("alpha beta %d", i), "healthy-lost", "record %s, whose cells were not touched: %v %v", id, got, err)
		}
	}
	healthy()
	call(" on damaged cells", false)
	var err error
	within(c, "Close", func() { err = guard(c, "Close", e.S.Close) })
	c.Op("Close: %v", err)
	opened := false
	within(c, "reopen", func() {
		if err := guard(c, "open", func() error { return e.tryOpen(gi) }); err == nil {
			opened = true
		} else {
			c.Fail("open-refused", "damaged cells keep the whole database from opening: %v", err)
		}
	})
	if opened {
		healthy()
		call(" on damaged cells after reopening", false)
		call(" on damaged cells", true)
		e.S.Close()
	}
	c.Nontrivial()
}
