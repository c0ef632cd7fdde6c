package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func init() {
	register(&Prop{ID: "C23", Level: "exploration",
		Rule: "a case is one random graph exported in every format, re-imported into an empty and into a populated database, and imported again truncated, mutated and under injected storage faults; non-trivial when the graph has nodes, edges and properties",
		Run: func(r *Run) {
			r.Parallel("roundtrip", r.N(90, 900), 0, c23roundtrip)
			r.Parallel("damaged", r.N(45, 450), 0, c23damaged)
			r.Parallel("faults", r.N(24, 240), 0, c23faults)
			r.Parallel("large", r.N(9, 60), 4, c23large)
		}})
}

var formats = []graph.ExportFormat{graph.FormatJSON, graph.FormatGraphML, graph.FormatGEXF}

// fill creates a random graph of moderate size.
func (g *GWorld) fill(n int) {
	for i := 0; i < n; i++ {
		x := g.newNode(pick(g.R, g.NIDs))
		g.ok(g.G.UpsertNode(bg, x), "UpsertNode")
		g.putNode(x)
	}
	for i := 0; i < 2*n; i++ {
		a, b := g.anyNodes()
		e := g.newEdge(pick(g.R, g.EIDs), a, b)
		if g.edgeOK(e) {
			g.ok(g.G.UpsertEdge(bg, e), "UpsertEdge")
			g.putEdge(e)
		}
	}
}

func c23ids(g *GWorld) {
	extra := []string{"<b>", "a&b", "graphml", "gexf", "]]>", "x\"y'z", "&lt;", " lead", "trail ", "a\r\nb"}
	g.NIDs = append(g.NIDs, subset(g.R, extra, 3)...)
	g.EIDs = append(g.EIDs, subset(g.R, extra, 3)...)
}

// project reduces the reference graph to what the format carries.
func (g *GWorld) project(f graph.ExportFormat) *GWorld {
	p := *g
	p.Nodes, p.Edges = map[string]*graph.GraphNode{}, map[string]*graph.GraphEdge{}
	for id, n := range g.Nodes {
		p.Nodes[id] = cpNode(n)
	}
	for id, e := range g.Edges {
		x := cpEdge(e)
		if f != graph.FormatJSON {
			x.Vector = nil
		}
		if f == graph.FormatGEXF {
			x.Properties = nil
		}
		p.Edges[id] = x
	}
	return &p
}

func c23roundtrip(c *Case) {
	r := c.R
	f := formats[c.Idx%3]
	g := newGWorld(c, "cosine", 1+r.Intn(5))
	g.SafeText = f != graph.FormatJSON
	g.Style = c.Idx / 3 % 4
	c23ids(g)
	g.open()
	defer g.S.Close()
	if c.Idx%6 == 5 {
		g.fill(0)
		for i := r.Intn(6); i > 0; i-- { // nodes and no edge
			x := g.newNode(pick(r, g.NIDs))
			g.ok(g.G.UpsertNode(bg, x), "UpsertNode")
			g.putNode(x)
		}
	} else {
		g.fill(r.Intn(16))
	}
	if len(g.Edges) > 2 {
		c.Nontrivial()
	}
	before := g.dump()
	var buf bytes.Buffer
	g.ok(g.G.Export(bg, &buf, f), "Export")
	c.Op("export %s of %d nodes and %d edges", f, len(g.Nodes), len(g.Edges))
	c.Check(g.dump() == before, "export-writes", "export changed the graph")
	c.Count("bytes", buf.Len())
	for _, rd := range []io.Reader{bytes.NewReader(buf.Bytes()), iotest.OneByteReader(bytes.NewReader(buf.Bytes())), iotest.DataErrReader(bytes.NewReader(buf.Bytes()))} {
		det, err := graph.DetectFormat(rd)
		c.Check(err == nil && det == f, "detect", "export in %s detected as %q (%v)", f, det, err)
	}

	// into an empty database, read in pieces
	p := g.project(f)
	h := newGWorld(c, "cosine", g.Dim)
	h.Cfg.Path += ".2"
	h.Index = r.Intn(2) == 0
	h.open()
	defer h.S.Close()
	var rd io.Reader = bytes.NewReader(buf.Bytes())
	if r.Intn(2) == 0 {
		rd = iotest.HalfReader(rd)
	}
	g.ok(h.G.Import(bg, rd, f), "Import "+string(f))
	p.checkGraphOf(h.G, "imported: ")
	if h.Index {
		x := *p
		x.G, x.Index = h.G, true
		x.hnswSearch()
	}

	// again: importing the same graph changes nothing
	g.ok(h.G.Import(bg, bytes.NewReader(buf.Bytes()), f), "Import "+string(f))
	p.checkGraphOf(h.G, "imported twice: ")
	// second generation export equals
	var buf2 bytes.Buffer
	g.ok(h.G.Export(bg, &buf2, f), "Export")
	k := newGWorld(c, "cosine", g.Dim)
	k.Cfg.Path += ".3"
	k.open()
	defer k.S.Close()
	k.SafeText = g.SafeText
	k.fill(4) // onto an existing graph: merged
	g.ok(k.G.Import(bg, &buf2, f), "Import "+string(f))
	for _, n := range p.Nodes {
		k.putNode(n)
	}
	for _, e := range p.Edges {
		k.putEdge(e)
	}
	k.checkGraphOf(k.G, "merged: ")
	c.Count("imports", 3)
}

type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("injected write error")
	}
	w.left -= len(p)
	return len(p), nil
}

func c23damaged(c *Case) {
	r := c.R
	f := formats[c.Idx%3]
	g := newGWorld(c, "cosine", 3)
	g.SafeText = true
	g.open()
	defer g.S.Close()
	g.fill(3 + r.Intn(8))
	var buf bytes.Buffer
	g.ok(g.G.Export(bg, &buf, f), "Export")
	data := buf.Bytes()
	for i := 0; i < 6; i++ {
		n := r.Intn(len(data))
		if i == 0 {
			n = 0
		}
		err := g.G.Export(bg, &failWriter{n}, f)
		c.Check(err != nil, "export-error-lost", "%s export to a writer failing at byte %d of %d reported success", f, n, len(data))
	}
	h := newGWorld(c, "cosine", 3)
	h.Cfg.Path += ".2"
	h.SafeText = true
	h.open()
	defer h.S.Close()
	h.fill(3)
	before := h.dump()
	full := string(bytes.TrimSpace(data))
	bad := func(what, s string, mayPass bool) {
		c.Op("import %s: %s", f, what)
		err := h.G.Import(bg, strings.NewReader(s), f)
		c.Count("damaged_imports", 1)
		if err != nil {
			c.Check(h.dump() == before, "partial-import", "failed %s import (%s: %v) changed the graph: %s", f, what, err, firstDiff(before, h.dump()))
			c.Count("rejected", 1)
			return
		}
		c.Check(mayPass, "malformed-accepted", "%s import of malformed data (%s) reported success", f, what)
		// whatever was accepted must be a consistent graph
		var n int
		c.Must(h.S.GetDB().QueryRow(`SELECT count(*) FROM graph_edges e WHERE NOT EXISTS (SELECT 1 FROM graph_nodes n WHERE n.id = e.from_node_id) OR NOT EXISTS (SELECT 1 FROM graph_nodes n WHERE n.id = e.to_node_id)`).Scan(&n), "orphans")
		c.Check(n == 0, "dangling-edge", "accepted import left %d dangling edges", n)
		_, err = h.G.GetAllNodes(bg, nil)
		g.ok(err, "GetAllNodes after import")
		before = h.dump()
	}
	for i := 0; i < 30; i++ {
		n := r.Intn(len(full))
		bad(fmt.Sprintf("truncated at %d of %d", n, len(full)), full[:n], false)
	}
	bad("empty", "", false)
	for i := 0; i < 40; i++ {
		b := []byte(full)
		for j := 0; j <= r.Intn(3); j++ {
			p := r.Intn(len(b))
			switch r.Intn(3) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			default:
				q := p + r.Intn(len(b)-p)
				b = append(b[:q:q], b[p:]...)
			}
			if len(b) == 0 {
				b = []byte("x")
			}
		}
		bad("mutated", string(b), true)
	}
	// well-formed documents with an element that cannot be stored
	if ids := sortedKeys(g.Nodes); len(ids) > 0 && len(g.Edges) > 0 {
		e := g.Edges[sortedKeys(g.Edges)[0]]
		switch f {
		case graph.FormatJSON:
			bad("edge to a missing node", fmt.Sprintf(`{"nodes":[{"id":"fresh","vector":[1,2,3]}],"edges":[{"id":"fe","from_node_id":"fresh","to_node_id":"nowhere at all","weight":1}]}`), false)
			bad("node without id", `{"nodes":[{"id":"fresh","vector":[1,2,3]},{"id":"","vector":[1,2,3]}]}`, false)
			bad("null node", `{"nodes":[{"id":"fresh","vector":[1,2,3]},null]}`, false)
			bad("vector of the wrong type", `{"nodes":[{"id":"fresh","vector":[1,2,3]},{"id":"x","vector":"abc"}]}`, false)
			bad("array", `[1,2]`, false)
		case graph.FormatGraphML:
			bad("edge to a missing node", strings.Replace(full, "</graph>", `<node id="fresh"></node><edge id="fe" source="fresh" target="nowhere at all"></edge></graph>`, 1), false)
			bad("malformed vector", strings.Replace(full, "</graph>", `<node id="fresh"><data key="d2">[1,2</data></node></graph>`, 1), false)
			bad("malformed weight", strings.Replace(full, "</graph>", `<node id="fresh"></node><edge id="fe" source="fresh" target="fresh"><data key="d5">heavy</data></edge></graph>`, 1), false)
			bad("malformed properties", strings.Replace(full, "</graph>", `<node id="fresh"><data key="d3">{"a":</data></node></graph>`, 1), false)
			bad("node without id", strings.Replace(full, "</graph>", `<node id="fresh"></node><node></node></graph>`, 1), false)
		case graph.FormatGEXF:
			bad("edge to a missing node", strings.Replace(full, "</edges>", `<edge id="fe" source="nowhere at all" target="nowhere at all"></edge></edges>`, 1), false)
			bad("malformed weight", strings.Replace(full, "</edges>", `<edge id="fe" source="a" target="b" weight="x"></edge></edges>`, 1), false)
			bad("node without id", strings.Replace(full, "</nodes>", `<node id="fresh"></node><node></node></nodes>`, 1), false)
		}
		_ = e
		c.Nontrivial()
	}
	c.Check(h.G.Import(bg, strings.NewReader(full), "xyz") != nil && h.G.Export(bg, io.Discard, "") != nil, "format", "unknown format accepted")
	c.Check(h.dump() == before, "partial-import", "rejected import changed the graph")
}

// c23faults: a storage error at any element of an import leaves nothing behind.
func c23faults(c *Case) {
	r := c.R
	f := formats[c.Idx%3]
	g := newGWorld(c, "cosine", 3)
	g.SafeText = true
	g.open()
	defer g.S.Close()
	g.fill(4 + r.Intn(6))
	var buf bytes.Buffer
	g.ok(g.G.Export(bg, &buf, f), "Export")
	h := newGWorld(c, "cosine", 3)
	h.Cfg.Path += ".2"
	h.SafeText = true
	h.Index = c.Idx/3%2 == 0
	h.open()
	defer h.S.Close()
	h.fill(3)
	before, sig := h.dump(), h.searchSig()
	try := func(when, cond string) {
		off, err := armRaise(h.S.GetDB(), when, cond, pick(r, []string{"ABORT", "FAIL"}))
		c.Must(err, "arm")
		err = h.G.Import(bg, bytes.NewReader(buf.Bytes()), f)
		idle(c, h.S.GetDB(), "Import")
		off()
		c.Op("import %s with fault %s %s -> %v", f, when, cond, err)
		if err == nil { // the element was absent
			c.Check(false, "error-lost", "%s import reported success although storing an element failed (%s %s)", f, when, cond)
		}
		c.Check(h.dump() == before, "partial-import", "failed %s import changed the graph: %s", f, firstDiff(before, h.dump()))
		c.Check(h.searchSig() == sig, "partial-import-index", "failed %s import changed search results", f)
		c.Count("faults", 1)
	}
	for _, id := range sortedKeys(g.Nodes) {
		try("BEFORE INSERT ON graph_nodes", eqCond("new.id", id))
	}
	for _, id := range sortedKeys(g.Edges) {
		try("BEFORE INSERT ON graph_edges", eqCond("new.id", id))
		c.Nontrivial()
	}
	p := g.project(f)
	g.ok(h.G.Import(bg, &buf, f), "Import "+string(f))
	for _, n := range p.Nodes {
		h.putNode(n)
	}
	for _, e := range p.Edges {
		h.putEdge(e)
	}
	h.checkGraphOf(h.G, "after faults: ")
}

// c23large round-trips graphs of more than a thousand nodes and edges.
func c23large(c *Case) {
	r := c.R
	f := formats[c.Idx%3]
	g := newGWorld(c, "cosine", 2+r.Intn(3))
	g.SafeText = f != graph.FormatJSON
	g.open()
	defer g.S.Close()
	g.bigGraph(1010+r.Intn(600), c.Idx)
	c.Nontrivial()
	var buf bytes.Buffer
	g.ok(g.G.Export(bg, &buf, f), "Export")
	c.Op("export %s of %d nodes and %d edges", f, len(g.Nodes), len(g.Edges))
	c.Count("bytes", buf.Len())
	p := g.project(f)
	h := newGWorld(c, "cosine", g.Dim)
	h.Cfg.Path += ".2"
	h.Index = r.Intn(2) == 0
	h.open()
	defer h.S.Close()
	g.ok(h.G.Import(bg, bytes.NewReader(buf.Bytes()), f), "Import "+string(f))
	p.checkGraphOf(h.G, "imported: ")
	c.Count("imports", 1)
	// Cut in the second half: an error that leaves nothing behind
	k := newGWorld(c, "cosine", g.Dim)
	k.Cfg.Path += ".3"
	k.open()
	defer k.S.Close()
	cut := buf.Len()/2 + r.Intn(buf.Len()/2-20)
	err := k.G.Import(bg, bytes.NewReader(buf.Bytes()[:cut]), f)
	c.Check(err != nil, "truncated-accepted", "%s cut to %d of %d bytes was accepted", f, cut, buf.Len())
	k.checkGraphOf(k.G, "after a truncated import: ")
	// One element that cannot be stored: the same
	when, cond := "BEFORE INSERT ON graph_edges", eqCond("new.id", pick(r, sortedKeys(p.Edges)))
	if c.Idx%2 == 1 || len(p.Edges) == 0 {
		when, cond = "BEFORE INSERT ON graph_nodes", eqCond("new.id", pick(r, sortedKeys(p.Nodes)))
	}
	off, err := armRaise(k.S.GetDB(), when, cond, "ABORT")
	c.Must(err, "arm")
	err = k.G.Import(bg, bytes.NewReader(buf.Bytes()), f)
	idle(c, k.S.GetDB(), "Import")
	off()
	c.Op("import %s with fault %s %s: %v", f, when, cond, err)
	c.Check(err != nil, "error-lost", "%s import reported success although storing an element failed (%s %s)", f, when, cond)
	k.checkGraphOf(k.G, "after a failed import: ")
	c.Count("faults", 1)
}
