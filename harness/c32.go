package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/modelcontextprotocol/go-sdk/mcp"
)

func init() {
	register(&Prop{ID: "C32", Level: "exploration",
		Rule: "a case applies one history of tool calls, with arguments drawn from the advertised schemas, to three databases: through the typed library methods, through the toolbox's JSON dispatch and through an MCP session; answers and database contents must agree after each call, malformed arguments must be answered by errors, and no error may change the database; a case is non-trivial when writes, reads, errors and malformed calls all happened",
		Run: func(r *Run) {
			r.Parallel("history", r.N(80, 1500), 0, c32history)
			r.Parallel("extreme", r.N(30, 400), 0, c32extreme)
			r.Parallel("wide", r.N(8, 80), 0, c32wide)
			r.Parallel("sessions", r.N(12, 120), 4, c32sessions)
			r.Parallel("stdio", r.N(4, 24), 4, c32stdio)
		}})
	auxRoles["mcp"] = c32serve
}

// lib32 binds every tool to the library method it stands for; the argument struct is filled by field name.
func lib32(db *cortexdb.DB) map[string]any {
	t := db.GraphRAGTools()
	return map[string]any{
		"ingest_document": t.IngestDocument, "upsert_entities": t.UpsertEntities, "upsert_relations": t.UpsertRelations,
		"search_text": t.SearchText, "search_chunks_by_entities": t.SearchChunksByEntities, "expand_graph": t.ExpandGraph,
		"get_nodes": t.GetNodes, "get_chunks": t.GetChunks, "build_context": t.BuildContext, "search_graphrag_lexical": t.SearchGraphRAGLexical,
		"knowledge_save": db.SaveKnowledge, "knowledge_update": db.UpdateKnowledge, "knowledge_get": db.GetKnowledge,
		"knowledge_search": db.SearchKnowledge, "knowledge_delete": db.DeleteKnowledge,
		"memory_save": db.SaveMemory, "memory_update": db.UpdateMemory, "memory_get": db.GetMemory,
		"memory_search": db.SearchMemory, "memory_delete": db.DeleteMemory,
	}
}

var writes32 = map[string]bool{"ingest_document": true, "upsert_entities": true, "upsert_relations": true, "knowledge_save": true, "knowledge_update": true, "knowledge_delete": true, "memory_save": true, "memory_update": true, "memory_delete": true}

func field32(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// fill32 sets v from a JSON-like value, matching object keys to Go field names rather than to JSON tags.
func fill32(v reflect.Value, x any) error {
	if v.Kind() == reflect.Pointer {
		v.Set(reflect.New(v.Type().Elem()))
		return fill32(v.Elem(), x)
	}
	bad := fmt.Errorf("a %T does not fit a %s", x, v.Type())
	switch v.Kind() {
	case reflect.Interface:
		v.Set(reflect.ValueOf(x))
	case reflect.String:
		s, ok := x.(string)
		if !ok {
			return bad
		}
		v.SetString(s)
	case reflect.Bool:
		b, ok := x.(bool)
		if !ok {
			return bad
		}
		v.SetBool(b)
	case reflect.Int, reflect.Int64:
		n, ok := x.(int)
		if !ok {
			return bad
		}
		v.SetInt(int64(n))
	case reflect.Float64:
		switch n := x.(type) {
		case float64:
			v.SetFloat(n)
		case int:
			v.SetFloat(float64(n))
		default:
			return bad
		}
	case reflect.Slice:
		l, ok := x.([]any)
		if !ok {
			return bad
		}
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for i, e := range l {
			if err := fill32(v.Index(i), e); err != nil {
				return err
			}
		}
	case reflect.Map:
		m, ok := x.(map[string]any)
		if !ok {
			return bad
		}
		v.Set(reflect.MakeMap(v.Type()))
		for k, e := range m {
			ev := reflect.New(v.Type().Elem()).Elem()
			if err := fill32(ev, e); err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
			v.SetMapIndex(reflect.ValueOf(k), ev)
		}
	case reflect.Struct:
		m, ok := x.(map[string]any)
		if !ok {
			return bad
		}
		for k, e := range m {
			found := false
			for i := 0; i < v.NumField(); i++ {
				if field32(v.Type().Field(i).Name) == field32(k) {
					if err := fill32(v.Field(i), e); err != nil {
						return fmt.Errorf("%s: %w", k, err)
					}
					found = true
				}
			}
			if !found {
				return fmt.Errorf("%s has no field for the parameter %q", v.Type(), k)
			}
		}
	default:
		return fmt.Errorf("unexpected kind %s", v.Kind())
	}
	return nil
}

func typed32(db *cortexdb.DB, name string, args map[string]any) (out any, err error, fillErr error) {
	fn := reflect.ValueOf(lib32(db)[name])
	req := reflect.New(fn.Type().In(1)).Elem()
	if e := fill32(req, args); e != nil {
		return nil, nil, e
	}
	res := fn.Call([]reflect.Value{reflect.ValueOf(context.Context(bg)), req})
	if !res[1].IsNil() {
		return nil, res[1].Interface().(error), nil
	}
	return res[0].Interface(), nil, nil
}

// ses32 is an MCP client session with an in-process server.
type ses32 struct {
	s      *mcp.ClientSession
	cancel func()
	done   chan error
}

func mcp32(c *Case, db *cortexdb.DB) *ses32 {
	st, ct := mcp.NewInMemoryTransports()
	ctx, cancel := context.WithCancel(context.Background())
	s := &ses32{cancel: cancel, done: make(chan error, 1)}
	go func() { s.done <- db.NewMCPServer(cortexdb.MCPServerOptions{}).Run(ctx, st) }()
	var err error
	s.s, err = mcp.NewClient(&mcp.Implementation{Name: "monitor", Version: "1"}, nil).Connect(ctx, ct, nil)
	c.Check(err == nil, "mcp-connect", "an MCP client cannot connect: %v", err)
	return s
}

func (s *ses32) close() {
	s.s.Close()
	s.cancel()
	<-s.done
}

// call returns the structured answer of an MCP call, or the error it was answered with.
func (s *ses32) call(c *Case, name string, args any) (any, error) {
	res, err := s.s.CallTool(bg, &mcp.CallToolParams{Name: name, Arguments: args})
	if err != nil {
		c.Check(!strings.Contains(err.Error(), "client is closing") && !strings.Contains(err.Error(), "connection closed"), "mcp-server-gone", "the MCP connection broke during %s: %v", name, err)
		return nil, err
	}
	text := ""
	for _, x := range res.Content {
		if t, ok := x.(*mcp.TextContent); ok {
			text += t.Text
		}
	}
	if res.IsError {
		c.Check(text != "", "mcp-silent-error", "%s was answered by an error without a message", name)
		return nil, errors.New(text)
	}
	return res.StructuredContent, nil
}

func canon32(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return "cannot be encoded: " + err.Error()
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return "cannot be decoded: " + err.Error()
	}
	return norm32(x, "")
}

func norm32(x any, key string) any {
	switch t := x.(type) {
	case map[string]any:
		for k, e := range t {
			t[k] = norm32(e, k)
		}
	case []any:
		for i, e := range t {
			t[i] = norm32(e, key)
		}
	case string:
		if key == "created_at" || key == "updated_at" || key == "expires_at" {
			if strings.HasPrefix(t, "0001-01-01") {
				return "zero time"
			}
			return "a time"
		}
	case json.Number:
		if f, err := t.Float64(); err == nil {
			return f
		}
	}
	return x
}

// order32 sorts the lists of an answer.
func order32(x any) {
	m, _ := x.(map[string]any)
	for _, e := range m {
		if l, ok := e.([]any); ok {
			sort.Slice(l, func(i, j int) bool { return text32(l[i]) < text32(l[j]) })
		}
	}
}

func text32(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}

// near32 compares two canonical answers; numbers may differ by rounding of decoding only.
func near32(a, b any) bool { return text32(a) == text32(b) }

var times32 = regexp.MustCompile(`"[a-z_]*(expires|created|updated)[a-z_]*":\s*("[^"]*"|[0-9.e+]+)`)

// dump32 renders every table; timeless leaves out what depends on the clock.
func dump32(c *Case, db *cortexdb.DB, timeless bool) string {
	sq := kStore(db).GetDB()
	var tables []string
	for _, row := range kRows(c, db, "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE '%fts%' ORDER BY name") {
		tables = append(tables, row[0])
	}
	if !timeless {
		s, err := tableDump(sq, tables...)
		c.Must(err, "dump")
		return s
	}
	var lines []string
	for _, t := range tables {
		rows, err := sq.Query("SELECT * FROM " + t)
		c.Must(err, "dump "+t)
		cols, _ := rows.Columns()
		for rows.Next() {
			vals := make([]any, len(cols))
			ptr := make([]any, len(cols))
			for i := range vals {
				ptr[i] = &vals[i]
			}
			c.Must(rows.Scan(ptr...), "scan "+t)
			line := t
			for i, v := range vals {
				n := strings.ToLower(cols[i])
				if strings.HasSuffix(n, "_at") || strings.Contains(n, "time") {
					continue
				}
				if b, ok := v.([]byte); ok {
					if len(b) > 0 && b[0] == '{' {
						v = string(b)
					} else {
						v = fmt.Sprintf("%x", b)
					}
				}
				if s, ok := v.(string); ok {
					v = times32.ReplaceAllString(s, `"time"`)
				}
				line += fmt.Sprintf("|%s=%v", cols[i], v)
			}
			lines = append(lines, line)
		}
		err = rows.Err()
		rows.Close()
		c.Must(err, "dump "+t)
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func diff32(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := map[string]int{}
	for _, l := range la {
		in[l]++
	}
	for _, l := range lb {
		in[l]--
	}
	out := ""
	for _, k := range sortedKeys(in) {
		if in[k] != 0 {
			out += fmt.Sprintf("\n  %+d %s", in[k], clip(k, 400))
		}
	}
	return clip(out, 3000)
}

type tw32 struct {
	c          *Case
	r          *rand.Rand
	a, b, m    *cortexdb.DB
	ea, eb, em *textEmb
	s          *ses32
	defs       map[string]cortexdb.ToolDefinition
	names      []string
	n          int
	ttl        bool
}

func open32(c *Case, name string, emb *textEmb) *cortexdb.DB {
	cfg := cortexdb.Config{Path: c.Dir + "/" + name + ".db", Dimensions: 6, SimilarityFn: core.CosineSimilarity, IndexType: core.IndexTypeFlat}
	var opts []cortexdb.Option
	if emb != nil {
		opts = append(opts, cortexdb.WithEmbedder(emb))
	} else if c.R.Intn(2) == 0 {
		cfg.Dimensions = 6
	}
	db, err := cortexdb.Open(cfg, opts...)
	c.Check(err == nil, "open-failed", "Open: %v", err)
	return db
}

func new32(c *Case, emb bool) *tw32 {
	w := &tw32{c: c, r: c.R, defs: map[string]cortexdb.ToolDefinition{}}
	if emb {
		w.ea, w.eb, w.em = &textEmb{dim: 6}, &textEmb{dim: 6}, &textEmb{dim: 6}
	}
	w.a, w.b, w.m = open32(c, "lib", w.ea), open32(c, "call", w.eb), open32(c, "mcp", w.em)
	w.s = mcp32(c, w.m)
	w.schemas()
	return w
}

func (w *tw32) close() {
	w.s.close()
	for _, db := range []*cortexdb.DB{w.a, w.b, w.m} {
		idleStore(w.c, db.Vector())
		err := db.Close()
		w.c.Check(err == nil, "close", "Close: %v", err)
	}
}

func strs32(x any) (out []string) {
	switch l := x.(type) {
	case []string:
		out = append(out, l...)
	case []any:
		for _, e := range l {
			out = append(out, fmt.Sprint(e))
		}
	}
	sort.Strings(out)
	return
}

// schemas checks that what is advertised, the MCP tool list and the library's request types agree.
func (w *tw32) schemas() {
	c := w.c
	for _, d := range w.b.GraphRAGTools().Definitions() {
		_, dup := w.defs[d.Name]
		c.Check(!dup, "tool-twice", "the tool %s is advertised twice", d.Name)
		c.Check(d.Description != "", "tool-undescribed", "the tool %s has no description", d.Name)
		w.defs[d.Name] = d
		w.names = append(w.names, d.Name)
	}
	sort.Strings(w.names)
	lib := lib32(w.a)
	for _, n := range w.names {
		if lib[n] == nil {
			c.Must(fmt.Errorf("no library method known for the tool %s", n), "tool table")
		}
	}
	for _, n := range sortedKeys(lib) {
		c.Check(w.defs[n].Name == n, "tool-missing", "the tool %s is no longer advertised", n)
	}
	l, err := w.s.s.ListTools(bg, &mcp.ListToolsParams{})
	c.Check(err == nil, "mcp-list", "ListTools: %v", err)
	var listed []string
	for _, t := range l.Tools {
		listed = append(listed, t.Name)
		d, ok := w.defs[t.Name]
		c.Check(ok, "mcp-tools", "MCP lists the tool %q, which the toolbox does not define", t.Name)
		c.Check(t.Description == d.Description, "mcp-description", "MCP describes %s differently from the toolbox", t.Name)
		s, _ := canon32(t.InputSchema).(map[string]any)
		p, _ := s["properties"].(map[string]any)
		c.Check(sameStrings(sortedKeys(p), w.params(t.Name)), "mcp-parameters", "MCP declares the parameters %v for %s, the toolbox %v", sortedKeys(p), t.Name, w.params(t.Name))
		c.Check(sameStrings(strs32(s["required"]), strs32(d.InputSchema["required"])), "mcp-required", "MCP requires %v for %s, the toolbox %v", s["required"], t.Name, d.InputSchema["required"])
	}
	sort.Strings(listed)
	c.Check(sameStrings(listed, w.names), "mcp-tools", "MCP lists the tools %v, the toolbox %v", listed, w.names)
	for _, n := range w.names {
		w.shape(n, reflect.TypeOf(lib[n]).In(1), w.defs[n].InputSchema)
	}
}

// shape checks a schema against the Go type that the library takes.
func (w *tw32) shape(at string, t reflect.Type, s map[string]any) {
	c := w.c
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	want := map[reflect.Kind]string{reflect.String: "string", reflect.Int: "integer", reflect.Float64: "number", reflect.Bool: "boolean", reflect.Slice: "array", reflect.Map: "object", reflect.Struct: "object"}[t.Kind()]
	c.Check(s["type"] == want, "schema-type", "%s is declared as %v, but the library takes %s", at, s["type"], t)
	switch t.Kind() {
	case reflect.Slice:
		it, _ := s["items"].(map[string]any)
		c.Check(it != nil, "schema-items", "%s declares no items", at)
		w.shape(at+"[]", t.Elem(), it)
	case reflect.Map:
		if t.Elem().Kind() == reflect.String {
			ap, _ := s["additionalProperties"].(map[string]any)
			c.Check(ap != nil && ap["type"] == "string", "schema-map-values", "%s is declared to take values %v, but the library takes only strings", at, s["additionalProperties"])
		}
	case reflect.Struct:
		props, _ := s["properties"].(map[string]any)
		fields := map[string]reflect.Type{}
		for i := 0; i < t.NumField(); i++ {
			fields[field32(t.Field(i).Name)] = t.Field(i).Type
		}
		for _, k := range sortedKeys(props) {
			ft, ok := fields[field32(k)]
			c.Check(ok, "schema-parameter", "%s declares the parameter %q, which the library does not take", at, k)
			ps, _ := props[k].(map[string]any)
			w.shape(at+"."+k, ft, ps)
			delete(fields, field32(k))
		}
		c.Check(len(fields) == 0, "schema-parameter", "%s does not declare %v, which the library takes", at, sortedKeys(fields))
		for _, k := range strs32(s["required"]) {
			c.Check(props[k] != nil, "schema-required", "%s requires the undeclared parameter %q", at, k)
		}
	}
}

func (w *tw32) params(tool string) []string {
	p, _ := w.defs[tool].InputSchema["properties"].(map[string]any)
	return sortedKeys(p)
}

func (w *tw32) doc() string { return pick(w.r, []string{"d0", "d1", "d2", "k 3", "ключ/4'"}) }

func (w *tw32) word() string {
	if w.r.Intn(3) == 0 {
		return pick(w.r, kNames)
	}
	return pick(w.r, kLower)
}

func (w *tw32) node() string {
	switch w.r.Intn(6) {
	case 0:
		return "doc:" + w.doc()
	case 1, 2:
		return kChunkID(w.doc(), w.r.Intn(3))
	case 3, 4:
		return kEntID(pick(w.r, kNames))
	}
	return pick(w.r, []string{"nobody", "entity:none", "", pick(w.r, hostile)})
}

// live picks the id of a stored record.
func (w *tw32) live(query string) (string, bool) {
	if w.r.Intn(8) == 0 || len(kRows(w.c, w.a, "SELECT 1 FROM sqlite_master WHERE name='graph_edges'")) == 0 {
		return "", false
	}
	rows := kRows(w.c, w.a, query)
	if len(rows) == 0 {
		return "", false
	}
	return rows[w.r.Intn(len(rows))][0], true
}

func (w *tw32) str(tool, name string) string {
	r := w.r
	q := ""
	if strings.HasSuffix(name, "_id") && r.Intn(25) == 0 {
		return ""
	}
	switch {
	case name == "chunk_ids":
		q = "SELECT id FROM embeddings ORDER BY id"
	case name == "node_ids":
		q = "SELECT id FROM graph_nodes ORDER BY id"
	case (name == "from" || name == "to") && tool == "upsert_relations":
		q = "SELECT id FROM graph_nodes WHERE id LIKE 'entity:%' ORDER BY id"
	case name == "memory_id" && tool != "memory_save":
		q = "SELECT id FROM messages ORDER BY id"
	case name == "knowledge_id" && tool != "knowledge_save":
		q = "SELECT id FROM documents ORDER BY id"
	}
	if q != "" {
		if id, ok := w.live(q); ok {
			return id
		}
	}
	switch name {
	case "document_id", "knowledge_id":
		return w.doc()
	case "memory_id":
		return pick(r, []string{"m0", "m1", "m2", "m 3", "память"})
	case "content":
		w.n++
		if strings.HasPrefix(tool, "memory") {
			return fmt.Sprintf("%s %s zq%05dx %s", w.word(), w.word(), w.n, w.word())
		}
		return kWrite(r, func() string { w.n++; return fmt.Sprintf("zq%05dx", w.n) }, 1+r.Intn(4), 25, kNames).text
	case "query", "alternate_queries", "keywords":
		q := w.word()
		for r.Intn(2) == 0 {
			q += " " + w.word()
		}
		if r.Intn(12) == 0 {
			q = pick(r, hostile)
		}
		return q
	case "collection":
		return pick(r, []string{"", "graphrag_chunks", "c1", "c two"})
	case "name", "from", "to", "entity_names":
		if r.Intn(12) == 0 {
			return pick(r, hostile)
		}
		return pick(r, kNames)
	case "id":
		return pick(r, []string{"", "", kEntID(pick(r, kNames)), "entity:own"})
	case "node_ids":
		return w.node()
	case "chunk_ids":
		if r.Intn(10) == 0 {
			return w.node()
		}
		return kChunkID(w.doc(), r.Intn(3))
	case "edge_types":
		return pick(r, []string{"mentions", "next", "has_chunk", "related_to", "knows", "none"})
	case "node_types":
		return pick(r, []string{"chunk", "document", "entity", "person", "none"})
	case "type":
		return pick(r, []string{"", "person", "knows", "entity"})
	case "user_id":
		return pick(r, []string{"u1", "u2", ""})
	case "session_id":
		return pick(r, []string{"s1", "s2", ""})
	case "namespace":
		return pick(r, []string{"", "default", "n1"})
	case "role":
		return pick(r, []string{"", "user", "memory"})
	}
	return pick(r, append([]string{"", "plain", "Two words"}, hostile...))
}

func (w *tw32) value(tool, name string, s map[string]any) any {
	r := w.r
	switch s["type"] {
	case "string":
		if e, ok := s["enum"].([]any); ok {
			if r.Intn(10) == 0 {
				return pick(r, []string{"", "bogus"})
			}
			return e[r.Intn(len(e))]
		}
		return w.str(tool, name)
	case "integer":
		if name == "ttl_seconds" {
			return pick(r, []int{0, 0, 1000, 86400, 1 << 31})
		}
		switch {
		case name == "chunk_size":
			return pick(r, []int{0, 10, 14, 20, 100, -1, 4000})
		case name == "chunk_overlap":
			return pick(r, []int{0, 1, 3, 200, -1})
		case name == "top_k" && (tool == "search_chunks_by_entities" || tool == "search_graphrag_lexical" || tool == "knowledge_search"):
			// Traversals stop after a multiple of top_k nodes, in an order that depends on the clock.
			return pick(r, []int{0, 8, 20, 100, -1, 4000})
		}
		return pick(r, []int{0, 1, 2, 3, 5, 8, 20, 100, -1, 4000})
	case "number":
		return pick(r, []any{0.0, 0.25, 0.5, 1, 2.5, 1e-9, -1.5})
	case "boolean":
		return r.Intn(2) == 0
	case "array":
		it, _ := s["items"].(map[string]any)
		l := []any{}
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, w.value(tool, name, it))
		}
		return l
	case "object":
		if p, ok := s["properties"].(map[string]any); ok {
			req := strs32(s["required"])
			m := map[string]any{}
			for _, k := range sortedKeys(p) {
				need := sort.SearchStrings(req, k) < len(req) && req[sort.SearchStrings(req, k)] == k
				keep := r.Intn(5) < 2
				if strings.HasPrefix(tool, "memory") && (k == "user_id" || k == "session_id" || k == "scope") {
					keep = r.Intn(5) < 4
				}
				if need || keep {
					ps, _ := p[k].(map[string]any)
					m[k] = w.value(tool, k, ps)
				}
			}
			return m
		}
		m := map[string]any{}
		for n := r.Intn(4); n > 0; n-- {
			k := pick(r, []string{"a", "b", "lang", "ключ", "x y", "q\"t"})
			if ap, ok := s["additionalProperties"].(map[string]any); ok {
				m[k] = w.value(tool, "value", ap)
			} else {
				m[k] = w.any(2)
			}
		}
		return m
	}
	return nil
}

func (w *tw32) any(depth int) any {
	switch w.r.Intn(7) {
	case 0:
		return w.r.Intn(1000)
	case 1:
		return 0.5
	case 2:
		return w.r.Intn(2) == 0
	case 3:
		if depth > 0 {
			return map[string]any{"k": w.any(depth - 1)}
		}
	case 4:
		if depth > 0 {
			return []any{w.any(depth - 1), w.any(depth - 1)}
		}
	}
	return pick(w.r, append([]string{"v", ""}, hostile...))
}

func (w *tw32) args(tool string) map[string]any {
	return w.value(tool, "", w.defs[tool].InputSchema).(map[string]any)
}

func raw32(x any) json.RawMessage {
	b, _ := json.Marshal(x)
	return b
}

// faults makes the next embedding calls of all three databases fail alike.
func (w *tw32) faults(k int) {
	for _, e := range []*textEmb{w.ea, w.eb, w.em} {
		if e == nil {
			continue
		}
		if k < 0 {
			e.setFault(nil)
			continue
		}
		n := e.count() + k
		e.setFault(func(call int, _ []string) error {
			if call >= n {
				return errEmbed
			}
			return nil
		})
	}
}

// valid applies one call that follows the schema, in the three ways.
func (w *tw32) valid(tool string, args map[string]any) (any, error) {
	c := w.c
	c.Op("%s %s", tool, text32(args))
	before := dump32(c, w.b, false)
	beforeM := dump32(c, w.m, false)
	la, errA, fe := typed32(w.a, tool, args)
	c.Check(fe == nil, "schema-not-accepted", "arguments that follow the schema of %s do not fit the library's request: %v", tool, fe)
	lb, errB := w.b.GraphRAGTools().Call(bg, tool, raw32(args))
	lm, errM := w.s.call(c, tool, args)
	c.Check((errA == nil) == (errB == nil), "call-verdict", "%s: the library answers %v, the toolbox %v", tool, errA, errB)
	c.Check((errA == nil) == (errM == nil), "mcp-verdict", "%s: the library answers %v, MCP %v", tool, errA, errM)
	kind := "ok"
	if errA != nil {
		kind = "error"
		c.Check(!strings.Contains(errA.Error(), "no such table"), "internal-error:"+tool, "%s answers a valid call with %v", tool, errA)
		c.Check(errA.Error() == errB.Error(), "call-error", "%s: the library says %q, the toolbox %q", tool, errA, errB)
		c.Check(strings.Contains(errM.Error(), errA.Error()), "mcp-error", "%s: the library says %q, MCP %q", tool, errA, errM)
		after := dump32(c, w.b, false)
		c.Check(before == after, "partial-effect", "%s failed (%v) but changed the database:%s", tool, errB, diff32(before, after))
		after = dump32(c, w.m, false)
		c.Check(beforeM == after, "partial-effect", "%s failed over MCP (%v) but changed the database:%s", tool, errM, diff32(beforeM, after))
	} else {
		ca, cb, cm := canon32(la), canon32(lb), canon32(lm)
		if limit, _ := args["limit"].(int); tool == "expand_graph" {
			// The order of edges depends on the clock, and with it what a limit keeps.
			for _, x := range []any{ca, cb, cm} {
				order32(x)
			}
			if limit > 0 {
				cb, cm = ca, ca
			}
		}
		c.Check(near32(ca, cb), "call-answer", "%s %s: the library answers\n%s\nthe toolbox\n%s", tool, text32(args), clip(text32(ca), 2000), clip(text32(cb), 2000))
		c.Check(near32(ca, cm), "mcp-answer", "%s %s: the library answers\n%s\nMCP\n%s", tool, text32(args), clip(text32(ca), 2000), clip(text32(cm), 2000))
	}
	if !writes32[tool] {
		after := dump32(c, w.b, false)
		c.Check(before == after, "read-writes", "%s changed the database:%s", tool, diff32(before, after))
	} else {
		da, db, dm := dump32(c, w.a, true), dump32(c, w.b, true), dump32(c, w.m, true)
		c.Check(da == db, "call-effect", "%s left different databases behind through the library (+) and the toolbox (-):%s", tool, diff32(da, db))
		c.Check(da == dm, "mcp-effect", "%s left different databases behind through the library (+) and MCP (-):%s", tool, diff32(da, dm))
	}
	c.Count(tool+" "+kind, 1)
	if errA == nil {
		w.written(tool, la)
	}
	return lb, errA
}

// written checks that what a write reports is there.
func (w *tw32) written(tool string, res any) {
	there := func(table string, ids ...string) {
		for _, id := range ids {
			w.c.Check(len(kRows(w.c, w.a, "SELECT 1 FROM "+table+" WHERE id=?", id)) == 1, "reported-not-written", "%s reports %q, which is not in %s", tool, id, table)
		}
	}
	switch x := res.(type) {
	case *cortexdb.ToolIngestDocumentResponse:
		there("graph_nodes", append([]string{x.DocumentNodeID}, x.ChunkNodeIDs...)...)
		there("embeddings", x.ChunkNodeIDs...)
	case *cortexdb.ToolUpsertEntitiesResponse:
		there("graph_nodes", x.EntityNodeIDs...)
	case *cortexdb.ToolUpsertRelationsResponse:
		there("graph_edges", x.EdgeIDs...)
	case *cortexdb.KnowledgeSaveResponse:
		if x.DocumentNodeID != "" {
			there("graph_nodes", x.DocumentNodeID)
		}
		there("graph_nodes", x.EntityNodeIDs...)
		there("graph_edges", x.RelationEdgeIDs...)
		there("embeddings", x.Knowledge.ChunkIDs...)
	case *cortexdb.MemorySaveResponse:
		there("messages", x.Memory.ID)
	}
}

// refused applies one malformed call: an error on both ways and no change.
func (w *tw32) refused(tool, why string, raw json.RawMessage, mcpArgs any) {
	c := w.c
	c.Op("malformed (%s) %s %s", why, tool, clip(string(raw), 300))
	before, beforeM := dump32(c, w.b, false), dump32(c, w.m, false)
	_, err := w.b.GraphRAGTools().Call(bg, tool, raw)
	c.Check(err != nil, "accepted-malformed:"+why, "the toolbox accepted a call of %s with %s: %s", tool, why, clip(string(raw), 400))
	after := dump32(c, w.b, false)
	c.Check(before == after, "partial-effect", "a refused call of %s (%s) changed the database:%s", tool, why, diff32(before, after))
	if mcpArgs != nil {
		_, err = w.s.call(c, tool, mcpArgs)
		c.Check(err != nil, "mcp-accepted-malformed:"+why, "MCP accepted a call of %s with %s: %s", tool, why, clip(string(raw), 400))
		after = dump32(c, w.m, false)
		c.Check(beforeM == after, "partial-effect", "a refused MCP call of %s (%s) changed the database:%s", tool, why, diff32(beforeM, after))
	}
	c.Count("refused "+why, 1)
}

// wrong is a JSON value that cannot be of the declared type.
func (w *tw32) wrong(s map[string]any) any {
	r := w.r
	switch s["type"] {
	case "string":
		return pick(r, []any{7, true, 1.5, []any{"x"}, map[string]any{"a": "b"}})
	case "integer":
		return pick(r, []any{"7", true, 1.5, []any{1}, map[string]any{}})
	case "number":
		return pick(r, []any{"7", true, []any{1}, map[string]any{}})
	case "boolean":
		return pick(r, []any{"true", 1, []any{}, map[string]any{}})
	case "array":
		return pick(r, []any{"x", 7, true, map[string]any{"0": "x"}, []any{[]any{}}, []any{7}, []any{true}})
	}
	return pick(r, []any{"x", 7, true, []any{}})
}

func (w *tw32) malformed(tool string) {
	r := w.r
	args := w.args(tool)
	props, _ := w.defs[tool].InputSchema["properties"].(map[string]any)
	req := strs32(w.defs[tool].InputSchema["required"])
	switch r.Intn(5) {
	case 0: // a required parameter is missing
		delete(args, pick(r, req))
		w.refused(tool, "a missing parameter", raw32(args), args)
	case 1, 2:
		k := pick(r, sortedKeys(props))
		ps, _ := props[k].(map[string]any)
		args[k] = w.wrong(ps)
		w.refused(tool, "a wrong type", raw32(args), args)
	case 3:
		raw := pick(r, []string{"", "{", "[]", "\"x\"", "17", "true", "null", "{}", "{\"a\":}", "\xff\xfe", string(raw32(args)) + "}", string(raw32(args))[1:]})
		var m any
		if json.Unmarshal([]byte(raw), &m) == nil && m != nil {
			w.refused(tool, "no argument object", json.RawMessage(raw), m)
		} else {
			w.refused(tool, "no argument object", json.RawMessage(raw), nil)
		}
	case 4:
		n := pick(r, []string{"", "nothing", strings.ToUpper(tool), tool + " ", "knowledge", "__proto__"})
		w.refused(n, "an unknown tool", raw32(args), args)
	}
}

// extra adds a parameter that the schema does not declare: refused or ignored, never anything else.
func (w *tw32) extra(tool string) {
	c := w.c
	args := w.args(tool)
	want, err := w.valid(tool, args)
	if err != nil {
		return
	}
	args["undeclared_"+pick(w.r, []string{"x", "y"})] = w.any(1)
	c.Op("undeclared parameter %s %s", tool, text32(args))
	got, err := w.b.GraphRAGTools().Call(bg, tool, raw32(args))
	c.Check(err != nil || near32(canon32(got), canon32(want)), "undeclared", "an undeclared parameter changed the answer of %s", tool)
	m, err := w.s.call(c, tool, args)
	c.Check(err != nil || near32(canon32(m), canon32(want)), "undeclared", "an undeclared parameter changed the MCP answer of %s", tool)
}

type graph32 struct {
	typ   map[string]string
	edges [][4]string
}

func (w *tw32) graph() graph32 {
	g := graph32{typ: map[string]string{}}
	if len(kRows(w.c, w.a, "SELECT 1 FROM sqlite_master WHERE name='graph_edges'")) == 0 {
		return g
	}
	for _, row := range kRows(w.c, w.a, "SELECT id, COALESCE(node_type,'') FROM graph_nodes") {
		g.typ[row[0]] = row[1]
	}
	for _, row := range kRows(w.c, w.a, "SELECT id, from_node_id, to_node_id, COALESCE(edge_type,'') FROM graph_edges") {
		g.edges = append(g.edges, [4]string{row[0], row[1], row[2], row[3]})
	}
	return g
}

func list32(x any) (out []string) {
	l, _ := x.([]any)
	for _, e := range l {
		s, _ := e.(string)
		out = append(out, s)
	}
	return
}

func in32(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// expand judges expand_graph against a breadth-first search over the stored edges.
func (w *tw32) expand(args map[string]any) {
	c := w.c
	res, err := w.valid("expand_graph", args)
	c.Check(err == nil, "spurious-error:expand_graph", "expand_graph %s: %v", text32(args), err)
	g := w.graph()
	starts, ets, nts := list32(args["node_ids"]), list32(args["edge_types"]), list32(args["node_types"])
	hops, _ := args["max_hops"].(int)
	if hops <= 0 {
		hops = 1
	}
	limit, _ := args["limit"].(int)
	want, must := map[string]bool{}, map[string]bool{}
	for _, s := range starts {
		if s == "" {
			continue
		}
		if _, ok := g.typ[s]; ok {
			want[s], must[s] = true, true
		}
		dist := map[string]int{s: 0}
		queue := []string{s}
		n := 0
		for len(queue) > 0 {
			x := queue[0]
			queue = queue[1:]
			if dist[x] >= hops {
				continue
			}
			for _, e := range g.edges {
				if len(ets) > 0 && !in32(ets, e[3]) {
					continue
				}
				y := ""
				switch x {
				case e[1]:
					y = e[2]
				case e[2]:
					y = e[1]
				default:
					continue
				}
				if _, seen := dist[y]; seen {
					continue
				}
				dist[y] = dist[x] + 1
				queue = append(queue, y)
				if t, ok := g.typ[y]; ok && (len(nts) == 0 || in32(nts, t)) {
					want[y] = true
					n++
				}
			}
		}
		if limit <= 0 || n <= limit {
			for y := range dist {
				if t, ok := g.typ[y]; ok && (len(nts) == 0 || in32(nts, t)) {
					must[y] = true
				}
			}
		}
	}
	out := res.(*cortexdb.ToolExpandGraphResponse)
	have := map[string]bool{}
	for _, n := range out.Nodes {
		c.Check(want[n.ID] && !have[n.ID], "expand-nodes", "expand_graph %s returned the node %q, which is unreachable, filtered out or already listed", text32(args), n.ID)
		c.Check(n.NodeType == g.typ[n.ID], "expand-nodes", "expand_graph says %q has type %q, stored %q", n.ID, n.NodeType, g.typ[n.ID])
		have[n.ID] = true
	}
	for y := range must {
		c.Check(have[y], "expand-nodes", "expand_graph %s did not return the reachable node %q", text32(args), y)
	}
	if limit > 0 {
		c.Check(len(out.Nodes) <= (limit+1)*len(starts), "expand-limit", "expand_graph %s returned %d nodes", text32(args), len(out.Nodes))
	}
	var gotE, wantE []string
	for _, e := range out.Edges {
		gotE = append(gotE, strings.Join([]string{e.ID, e.FromNodeID, e.ToNodeID, e.EdgeType}, "|"))
	}
	for _, e := range g.edges {
		if have[e[1]] && have[e[2]] {
			wantE = append(wantE, strings.Join(e[:], "|"))
		}
	}
	sort.Strings(gotE)
	sort.Strings(wantE)
	if len(starts) > 0 {
		c.Check(sameStrings(gotE, wantE), "expand-edges", "expand_graph %s returned the edges %v, want %v", text32(args), gotE, wantE)
	}
	if len(have) > len(starts) {
		c.Count("expansions beyond the starts", 1)
	}
}

// fetch judges get_nodes and get_chunks: exactly the stored records among those asked for.
func (w *tw32) fetch(tool string, args map[string]any) {
	c := w.c
	res, err := w.valid(tool, args)
	if err != nil {
		return
	}
	want, have := map[string]string{}, map[string]string{}
	switch x := res.(type) {
	case *cortexdb.ToolGetNodesResponse:
		if len(kRows(c, w.a, "SELECT 1 FROM sqlite_master WHERE name='graph_nodes'")) == 0 {
			break
		}
		for _, id := range list32(args["node_ids"]) {
			for _, row := range kRows(c, w.a, "SELECT content FROM graph_nodes WHERE id=?", id) {
				want[id] = row[0]
			}
		}
		for _, n := range x.Nodes {
			have[n.ID] = n.Content
		}
	case *cortexdb.ToolGetChunksResponse:
		for _, id := range list32(args["chunk_ids"]) {
			for _, row := range kRows(c, w.a, "SELECT content FROM embeddings WHERE id=?", id) {
				want[id] = row[0]
			}
		}
		for _, n := range x.Chunks {
			have[n.ID] = n.Content
		}
	}
	c.Check(strMapEq(want, have), tool, "%s %s returned %v, stored %v", tool, text32(args), have, want)
	if len(want) > 0 {
		c.Count("records fetched", len(want))
	}
}

func (w *tw32) step() {
	r := w.r
	tool := pick(r, w.names)
	if r.Intn(3) == 0 {
		tool = pick(r, []string{"ingest_document", "knowledge_save", "memory_save", "upsert_entities", "upsert_relations", "expand_graph", "search_chunks_by_entities"})
	}
	switch x := r.Intn(12); {
	case x < 2:
		w.malformed(tool)
	case x == 2 && !writes32[tool]:
		w.extra(tool)
	case x == 3 && w.ea != nil:
		w.faults(1 + r.Intn(3))
		w.valid(tool, w.args(tool))
		w.faults(-1)
	case tool == "expand_graph":
		w.expand(w.args(tool))
	case tool == "get_nodes" || tool == "get_chunks":
		w.fetch(tool, w.args(tool))
	default:
		w.valid(tool, w.args(tool))
	}
}

func c32history(c *Case) {
	w := new32(c, c.Idx%3 == 1)
	for i := 0; i < 40; i++ {
		w.step()
	}
	c.Nontrivial()
	w.close()
}

// c32extreme calls tools with extreme values: whatever the verdict, it is the same on every way and nothing breaks.
func c32extreme(c *Case) {
	w := new32(c, c.Idx%3 == 1)
	r := c.R
	for i := 0; i < 8; i++ {
		t := pick(r, []string{"ingest_document", "knowledge_save", "memory_save", "upsert_entities"})
		w.valid(t, w.args(t))
	}
	if c.Idx%3 == 0 { // entities mentioned by entities of the same call
		l := []any{map[string]any{"name": "Fresh One"}, map[string]any{"name": "Fresh Two", "chunk_ids": []any{kEntID("Fresh One"), kEntID("Fresh Two")}}}
		w.valid("knowledge_save", map[string]any{"knowledge_id": "fresh", "content": "fresh text", "entities": l})
		w.valid("upsert_entities", map[string]any{"entities": append([]any{map[string]any{"name": "Fresh Three", "chunk_ids": []any{kEntID("Fresh Four")}}, map[string]any{"name": "Fresh Four"}}, l...)})
		w.valid("knowledge_update", map[string]any{"knowledge_id": "fresh", "entities": []any{map[string]any{"name": "Fresh Five", "chunk_ids": []any{kEntID("Fresh Six")}}, map[string]any{"name": "Fresh Six"}}})
	}
	if c.Idx%2 == 0 { // more memories and results than any default
		for i := 0; i < 25; i++ {
			w.valid("memory_save", map[string]any{"memory_id": fmt.Sprintf("many%d", i), "content": fmt.Sprintf("river note %d", i), "user_id": "many", "scope": "user"})
		}
		for _, k := range []int{3, 12, 20, 100} {
			w.valid("memory_search", map[string]any{"query": "river", "user_id": "many", "scope": "user", "top_k": k})
		}
	}
	ints := []int{math.MaxInt32, 1 << 40, 1 << 53, -1 << 53, math.MinInt32, 1 << 31, 1<<53 - 1, 1 << 50, 1 << 20}
	floats := []any{1e308, -1e308, 5e-324, 1e20, -0.0, 1 << 53}
	long := []string{strings.Repeat("stone ", 3000), strings.Repeat("y", 40000), strings.Repeat("Alice river ", 500), strings.Repeat("\n", 500) + "x", strings.Repeat("\"", 2000), strings.Repeat("* OR NEAR( ", 300)}
	for _, i := range r.Perm(len(w.names)) {
		tool := w.names[i]
		args := w.args(tool)
		props, _ := w.defs[tool].InputSchema["properties"].(map[string]any)
		top := 0
		for _, k := range sortedKeys(props) {
			ps, _ := props[k].(map[string]any)
			if r.Intn(2) == 0 && args[k] == nil {
				continue
			}
			switch ps["type"] {
			case "integer":
				args[k] = pick(r, ints)
				top = 1
			case "number":
				args[k] = pick(r, floats)
			case "string":
				if k != "collection" && !strings.HasSuffix(k, "_id") && ps["enum"] == nil && r.Intn(3) == 0 {
					v := pick(r, long)
					if k == "query" && len(v) > 600 && strings.ContainsAny(v, " \"") {
						v = v[:600] // many repeated terms keep SQLite busy for minutes
					}
					args[k] = v
				}
			case "array":
				if it, _ := ps["items"].(map[string]any); it["type"] == "string" && r.Intn(2) == 0 {
					l := []any{}
					for n := r.Intn(300); n > 0; n-- {
						l = append(l, w.value(tool, k, it))
					}
					args[k] = l
				}
			}
		}
		res, err := w.valid(tool, args)
		if m, ok := res.(*cortexdb.MemorySaveResponse); ok && err == nil {
			_, err := w.valid("memory_get", map[string]any{"memory_id": m.Memory.ID})
			c.Check(err == nil, "extreme-ttl", "a memory saved with %s is gone: %v", clip(text32(args), 300), err)
		}
		if top == 1 && !writes32[tool] { // no float can carry these: only the toolbox gets them
			for _, k := range sortedKeys(props) {
				if ps, _ := props[k].(map[string]any); ps["type"] == "integer" {
					args[k] = pick(r, []int{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 8, math.MinInt64, math.MaxInt64/8 + 1, math.MaxInt64 / 12})
				}
			}
			c.Op("extreme %s %s", tool, clip(text32(args), 400))
			la, errA, _ := typed32(w.a, tool, args)
			lb, errB := w.b.GraphRAGTools().Call(bg, tool, raw32(args))
			c.Check((errA == nil) == (errB == nil), "call-verdict", "%s: the library answers %v, the toolbox %v", tool, errA, errB)
			ca, cb := canon32(la), canon32(lb)
			if tool == "expand_graph" {
				order32(ca)
				order32(cb)
			}
			c.Check(near32(ca, cb), "call-answer", "%s: different answers", tool)
			// A limit that cannot bind is no limit.
			if ok := w.unbound(tool, args); errA == nil && ok != nil {
				la2, err, _ := typed32(w.a, tool, ok)
				ca2 := canon32(la2)
				if tool == "expand_graph" {
					order32(ca2)
				}
				c.Check(err == nil && near32(ca, ca2), "extreme-limit", "%s with %s answers\n%s\nbut with %s\n%s (%v)", tool, clip(text32(args), 400), clip(text32(ca), 1500), clip(text32(ok), 400), clip(text32(ca2), 1500), err)
				c.Count("limits beyond everything", 1)
			}
		}
	}
	c.Nontrivial()
	w.close()
}

// unbound is the call with every limit set to a merely large value, if that must mean the same.
func (w *tw32) unbound(tool string, args map[string]any) map[string]any {
	out := map[string]any{}
	props, _ := w.defs[tool].InputSchema["properties"].(map[string]any)
	for k, v := range args {
		if ps, _ := props[k].(map[string]any); ps["type"] == "integer" {
			n := v.(int)
			if n < 0 {
				v = -1
			} else {
				v = 5000
				if strings.HasSuffix(k, "chars") {
					v = 1 << 28
				}
			}
		}
		out[k] = v
	}
	return out
}

// c32sessions lets several MCP sessions work on one database at a time, each on records of its own.
func c32sessions(c *Case) {
	var emb *textEmb
	if c.Idx%2 == 1 {
		emb = &textEmb{dim: 6}
	}
	db := open32(c, "shared", emb)
	const k, steps = 4, 14
	know, mem := make([]map[string]string, k), make([]map[string]string, k)
	var wg sync.WaitGroup
	for s := 0; s < k; s++ {
		know[s], mem[s] = map[string]string{}, map[string]string{}
		ses := mcp32(c, db)
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer ses.close()
			do := func(tool string, args map[string]any) map[string]any {
				c.Op("session %d: %s %s", s, tool, text32(args))
				res, err := ses.s.CallTool(bg, &mcp.CallToolParams{Name: tool, Arguments: args})
				if err != nil || res.IsError {
					msg := ""
					if err == nil {
						msg = text32(res.Content)
					}
					c.Report("spurious-error:"+tool, "session %d: %s %s: %v %s", s, tool, text32(args), err, msg)
					return map[string]any{}
				}
				c.Count("concurrent "+tool, 1)
				m, _ := canon32(res.StructuredContent).(map[string]any)
				return m
			}
			for i := 0; i < steps; i++ {
				id := fmt.Sprintf("s%d-%d", s, r.Intn(3))
				text := fmt.Sprintf("%s w%dx%dq %s", pick(r, kLower), s, i, pick(r, kLower))
				_, hasK := know[s][id]
				_, hasM := mem[s][id]
				switch r.Intn(7) {
				case 0, 1:
					do("knowledge_save", map[string]any{"knowledge_id": id, "content": text, "entities": []any{map[string]any{"name": fmt.Sprintf("Actor%d", s), "chunk_ids": []any{kChunkID(id, 0)}}}})
					know[s][id] = text
				case 2, 3:
					do("memory_save", map[string]any{"memory_id": id, "content": text, "user_id": "shared"})
					mem[s][id] = text
				case 4:
					if hasK {
						do("knowledge_delete", map[string]any{"knowledge_id": id})
						delete(know[s], id)
					}
				case 5:
					if hasM {
						do("memory_delete", map[string]any{"memory_id": id})
						delete(mem[s], id)
					}
				case 6:
					if hasK {
						res := do("knowledge_get", map[string]any{"knowledge_id": id})
						kn, _ := res["knowledge"].(map[string]any)
						if kn["content"] != know[s][id] {
							c.Report("session-read", "session %d wrote %q to %s and reads %v", s, know[s][id], id, kn["content"])
						}
					} else {
						do("memory_search", map[string]any{"query": "river", "user_id": "shared"})
					}
				}
			}
		}()
	}
	wg.Wait()
	ses := mcp32(c, db)
	n := 0
	for s := 0; s < k; s++ {
		for i := 0; i < 3; i++ {
			id := fmt.Sprintf("s%d-%d", s, i)
			for tool, m := range map[string]map[string]string{"knowledge": know[s], "memory": mem[s]} {
				want, ok := m[id]
				res, err := ses.call(c, tool+"_get", map[string]any{tool + "_id": id})
				c.Check((err == nil) == ok, "session-final", "after the sessions ended %s_get %s answers %v, want present=%v", tool, id, err, ok)
				if ok {
					x, _ := canon32(res).(map[string]any)
					rec, _ := x[tool].(map[string]any)
					c.Check(rec["content"] == want, "session-final", "%s %s holds %v, last written %q", tool, id, rec["content"], want)
					n++
				}
			}
		}
	}
	if n > 0 {
		c.Nontrivial()
	}
	ses.close()
	err := db.Close()
	c.Check(err == nil, "close", "Close: %v", err)
}

// c32serve is the server process of the stdio part.
func c32serve(path string) {
	db, err := cortexdb.Open(cortexdb.Config{Path: path, Dimensions: 6, SimilarityFn: core.CosineSimilarity, IndexType: core.IndexTypeFlat})
	if err != nil {
		fmt.Fprintln(os.Stderr, "open:", err)
		os.Exit(3)
	}
	if err := db.RunMCPStdio(context.Background(), cortexdb.MCPServerOptions{}); err != nil {
		fmt.Fprintln(os.Stderr, "run:", err)
	}
	if err := db.Close(); err != nil {
		fmt.Fprintln(os.Stderr, "close:", err)
		os.Exit(4)
	}
	os.Exit(0)
}

// c32stdio runs the server as a process of its own, once or twice on one database, next to the library.
func c32stdio(c *Case) {
	w := &tw32{c: c, r: c.R, defs: map[string]cortexdb.ToolDefinition{}}
	w.a = open32(c, "lib", nil)
	for _, d := range w.a.GraphRAGTools().Definitions() {
		w.defs[d.Name] = d
		w.names = append(w.names, d.Name)
	}
	sort.Strings(w.names)
	self, err := os.Executable()
	c.Must(err, "executable")
	path := c.Dir + "/stdio.db"
	for gen := 0; gen < 2; gen++ {
		cmd := exec.Command(self, "-aux", "mcp", "-auxarg", path)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		s, err := mcp.NewClient(&mcp.Implementation{Name: "monitor", Version: "1"}, nil).Connect(bg, &mcp.CommandTransport{Command: cmd}, nil)
		c.Check(err == nil, "stdio-connect", "no MCP session over stdio: %v\n%s", err, clip(stderr.String(), 2000))
		ses := &ses32{s: s}
		order := w.r.Perm(len(w.names))
		for round := 0; round < 2; round++ {
			for _, i := range order {
				tool := w.names[i]
				args := w.args(tool)
				c.Op("stdio generation %d: %s %s", gen, tool, text32(args))
				la, errA, fe := typed32(w.a, tool, args)
				c.Check(fe == nil, "schema-not-accepted", "%s: %v", tool, fe)
				lm, errM := ses.call(c, tool, args)
				c.Check((errA == nil) == (errM == nil), "stdio-verdict", "%s: the library answers %v, the server %v", tool, errA, errM)
				if errA == nil {
					c.Check(near32(canon32(la), canon32(lm)), "stdio-answer", "%s %s: the library answers\n%s\nthe server\n%s", tool, text32(args), clip(text32(canon32(la)), 2000), clip(text32(canon32(lm)), 2000))
					c.Count("stdio "+tool, 1)
				}
			}
		}
		err = s.Close()
		c.Check(err == nil && !strings.Contains(stderr.String(), "run:"), "stdio-exit", "the server did not end cleanly when its input closed: %v\n%s", err, clip(stderr.String(), 2000))
		db, err := cortexdb.Open(cortexdb.Config{Path: path, Dimensions: 6, SimilarityFn: core.CosineSimilarity, IndexType: core.IndexTypeFlat})
		c.Check(err == nil, "open-failed", "Open after the server ended: %v", err)
		da, dm := dump32(c, w.a, true), dump32(c, db, true)
		c.Check(da == dm, "stdio-effect", "after the server ended its database differs from the library's (+):%s", diff32(da, dm))
		err = db.Close()
		c.Check(err == nil, "close", "Close: %v", err)
	}
	c.Nontrivial()
	err = w.a.Close()
	c.Check(err == nil, "close", "Close: %v", err)
}

// c32wide works on graphs of hundreds of nodes: everything the calls name is stored, listed and reached, also beyond
// what a default page would hold.
func c32wide(c *Case) {
	r := c.R
	w := new32(c, c.Idx%4 == 1)
	must := func(tool string, args map[string]any) any {
		res, err := w.valid(tool, args)
		c.Check(err == nil, "spurious-error:"+tool, "%s %s: %v", tool, clip(text32(args), 500), err)
		return res
	}
	words := func(n int) string {
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, pick(r, []string{"amber", "birch", "copper", "dune", "ember", "flint", "grove"}))
		}
		return strings.Join(s, " ")
	}
	// One document of several chunks; rare words mark one chunk each.
	marks := []string{"aardvark", "basilisk", "chimera", "dromedary", "echidna", "firebird", "gryphon"}
	text := ""
	for _, m := range marks {
		text += words(4) + " " + m + " " + words(4) + " "
	}
	doc := must("ingest_document", map[string]any{"document_id": "wide", "content": text, "chunk_size": 9, "chunk_overlap": 0}).(*cortexdb.ToolIngestDocumentResponse)
	// Entities: many of them mentioned by one chunk, few by another.
	n := 130 + r.Intn(60)
	full, some := doc.ChunkNodeIDs[0], doc.ChunkNodeIDs[1]
	var ents []any
	var names, inFull, inSome []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("Thing %03d", i)
		names = append(names, name)
		e := map[string]any{"name": name, "type": pick(r, []string{"thing", "part"}), "description": words(3)}
		var ids []any
		if r.Intn(2) == 0 {
			ids = append(ids, full)
			inFull = append(inFull, name)
		}
		if r.Intn(40) == 0 {
			ids = append(ids, some)
			inSome = append(inSome, name)
		}
		if ids != nil {
			e["chunk_ids"] = ids
		}
		ents = append(ents, e)
	}
	er := must("upsert_entities", map[string]any{"document_id": "wide", "entities": ents}).(*cortexdb.ToolUpsertEntitiesResponse)
	c.Check(len(er.EntityNodeIDs) == n && er.MentionEdgeCount == len(inFull)+len(inSome), "wide-entities", "%d entities with %d mentions are reported as %d with %d", n, len(inFull)+len(inSome), len(er.EntityNodeIDs), er.MentionEdgeCount)
	id := map[string]string{}
	for i, x := range er.EntityNodeIDs {
		id[names[i]] = x
		rows := kRows(c, w.a, "SELECT content, node_type FROM graph_nodes WHERE id=?", x)
		e := ents[i].(map[string]any)
		c.Check(len(rows) == 1 && rows[0][0] == names[i] && rows[0][1] == e["type"], "wide-entities", "the entity %q is reported as %q, stored as %v", names[i], x, rows)
	}
	c.Check(len(kRows(c, w.a, "SELECT 1 FROM graph_edges WHERE edge_type='mentions'")) == er.MentionEdgeCount, "wide-entities", "not every reported mention is stored")
	chunks := must("get_chunks", map[string]any{"chunk_ids": []any{full, some}, "retrieval_mode": "graph"}).(*cortexdb.ToolGetChunksResponse)
	c.Check(len(chunks.Chunks) == 2, "wide-chunk-entities", "get_chunks returned %d of 2 chunks", len(chunks.Chunks))
	for i, want := range [][]string{inFull, inSome} {
		got := append([]string{}, chunks.Chunks[i].Entities...)
		sort.Strings(got)
		c.Check(sameStrings(got, append([]string{}, want...)), "wide-chunk-entities", "get_chunks lists %d entities of %s, %d are mentioned:\n%v\n%v", len(got), chunks.Chunks[i].ID, len(want), got, want)
	}
	// Relations name entities by name or by node id; several may join one pair.
	ref := func(name string) string {
		if r.Intn(2) == 0 {
			return id[name]
		}
		return name
	}
	var rels []any
	var want [][3]string
	rel := func(a, b, typ string) {
		rels = append(rels, map[string]any{"from": ref(a), "to": ref(b), "type": typ, "weight": float64(1+len(rels)%7) / 4,
			"metadata": map[string]any{pick(r, []string{"k", "Since", "π"}): pick(r, []string{"", " ", "v", "0"})}})
		want = append(want, [3]string{id[a], id[b], typ})
	}
	hub, next := names[0], names[1]
	for i := 1; i < n; i++ {
		if r.Intn(8) > 0 {
			rel(hub, names[i], pick(r, []string{"has", "uses"}))
		} else {
			rel(names[r.Intn(i)], names[i], "has")
		}
	}
	for i := 0; i < 26; i++ {
		rel(next, names[2], pick(r, []string{"likes", "uses", "has"}))
	}
	r.Shuffle(len(rels), func(i, j int) { rels[i], rels[j] = rels[j], rels[i]; want[i], want[j] = want[j], want[i] })
	rr := must("upsert_relations", map[string]any{"document_id": "wide", "relations": rels}).(*cortexdb.ToolUpsertRelationsResponse)
	c.Check(len(rr.EdgeIDs) == len(rels), "wide-relations", "%d relations are reported as %d edges", len(rels), len(rr.EdgeIDs))
	ids := map[string]bool{}
	for i, x := range rr.EdgeIDs {
		c.Check(!ids[x], "wide-relations", "two relations are reported as the edge %q", x)
		ids[x] = true
		rows := kRows(c, w.a, "SELECT from_node_id, to_node_id, edge_type, weight FROM graph_edges WHERE id=?", x)
		wt := rels[i].(map[string]any)["weight"].(float64)
		props := map[string]any{}
		for _, row := range kRows(c, w.a, "SELECT COALESCE(properties,'{}') FROM graph_edges WHERE id=?", x) {
			c.Check(json.Unmarshal([]byte(row[0]), &props) == nil, "wide-relations", "the properties of %q are %q", x, row[0])
		}
		for k, v := range rels[i].(map[string]any)["metadata"].(map[string]any) {
			c.Check(props[k] == v, "wide-metadata", "the metadata %q=%q of the relation %q is stored in %v", k, v, x, props)
		}
		c.Check(len(rows) == 1 && rows[0][0] == want[i][0] && rows[0][1] == want[i][1] && rows[0][2] == want[i][2] && fmt.Sprint(rows[0][3]) == fmt.Sprint(wt), "wide-relations", "the relation %v of weight %v is reported as the edge %q, stored as %v", want[i], wt, x, rows)
	}
	c.Count("relations written", len(rels))
	// Expansion: adjacent starts, every limit.
	for i := 0; i < 8; i++ {
		starts := []any{}
		switch r.Intn(3) {
		case 0:
			starts = append(starts, id[hub])
		case 1:
			starts = append(starts, full, id[pick(r, names)], doc.DocumentNodeID)
		}
		k := 1 + r.Intn(4)
		for j := 0; j < k; j++ {
			starts = append(starts, id[pick(r, names)])
		}
		if r.Intn(2) == 0 {
			starts = append(starts, starts[r.Intn(len(starts))])
		}
		args := map[string]any{"node_ids": starts}
		if r.Intn(3) > 0 {
			args["max_hops"] = 1 + r.Intn(3)
		}
		if r.Intn(2) == 0 {
			args["limit"] = pick(r, []int{1, 5, 60, 101, 150, 500})
		}
		if r.Intn(3) == 0 {
			args["edge_types"] = []any{pick(r, []string{"has", "uses", "likes", "mentions"})}
		}
		if r.Intn(3) == 0 {
			args["node_types"] = []any{pick(r, []string{"thing", "part", "chunk"})}
		}
		w.expand(args)
	}
	var all []any
	for _, x := range er.EntityNodeIDs {
		all = append(all, x)
	}
	w.fetch("get_nodes", map[string]any{"node_ids": all})
	// Entities by name and by node id find the same chunks.
	for i := 0; i < 4; i++ {
		a, b := []any{}, []any{}
		linked := map[string]bool{}
		for j := 0; j <= r.Intn(4); j++ {
			x := pick(r, append(append([]string{}, inSome...), names...))
			a, b = append(a, x), append(b, id[x])
			for k, l := range [][]string{inFull, inSome} {
				if in32(l, x) {
					linked[[]string{full, some}[k]] = true
				}
			}
		}
		ra := must("search_chunks_by_entities", map[string]any{"entity_names": a, "top_k": 20}).(*cortexdb.ToolSearchChunksByEntitiesResponse)
		rb := must("search_chunks_by_entities", map[string]any{"entity_names": b, "top_k": 20}).(*cortexdb.ToolSearchChunksByEntitiesResponse)
		c.Check(text32(canon32(ra)) == text32(canon32(rb)), "entity-by-id", "chunks of %v by name: %s\nby node id %v: %s", a, clip(text32(ra), 1000), b, clip(text32(rb), 1000))
		got := map[string]bool{}
		for _, x := range ra.Chunks {
			got[x.ID] = true
		}
		for x := range linked {
			c.Check(got[x], "entity-chunks", "search_chunks_by_entities %v does not find %s, which mentions one of them", a, x)
		}
		c.Check(len(got) == len(linked), "entity-chunks", "search_chunks_by_entities %v finds %v, want %v", a, got, linked)
	}
	// Every alternate query and every keyword counts, however many there are.
	for _, field := range []string{"alternate_queries", "keywords"} {
		alts := []any{}
		k := 4 + r.Intn(4)
		p := r.Perm(len(marks))
		for _, i := range p[:k] {
			alts = append(alts, marks[i])
		}
		res := must("search_text", map[string]any{"query": "zyzzyva", field: alts, "top_k": 20}).(*cortexdb.ToolSearchTextResponse)
		got := map[string]bool{}
		for _, x := range res.Chunks {
			got[x.ID] = true
		}
		for _, i := range p[:k] {
			c.Check(got[doc.ChunkNodeIDs[i]], "alternate-dropped", "search_text with %s %v finds %v, not the chunk of %q (%s)", field, alts, got, marks[i], doc.ChunkNodeIDs[i])
		}
		c.Check(len(got) == k, "alternate-dropped", "search_text with %s %v finds %v", field, alts, got)
	}
	// A packed context follows the order asked for.
	p := r.Perm(len(doc.ChunkNodeIDs))
	order := []any{}
	for _, i := range p {
		order = append(order, doc.ChunkNodeIDs[i])
	}
	bc := must("build_context", map[string]any{"chunk_ids": order, "max_context_chunks": 50, "max_context_chars": 100000, "per_document_limit": 50}).(*cortexdb.ToolBuildContextResponse)
	at := -1
	for _, i := range p {
		k := strings.Index(bc.Context, marks[i])
		c.Check(k > at, "context-order", "build_context of %v packs %q", order, clip(bc.Context, 1000))
		at = k
	}
	c.Nontrivial()
	w.close()
}
