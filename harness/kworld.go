package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

// Shared by the knowledge and ingestion monitors: a text generator whose entities and unique words are
// known, and the documented chunking (words per chunk, overlap, paragraphs apart).

const kDefaultColl = "graphrag_chunks"

func kCount(size, overlap int) (int, int) {
	if size <= 0 {
		size = 120
	}
	if overlap < 0 {
		overlap = 0
	}
	if overlap >= size {
		overlap = size / 4
	}
	return size, overlap
}

// kChunks is the reference chunker.
func kChunks(text string, size, overlap int) (out []string) {
	size, overlap = kCount(size, overlap)
	for _, p := range strings.FieldsFunc(text, func(r rune) bool { return r == '\n' || r == '\r' }) {
		w := strings.Fields(p)
		for i := 0; i < len(w); i += size - overlap {
			e := i + size
			if e > len(w) {
				e = len(w)
			}
			out = append(out, strings.Join(w[i:e], " "))
			if e == len(w) {
				break
			}
		}
	}
	return
}

func kChunkID(doc string, i int) string { return fmt.Sprintf("chunk:%s:%03d", doc, i) }

var kLower = strings.Fields("river stone cloud maple harbor silver winter garden über naïve 東京 данные ελιά ночь ärger été 데이터 water copper valley engine signal marble falcon lantern 42 3d x-ray co-op done. why? stop!")
var kNames = []string{"Alice", "Bob", "Acme", "Berlin", "Quasar", "Nova7", "Delta Corp", "Kilo Lima Mike"}

type kText struct {
	text   string
	tokens []string // unique words, one per paragraph
}

// kWrite draws a text. Capitalised words are always entity names with a lower-case word between two of them.
func kWrite(r *rand.Rand, uniq func() string, paragraphs, maxWords int, names []string) kText {
	var ps []string
	var t kText
	for p := 0; p < paragraphs; p++ {
		n := 1 + r.Intn(maxWords)
		tok := uniq()
		t.tokens = append(t.tokens, tok)
		at := r.Intn(n)
		var w []string
		for i := 0; i < n; i++ {
			if i == at {
				w = append(w, tok)
				continue
			}
			if len(names) > 0 && r.Intn(6) == 0 {
				w = append(w, pick(r, names))
			}
			w = append(w, pick(r, kLower))
		}
		ps = append(ps, strings.Join(w, pick(r, []string{" ", " ", "  ", "\t", " \t "})))
	}
	t.text = strings.Join(ps, pick(r, []string{"\n", "\n\n", "\r\n", "\n \n"}))
	return t
}

// kNamesIn are the entity names in a chunk that kWrite wrote (a name may be cut by a chunk boundary).
func kNamesIn(chunk string) []string {
	set := map[string]bool{}
	var run []string
	flush := func() {
		if len(run) > 0 {
			set[strings.Join(run, " ")] = true
		}
		run = nil
	}
	for _, w := range strings.Fields(chunk) {
		if w[0] >= 'A' && w[0] <= 'Z' {
			run = append(run, w)
		} else {
			flush()
		}
	}
	flush()
	return sortedKeys(set)
}

// kEntID is the documented normal form of an entity name that has only letters, digits, blanks, - and _.
func kEntID(name string) string {
	return "entity:" + strings.NewReplacer(" ", "_", "-", "_").Replace(strings.ToLower(name))
}

func kStore(db *cortexdb.DB) *core.SQLiteStore { return db.Vector().(*core.SQLiteStore) }

func kRows(c *Case, db *cortexdb.DB, query string, args ...any) [][]string {
	rows, err := kStore(db).GetDB().Query(query, args...)
	c.Must(err, query)
	defer rows.Close()
	cols, _ := rows.Columns()
	var out [][]string
	for rows.Next() {
		raw := make([]any, len(cols))
		for i := range raw {
			raw[i] = new(any)
		}
		c.Must(rows.Scan(raw...), query)
		var l []string
		for _, x := range raw {
			v := *(x.(*any))
			if b, ok := v.([]byte); ok {
				v = string(b)
			}
			l = append(l, fmt.Sprint(v))
		}
		out = append(out, l)
	}
	c.Must(rows.Err(), query)
	return out
}

func kCol(rows [][]string, i int) (out []string) {
	for _, r := range rows {
		out = append(out, r[i])
	}
	sort.Strings(out)
	return
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func strMapEq(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}
