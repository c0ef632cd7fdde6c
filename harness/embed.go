package main

import (
	"context"
	"errors"
	"hash/fnv"
	"math"
	"math/rand"
	"strings"
	"sync"
)

// textEmb is a deterministic embedder: the direction of a text is the sum of its words' directions.
type textEmb struct {
	dim   int
	mu    sync.Mutex
	calls int
	fault func(call int, texts []string) error // checked before each call
	bad   func(call int, v [][]float32) [][]float32
}

var errEmbed = errors.New("embedding service unavailable")

// wordDirs remembers the directions of words (seeding a generator is slow).
var wordDirs sync.Map

func wordDir(h uint64, dim int) []float64 {
	k := [2]uint64{h, uint64(dim)}
	if d, ok := wordDirs.Load(k); ok {
		return d.([]float64)
	}
	r := rand.New(rand.NewSource(int64(h)))
	d := make([]float64, dim)
	for i := range d {
		d[i] = r.NormFloat64()
	}
	wordDirs.Store(k, d)
	return d
}

func embedText(text string, dim int) []float32 {
	v := make([]float64, dim)
	for _, w := range strings.Fields(strings.ToLower(text)) {
		h := fnv.New64a()
		h.Write([]byte(strings.Trim(w, ".,;:!?\"'()")))
		for i, x := range wordDir(h.Sum64(), dim) {
			v[i] += x
		}
	}
	n := 0.0
	for _, x := range v {
		n += x * x
	}
	out := make([]float32, dim)
	if n == 0 {
		out[0] = 1
		return out
	}
	for i, x := range v {
		out[i] = float32(x / math.Sqrt(n))
	}
	return out
}

func (e *textEmb) batch(texts []string) ([][]float32, error) {
	e.mu.Lock()
	e.calls++
	n, fault, bad := e.calls, e.fault, e.bad
	e.mu.Unlock()
	if fault != nil {
		if err := fault(n, texts); err != nil {
			if n%2 == 0 { // what comes with an error is not to be used
				part := make([][]float32, len(texts))
				for i := range part {
					part[i] = make([]float32, e.dim)
					part[i][0] = 1
				}
				return part, err
			}
			return nil, err
		}
	}
	out := make([][]float32, len(texts))
	for i, t := range texts {
		out[i] = embedText(t, e.dim)
	}
	if bad != nil {
		out = bad(n, out)
	}
	return out, nil
}

func (e *textEmb) Embed(ctx context.Context, text string) ([]float32, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	v, err := e.batch([]string{text})
	if err != nil && len(v) > 0 {
		return v[0], err
	}
	if err != nil || len(v) == 0 {
		return nil, errors.Join(err, ctx.Err())
	}
	return v[0], nil
}

func (e *textEmb) EmbedBatch(ctx context.Context, texts []string) ([][]float32, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return e.batch(texts)
}

func (e *textEmb) Dim() int { return e.dim }

// setFault makes the next calls fail or not.
func (e *textEmb) setFault(f func(call int, texts []string) error) {
	e.mu.Lock()
	e.fault = f
	e.mu.Unlock()
}

// count is the number of calls so far.
func (e *textEmb) count() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.calls
}
