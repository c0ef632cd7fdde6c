From 3a4f23f3acab72a93277869b51d7f22d269437db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:32 +0000
Subject: [PATCH 01/32] fix: apply SQLite settings to every pooled connection

The DSN used another driver's option syntax, which modernc.org/sqlite ignores, so WAL,
busy_timeout and (on all but one connection) foreign_keys were never in effect; and REPLACE
did not fire the FTS delete triggers.
---
 pkg/core/store_init.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 18f515d..849bf44 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -19,11 +19,17 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	}
 
 	// Open database connection
-	// _journal_mode=WAL: Better concurrency
-	// _synchronous=NORMAL: Good balance of safety and speed
-	// _busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
-	// _cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
-	dsn := fmt.Sprintf("%s?_journal_mode=WAL&_synchronous=NORMAL&_busy_timeout=5000&_cache_size=-2000", s.config.Path)
+	// These are per-connection settings, so they must be part of the DSN: a PRAGMA statement
+	// would only reach the one pooled connection that happens to execute it.
+	// journal_mode(WAL): Better concurrency
+	// synchronous(NORMAL): Good balance of safety and speed
+	// busy_timeout(5000): Wait up to 5s for lock instead of failing immediately
+	// cache_size(-2000): Use 2MB of memory for cache (negative value = kb)
+	// foreign_keys(1): Crucial for cascading deletes
+	// recursive_triggers(1): REPLACE must fire the delete triggers that keep FTS in sync
+	// _txlock=immediate: a write transaction waits for the lock instead of failing to upgrade
+	dsn := fmt.Sprintf("%s?_pragma=busy_timeout(5000)&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)"+
+		"&_pragma=cache_size(-2000)&_pragma=foreign_keys(1)&_pragma=recursive_triggers(1)&_txlock=immediate", s.config.Path)
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
 		return wrapError("init", fmt.Errorf("failed to open database: %w", err))
-- 
2.43.0


From 544e9049531b6693f9fa8ced770fede76c867d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:43 +0000
Subject: [PATCH 02/32] fix: keep HNSW and IVF indexes correct under updates,
 deletes and reload

HNSW: re-inserting a deleted id failed, there was no way to replace a vector, pruning and the
parallel build left nodes unreachable, deleted nodes crowded out live results, and a damaged
snapshot left a half-loaded index. IVF: overwriting an id duplicated it, Delete corrupted the
inverted lists and was not locked.
---
 pkg/index/hnsw.go | 490 ++++++++++++++++------------------------------
 pkg/index/ivf.go  | 112 +++++++++--
 2 files changed, 265 insertions(+), 337 deletions(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 4c55f1f..224b515 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -27,6 +27,7 @@ type HNSWNode struct {
 	Level      int
 	Neighbors  [][]string // Neighbors at each level
 	Deleted    bool
+	Pinned     []string   // Layer-0 links that pruning keeps, so that every node stays reachable
 }
 
 // HNSW implements Hierarchical Navigable Small World index
@@ -131,27 +132,50 @@ func (h *HNSW) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&h.M); err != nil { return err }
-	h.MaxM = h.M * 2
-	h.ML = 1.0 / math.Log(2.0)
-	
-	if err := dec.Decode(&h.EfConstruction); err != nil { return err }
-	if err := dec.Decode(&h.EntryPoint); err != nil { return err }
+	// Decode everything before touching the index, so that damaged data leaves it unchanged
+	var m, efConstruction, count int
+	var entryPoint string
+	if err := dec.Decode(&m); err != nil { return err }
+	if err := dec.Decode(&efConstruction); err != nil { return err }
+	if err := dec.Decode(&entryPoint); err != nil { return err }
 
 	// Decode nodes count
-	var count int
 	if err := dec.Decode(&count); err != nil { return err }
+	if m <= 0 || count < 0 {
+		return fmt.Errorf("invalid index data: M=%d, %d nodes", m, count)
+	}
 
 	// Decode nodes
-	h.Nodes = make(map[string]*HNSWNode, count)
+	nodes := make(map[string]*HNSWNode)
 	for i := 0; i < count; i++ {
 		var node HNSWNode
 		if err := dec.Decode(&node); err != nil {
 			return err
 		}
-		h.Nodes[node.ID] = &node
+		if node.Level < 0 || node.Level+1 != len(node.Neighbors) {
+			return fmt.Errorf("invalid index data: node %q has level %d and %d layers", node.ID, node.Level, len(node.Neighbors))
+		}
+		nodes[node.ID] = &node
 	}
+	if _, ok := nodes[entryPoint]; !ok && (count > 0 || entryPoint != "") {
+		return fmt.Errorf("invalid index data: unknown entry point %q", entryPoint)
+	}
+	for _, node := range nodes {
+		for _, layer := range append(node.Neighbors, node.Pinned) {
+			for _, neighbor := range layer {
+				if _, ok := nodes[neighbor]; !ok {
+					return fmt.Errorf("invalid index data: node %q links to unknown node %q", node.ID, neighbor)
+				}
+			}
+		}
+	}
+
+	h.M = m
+	h.MaxM = m * 2
+	h.ML = 1.0 / math.Log(2.0)
+	h.EfConstruction = efConstruction
+	h.EntryPoint = entryPoint
+	h.Nodes = nodes
 
 	return nil
 }
@@ -174,15 +198,33 @@ func (h *HNSW) selectLevel() int {
 func (h *HNSW) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
-	
-	if _, exists := h.Nodes[id]; exists {
+
+	if node, exists := h.Nodes[id]; exists && !node.Deleted {
 		return fmt.Errorf("node %s already exists", id)
 	}
-	
+
+	h.link(id, vector)
+	return nil
+}
+
+// Upsert adds a vector to the index or replaces the one stored under id
+func (h *HNSW) Upsert(id string, vector []float32) error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
+	h.link(id, vector)
+	return nil
+}
+
+// link stores vector under id and connects it to its neighbors. A node that already exists
+// (live or deleted) keeps its level and its pinned links. The caller holds the write lock.
+func (h *HNSW) link(id string, vector []float32) {
+	vector = append([]float32(nil), vector...) // never alias the caller's slice
+
 	// Prepare node data
 	var quantized []byte
 	var storedVector []float32 = vector
-	
+
 	if h.Quantizer != nil {
 		var err error
 		quantized, err = h.Quantizer.Encode(vector)
@@ -195,95 +237,138 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 			storedVector = nil
 		}
 	}
-	
-	// Create new node
-	level := h.selectLevel()
-	node := &HNSWNode{
-		ID:        id,
-		Vector:    storedVector,
-		Quantized: quantized,
-		Level:     level,
-		Neighbors: make([][]string, level+1),
-	}
-	
-	// Initialize neighbor lists
-	for i := 0; i <= level; i++ {
-		node.Neighbors[i] = make([]string, 0)
+
+	node, exists := h.Nodes[id]
+	if exists {
+		node.Vector = storedVector
+		node.Quantized = quantized
+		node.Deleted = false
+	} else {
+		// Create new node
+		level := h.selectLevel()
+		node = &HNSWNode{
+			ID:        id,
+			Vector:    storedVector,
+			Quantized: quantized,
+			Level:     level,
+			Neighbors: make([][]string, level+1),
+		}
+
+		// Initialize neighbor lists
+		for i := 0; i <= level; i++ {
+			node.Neighbors[i] = make([]string, 0)
+		}
+
+		h.Nodes[id] = node
 	}
-	
-	h.Nodes[id] = node
-	
+	level := node.Level
+
 	// If this is the first node, set as entry point
 	if h.EntryPoint == "" {
 		h.EntryPoint = id
-		return nil
+		return
 	}
-	
+
 	// Search for closest points at all levels
 	currNearest := []string{h.EntryPoint}
-	
+
 	// Search from top layer to target layer
 	entryNode := h.Nodes[h.EntryPoint]
 	for lc := entryNode.Level; lc > level; lc-- {
 		currNearest = h.searchLayerClosest(vector, currNearest, 1, lc)
 	}
-	
+
 	// Insert into all layers from level to 0
 	for lc := level; lc >= 0; lc-- {
 		m := h.M
 		if lc == 0 {
 			m = h.MaxM
 		}
-		
-		candidates := h.searchLayer(vector, currNearest, h.EfConstruction, lc)
+
+		found := h.searchLayer(vector, currNearest, h.EfConstruction, lc)
+		candidates := make([]string, 0, len(found))
+		for _, c := range found {
+			if c != id { // a node being replaced finds itself
+				candidates = append(candidates, c)
+			}
+		}
+		if len(candidates) == 0 {
+			continue
+		}
 		neighbors := h.selectNeighborsHeuristic(vector, candidates, m, lc)
-		
+
 		// Add bidirectional links
 		node.Neighbors[lc] = neighbors
+		if lc == 0 {
+			h.pin(node, h.Nodes[candidates[0]])
+			node.Neighbors[0] = withPinned(node.Neighbors[0], node.Pinned)
+		}
 		for _, neighbor := range neighbors {
 			h.addConnection(neighbor, id, lc)
-			
+
 			// Prune connections of neighbors if needed
 			neighborNode := h.Nodes[neighbor]
-			maxConn := h.M
-			if lc == 0 {
-				maxConn = h.MaxM
-			}
-			
+
 			// Check if neighbor has this layer
-			if lc < len(neighborNode.Neighbors) && len(neighborNode.Neighbors[lc]) > maxConn {
+			if lc < len(neighborNode.Neighbors) && len(neighborNode.Neighbors[lc]) > m {
 				// To prune, we need the neighbor's vector.
 				// If neighbor is quantized, we need to decode it or use stored vector.
 				// This implies expensive decoding during pruning if we only store quantized.
-				
+
 				// Fetch neighbor vector (might involve decoding)
 				neighborVec := neighborNode.Vector
 				if neighborVec == nil && neighborNode.Quantized != nil && h.Quantizer != nil {
 					neighborVec, _ = h.Quantizer.Decode(neighborNode.Quantized)
 				}
-				
+
 				if neighborVec != nil {
 					// Prune the connections
 					newNeighbors := h.selectNeighborsHeuristic(
 						neighborVec,
 						neighborNode.Neighbors[lc],
-						maxConn,
+						m,
 						lc,
 					)
+					if lc == 0 {
+						newNeighbors = withPinned(newNeighbors, neighborNode.Pinned)
+					}
 					neighborNode.Neighbors[lc] = newNeighbors
 				}
 			}
 		}
-		
+
 		currNearest = neighbors
 	}
-	
+
 	// Update entry point if necessary
 	if level > h.Nodes[h.EntryPoint].Level {
 		h.EntryPoint = id
 	}
-	
-	return nil
+}
+
+// pin makes the layer-0 link between two nodes permanent in both directions. Pruning keeps only
+// the closest links, so without this a node far from all others would lose its last inbound link.
+func (h *HNSW) pin(a, b *HNSWNode) {
+	a.Pinned = withPinned(a.Pinned, []string{b.ID})
+	b.Pinned = withPinned(b.Pinned, []string{a.ID})
+	h.addConnection(b.ID, a.ID, 0)
+}
+
+// withPinned returns links extended by the pinned ones it lacks
+func withPinned(links, pinned []string) []string {
+	for _, p := range pinned {
+		present := false
+		for _, l := range links {
+			if l == p {
+				present = true
+				break
+			}
+		}
+		if !present {
+			links = append(links, p)
+		}
+	}
+	return links
 }
 
 // searchLayer performs a greedy search in a specific layer
@@ -424,9 +509,12 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
-	if h.EntryPoint == "" {
+	if h.EntryPoint == "" || k <= 0 {
 		return []string{}, []float32{}
 	}
+	if ef < k {
+		ef = k
+	}
 	
 	// Search from top layer to layer 0
 	entryNode := h.Nodes[h.EntryPoint]
@@ -436,9 +524,13 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 		currNearest = h.searchLayerClosest(query, currNearest, 1, layer)
 	}
 	
-	// Search at layer 0 with ef
+	// Search at layer 0 with ef, widening the search when deleted nodes take up the places
 	candidates := h.searchLayer(query, currNearest, ef, 0)
-	
+	for h.countLive(candidates) < k && ef < len(h.Nodes) {
+		ef *= 2
+		candidates = h.searchLayer(query, currNearest, ef, 0)
+	}
+
 	// Return top k
 	type result struct {
 		id   string
@@ -480,6 +572,17 @@ func (h *HNSW) Search(query []float32, k int, ef int) ([]string, []float32) {
 	return ids, distances
 }
 
+// countLive counts the ids that are not deleted
+func (h *HNSW) countLive(ids []string) int {
+	n := 0
+	for _, id := range ids {
+		if node, exists := h.Nodes[id]; exists && !node.Deleted {
+			n++
+		}
+	}
+	return n
+}
+
 // Delete marks a node as deleted (soft delete)
 func (h *HNSW) Delete(id string) error {
 	h.mu.Lock()
@@ -593,6 +696,9 @@ func (h *distHeap) Pop() interface{} {
 
 // EuclideanDistance computes Euclidean distance
 func EuclideanDistance(a, b []float32) float32 {
+	if len(a) != len(b) {
+		return math.MaxFloat32
+	}
 	var sum float32
 	for i := range a {
 		diff := a[i] - b[i]
@@ -603,6 +709,9 @@ func EuclideanDistance(a, b []float32) float32 {
 
 // CosineDistance computes cosine distance (1 - cosine similarity)
 func CosineDistance(a, b []float32) float32 {
+	if len(a) != len(b) {
+		return math.MaxFloat32
+	}
 	var dotProduct, normA, normB float32
 	for i := range a {
 		dotProduct += a[i] * b[i]
@@ -620,6 +729,9 @@ func CosineDistance(a, b []float32) float32 {
 
 // DotProductDistance computes negative dot product (for similarity)
 func DotProductDistance(a, b []float32) float32 {
+	if len(a) != len(b) {
+		return math.MaxFloat32
+	}
 	var dotProduct float32
 	for i := range a {
 		dotProduct += a[i] * b[i]
@@ -637,101 +749,10 @@ func (h *HNSW) InsertBatch(vectors []struct {
 	defer h.mu.Unlock()
 
 	for _, v := range vectors {
-		if _, exists := h.Nodes[v.ID]; exists {
+		if node, exists := h.Nodes[v.ID]; exists && !node.Deleted {
 			continue // Skip duplicates
 		}
-
-		// Prepare node data
-		var quantized []byte
-		var storedVector []float32 = v.Vector
-
-		if h.Quantizer != nil {
-			var err error
-			quantized, err = h.Quantizer.Encode(v.Vector)
-			if err == nil {
-				storedVector = nil
-			}
-		}
-
-		// Create new node
-		level := h.selectLevel()
-		node := &HNSWNode{
-			ID:        v.ID,
-			Vector:    storedVector,
-			Quantized: quantized,
-			Level:     level,
-			Neighbors: make([][]string, level+1),
-		}
-
-		// Initialize neighbor lists
-		for i := 0; i <= level; i++ {
-			node.Neighbors[i] = make([]string, 0)
-		}
-
-		h.Nodes[v.ID] = node
-
-		// If this is the first node, set as entry point
-		if h.EntryPoint == "" {
-			h.EntryPoint = v.ID
-			continue
-		}
-
-		// Search for closest points at all levels
-		currNearest := []string{h.EntryPoint}
-
-		// Search from top layer to target layer
-		entryNode := h.Nodes[h.EntryPoint]
-		for lc := entryNode.Level; lc > level; lc-- {
-			currNearest = h.searchLayerClosest(v.Vector, currNearest, 1, lc)
-		}
-
-		// Insert into all layers from level to 0
-		for lc := level; lc >= 0; lc-- {
-			m := h.M
-			if lc == 0 {
-				m = h.MaxM
-			}
-
-			candidates := h.searchLayer(v.Vector, currNearest, h.EfConstruction, lc)
-			neighbors := h.selectNeighborsHeuristic(v.Vector, candidates, m, lc)
-
-			// Add bidirectional links
-			node.Neighbors[lc] = neighbors
-			for _, neighbor := range neighbors {
-				h.addConnection(neighbor, v.ID, lc)
-
-				// Prune connections
-				neighborNode := h.Nodes[neighbor]
-				maxConn := h.M
-				if lc == 0 {
-					maxConn = h.MaxM
-				}
-
-				if lc < len(neighborNode.Neighbors) && len(neighborNode.Neighbors[lc]) > maxConn {
-					neighborVec := neighborNode.Vector
-					if neighborVec == nil && neighborNode.Quantized != nil && h.Quantizer != nil {
-						neighborVec, _ = h.Quantizer.Decode(neighborNode.Quantized)
-					}
-
-					if neighborVec != nil {
-						newNeighbors := h.selectNeighborsHeuristic(
-							neighborVec,
-							neighborNode.Neighbors[lc],
-							maxConn,
-							lc,
-						)
-						neighborNode.Neighbors[lc] = newNeighbors
-					}
-				}
-			}
-
-			currNearest = neighbors
-		}
-
-		// Update entry point if necessary
-		if level > h.Nodes[h.EntryPoint].Level {
-			h.EntryPoint = v.ID
-		}
+		h.link(v.ID, v.Vector)
 	}
 
 	return nil
@@ -748,176 +769,13 @@ func (h *HNSW) SearchVectorIndex(query []float32, k int) ([]string, []float32) {
 	}
 	return h.Search(query, k, ef)
 }
-// InsertBatchParallel inserts vectors in parallel using multiple goroutines
+
+// InsertBatchParallel inserts a large batch of vectors. numWorkers is accepted for compatibility:
+// sub-graphs built independently share no links, so merging them would leave all but one of
+// them unreachable from the entry point.
 func (h *HNSW) InsertBatchParallel(vectors []struct {
 	ID     string
 	Vector []float32
 }, numWorkers int) error {
-	if numWorkers <= 1 {
-		return h.InsertBatch(vectors)
-	}
-
-	// For parallel construction, we use a simplified approach:
-	// Split vectors into chunks, build sub-graphs in parallel, then merge
-	chunkSize := len(vectors) / numWorkers
-	if chunkSize < 10 {
-		return h.InsertBatch(vectors) // Too few vectors, use single-threaded
-	}
-
-	type partialGraph struct {
-		nodes      map[string]*HNSWNode
-		entryPoint string
-		maxLevel   int
-	}
-
-	var wg sync.WaitGroup
-	graphs := make([]partialGraph, numWorkers)
-	errors := make([]error, numWorkers)
-
-	// Build sub-graphs in parallel
-	for w := 0; w < numWorkers; w++ {
-		start := w * chunkSize
-		end := start + chunkSize
-		if w == numWorkers-1 {
-			end = len(vectors) // Last worker gets remaining
-		}
-
-		wg.Add(1)
-		go func(chunk []struct {
-			ID     string
-			Vector []float32
-		}, idx int) {
-			defer wg.Done()
-
-			// Create a temporary HNSW for this chunk
-			tempHNSW := &HNSW{
-				M:              h.M,
-				MaxM:           h.MaxM,
-				EfConstruction: h.EfConstruction,
-				ML:             h.ML,
-				Seed:           h.Seed + int64(idx),
-				Nodes:          make(map[string]*HNSWNode),
-				DistFunc:       h.DistFunc,
-				Quantizer:      h.Quantizer,
-				rng:            rand.New(rand.NewSource(h.Seed + int64(idx))),
-			}
-
-			for _, v := range chunk {
-				if _, exists := tempHNSW.Nodes[v.ID]; exists {
-					continue
-				}
-
-				// Prepare node data
-				var quantized []byte
-				var storedVector []float32 = v.Vector
-
-				if tempHNSW.Quantizer != nil {
-					var err error
-					quantized, err = tempHNSW.Quantizer.Encode(v.Vector)
-					if err == nil {
-						storedVector = nil
-					}
-				}
-
-				level := tempHNSW.selectLevel()
-				node := &HNSWNode{
-					ID:        v.ID,
-					Vector:    storedVector,
-					Quantized: quantized,
-					Level:     level,
-					Neighbors: make([][]string, level+1),
-				}
-
-				for i := 0; i <= level; i++ {
-					node.Neighbors[i] = make([]string, 0)
-				}
-
-				tempHNSW.Nodes[v.ID] = node
-
-				if tempHNSW.EntryPoint == "" {
-					tempHNSW.EntryPoint = v.ID
-					continue
-				}
-
-				// Build connections within this chunk
-				currNearest := []string{tempHNSW.EntryPoint}
-				entryNode := tempHNSW.Nodes[tempHNSW.EntryPoint]
-				for lc := entryNode.Level; lc > level; lc-- {
-					currNearest = tempHNSW.searchLayerClosest(v.Vector, currNearest, 1, lc)
-				}
-
-				for lc := level; lc >= 0; lc-- {
-					m := tempHNSW.M
-					if lc == 0 {
-						m = tempHNSW.MaxM
-					}
-
-					candidates := tempHNSW.searchLayer(v.Vector, currNearest, tempHNSW.EfConstruction, lc)
-					neighbors := tempHNSW.selectNeighborsHeuristic(v.Vector, candidates, m, lc)
-
-					node.Neighbors[lc] = neighbors
-					for _, neighbor := range neighbors {
-						tempHNSW.addConnection(neighbor, v.ID, lc)
-					}
-
-					currNearest = neighbors
-				}
-
-				if level > tempHNSW.Nodes[tempHNSW.EntryPoint].Level {
-					tempHNSW.EntryPoint = v.ID
-				}
-			}
-
-			graphs[idx] = partialGraph{
-				nodes:      tempHNSW.Nodes,
-				entryPoint: tempHNSW.EntryPoint,
-			}
-
-			// Find max level
-			for _, node := range tempHNSW.Nodes {
-				if node.Level > graphs[idx].maxLevel {
-					graphs[idx].maxLevel = node.Level
-				}
-			}
-		}(vectors[start:end], w)
-	}
-
-	wg.Wait()
-
-	// Check for errors
-	for _, err := range errors {
-		if err != nil {
-			return err
-		}
-	}
-
-	// Merge graphs into main index
-	h.mu.Lock()
-	defer h.mu.Unlock()
-
-	for _, pg := range graphs {
-		for id, node := range pg.nodes {
-			if _, exists := h.Nodes[id]; !exists {
-				h.Nodes[id] = node
-			}
-		}
-	}
-
-	// Update entry point
-	for _, pg := range graphs {
-		if pg.entryPoint == "" {
-			continue
-		}
-		if h.EntryPoint == "" {
-			h.EntryPoint = pg.entryPoint
-		} else {
-			entryNode := h.Nodes[h.EntryPoint]
-			pgEntryNode := h.Nodes[pg.entryPoint]
-			if pgEntryNode != nil && entryNode != nil && pgEntryNode.Level > entryNode.Level {
-				h.EntryPoint = pg.entryPoint
-			}
-		}
-	}
-
-	return nil
+	return h.InsertBatch(vectors)
 }
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 6b37078..1733da1 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -68,23 +68,68 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 	dec := gob.NewDecoder(r)
 
-	// Decode parameters
-	if err := dec.Decode(&ivf.NCentroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Dimension); err != nil { return err }
-	if err := dec.Decode(&ivf.NProbe); err != nil { return err }
-	if err := dec.Decode(&ivf.Trained); err != nil { return err }
+	// Decode everything before touching the index, so that damaged data leaves it unchanged
+	var loaded IVFIndex
+	if err := dec.Decode(&loaded.NCentroids); err != nil { return err }
+	if err := dec.Decode(&loaded.Dimension); err != nil { return err }
+	if err := dec.Decode(&loaded.NProbe); err != nil { return err }
+	if err := dec.Decode(&loaded.Trained); err != nil { return err }
 
 	// Decode data
-	if err := dec.Decode(&ivf.Centroids); err != nil { return err }
-	if err := dec.Decode(&ivf.Invlists); err != nil { return err }
-	if err := dec.Decode(&ivf.IDs); err != nil { return err }
-	if err := dec.Decode(&ivf.Vectors); err != nil { return err }
+	if err := dec.Decode(&loaded.Centroids); err != nil { return err }
+	if err := dec.Decode(&loaded.Invlists); err != nil { return err }
+	if err := dec.Decode(&loaded.IDs); err != nil { return err }
+	if err := dec.Decode(&loaded.Vectors); err != nil { return err }
 
+	if err := loaded.validate(); err != nil {
+		return err
+	}
+
+	ivf.NCentroids = loaded.NCentroids
+	ivf.Dimension = loaded.Dimension
+	ivf.NProbe = loaded.NProbe
+	ivf.Trained = loaded.Trained
+	ivf.Centroids = loaded.Centroids
+	ivf.Invlists = loaded.Invlists
+	ivf.IDs = loaded.IDs
+	ivf.Vectors = loaded.Vectors
+
+	return nil
+}
+
+// validate checks that decoded data can be searched
+func (ivf *IVFIndex) validate() error {
+	if ivf.NCentroids != len(ivf.Invlists) || (ivf.Trained && ivf.NCentroids != len(ivf.Centroids)) || len(ivf.IDs) != len(ivf.Vectors) {
+		return errors.New("invalid index data: inconsistent sizes")
+	}
+	for _, vec := range append(append([][]float32{}, ivf.Centroids...), ivf.Vectors...) {
+		if len(vec) != ivf.Dimension {
+			return errors.New("invalid index data: wrong vector dimension")
+		}
+	}
+	for _, list := range ivf.Invlists {
+		for _, idx := range list {
+			if idx < 0 || idx >= len(ivf.Vectors) {
+				return errors.New("invalid index data: list entry out of range")
+			}
+		}
+	}
 	return nil
 }
 
 // Train learns cluster centroids from training data
 func (ivf *IVFIndex) Train(vectors [][]float32) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+
+	if ivf.NCentroids <= 0 {
+		return fmt.Errorf("number of centroids must be positive, got %d", ivf.NCentroids)
+	}
+	for _, vec := range vectors {
+		if len(vec) != ivf.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vec), ivf.Dimension)
+		}
+	}
 	if len(vectors) < ivf.NCentroids {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
@@ -98,10 +143,14 @@ func (ivf *IVFIndex) Train(vectors [][]float32) error {
 	ivf.Centroids = centroids
 	ivf.Trained = true
 	
-	// Initialize inverted lists
+	// Initialize inverted lists and put the vectors added so far into their new clusters
 	for i := range ivf.Invlists {
 		ivf.Invlists[i] = []int{}
 	}
+	for vectorIdx, vector := range ivf.Vectors {
+		centroidIdx := ivf.findNearestCentroid(vector)
+		ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], vectorIdx)
+	}
 	
 	return nil
 }
@@ -119,6 +168,11 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 		return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), ivf.Dimension)
 	}
 	
+	// Replace the vector stored under this ID, if any
+	_ = ivf.remove(id)
+
+	vector = append([]float32(nil), vector...) // never alias the caller's slice
+
 	// Find nearest centroid
 	centroidIdx := ivf.findNearestCentroid(vector)
 	
@@ -190,6 +244,9 @@ func (ivf *IVFIndex) Search(query []float32, k int) ([]string, []float32, error)
 	
 	// Return top-k results
 	topK := min(k, len(candidates))
+	if topK < 0 {
+		topK = 0
+	}
 	ids := make([]string, topK)
 	distances := make([]float32, topK)
 	
@@ -312,10 +369,11 @@ func kMeansIVF(vectors [][]float32, k int, maxIters int) ([][]float32, error) {
 		// Select next centroid
 		r := rand.Float32() * totalDist
 		cumSum := float32(0)
+		centroids[i] = make([]float32, dim)
+		copy(centroids[i], vectors[len(vectors)-1]) // reached when rounding keeps cumSum below r
 		for j, dist := range distances {
 			cumSum += dist
 			if cumSum >= r {
-				centroids[i] = make([]float32, dim)
 				copy(centroids[i], vectors[j])
 				break
 			}
@@ -396,10 +454,18 @@ func min(a, b int) int {
 
 // Delete removes a vector from the index
 func (ivf *IVFIndex) Delete(id string) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+
 	if !ivf.Trained {
 		return errors.New("index not trained")
 	}
-	
+
+	return ivf.remove(id)
+}
+
+// remove takes a vector out of the index; the caller holds the write lock
+func (ivf *IVFIndex) remove(id string) error {
 	// Find the vector index in IDs
 	vectorIndex := -1
 	for i, storedID := range ivf.IDs {
@@ -421,17 +487,19 @@ func (ivf *IVFIndex) Delete(id string) error {
 		ivf.Vectors = append(ivf.Vectors[:vectorIndex], ivf.Vectors[vectorIndex+1:]...)
 	}
 	
-	// Remove from inverted lists
-	for i := range ivf.Invlists {
-		for j, idx := range ivf.Invlists[i] {
+	// Remove from inverted lists and shift the indices after it
+	for i, list := range ivf.Invlists {
+		kept := list[:0]
+		for _, idx := range list {
 			if idx == vectorIndex {
-				ivf.Invlists[i] = append(ivf.Invlists[i][:j], ivf.Invlists[i][j+1:]...)
-				break
-			} else if idx > vectorIndex {
-				// Update indices after deletion
-				ivf.Invlists[i][j] = idx - 1
+				continue
 			}
+			if idx > vectorIndex {
+				idx--
+			}
+			kept = append(kept, idx)
 		}
+		ivf.Invlists[i] = kept
 	}
 	
 	return nil
@@ -439,5 +507,7 @@ func (ivf *IVFIndex) Delete(id string) error {
 
 // Size returns the number of vectors in the index
 func (ivf *IVFIndex) Size() int {
+	ivf.mu.RLock()
+	defer ivf.mu.RUnlock()
 	return len(ivf.Vectors)
-}
\ No newline at end of file
+}
-- 
2.43.0


From 452c724254047d8be2b90d93183c03028d99c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:21 +0000
Subject: [PATCH 03/32] fix: do not take the store's read lock twice in one
 call

Upsert, UpsertBatch, GetCollectionStats, HybridSearch, SearchWithDiversity, SearchMultiVector,
SearchWithReranker and the JSON dump called a locking method while holding the read lock, which
deadlocks as soon as a writer waits in between; the closed flag was read without the lock.
---
 pkg/core/advanced_search.go |  4 ++--
 pkg/core/collections.go     |  8 +++++++-
 pkg/core/io.go              |  4 ++--
 pkg/core/multi_vector.go    |  2 +-
 pkg/core/reranker.go        |  4 ++--
 pkg/core/store.go           |  5 +++++
 pkg/core/store_close.go     |  7 +++++++
 pkg/core/store_crud.go      | 11 ++++++++---
 pkg/core/store_search.go    | 18 ++++++++++--------
 9 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 10bbc35..7edcb7d 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -68,7 +68,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	var vectorResults []ScoredEmbedding
 	var err error
 	if len(vectorQuery) > 0 {
-		vectorResults, err = s.Search(ctx, vectorQuery, opts.SearchOptions)
+		vectorResults, err = s.searchLocked(ctx, vectorQuery, opts.SearchOptions)
 		if err != nil {
 			return nil, fmt.Errorf("vector search failed: %w", err)
 		}
@@ -351,7 +351,7 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
 	
-	candidates, err := s.Search(ctx, query, searchOpts)
+	candidates, err := s.searchLocked(ctx, query, searchOpts)
 	if err != nil {
 		return nil, wrapError("search_diversity", err)
 	}
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 5af01a8..1e3c8d7 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -109,6 +109,12 @@ func (s *SQLiteStore) GetCollection(ctx context.Context, name string) (*Collecti
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	return s.getCollectionLocked(ctx, name)
+}
+
+// getCollectionLocked is GetCollection for callers that hold the store lock. They must not
+// call GetCollection: a second read lock deadlocks once a writer waits in between.
+func (s *SQLiteStore) getCollectionLocked(ctx context.Context, name string) (*Collection, error) {
 	if s.closed {
 		return nil, wrapError("get_collection", ErrStoreClosed)
 	}
@@ -273,7 +279,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	}
 
 	// First get collection info
-	collection, err := s.GetCollection(ctx, name)
+	collection, err := s.getCollectionLocked(ctx, name)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 1ce0fae..5a926e5 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -106,7 +106,7 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	stats.TotalEmbeddings = len(embeddings)
 
 	// Get metadata
-	schemaStats, _ := s.Stats(ctx)
+	schemaStats, _ := s.statsLocked(ctx)
 	stats.TotalDocuments = int(schemaStats.Count)
 
 	// Build export structure
@@ -252,7 +252,7 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 
 // Load imports embeddings from a reader
 func (s *SQLiteStore) Load(ctx context.Context, r io.Reader, opts LoadOptions) (*ImportStats, error) {
-	if s.closed {
+	if s.isClosed() {
 		return nil, wrapError("load", ErrStoreClosed)
 	}
 
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 825dbca..d3e9c19 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -150,7 +150,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
 		
-		results, err := s.Search(ctx, queryVector, fieldOpts)
+		results, err := s.searchLocked(ctx, queryVector, fieldOpts)
 		if err != nil {
 			continue
 		}
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index c52f54b..dc2d393 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -55,7 +55,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 
 	if reranker == nil {
 		// No reranker, return normal search results
-		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
+		return s.searchLocked(ctx, queryVec, SearchOptions{TopK: opts.TopK})
 	}
 
 	// Perform initial search with more candidates than needed
@@ -65,7 +65,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		initialTopK = 50
 	}
 
-	initialResults, err := s.Search(ctx, queryVec, SearchOptions{TopK: initialTopK})
+	initialResults, err := s.searchLocked(ctx, queryVec, SearchOptions{TopK: initialTopK})
 	if err != nil {
 		return nil, wrapError("search_rerank", fmt.Errorf("initial search failed: %w", err))
 	}
diff --git a/pkg/core/store.go b/pkg/core/store.go
index c589b7c..1c13a1a 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -108,6 +108,11 @@ func (s *SQLiteStore) Stats(ctx context.Context) (StoreStats, error) {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	return s.statsLocked(ctx)
+}
+
+// statsLocked is Stats for callers that hold the store lock
+func (s *SQLiteStore) statsLocked(ctx context.Context) (StoreStats, error) {
 	if s.closed {
 		return StoreStats{}, wrapError("stats", ErrStoreClosed)
 	}
diff --git a/pkg/core/store_close.go b/pkg/core/store_close.go
index 86ddcc2..dce22ab 100644
--- a/pkg/core/store_close.go
+++ b/pkg/core/store_close.go
@@ -5,6 +5,13 @@ import (
 	"time"
 )
 
+// isClosed reports whether the store has been closed
+func (s *SQLiteStore) isClosed() bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.closed
+}
+
 // Close closes the database connection and releases resources
 func (s *SQLiteStore) Close() error {
 	s.mu.Lock()
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a74fab6..aa6b0c6 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -15,9 +15,10 @@ import (
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	currentDim := s.config.VectorDim
+	closed := s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return wrapError("upsert", ErrStoreClosed)
 	}
 
@@ -87,12 +88,16 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return wrapError("upsert", ErrStoreClosed)
+	}
+
 	// Determine collection ID
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
 		// If no collection specified, use default or get by name
 		if emb.Collection != "" {
-			collection, err := s.GetCollection(ctx, emb.Collection)
+			collection, err := s.getCollectionLocked(ctx, emb.Collection)
 			if err != nil {
 				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
 			}
@@ -233,7 +238,7 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		if collectionID == 0 {
 			// If no collection specified, use default or get by name
 			if emb.Collection != "" {
-				collection, err := s.GetCollection(ctx, emb.Collection)
+				collection, err := s.getCollectionLocked(ctx, emb.Collection)
 				if err != nil {
 					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
 				}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 1c7d15d..dff1585 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -14,8 +14,15 @@ import (
 // Search performs vector similarity search
 func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	return s.searchLocked(ctx, query, opts)
+}
+
+// searchLocked is Search for callers that hold the store lock. They must not call Search:
+// a second read lock deadlocks once a writer waits in between.
+func (s *SQLiteStore) searchLocked(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
 
 	if s.closed {
 		return nil, wrapError("search", ErrStoreClosed)
@@ -33,9 +40,6 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 		query = adaptedQuery
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	if err := s.validateSearchInput(query, opts); err != nil {
 		return nil, wrapError("search", err)
 	}
@@ -63,8 +67,9 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 // SearchWithFilter performs vector similarity search with advanced metadata filtering
 func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
 
 	if s.closed {
 		return nil, wrapError("searchWithFilter", ErrStoreClosed)
@@ -82,9 +87,6 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 		query = adaptedQuery
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	if err := s.validateSearchInput(query, opts); err != nil {
 		return nil, wrapError("searchWithFilter", err)
 	}
-- 
2.43.0


From d676d6bf066a0306429cf8223a401db76e3fac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:20 +0000
Subject: [PATCH 04/32] fix: make writes atomic with respect to indexes,
 dimension and quantizer

- Upsert and UpsertBatch validate every element before writing, write in one
  transaction, and update the HNSW and IVF indexes in database order
- every delete path (id, ids, document, filter, clear) is one transaction and
  removes exactly the deleted ids from the indexes
- an index snapshot is reconciled with the stored embeddings when it is loaded,
  so a crash or a failed save cannot leave stale or missing entries
- the HNSW index ranks by the configured similarity function
- an unset dimension is taken from the stored vectors on open
- Init is idempotent, Close stops the auto-save timer
---
 pkg/core/store.go       |   2 +
 pkg/core/store_close.go |   8 +
 pkg/core/store_crud.go  | 643 ++++++++++++++++++----------------------
 pkg/core/store_index.go | 289 +++++++++++++-----
 pkg/core/store_init.go  |  38 ++-
 5 files changed, 556 insertions(+), 424 deletions(-)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index 1c13a1a..b6d27cb 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -20,6 +20,7 @@ type SQLiteStore struct {
 	db             *sql.DB
 	config         Config
 	mu             sync.RWMutex
+	writeMu        sync.Mutex         // Keeps index updates in the order of the database writes
 	closed         bool
 	similarityFn   SimilarityFunc
 	hnswIndex      *index.HNSW            // HNSW index for fast search
@@ -84,6 +85,7 @@ func (s *SQLiteStore) SetAutoDimAdapt(policy AdaptPolicy) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	s.config.AutoDimAdapt = policy
+	s.adapter = NewDimensionAdapter(policy)
 }
 
 // GetDB returns the underlying database connection
diff --git a/pkg/core/store_close.go b/pkg/core/store_close.go
index dce22ab..4c1d083 100644
--- a/pkg/core/store_close.go
+++ b/pkg/core/store_close.go
@@ -21,6 +21,14 @@ func (s *SQLiteStore) Close() error {
 		return nil
 	}
 
+	// Stop the auto-save timer
+	s.saveMu.Lock()
+	if s.saveTimer != nil {
+		s.saveTimer.Stop()
+		s.saveTimer = nil
+	}
+	s.saveMu.Unlock()
+
 	// Try to save index snapshot before closing
 	// Use a new context with timeout since the original context might be cancelled
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index aa6b0c6..b8757cf 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"strings"
 
@@ -13,309 +14,352 @@ import (
 
 // Upsert inserts or updates a single embedding
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
-	s.mu.RLock()
-	currentDim := s.config.VectorDim
-	closed := s.closed
-	s.mu.RUnlock()
-
-	if closed {
-		return wrapError("upsert", ErrStoreClosed)
-	}
-
-	incomingDim := len(emb.Vector)
+	return s.upsertEmbeddings(ctx, "upsert", []*Embedding{emb})
+}
 
-	// Auto-detect dimension on first insert
-	if currentDim == 0 {
-		s.mu.Lock()
-		if s.config.VectorDim == 0 { // Double-check after acquiring write lock
-			s.config.VectorDim = incomingDim
-			currentDim = incomingDim
-
-			// Initialize quantizer now that we know the dimension
-			if s.config.Quantization.Enabled && s.quantizer == nil {
-				if s.config.Quantization.Type == "binary" {
-					s.quantizer = quantization.NewBinaryQuantizer(currentDim)
-				} else {
-					sq, err := quantization.NewScalarQuantizer(currentDim, s.config.Quantization.NBits)
-					if err != nil {
-						s.logger.Warn("failed to create scalar quantizer", "error", err)
-					} else {
-						s.quantizer = sq
-					}
-				}
-				if s.hnswIndex != nil {
-					s.hnswIndex.SetQuantizer(s.quantizer)
-				}
-			}
-		} else {
-			currentDim = s.config.VectorDim
+// UpsertBatch inserts or updates multiple embeddings in a transaction
+func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
+	if len(embs) == 0 {
+		if s.isClosed() {
+			return wrapError("upsert_batch", ErrStoreClosed)
 		}
-		s.mu.Unlock()
+		return nil
 	}
+	return s.upsertEmbeddings(ctx, "upsert_batch", embs)
+}
 
-	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
-
-		if !trained {
-			if err := s.TrainQuantizer(ctx); err != nil {
-				s.logger.Warn("failed to auto-train quantizer", "error", err)
-			}
-		}
+// upsertEmbeddings writes embeddings in one transaction and then updates the in-memory indexes
+func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*Embedding) (err error) {
+	if s.isClosed() {
+		return wrapError(op, ErrStoreClosed)
 	}
 
-	// Handle dimension mismatch
-	if incomingDim != currentDim {
-		adaptedVector, err := s.adapter.AdaptVector(emb.Vector, incomingDim, currentDim)
-		if err != nil {
-			return wrapError("upsert", err)
+	for i, emb := range embs {
+		if err := validateEmbedding(emb); err != nil {
+			return wrapError(op, fmt.Errorf("invalid embedding at index %d: %w", i, err))
 		}
-		s.adapter.logDimensionEvent("adapt", incomingDim, currentDim, emb.ID)
-		emb.Vector = adaptedVector
 	}
 
-	// Validate adapted embedding
-	if err := encoding.ValidateEmbedding(*emb, currentDim); err != nil {
-		return wrapError("upsert", err)
+	// Auto-detect dimension on first insert
+	currentDim, adopted := s.adoptDimension(len(embs[0].Vector))
+	if adopted {
+		defer func() {
+			if err != nil {
+				s.abandonDimension()
+			}
+		}()
 	}
 
 	// Re-acquire read lock for database operations
 	s.mu.RLock()
+	if s.config.VectorDim != currentDim && !s.closed {
+		// The write that had set the dimension failed meanwhile
+		s.mu.RUnlock()
+		return s.upsertEmbeddings(ctx, op, embs)
+	}
 	defer s.mu.RUnlock()
 
 	if s.closed {
-		return wrapError("upsert", ErrStoreClosed)
+		return wrapError(op, ErrStoreClosed)
 	}
 
-	// Determine collection ID
-	collectionID := emb.CollectionID
-	if collectionID == 0 {
-		// If no collection specified, use default or get by name
-		if emb.Collection != "" {
-			collection, err := s.getCollectionLocked(ctx, emb.Collection)
+	// Encode everything before the transaction starts
+	type row struct {
+		collectionID int
+		vector       []float32
+		vectorBytes  []byte
+		docID        sql.NullString
+		metadataJSON string
+		aclJSON      []byte
+	}
+	rows := make([]row, len(embs))
+	collectionIDs := make(map[string]int)
+	vectors := make([][]float32, len(embs))
+	for i, emb := range embs {
+		r := &rows[i]
+
+		// Handle dimension mismatch
+		r.vector = emb.Vector
+		if len(emb.Vector) != currentDim {
+			r.vector, err = s.adapter.AdaptVector(emb.Vector, len(emb.Vector), currentDim)
 			if err != nil {
-				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
+				return wrapError(op, fmt.Errorf("invalid embedding at index %d: %w", i, err))
 			}
-			collectionID = collection.ID
-		} else {
-			collectionID = 1 // Default collection
+			s.adapter.logDimensionEvent("adapt", len(emb.Vector), currentDim, emb.ID)
 		}
-	}
-
-	// Encode vector and metadata
-	vectorBytes, err := encoding.EncodeVector(emb.Vector)
-	if err != nil {
-		return wrapError("upsert", err)
-	}
+		if err := encoding.ValidateVector(r.vector); err != nil {
+			return wrapError(op, fmt.Errorf("invalid embedding at index %d: %w", i, err))
+		}
+		vectors[i] = r.vector
 
-	metadataJSON, err := encoding.EncodeMetadata(emb.Metadata)
-	if err != nil {
-		return wrapError("upsert", err)
-	}
+		// Determine collection ID
+		r.collectionID = emb.CollectionID
+		if r.collectionID == 0 {
+			// If no collection specified, use default or get by name
+			if emb.Collection != "" {
+				id, known := collectionIDs[emb.Collection]
+				if !known {
+					collection, err := s.getCollectionLocked(ctx, emb.Collection)
+					if err != nil {
+						return wrapError(op, fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
+					}
+					id = collection.ID
+					collectionIDs[emb.Collection] = id
+				}
+				r.collectionID = id
+			} else {
+				r.collectionID = 1 // Default collection
+			}
+		}
 
-	// Encode ACL
-	var aclJSON []byte
-	if len(emb.ACL) > 0 {
-		aclJSON, err = json.Marshal(emb.ACL)
+		// Encode vector and metadata
+		r.vectorBytes, err = encoding.EncodeVector(r.vector)
 		if err != nil {
-			return wrapError("upsert", fmt.Errorf("failed to marshal ACL: %w", err))
+			return wrapError(op, fmt.Errorf("failed to encode vector at index %d: %w", i, err))
 		}
-	}
-
-	// Handle DocID (treat empty as NULL)
-	var docID sql.NullString
-	if emb.DocID != "" {
-		docID.String = emb.DocID
-		docID.Valid = true
-	}
-
-	// Insert or replace
-	query := `
-	INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, acl, created_at)
-	VALUES (?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
-	`
-
-	_, err = s.db.ExecContext(ctx, query, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
-	if err != nil {
-		return wrapError("upsert", fmt.Errorf("failed to insert embedding: %w", err))
-	}
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
+		r.metadataJSON, err = encoding.EncodeMetadata(emb.Metadata)
+		if err != nil {
+			return wrapError(op, fmt.Errorf("failed to encode metadata at index %d: %w", i, err))
 		}
-	}
 
-	// Update IVF index if enabled and trained
-	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to add vector to IVF index", "id", emb.ID, "error", err)
+		// Encode ACL
+		if len(emb.ACL) > 0 {
+			r.aclJSON, err = json.Marshal(emb.ACL)
+			if err != nil {
+				return wrapError(op, fmt.Errorf("failed to marshal ACL at index %d: %w", i, err))
+			}
 		}
-	}
-
-	return nil
-}
-
-// UpsertBatch inserts or updates multiple embeddings in a transaction
-func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
 
-	if s.closed {
-		return wrapError("upsert_batch", ErrStoreClosed)
-	}
-
-	if len(embs) == 0 {
-		return nil
+		// Handle DocID (treat empty as NULL)
+		if emb.DocID != "" {
+			r.docID.String = emb.DocID
+			r.docID.Valid = true
+		}
 	}
 
-	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
+	// The write and the matching index update form one step for other writers
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
 
-		if !trained {
-			// Extract some vectors for training
-			var trainingVectors [][]float32
-			for i := 0; i < len(embs) && i < 1000; i++ {
-				trainingVectors = append(trainingVectors, embs[i].Vector)
-			}
-			if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-				if err := sq.Train(trainingVectors); err != nil {
-					s.logger.Warn("failed to train scalar quantizer during batch upsert", "error", err)
-				}
-			} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-				if err := bq.Train(trainingVectors); err != nil {
-					s.logger.Warn("failed to train binary quantizer during batch upsert", "error", err)
-				}
-			}
-		}
-	}
+	s.autoTrainQuantizer(ctx, vectors)
 
 	// Start transaction
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
-		return wrapError("upsert_batch", fmt.Errorf("failed to begin transaction: %w", err))
+		return wrapError(op, fmt.Errorf("failed to begin transaction: %w", err))
 	}
 	defer func() {
-		if rollErr := tx.Rollback(); rollErr != nil {
-			s.logger.Warn("failed to rollback transaction during batch upsert", "error", rollErr)
+		if rollErr := tx.Rollback(); rollErr != nil && !errors.Is(rollErr, sql.ErrTxDone) {
+			s.logger.Warn("failed to rollback transaction during upsert", "error", rollErr)
 		}
 	}()
 
-	// Prepare statement
+	// Prepare statement (insert or replace)
 	stmt, err := tx.PrepareContext(ctx, `
 		INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, acl, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
 	`)
 	if err != nil {
-		return wrapError("upsert_batch", fmt.Errorf("failed to prepare statement: %w", err))
+		return wrapError(op, fmt.Errorf("failed to prepare statement: %w", err))
 	}
 	defer func() {
 		if closeErr := stmt.Close(); closeErr != nil {
-			s.logger.Warn("failed to close statement during batch upsert", "error", closeErr)
+			s.logger.Warn("failed to close statement during upsert", "error", closeErr)
 		}
 	}()
 
 	// Execute for each embedding
 	for i, emb := range embs {
-		if err := encoding.ValidateEmbedding(*emb, s.config.VectorDim); err != nil {
-			return wrapError("upsert_batch", fmt.Errorf("invalid embedding at index %d: %w", i, err))
+		r := &rows[i]
+		_, err = stmt.ExecContext(ctx, emb.ID, r.collectionID, r.vectorBytes, emb.Content, r.docID, r.metadataJSON, r.aclJSON)
+		if err != nil {
+			return wrapError(op, fmt.Errorf("failed to insert embedding at index %d: %w", i, err))
 		}
+	}
 
-		// Determine collection ID
-		collectionID := emb.CollectionID
-		if collectionID == 0 {
-			// If no collection specified, use default or get by name
-			if emb.Collection != "" {
-				collection, err := s.getCollectionLocked(ctx, emb.Collection)
-				if err != nil {
-					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
-				}
-				collectionID = collection.ID
-			} else {
-				collectionID = 1 // Default collection
-			}
-		}
+	// Commit transaction
+	if err := tx.Commit(); err != nil {
+		return wrapError(op, fmt.Errorf("failed to commit transaction: %w", err))
+	}
 
-		vectorBytes, err := encoding.EncodeVector(emb.Vector)
-		if err != nil {
-			return wrapError("upsert_batch", fmt.Errorf("failed to encode vector at index %d: %w", i, err))
-		}
+	s.logger.Debug("upsert completed", "count", len(embs))
 
-		metadataJSON, err := encoding.EncodeMetadata(emb.Metadata)
-		if err != nil {
-			return wrapError("upsert_batch", fmt.Errorf("failed to encode metadata at index %d: %w", i, err))
-		}
+	// Update the in-memory indexes
+	for i, emb := range embs {
+		s.indexUpsert(emb.ID, rows[i].vector)
+	}
 
-		// Encode ACL
-		var aclJSON []byte
-		if len(emb.ACL) > 0 {
-			aclJSON, err = json.Marshal(emb.ACL)
+	return nil
+}
+
+// validateEmbedding checks an embedding before it is written
+func validateEmbedding(emb *Embedding) error {
+	if emb == nil {
+		return fmt.Errorf("embedding is nil")
+	}
+	if emb.ID == "" {
+		return fmt.Errorf("ID cannot be empty")
+	}
+	if len(emb.Vector) == 0 {
+		return nil // The dimension policy decides
+	}
+	return encoding.ValidateVector(emb.Vector)
+}
+
+// adoptDimension returns the store's dimension, which is incomingDim if none was set yet
+func (s *SQLiteStore) adoptDimension(incomingDim int) (dim int, adopted bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.config.VectorDim != 0 || incomingDim == 0 {
+		return s.config.VectorDim, false
+	}
+	s.config.VectorDim = incomingDim
+
+	// Initialize quantizer now that we know the dimension
+	if s.config.Quantization.Enabled && s.quantizer == nil {
+		if s.config.Quantization.Type == "binary" {
+			s.quantizer = quantization.NewBinaryQuantizer(incomingDim)
+		} else {
+			sq, err := quantization.NewScalarQuantizer(incomingDim, s.config.Quantization.NBits)
 			if err != nil {
-				return wrapError("upsert_batch", fmt.Errorf("failed to marshal ACL at index %d: %w", i, err))
+				s.logger.Warn("failed to create scalar quantizer", "error", err)
+			} else {
+				s.quantizer = sq
 			}
 		}
-
-		// Handle DocID
-		var docID sql.NullString
-		if emb.DocID != "" {
-			docID.String = emb.DocID
-			docID.Valid = true
+		if s.hnswIndex != nil && s.quantizer != nil {
+			s.hnswIndex.SetQuantizer(s.quantizer)
 		}
+	}
+	return incomingDim, true
+}
 
-		_, err = stmt.ExecContext(ctx, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
-		if err != nil {
-			return wrapError("upsert_batch", fmt.Errorf("failed to insert embedding at index %d: %w", i, err))
+// abandonDimension undoes adoptDimension after a failed write, unless something has been stored
+func (s *SQLiteStore) abandonDimension() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return
+	}
+	var exists bool
+	if err := s.db.QueryRow("SELECT EXISTS(SELECT 1 FROM embeddings)").Scan(&exists); err != nil || exists {
+		return
+	}
+	s.config.VectorDim = 0
+	if s.quantizer != nil {
+		s.quantizer = nil
+		if s.hnswIndex != nil {
+			s.hnswIndex.SetQuantizer(nil)
 		}
 	}
+}
 
-	// Commit transaction
-	if err := tx.Commit(); err != nil {
-		return wrapError("upsert_batch", fmt.Errorf("failed to commit transaction: %w", err))
+// autoTrainQuantizer trains an untrained quantizer on the stored and the incoming vectors.
+// The caller holds writeMu.
+func (s *SQLiteStore) autoTrainQuantizer(ctx context.Context, incoming [][]float32) {
+	if s.quantizer == nil || s.quantizerTrained() {
+		return
 	}
+	training, err := s.quantizerTrainingVectors(ctx)
+	if err != nil {
+		s.logger.Warn("failed to auto-train quantizer", "error", err)
+		return
+	}
+	for i := 0; i < len(incoming) && len(training) < 1000; i++ {
+		training = append(training, incoming[i])
+	}
+	if err := s.trainQuantizerOn(training); err != nil {
+		s.logger.Warn("failed to auto-train quantizer", "error", err)
+	}
+}
 
-	s.logger.Debug("batch upsert completed", "count", len(embs))
-
+// indexUpsert brings the in-memory indexes up to date with a stored vector
+func (s *SQLiteStore) indexUpsert(id string, vector []float32) {
 	// Update HNSW index if enabled
 	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		var errorCount int
-		for _, emb := range embs {
-			if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to insert vector into HNSW index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
-			}
-		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to insert into HNSW index during batch upsert", "count", errorCount)
+		if err := s.hnswIndex.Upsert(id, vector); err != nil {
+			s.logger.Warn("failed to insert vector into HNSW index", "id", id, "error", err)
 		}
 	}
 
 	// Update IVF index if enabled and trained
 	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		var errorCount int
-		for _, emb := range embs {
-			if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to add vector to IVF index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
+		if err := s.ivfIndex.Add(id, vector); err != nil {
+			s.logger.Warn("failed to add vector to IVF index", "id", id, "error", err)
+		}
+	}
+}
+
+// indexDelete removes deleted embeddings from the in-memory indexes
+func (s *SQLiteStore) indexDelete(ids []string) {
+	for _, id := range ids {
+		if s.hnswIndex != nil {
+			if err := s.hnswIndex.Delete(id); err != nil {
+				s.logger.Debug("failed to delete vector from HNSW index", "id", id, "error", err)
+			}
+		}
+		if s.ivfIndex != nil {
+			if err := s.ivfIndex.Delete(id); err != nil {
+				s.logger.Debug("failed to delete vector from IVF index", "id", id, "error", err)
 			}
 		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to add to IVF index during batch upsert", "count", errorCount)
+	}
+}
+
+// deleteEmbeddings deletes the embeddings that match any of the conditions, all in one
+// transaction, and removes them from the in-memory indexes. The caller holds the store lock.
+func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteCondition) ([]string, error) {
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return nil, fmt.Errorf("failed to begin transaction: %w", err)
+	}
+	defer func() {
+		if rollErr := tx.Rollback(); rollErr != nil && !errors.Is(rollErr, sql.ErrTxDone) {
+			s.logger.Warn("failed to rollback transaction during delete", "error", rollErr)
+		}
+	}()
+
+	var ids []string
+	for _, c := range conditions {
+		rows, err := tx.QueryContext(ctx, "DELETE FROM embeddings WHERE "+c.where+" RETURNING id", c.args...)
+		if err != nil {
+			return nil, fmt.Errorf("failed to delete embeddings: %w", err)
+		}
+		for rows.Next() {
+			var id string
+			if err := rows.Scan(&id); err != nil {
+				_ = rows.Close()
+				return nil, fmt.Errorf("failed to scan deleted ID: %w", err)
+			}
+			ids = append(ids, id)
+		}
+		if err := rows.Err(); err != nil {
+			_ = rows.Close()
+			return nil, fmt.Errorf("failed to delete embeddings: %w", err)
+		}
+		if err := rows.Close(); err != nil {
+			return nil, fmt.Errorf("failed to delete embeddings: %w", err)
 		}
 	}
 
-	return nil
+	if err := tx.Commit(); err != nil {
+		return nil, fmt.Errorf("failed to commit transaction: %w", err)
+	}
+
+	s.indexDelete(ids)
+	return ids, nil
+}
+
+// deleteCondition selects embeddings to delete
+type deleteCondition struct {
+	where string
+	args  []interface{}
 }
 
 // Delete removes an embedding by ID
@@ -331,34 +375,15 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 		return wrapError("delete", fmt.Errorf("ID cannot be empty"))
 	}
 
-	result, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE id = ?", id)
+	deleted, err := s.deleteEmbeddings(ctx, []deleteCondition{{"id = ?", []interface{}{id}}})
 	if err != nil {
-		return wrapError("delete", fmt.Errorf("failed to delete embedding: %w", err))
+		return wrapError("delete", err)
 	}
 
-	rowsAffected, err := result.RowsAffected()
-	if err != nil {
-		return wrapError("delete", fmt.Errorf("failed to get rows affected: %w", err))
-	}
-
-	if rowsAffected == 0 {
+	if len(deleted) == 0 {
 		return wrapError("delete", ErrNotFound)
 	}
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Delete(id); err != nil {
-			s.logger.Warn("failed to delete vector from HNSW index", "id", id, "error", err)
-		}
-	}
-
-	// Update IVF index if enabled
-	if s.ivfIndex != nil {
-		if err := s.ivfIndex.Delete(id); err != nil {
-			s.logger.Warn("failed to delete vector from IVF index", "id", id, "error", err)
-		}
-	}
-
 	return nil
 }
 
@@ -375,9 +400,8 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
-	if err != nil {
-		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
+	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{{"doc_id = ?", []interface{}{docID}}}); err != nil {
+		return wrapError("delete_by_doc_id", err)
 	}
 
 	return nil
@@ -408,9 +432,8 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		return nil
 	}
 
-	// 1. Delete from SQLite
 	// Use chunks to avoid SQLite parameter limit (default 999)
-	totalRowsAffected := int64(0)
+	var conditions []deleteCondition
 	chunkSize := 500
 	for i := 0; i < len(validIDs); i += chunkSize {
 		end := i + chunkSize
@@ -425,43 +448,19 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 			placeholders[j] = "?"
 			args[j] = id
 		}
-
-		query := fmt.Sprintf("DELETE FROM embeddings WHERE id IN (%s)", strings.Join(placeholders, ","))
-		result, err := s.db.ExecContext(ctx, query, args...)
-		if err != nil {
-			return wrapError("delete_batch", fmt.Errorf("failed to delete chunk: %w", err))
-		}
-
-		rows, err := result.RowsAffected()
-		if err != nil {
-			s.logger.Warn("failed to get rows affected during batch delete", "error", err)
-		} else {
-			totalRowsAffected += rows
-		}
+		conditions = append(conditions, deleteCondition{fmt.Sprintf("id IN (%s)", strings.Join(placeholders, ",")), args})
 	}
 
-	if totalRowsAffected == 0 {
-		return wrapError("delete_batch", ErrNotFound)
-	}
-
-	// 2. Delete from Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range validIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during batch delete", "id", id, "error", err)
-			}
-		}
+	deleted, err := s.deleteEmbeddings(ctx, conditions)
+	if err != nil {
+		return wrapError("delete_batch", err)
 	}
 
-	if s.ivfIndex != nil {
-		for _, id := range validIDs {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during batch delete", "id", id, "error", err)
-			}
-		}
+	if len(deleted) == 0 {
+		return wrapError("delete_batch", ErrNotFound)
 	}
 
-	s.logger.Debug("batch delete completed", "deleted", totalRowsAffected)
+	s.logger.Debug("batch delete completed", "deleted", len(deleted))
 
 	return nil
 }
@@ -485,53 +484,12 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 		return wrapError("delete_by_filter", fmt.Errorf("failed to build filter"))
 	}
 
-	// First, get the IDs that will be deleted (for index cleanup)
-	idQuery := fmt.Sprintf("SELECT id FROM embeddings WHERE %s", whereClause)
-	rows, err := s.db.QueryContext(ctx, idQuery, params...)
+	deleted, err := s.deleteEmbeddings(ctx, []deleteCondition{{whereClause, params}})
 	if err != nil {
-		return wrapError("delete_by_filter", fmt.Errorf("failed to query embeddings: %w", err))
+		return wrapError("delete_by_filter", err)
 	}
 
-	var idsToDelete []string
-	for rows.Next() {
-		var id string
-		if err := rows.Scan(&id); err == nil {
-			idsToDelete = append(idsToDelete, id)
-		}
-	}
-	if closeErr := rows.Close(); closeErr != nil {
-		s.logger.Warn("failed to close rows during delete by filter", "error", closeErr)
-	}
-
-	if len(idsToDelete) == 0 {
-		return nil // Nothing to delete
-	}
-
-	// Now delete the embeddings
-	deleteQuery := fmt.Sprintf("DELETE FROM embeddings WHERE %s", whereClause)
-	_, err = s.db.ExecContext(ctx, deleteQuery, params...)
-	if err != nil {
-		return wrapError("delete_by_filter", fmt.Errorf("failed to delete embeddings: %w", err))
-	}
-
-	// Update Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during filter delete", "id", id, "error", err)
-			}
-		}
-	}
-
-	if s.ivfIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during filter delete", "id", id, "error", err)
-			}
-		}
-	}
-
-	s.logger.Debug("delete by filter completed", "deleted", len(idsToDelete))
+	s.logger.Debug("delete by filter completed", "deleted", len(deleted))
 
 	return nil
 }
@@ -545,9 +503,8 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings")
-	if err != nil {
-		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
+	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{{"1 = 1", nil}}); err != nil {
+		return wrapError("clear", err)
 	}
 
 	s.logger.Info("cleared all embeddings")
@@ -568,42 +525,16 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		return nil // Nothing to clear
 	}
 
-	// Start transaction for batch deletion
-	tx, err := s.db.BeginTx(ctx, nil)
-	if err != nil {
-		return wrapError("clear_by_doc_id", fmt.Errorf("failed to begin transaction: %w", err))
-	}
-	defer func() {
-		if rollErr := tx.Rollback(); rollErr != nil {
-			s.logger.Warn("failed to rollback transaction during clear by doc ID", "error", rollErr)
-		}
-	}()
-
-	// Prepare statement for deletion
-	stmt, err := tx.PrepareContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?")
-	if err != nil {
-		return wrapError("clear_by_doc_id", fmt.Errorf("failed to prepare statement: %w", err))
-	}
-	defer func() {
-		if closeErr := stmt.Close(); closeErr != nil {
-			s.logger.Warn("failed to close statement during clear by doc ID", "error", closeErr)
-		}
-	}()
-
-	// Execute deletion for each doc ID
+	var conditions []deleteCondition
 	for _, docID := range docIDs {
 		if docID == "" {
 			continue // Skip empty doc IDs
 		}
-		_, err = stmt.ExecContext(ctx, docID)
-		if err != nil {
-			return wrapError("clear_by_doc_id", fmt.Errorf("failed to delete embeddings for doc_id %s: %w", docID, err))
-		}
+		conditions = append(conditions, deleteCondition{"doc_id = ?", []interface{}{docID}})
 	}
 
-	// Commit transaction
-	if err := tx.Commit(); err != nil {
-		return wrapError("clear_by_doc_id", fmt.Errorf("failed to commit transaction: %w", err))
+	if _, err := s.deleteEmbeddings(ctx, conditions); err != nil {
+		return wrapError("clear_by_doc_id", err)
 	}
 
 	s.logger.Debug("cleared embeddings by doc IDs", "count", len(docIDs))
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index cfcbb15..0c31b39 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -5,6 +5,8 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"math"
+	"slices"
 	"sync/atomic"
 	"time"
 
@@ -33,10 +35,15 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 		}
 	}
 
-	// Create HNSW index with appropriate distance function
-	// Since we can't compare functions directly, we'll use cosine distance as default
-	// which works well for most similarity functions
-	distFunc := index.CosineDistance
+	// The index must rank the way the final scores do
+	similarityFn := s.similarityFn
+	distFunc := func(a, b []float32) float32 {
+		distance := -similarityFn(a, b)
+		if len(a) != len(b) || math.IsNaN(distance) || distance > math.MaxFloat32 {
+			return math.MaxFloat32
+		}
+		return float32(distance)
+	}
 
 	s.hnswIndex = index.NewHNSW(
 		s.config.HNSW.M,
@@ -57,12 +64,12 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 
 	if loaded {
 		s.logger.Info("HNSW index loaded from snapshot")
-		return nil
+		return s.reconcileHNSWIndex(ctx)
 	}
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
 	if s.quantizer != nil && !loaded {
-		if err := s.TrainQuantizer(ctx); err != nil {
+		if err := s.trainQuantizerLocked(ctx); err != nil {
 			s.logger.Warn("failed to train quantizer", "error", err)
 		}
 	}
@@ -71,6 +78,109 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 	return s.rebuildHNSWIndex(ctx)
 }
 
+// storedVectors reads the vectors of all embeddings
+func (s *SQLiteStore) storedVectors(ctx context.Context) (ids []string, vectors [][]float32, err error) {
+	rows, err := s.db.QueryContext(ctx, "SELECT id, vector FROM embeddings")
+	if err != nil {
+		return nil, nil, fmt.Errorf("failed to query existing vectors: %w", err)
+	}
+	defer func() {
+		if closeErr := rows.Close(); closeErr != nil {
+			s.logger.Warn("failed to close rows while reading vectors", "error", closeErr)
+		}
+	}()
+
+	for rows.Next() {
+		var id string
+		var vectorBytes []byte
+		if err := rows.Scan(&id, &vectorBytes); err != nil {
+			s.logger.Warn("failed to scan stored vector", "error", err)
+			continue
+		}
+		vec, err := encoding.DecodeVector(vectorBytes)
+		if err != nil {
+			s.logger.Warn("failed to decode stored vector", "id", id, "error", err)
+			continue
+		}
+		ids = append(ids, id)
+		vectors = append(vectors, vec)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, nil, fmt.Errorf("error iterating rows: %w", err)
+	}
+	return ids, vectors, nil
+}
+
+// reconcileHNSWIndex makes an index loaded from a snapshot agree with the stored embeddings,
+// which may have changed after the snapshot was saved
+func (s *SQLiteStore) reconcileHNSWIndex(ctx context.Context) error {
+	ids, vectors, err := s.storedVectors(ctx)
+	if err != nil {
+		return err
+	}
+
+	stored := make(map[string]bool, len(ids))
+	for i, id := range ids {
+		stored[id] = true
+		if node, ok := s.hnswIndex.Nodes[id]; ok && !node.Deleted {
+			if node.Vector != nil && slices.Equal(node.Vector, vectors[i]) {
+				continue
+			}
+			if node.Vector == nil && s.hnswIndex.Quantizer != nil {
+				code, err := s.hnswIndex.Quantizer.Encode(vectors[i])
+				if err == nil && bytes.Equal(code, node.Quantized) {
+					continue
+				}
+			}
+		}
+		if err := s.hnswIndex.Upsert(id, vectors[i]); err != nil {
+			return fmt.Errorf("failed to update HNSW index: %w", err)
+		}
+	}
+
+	var stale []string
+	for id, node := range s.hnswIndex.Nodes {
+		if !node.Deleted && !stored[id] {
+			stale = append(stale, id)
+		}
+	}
+	for _, id := range stale {
+		if err := s.hnswIndex.Delete(id); err != nil {
+			return fmt.Errorf("failed to update HNSW index: %w", err)
+		}
+	}
+	return nil
+}
+
+// reconcileIVFIndex is reconcileHNSWIndex for the IVF index
+func (s *SQLiteStore) reconcileIVFIndex(ctx context.Context) error {
+	ids, vectors, err := s.storedVectors(ctx)
+	if err != nil {
+		return err
+	}
+
+	indexed := make(map[string][]float32, len(s.ivfIndex.IDs))
+	for i, id := range s.ivfIndex.IDs {
+		indexed[id] = s.ivfIndex.Vectors[i]
+	}
+	for i, id := range ids {
+		vec, ok := indexed[id]
+		delete(indexed, id)
+		if ok && slices.Equal(vec, vectors[i]) {
+			continue
+		}
+		if err := s.ivfIndex.Add(id, vectors[i]); err != nil {
+			s.logger.Warn("failed to add vector to IVF index", "id", id, "error", err)
+		}
+	}
+	for id := range indexed {
+		if err := s.ivfIndex.Delete(id); err != nil {
+			return fmt.Errorf("failed to update IVF index: %w", err)
+		}
+	}
+	return nil
+}
+
 // rebuildHNSWIndex rebuilds the HNSW index from existing vectors in the database
 func (s *SQLiteStore) rebuildHNSWIndex(ctx context.Context) error {
 	if s.hnswIndex == nil {
@@ -200,7 +310,7 @@ func (s *SQLiteStore) initIVFIndex(ctx context.Context) error {
 
 	if loaded {
 		s.logger.Info("IVF index loaded from snapshot")
-		return nil
+		return s.reconcileIVFIndex(ctx)
 	}
 
 	s.logger.Info("IVF index initialized (not trained yet)", "nCentroids", nCentroids)
@@ -234,50 +344,24 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		}
 	}
 
-	if s.ivfIndex == nil {
-		if s.config.VectorDim <= 0 {
-			return wrapError("train_index", fmt.Errorf("vector dimension not set"))
-		}
-		s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-	} else {
-		// Re-initialize to change number of centroids if needed, or just retrain
-		if s.ivfIndex.NCentroids != numCentroids {
-			s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, numCentroids)
-		} else {
-			s.ivfIndex.Clear() // Clear existing data to re-train
-		}
+	if s.config.VectorDim <= 0 {
+		return wrapError("train_index", fmt.Errorf("vector dimension not set"))
+	}
+
+	// Train a new index and replace the current one only when that has succeeded
+	ivfIndex := index.NewIVFIndex(s.config.VectorDim, numCentroids)
+	if s.ivfIndex != nil && s.ivfIndex.NCentroids == numCentroids {
+		ivfIndex.SetNProbe(s.ivfIndex.NProbe)
+	} else if s.config.IVF.NProbe > 0 {
+		ivfIndex.SetNProbe(s.config.IVF.NProbe)
 	}
 
 	s.logger.Info("training IVF index", "nCentroids", numCentroids)
 
 	// Fetch all vectors for training
-	rows, err := s.db.QueryContext(ctx, "SELECT id, vector FROM embeddings")
+	ids, vectors, err := s.storedVectors(ctx)
 	if err != nil {
-		return wrapError("train_index", fmt.Errorf("failed to fetch vectors: %w", err))
-	}
-	defer func() {
-		if closeErr := rows.Close(); closeErr != nil {
-			s.logger.Warn("failed to close rows during IVF training", "error", closeErr)
-		}
-	}()
-
-	var ids []string
-	var vectors [][]float32
-
-	for rows.Next() {
-		var id string
-		var vectorBytes []byte
-		if err := rows.Scan(&id, &vectorBytes); err != nil {
-			s.logger.Warn("failed to scan row during IVF training", "error", err)
-			continue
-		}
-		vec, err := encoding.DecodeVector(vectorBytes)
-		if err != nil {
-			s.logger.Warn("failed to decode vector during IVF training", "id", id, "error", err)
-			continue
-		}
-		ids = append(ids, id)
-		vectors = append(vectors, vec)
+		return wrapError("train_index", err)
 	}
 
 	if len(vectors) == 0 {
@@ -285,7 +369,7 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	}
 
 	// Train the index
-	if err := s.ivfIndex.Train(vectors); err != nil {
+	if err := ivfIndex.Train(vectors); err != nil {
 		return wrapError("train_index", err)
 	}
 
@@ -294,7 +378,7 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 	// Add all vectors to the index
 	var errorCount int
 	for i, vec := range vectors {
-		if err := s.ivfIndex.Add(ids[i], vec); err != nil {
+		if err := ivfIndex.Add(ids[i], vec); err != nil {
 			s.logger.Warn("failed to add vector to IVF index", "id", ids[i], "error", err)
 			errorCount++
 		}
@@ -304,21 +388,68 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		s.logger.Warn("some vectors failed to add to IVF index", "count", errorCount)
 	}
 
+	s.ivfIndex = ivfIndex
+
 	return nil
 }
 
 // TrainQuantizer trains the quantizer on existing vectors
 func (s *SQLiteStore) TrainQuantizer(ctx context.Context) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return wrapError("train_quantizer", ErrStoreClosed)
+	}
+	retrain := s.quantizerTrained()
+	if err := s.trainQuantizerLocked(ctx); err != nil {
+		return err
+	}
+	if !retrain || s.hnswIndex == nil {
+		return nil
+	}
+
+	// The index holds codes of the old quantizer, so build a new one
+	previous := s.hnswIndex
+	s.hnswIndex = index.NewHNSW(s.config.HNSW.M, s.config.HNSW.EfConstruction, previous.DistFunc)
+	s.hnswIndex.SetQuantizer(s.quantizer)
+	return s.rebuildHNSWIndex(ctx)
+}
+
+// trainQuantizerLocked is TrainQuantizer for callers that hold the store's write lock
+func (s *SQLiteStore) trainQuantizerLocked(ctx context.Context) error {
 	if s.quantizer == nil {
 		return nil
 	}
 
+	trainingVectors, err := s.quantizerTrainingVectors(ctx)
+	if err != nil {
+		return err
+	}
+	if len(trainingVectors) == 0 {
+		return fmt.Errorf("no vectors available for quantizer training")
+	}
+	return s.trainQuantizerOn(trainingVectors)
+}
+
+// quantizerTrained reports whether the quantizer is ready for use
+func (s *SQLiteStore) quantizerTrained() bool {
+	switch q := s.quantizer.(type) {
+	case *quantization.ScalarQuantizer:
+		return q.Trained
+	case *quantization.BinaryQuantizer:
+		return q.Trained
+	}
+	return false
+}
+
+// quantizerTrainingVectors samples up to 1000 stored vectors
+func (s *SQLiteStore) quantizerTrainingVectors(ctx context.Context) ([][]float32, error) {
 	s.logger.Info("training quantizer")
 
-	// Sample up to 1000 vectors for training
 	rows, err := s.db.QueryContext(ctx, "SELECT vector FROM embeddings LIMIT 1000")
 	if err != nil {
-		return err
+		return nil, err
 	}
 	defer func() {
 		if closeErr := rows.Close(); closeErr != nil {
@@ -337,23 +468,37 @@ func (s *SQLiteStore) TrainQuantizer(ctx context.Context) error {
 			trainingVectors = append(trainingVectors, vec)
 		}
 	}
+	return trainingVectors, rows.Err()
+}
 
-	if len(trainingVectors) == 0 {
-		return fmt.Errorf("no vectors available for quantizer training")
-	}
-
-	if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
+// trainQuantizerOn trains a new quantizer and installs it, leaving one that is in use untouched
+func (s *SQLiteStore) trainQuantizerOn(trainingVectors [][]float32) error {
+	var trained index.Quantizer
+	switch old := s.quantizer.(type) {
+	case *quantization.ScalarQuantizer:
+		sq, err := quantization.NewScalarQuantizer(old.Dimension, old.NBits)
+		if err != nil {
+			return err
+		}
 		if err := sq.Train(trainingVectors); err != nil {
 			return err
 		}
-		s.logger.Info("scalar quantizer trained", "vectors", len(trainingVectors))
-	} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
+		trained = sq
+	case *quantization.BinaryQuantizer:
+		bq := quantization.NewBinaryQuantizer(old.Dimension)
 		if err := bq.Train(trainingVectors); err != nil {
 			return err
 		}
-		s.logger.Info("binary quantizer trained", "vectors", len(trainingVectors))
+		trained = bq
+	default:
+		return nil
 	}
+	s.logger.Info("quantizer trained", "vectors", len(trainingVectors))
 
+	s.quantizer = trained
+	if s.hnswIndex != nil {
+		s.hnswIndex.SetQuantizer(trained)
+	}
 	return nil
 }
 
@@ -416,18 +561,20 @@ func (s *SQLiteStore) loadIndexSnapshot(ctx context.Context, indexType string) (
 	// First try to load quantizer if we're loading an index
 	var qData []byte
 	err := s.db.QueryRowContext(ctx, "SELECT data FROM index_snapshots WHERE type = ?", "QUANTIZER").Scan(&qData)
-	if err == nil {
+	if err == nil && s.config.Quantization.Enabled {
 		if s.config.Quantization.Type == "binary" {
 			bq := quantization.NewBinaryQuantizer(s.config.VectorDim)
-			if loadErr := bq.Load(bytes.NewReader(qData)); loadErr == nil {
+			if loadErr := bq.Load(bytes.NewReader(qData)); loadErr == nil && bq.Dimension == s.config.VectorDim {
 				s.quantizer = bq
 				s.logger.Info("binary quantizer loaded from snapshot")
 			}
 		} else {
-			sq, _ := quantization.NewScalarQuantizer(s.config.VectorDim, s.config.Quantization.NBits)
-			if loadErr := sq.Load(bytes.NewReader(qData)); loadErr == nil {
-				s.quantizer = sq
-				s.logger.Info("scalar quantizer loaded from snapshot")
+			sq, newErr := quantization.NewScalarQuantizer(s.config.VectorDim, s.config.Quantization.NBits)
+			if newErr == nil {
+				if loadErr := sq.Load(bytes.NewReader(qData)); loadErr == nil && sq.Dimension == s.config.VectorDim {
+					s.quantizer = sq
+					s.logger.Info("scalar quantizer loaded from snapshot")
+				}
 			}
 		}
 
@@ -469,25 +616,33 @@ func (s *SQLiteStore) startAutoSave() {
 		interval = 5 * time.Minute // Default 5 minutes
 	}
 
+	s.saveMu.Lock()
+	if s.saveTimer != nil {
+		s.saveTimer.Stop()
+	}
 	s.saveTimer = time.AfterFunc(interval, func() {
 		s.autoSaveLoop()
 	})
+	s.saveMu.Unlock()
 	s.logger.Info("auto-save started", "interval", interval)
 }
 
 // autoSaveLoop runs the periodic save loop
 func (s *SQLiteStore) autoSaveLoop() {
+	// Hold the locks so that the snapshot matches the stored embeddings and Close waits for it
 	s.mu.RLock()
-	closed := s.closed
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
 
-	if closed {
+	if s.closed {
 		return
 	}
 
 	// Try to save snapshot
 	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
-	if err := s.saveIndexSnapshot(ctx); err != nil {
+	s.writeMu.Lock()
+	err := s.saveIndexSnapshot(ctx)
+	s.writeMu.Unlock()
+	if err != nil {
 		s.logger.Warn("auto-save failed", "error", err)
 	} else {
 		s.logger.Debug("auto-save completed")
diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 849bf44..d5e4815 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -6,11 +6,13 @@ import (
 	"fmt"
 	"time"
 
+	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
+
 	_ "modernc.org/sqlite" // SQLite driver
 )
 
 // Init initializes the SQLite database and creates necessary tables
-func (s *SQLiteStore) Init(ctx context.Context) error {
+func (s *SQLiteStore) Init(ctx context.Context) (err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -18,6 +20,10 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		return wrapError("init", ErrStoreClosed)
 	}
 
+	if s.db != nil {
+		return nil // Already initialized
+	}
+
 	// Open database connection
 	// These are per-connection settings, so they must be part of the DSN: a PRAGMA statement
 	// would only reach the one pooled connection that happens to execute it.
@@ -43,6 +49,12 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	db.SetConnMaxLifetime(2 * time.Hour)
 
 	s.db = db
+	defer func() {
+		if err != nil {
+			_ = db.Close()
+			s.db = nil
+		}
+	}()
 
 	// Enable Foreign Keys (Crucial for cascading deletes)
 	if _, err := s.db.Exec("PRAGMA foreign_keys = ON;"); err != nil {
@@ -54,6 +66,11 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		return wrapError("init", err)
 	}
 
+	// A database that already holds vectors determines an unset dimension
+	if err := s.detectDimension(ctx); err != nil {
+		return wrapError("init", err)
+	}
+
 	// Initialize HNSW index if enabled
 	if err := s.initHNSWIndex(ctx); err != nil {
 		return wrapError("init", err)
@@ -74,6 +91,25 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	return nil
 }
 
+// detectDimension adopts the dimension of the stored vectors if none is configured
+func (s *SQLiteStore) detectDimension(ctx context.Context) error {
+	if s.config.VectorDim != 0 {
+		return nil
+	}
+	var vectorBytes []byte
+	err := s.db.QueryRowContext(ctx, "SELECT vector FROM embeddings ORDER BY rowid LIMIT 1").Scan(&vectorBytes)
+	if err == sql.ErrNoRows {
+		return nil
+	}
+	if err != nil {
+		return fmt.Errorf("failed to detect dimension: %w", err)
+	}
+	if vec, err := encoding.DecodeVector(vectorBytes); err == nil {
+		s.config.VectorDim = len(vec)
+	}
+	return nil
+}
+
 // createTables creates the necessary database tables
 func (s *SQLiteStore) createTables(ctx context.Context) error {
 	createTableSQL := `
-- 
2.43.0


From 388a6f4b13debbadcf3f3b46d6b49da334ca7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:23 +0000
Subject: [PATCH 05/32] fix: keep indexed and filtered search complete, and
 indexes in step with cascades

- an indexed search falls back to a scan when its candidates do not yield K
  matching records, widens ef to the candidates it asks for, and compares the
  document filter
- SearchWithFilter filters before cutting to K
- DeleteCollection and DeleteDocument remove exactly the deleted embeddings from
  the in-memory indexes, after the transaction has committed
- GetByDocID and GetDocumentsByType return collection and access list
---
 pkg/core/collections.go  | 39 +++++++-------------
 pkg/core/document.go     | 37 ++++++++-----------
 pkg/core/store_crud.go   | 11 ++++--
 pkg/core/store_query.go  | 22 ++++++++++--
 pkg/core/store_search.go | 77 ++++++++++++++++++++++++----------------
 5 files changed, 102 insertions(+), 84 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 1e3c8d7..eed5c44 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -214,6 +214,9 @@ func (s *SQLiteStore) ListCollections(ctx context.Context) ([]*Collection, error
 
 		collections = append(collections, collection)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_collections", fmt.Errorf("failed to list collections: %w", err))
+	}
 
 	return collections, nil
 }
@@ -227,21 +230,9 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 		return wrapError("delete_collection", ErrStoreClosed)
 	}
 
-	// Start transaction
-	tx, err := s.db.BeginTx(ctx, nil)
-	if err != nil {
-		return wrapError("delete_collection", fmt.Errorf("failed to start transaction: %w", err))
-	}
-	defer func() {
-		if err := tx.Rollback(); err != nil {
-			// Log error but don't override the main error
-			_ = err
-		}
-	}()
-
 	// Get collection ID first
 	var collectionID int
-	err = tx.QueryRowContext(ctx, "SELECT id FROM collections WHERE name = ?", name).Scan(&collectionID)
+	err := s.db.QueryRowContext(ctx, "SELECT id FROM collections WHERE name = ?", name).Scan(&collectionID)
 	if err == sql.ErrNoRows {
 		return wrapError("delete_collection", fmt.Errorf("collection '%s' not found", name))
 	}
@@ -249,21 +240,15 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 		return wrapError("delete_collection", fmt.Errorf("failed to find collection: %w", err))
 	}
 
-	// Delete all embeddings in the collection
-	_, err = tx.ExecContext(ctx, "DELETE FROM embeddings WHERE collection_id = ?", collectionID)
-	if err != nil {
-		return wrapError("delete_collection", fmt.Errorf("failed to delete embeddings: %w", err))
-	}
-
-	// Delete the collection
-	_, err = tx.ExecContext(ctx, "DELETE FROM collections WHERE id = ?", collectionID)
+	// Delete all embeddings in the collection, then the collection
+	_, err = s.deleteEmbeddings(ctx, []deleteCondition{{"collection_id = ?", []interface{}{collectionID}}}, func(tx *sql.Tx) error {
+		if _, err := tx.ExecContext(ctx, "DELETE FROM collections WHERE id = ?", collectionID); err != nil {
+			return fmt.Errorf("failed to delete collection: %w", err)
+		}
+		return nil
+	})
 	if err != nil {
-		return wrapError("delete_collection", fmt.Errorf("failed to delete collection: %w", err))
-	}
-
-	// Commit transaction
-	if err := tx.Commit(); err != nil {
-		return wrapError("delete_collection", fmt.Errorf("failed to commit transaction: %w", err))
+		return wrapError("delete_collection", err)
 	}
 
 	return nil
diff --git a/pkg/core/document.go b/pkg/core/document.go
index 990feb0..0bf689e 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -102,30 +102,16 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 		return wrapError("delete_document", ErrStoreClosed)
 	}
 
-	// 1. Find all embedding IDs for this document to remove from HNSW index
-	// Note: SQLite FK CASCADE will handle the table rows, but we must manually update memory index
-	if s.hnswIndex != nil || s.ivfIndex != nil {
-		rows, err := s.db.QueryContext(ctx, "SELECT id FROM embeddings WHERE doc_id = ?", id)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var embID string
-				if err := rows.Scan(&embID); err == nil {
-					if s.hnswIndex != nil {
-						_ = s.hnswIndex.Delete(embID)
-					}
-					if s.ivfIndex != nil {
-						_ = s.ivfIndex.Delete(embID)
-					}
-				}
-			}
+	// Delete the embeddings too, rather than leave them to the cascade, to learn which ones
+	// must be removed from the in-memory indexes
+	_, err := s.deleteEmbeddings(ctx, []deleteCondition{{"doc_id = ?", []interface{}{id}}}, func(tx *sql.Tx) error {
+		if _, err := tx.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id); err != nil {
+			return fmt.Errorf("failed to delete document: %w", err)
 		}
-	}
-
-	// 2. Delete document (Cascade will delete embeddings from DB)
-	_, err := s.db.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id)
+		return nil
+	})
 	if err != nil {
-		return wrapError("delete_document", fmt.Errorf("failed to delete document: %w", err))
+		return wrapError("delete_document", err)
 	}
 
 	return nil
@@ -178,6 +164,10 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("list_documents", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, title, source_url, content, version, author, metadata, acl, created_at, updated_at
 		FROM documents WHERE 1=1
@@ -213,6 +203,9 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 		}
 		docs = append(docs, &doc)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_documents", err)
+	}
 
 	return docs, nil
 }
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index b8757cf..1f7d5b6 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -310,8 +310,9 @@ func (s *SQLiteStore) indexDelete(ids []string) {
 }
 
 // deleteEmbeddings deletes the embeddings that match any of the conditions, all in one
-// transaction, and removes them from the in-memory indexes. The caller holds the store lock.
-func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteCondition) ([]string, error) {
+// transaction, and removes them from the in-memory indexes. The statements in parents are part
+// of the transaction and run last. The caller holds the store lock.
+func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteCondition, parents ...func(*sql.Tx) error) ([]string, error) {
 	s.writeMu.Lock()
 	defer s.writeMu.Unlock()
 
@@ -348,6 +349,12 @@ func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteC
 		}
 	}
 
+	for _, parent := range parents {
+		if err := parent(tx); err != nil {
+			return nil, err
+		}
+	}
+
 	if err := tx.Commit(); err != nil {
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index 64d2269..98ef11c 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -37,6 +37,9 @@ func (s *SQLiteStore) GetByID(ctx context.Context, id string) (*Embedding, error
 	}()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, wrapError("get_by_id", err)
+		}
 		return nil, wrapError("get_by_id", ErrNotFound)
 	}
 
@@ -61,7 +64,15 @@ func (s *SQLiteStore) GetByDocID(ctx context.Context, docID string) ([]*Embeddin
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings WHERE doc_id = ? ORDER BY created_at"
+	query := `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id
+		WHERE e.doc_id = ?
+		ORDER BY e.created_at
+	`
 	rows, err := s.db.QueryContext(ctx, query, docID)
 	if err != nil {
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("failed to query embeddings: %w", err))
@@ -195,7 +206,14 @@ func (s *SQLiteStore) GetDocumentsByType(ctx context.Context, docType string) ([
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("doc type cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings ORDER BY created_at"
+	query := `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id
+		ORDER BY e.created_at
+	`
 	rows, err := s.db.QueryContext(ctx, query)
 	if err != nil {
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("failed to query embeddings: %w", err))
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index dff1585..c6b4ab2 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -91,39 +91,21 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 		return nil, wrapError("searchWithFilter", err)
 	}
 
-	// First perform the standard search
-	var candidates []ScoredEmbedding
-	var err error
-
-	// Use HNSW index if available and enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		candidates, err = s.searchWithHNSW(ctx, query, opts)
-	} else if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		// Use IVF index
-		candidates, err = s.searchWithIVF(ctx, query, opts)
-	} else {
-		// Fallback to linear search
-		candidates, err = s.fetchCandidates(ctx, opts)
-		if err != nil {
-			return nil, wrapError("searchWithFilter", err)
-		}
-		candidates = s.scoreCandidates(query, candidates, opts)
+	if len(metadataFilters) == 0 {
+		return s.searchLocked(ctx, query, opts)
 	}
 
+	// Apply advanced metadata filtering before the results are cut to TopK
+	candidates, err := s.fetchCandidates(ctx, opts)
 	if err != nil {
 		return nil, wrapError("searchWithFilter", err)
 	}
-
-	// Apply advanced metadata filtering
-	if len(metadataFilters) > 0 {
-		filtered, err := s.filterByMetadata(candidates, metadataFilters)
-		if err != nil {
-			return nil, wrapError("searchWithFilter", err)
-		}
-		candidates = filtered
+	candidates, err = s.filterByMetadata(candidates, metadataFilters)
+	if err != nil {
+		return nil, wrapError("searchWithFilter", err)
 	}
 
-	return candidates, nil
+	return s.scoreCandidates(query, candidates, opts), nil
 }
 
 // searchWithHNSW performs vector search using HNSW index
@@ -132,11 +114,16 @@ func (s *SQLiteStore) searchWithHNSW(ctx context.Context, query []float32, opts
 		opts.TopK = 10
 	}
 
+	// Nothing is gained from the index if all records are wanted
+	if opts.TopK >= s.hnswIndex.Size() {
+		return s.searchLinear(ctx, query, opts)
+	}
+
 	// Search HNSW index for nearest neighbors
 	candidateIDs, _ := s.hnswIndex.Search(
 		query,
 		opts.TopK*2, // Get more candidates to account for filtering
-		s.config.HNSW.EfSearch,
+		max(s.config.HNSW.EfSearch, opts.TopK*2),
 	)
 
 	if len(candidateIDs) == 0 {
@@ -150,7 +137,7 @@ func (s *SQLiteStore) searchWithHNSW(ctx context.Context, query []float32, opts
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	return s.processCandidates(ctx, query, candidates, opts)
 }
 
 // searchWithIVF performs vector search using IVF index
@@ -159,6 +146,11 @@ func (s *SQLiteStore) searchWithIVF(ctx context.Context, query []float32, opts S
 		opts.TopK = 10
 	}
 
+	// Nothing is gained from the index if all records are wanted
+	if opts.TopK >= s.ivfIndex.Size() {
+		return s.searchLinear(ctx, query, opts)
+	}
+
 	// Search IVF index
 	// Fetch 4x candidates to allow for filtering
 	candidateIDs, _, err := s.ivfIndex.Search(query, opts.TopK*4)
@@ -177,7 +169,7 @@ func (s *SQLiteStore) searchWithIVF(ctx context.Context, query []float32, opts S
 		return nil, fmt.Errorf("failed to fetch candidates: %w", err)
 	}
 
-	return s.processCandidates(query, candidates, opts)
+	return s.processCandidates(ctx, query, candidates, opts)
 }
 
 // searchLinear performs linear vector search without HNSW index
@@ -192,10 +184,11 @@ func (s *SQLiteStore) searchLinear(ctx context.Context, query []float32, opts Se
 }
 
 // processCandidates applies scoring and filtering to candidates
-func (s *SQLiteStore) processCandidates(query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
+func (s *SQLiteStore) processCandidates(ctx context.Context, query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
 	textWeight := s.getTextWeight(opts)
 	vectorWeight := 1.0 - textWeight
 
+	matching := 0
 	var results []ScoredEmbedding
 	for _, candidate := range candidates {
 		// Apply collection filter
@@ -207,6 +200,7 @@ func (s *SQLiteStore) processCandidates(query []float32, candidates []ScoredEmbe
 		if !s.matchesFilter(candidate.Embedding, opts.Filter) {
 			continue
 		}
+		matching++
 
 		// Calculate vector similarity score
 		vectorScore := s.similarityFn(query, candidate.Vector)
@@ -234,6 +228,11 @@ func (s *SQLiteStore) processCandidates(query []float32, candidates []ScoredEmbe
 		})
 	}
 
+	// The filters may match records that the index ranked too low to be candidates
+	if matching < opts.TopK {
+		return s.searchLinear(ctx, query, opts)
+	}
+
 	// Sort by score (descending)
 	s.sortByScore(results)
 
@@ -251,6 +250,19 @@ func (s *SQLiteStore) fetchEmbeddingsByIDs(ctx context.Context, ids []string) ([
 		return []ScoredEmbedding{}, nil
 	}
 
+	// Use chunks to avoid the SQLite parameter limit
+	if chunkSize := 500; len(ids) > chunkSize {
+		candidates, err := s.fetchEmbeddingsByIDs(ctx, ids[:chunkSize])
+		if err != nil {
+			return nil, err
+		}
+		rest, err := s.fetchEmbeddingsByIDs(ctx, ids[chunkSize:])
+		if err != nil {
+			return nil, err
+		}
+		return append(candidates, rest...), nil
+	}
+
 	// Build IN clause for SQL query
 	placeholders := make([]string, len(ids))
 	args := make([]interface{}, len(ids))
@@ -420,7 +432,10 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 func (s *SQLiteStore) matchesFilter(emb Embedding, filter map[string]string) bool {
 	for key, value := range filter {
 		if key == "doc_id" {
-			continue // Already filtered in SQL
+			if emb.DocID != value {
+				return false
+			}
+			continue
 		}
 		if emb.Metadata == nil || emb.Metadata[key] != value {
 			return false
-- 
2.43.0


From 8ad5bfa0560660b46ff9c882d9e7829bc626110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:02 +0000
Subject: [PATCH 06/32] fix: give filters, facets, aggregations and access
 lists one exact meaning

- filters are evaluated by one function for search and delete, NOT included;
  field names are data, never SQL; filter strings respect parentheses, quotes,
  precedence and BETWEEN
- access-controlled search keeps the other conditions (the OR was not
  parenthesized), inherits the document's list, and lists are stored as text
- facets are scored before they are cut, and counted within the request
- aggregations honour GroupBy for every type and reject unknown columns
- hybrid search applies collection and filter to keyword hits
- range search measures negative similarities correctly
---
 pkg/core/advanced_filter.go | 453 +++++++++++++++++++++---------------
 pkg/core/advanced_search.go | 215 ++++++++---------
 pkg/core/aggregations.go    | 106 ++++-----
 pkg/core/collections.go     |   2 +-
 pkg/core/faceted_search.go  | 166 ++++++-------
 pkg/core/store_crud.go      |  69 ++++--
 pkg/core/store_search.go    |  84 ++++---
 7 files changed, 584 insertions(+), 511 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 61b701f..4c7b298 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -3,8 +3,8 @@ package core
 import (
 	"context"
 	"fmt"
+	"math"
 	"regexp"
-	"sort"
 	"strconv"
 	"strings"
 )
@@ -48,64 +48,163 @@ type AdvancedSearchOptions struct {
 // ParseFilterString parses a string filter expression into FilterExpression
 // Example: "(tag:ai OR tag:ml) AND date>2024 AND price BETWEEN 100 AND 500"
 func ParseFilterString(filterStr string) (*FilterExpression, error) {
-	// Simple parser for demonstration - in production use a proper parser
+	// AND binds tighter than OR, parentheses group, quoted text is never interpreted
 	filterStr = strings.TrimSpace(filterStr)
-	
+
 	// Handle parentheses for grouping
-	if strings.HasPrefix(filterStr, "(") && strings.HasSuffix(filterStr, ")") {
-		inner := filterStr[1 : len(filterStr)-1]
+	if inner, ok := stripParens(filterStr); ok {
 		return ParseFilterString(inner)
 	}
-	
-	// Check for AND/OR at top level
-	if idx := strings.Index(filterStr, " AND "); idx > 0 {
-		left, err := ParseFilterString(filterStr[:idx])
-		if err != nil {
-			return nil, err
-		}
-		right, err := ParseFilterString(filterStr[idx+5:])
-		if err != nil {
-			return nil, err
-		}
-		return &FilterExpression{
-			Operator: FilterAND,
-			Children: []*FilterExpression{left, right},
-		}, nil
-	}
-	
-	if idx := strings.Index(filterStr, " OR "); idx > 0 {
-		left, err := ParseFilterString(filterStr[:idx])
-		if err != nil {
-			return nil, err
+
+	// Check for OR/AND at top level
+	for _, op := range []FilterOperator{FilterOR, FilterAND} {
+		parts := splitTopLevel(filterStr, op)
+		if len(parts) == 1 {
+			continue
 		}
-		right, err := ParseFilterString(filterStr[idx+4:])
-		if err != nil {
-			return nil, err
+		result := &FilterExpression{Operator: op}
+		for _, part := range parts {
+			child, err := ParseFilterString(part)
+			if err != nil {
+				return nil, err
+			}
+			result.Children = append(result.Children, child)
 		}
-		return &FilterExpression{
-			Operator: FilterOR,
-			Children: []*FilterExpression{left, right},
-		}, nil
+		return result, nil
 	}
-	
+
 	// Parse comparison operators
 	return parseComparison(filterStr)
 }
 
+// scanTopLevel calls visit for every byte of str that is outside quotes and parentheses. visit
+// returns how many further bytes to skip. The result tells whether quotes and parentheses match.
+func scanTopLevel(str string, visit func(i int) int) bool {
+	depth := 0
+	var quote byte
+	for i := 0; i < len(str); i++ {
+		c := str[i]
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case (c == '\'' || c == '"') && opensQuote(str, i):
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			if depth--; depth < 0 {
+				return false
+			}
+		case depth == 0:
+			i += visit(i)
+		}
+	}
+	return depth == 0 && quote == 0
+}
+
+// opensQuote reports whether the quote at str[i] starts a quoted value: it must follow an
+// operator, a separator or a space, so that an apostrophe inside a word is plain text
+func opensQuote(str string, i int) bool {
+	return i == 0 || strings.IndexByte(" \t(,:=<>", str[i-1]) >= 0
+}
+
+// stripParens removes parentheses that enclose the whole string
+func stripParens(str string) (string, bool) {
+	if !strings.HasPrefix(str, "(") || !strings.HasSuffix(str, ")") {
+		return "", false
+	}
+	outside := false
+	if !scanTopLevel(str, func(int) int { outside = true; return 0 }) || outside {
+		return "", false
+	}
+	inner := str[1 : len(str)-1]
+	return inner, scanTopLevel(inner, func(int) int { return 0 })
+}
+
+// splitTopLevel splits str at an operator outside quotes and parentheses. The AND that belongs
+// to a BETWEEN does not count.
+func splitTopLevel(str string, op FilterOperator) []string {
+	sep := " " + string(op) + " "
+	var parts []string
+	start := 0
+	between := false
+	scanTopLevel(str, func(i int) int {
+		if strings.HasPrefix(str[i:], " BETWEEN ") {
+			between = true
+			return len(" BETWEEN") - 1
+		}
+		if between && strings.HasPrefix(str[i:], " AND ") {
+			between = false
+			return len(" AND") - 1
+		}
+		if strings.HasPrefix(str[i:], sep) && strings.TrimSpace(str[start:i]) != "" {
+			parts = append(parts, str[start:i])
+			start = i + len(sep)
+			return len(sep) - 2
+		}
+		return 0
+	})
+	return append(parts, str[start:])
+}
+
+// splitValues splits a list at commas outside quotes
+func splitValues(str string) []string {
+	var parts []string
+	start := 0
+	scanTopLevel(str, func(i int) int {
+		if str[i] == ',' {
+			parts = append(parts, str[start:i])
+			start = i + 1
+		}
+		return 0
+	})
+	return append(parts, str[start:])
+}
+
 func parseComparison(expr string) (*FilterExpression, error) {
-	// Check for BETWEEN
-	if strings.Contains(expr, " BETWEEN ") {
-		parts := strings.Split(expr, " BETWEEN ")
-		if len(parts) != 2 {
-			return nil, fmt.Errorf("invalid BETWEEN expression: %s", expr)
+	// Find the first operator: at equal positions the longest one
+	operators := []struct {
+		op  string
+		typ FilterOperator
+	}{
+		{" BETWEEN ", FilterBETWEEN},
+		{" IN ", FilterIN},
+		{">=", FilterGTE},
+		{"<=", FilterLTE},
+		{"!=", FilterNE},
+		{":=", FilterEQ}, // Alternative syntax
+		{">", FilterGT},
+		{"<", FilterLT},
+		{"=", FilterEQ},
+		{":", FilterEQ}, // Shorthand
+	}
+
+	pos, opLen := -1, 0
+	var typ FilterOperator
+	for _, op := range operators {
+		if idx := strings.Index(expr, op.op); idx > 0 && (pos < 0 || idx < pos) {
+			pos, opLen, typ = idx, len(op.op), op.typ
 		}
-		
-		field := strings.TrimSpace(parts[0])
-		rangeParts := strings.Split(parts[1], " AND ")
+	}
+	if pos < 0 {
+		return nil, fmt.Errorf("invalid filter expression: %s", expr)
+	}
+
+	field := strings.TrimSpace(expr[:pos])
+	valueStr := strings.TrimSpace(expr[pos+opLen:])
+	if field == "" {
+		return nil, fmt.Errorf("invalid filter expression: %s", expr)
+	}
+
+	switch typ {
+	case FilterBETWEEN:
+		rangeParts := splitTopLevel(valueStr, FilterAND)
 		if len(rangeParts) != 2 {
-			return nil, fmt.Errorf("invalid BETWEEN range: %s", parts[1])
+			return nil, fmt.Errorf("invalid BETWEEN range: %s", valueStr)
 		}
-		
+
 		min, err := parseValue(strings.TrimSpace(rangeParts[0]))
 		if err != nil {
 			return nil, err
@@ -114,31 +213,20 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		if err != nil {
 			return nil, err
 		}
-		
+
 		return &FilterExpression{
 			Operator: FilterBETWEEN,
 			Field:    field,
 			Value:    []interface{}{min, max},
 		}, nil
-	}
-	
-	// Check for IN
-	if strings.Contains(expr, " IN ") {
-		parts := strings.Split(expr, " IN ")
-		if len(parts) != 2 {
-			return nil, fmt.Errorf("invalid IN expression: %s", expr)
-		}
-		
-		field := strings.TrimSpace(parts[0])
-		valueStr := strings.TrimSpace(parts[1])
-		
+
+	case FilterIN:
 		// Parse array values
-		if !strings.HasPrefix(valueStr, "(") || !strings.HasSuffix(valueStr, ")") {
+		if len(valueStr) < 2 || !strings.HasPrefix(valueStr, "(") || !strings.HasSuffix(valueStr, ")") {
 			return nil, fmt.Errorf("IN values must be in parentheses: %s", valueStr)
 		}
-		
-		valueStr = valueStr[1 : len(valueStr)-1]
-		valueParts := strings.Split(valueStr, ",")
+
+		valueParts := splitValues(valueStr[1 : len(valueStr)-1])
 		values := make([]interface{}, len(valueParts))
 		for i, v := range valueParts {
 			val, err := parseValue(strings.TrimSpace(v))
@@ -147,57 +235,34 @@ func parseComparison(expr string) (*FilterExpression, error) {
 			}
 			values[i] = val
 		}
-		
+
 		return &FilterExpression{
 			Operator: FilterIN,
 			Field:    field,
 			Value:    values,
 		}, nil
 	}
-	
-	// Check other operators
-	operators := []struct {
-		op  string
-		typ FilterOperator
-	}{
-		{">=", FilterGTE},
-		{"<=", FilterLTE},
-		{"!=", FilterNE},
-		{">", FilterGT},
-		{"<", FilterLT},
-		{"=", FilterEQ},
-		{":=", FilterEQ}, // Alternative syntax
-		{":", FilterEQ},  // Shorthand
-	}
-	
-	for _, op := range operators {
-		if idx := strings.Index(expr, op.op); idx > 0 {
-			field := strings.TrimSpace(expr[:idx])
-			valueStr := strings.TrimSpace(expr[idx+len(op.op):])
-			value, err := parseValue(valueStr)
-			if err != nil {
-				return nil, err
-			}
-			
-			return &FilterExpression{
-				Operator: op.typ,
-				Field:    field,
-				Value:    value,
-			}, nil
-		}
+
+	value, err := parseValue(valueStr)
+	if err != nil {
+		return nil, err
 	}
-	
-	return nil, fmt.Errorf("invalid filter expression: %s", expr)
+
+	return &FilterExpression{
+		Operator: typ,
+		Field:    field,
+		Value:    value,
+	}, nil
 }
 
 func parseValue(str string) (interface{}, error) {
 	str = strings.TrimSpace(str)
 	
 	// String with quotes
-	if strings.HasPrefix(str, "'") && strings.HasSuffix(str, "'") {
+	if len(str) > 1 && strings.HasPrefix(str, "'") && strings.HasSuffix(str, "'") {
 		return str[1 : len(str)-1], nil
 	}
-	if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
+	if len(str) > 1 && strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
 		return str[1 : len(str)-1], nil
 	}
 	
@@ -218,6 +283,13 @@ func parseValue(str string) (interface{}, error) {
 	return str, nil
 }
 
+// metadataField returns the SQL expression for the value of a metadata field. The name is taken
+// literally, and records without metadata yield NULL.
+func metadataField(column, field string) string {
+	return fmt.Sprintf("(SELECT value FROM json_each(NULLIF(%s, '')) WHERE key = '%s')",
+		column, strings.ReplaceAll(field, "'", "''"))
+}
+
 // BuildSQLFromFilter converts FilterExpression to SQL WHERE clause
 func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []interface{}) {
 	if filter == nil {
@@ -248,64 +320,83 @@ func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []in
 			}
 		}
 		return strings.Join(clauses, " OR "), params
+
+	case FilterNOT:
+		if len(filter.Children) == 0 {
+			return "0", nil
+		}
+		clause, childParams := BuildSQLFromFilter(filter.Children[0], paramIndex)
+		if clause == "" {
+			return "0", nil
+		}
+		return "NOT COALESCE((" + clause + "), 0)", childParams
 		
 	case FilterEQ:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", filter.Field), params
+		return metadataField("metadata", filter.Field) + " = ?", params
 		
 	case FilterNE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') != ?", filter.Field), params
+		return metadataField("metadata", filter.Field) + " != ?", params
 		
 	case FilterGT:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) > ?", filter.Field), params
+		return "CAST(" + metadataField("metadata", filter.Field) + " AS REAL) > ?", params
 		
 	case FilterGTE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", filter.Field), params
+		return "CAST(" + metadataField("metadata", filter.Field) + " AS REAL) >= ?", params
 		
 	case FilterLT:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) < ?", filter.Field), params
+		return "CAST(" + metadataField("metadata", filter.Field) + " AS REAL) < ?", params
 		
 	case FilterLTE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", filter.Field), params
+		return "CAST(" + metadataField("metadata", filter.Field) + " AS REAL) <= ?", params
 		
 	case FilterBETWEEN:
-		values := filter.Value.([]interface{})
+		values := filterValues(filter)
+		if len(values) != 2 {
+			return "0", nil
+		}
 		*paramIndex += 2
 		params = append(params, values[0], values[1])
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) BETWEEN ? AND ?", filter.Field), params
+		return "CAST(" + metadataField("metadata", filter.Field) + " AS REAL) BETWEEN ? AND ?", params
 		
 	case FilterIN:
-		values := filter.Value.([]interface{})
+		values := filterValues(filter)
 		placeholders := make([]string, len(values))
 		for i, v := range values {
 			*paramIndex++
 			placeholders[i] = "?"
 			params = append(params, v)
 		}
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", 
-			filter.Field, strings.Join(placeholders, ",")), params
+		return fmt.Sprintf("%s IN (%s)",
+			metadataField("metadata", filter.Field), strings.Join(placeholders, ",")), params
 		
 	case FilterLIKE:
 		*paramIndex++
 		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", filter.Field), params
+		return metadataField("metadata", filter.Field) + " LIKE ?", params
 		
 	default:
-		return "", nil
+		return "0", nil // An unsupported condition matches nothing
 	}
 }
 
+// filterValues returns the list of values of a BETWEEN or IN condition
+func filterValues(filter *FilterExpression) []interface{} {
+	values, _ := filter.Value.([]interface{})
+	return values
+}
+
 // MetadataFilter helper for building filter expressions
 type MetadataFilter struct {
 	expression *FilterExpression
@@ -528,94 +619,41 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 		return nil, wrapError("advanced_search", ErrStoreClosed)
 	}
 	
-	// Build SQL query with pre-filter
-	var whereClause string
-	var params []interface{}
-	
-	if opts.PreFilter != nil {
-		paramIndex := 0
-		whereClause, params = BuildSQLFromFilter(opts.PreFilter, &paramIndex)
+	query, err := s.prepareQuery(query, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("advanced_search", err)
 	}
-	
-	// Fetch candidates with pre-filter
-	candidates, err := s.fetchCandidatesWithSQL(ctx, whereClause, params, opts.SearchOptions)
+
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
 	if err != nil {
-		return nil, err
+		return nil, wrapError("advanced_search", err)
 	}
-	
-	// Score candidates
+
+	// Both filters restrict the candidates, so the order of filtering and scoring is free
 	results := make([]ScoredEmbedding, 0, len(candidates))
 	for _, candidate := range candidates {
-		score := s.similarityFn(query, candidate.Vector)
-		candidate.Score = score
-		
-		// Apply post-filter if specified
-		if opts.PostFilter != nil {
-			// Convert metadata to interface{} map
-			metadataIntf := make(map[string]interface{})
-			for k, v := range candidate.Metadata {
-				metadataIntf[k] = v
-			}
-			if !evaluateFilter(opts.PostFilter, metadataIntf) {
-				continue
-			}
+		if matchesMetadata(opts.PreFilter, candidate.Metadata) && matchesMetadata(opts.PostFilter, candidate.Metadata) {
+			results = append(results, candidate)
 		}
-		
-		results = append(results, candidate)
 	}
-	
-	// Sort by score (descending)
-	sort.Slice(results, func(i, j int) bool {
-		return results[i].Score > results[j].Score
-	})
-	
-	// Apply TopK limit
-	if opts.TopK > 0 && len(results) > opts.TopK {
-		results = results[:opts.TopK]
+
+	// Score, sort and apply TopK limit
+	if opts.TopK <= 0 {
+		opts.TopK = len(results)
 	}
-	
-	return results, nil
+	return s.scoreCandidates(query, results, opts.SearchOptions), nil
 }
 
-// fetchCandidatesWithSQL fetches candidates with custom SQL WHERE clause
-func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause string, params []interface{}, opts SearchOptions) ([]ScoredEmbedding, error) {
-	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
-		FROM embeddings e
-		LEFT JOIN collections c ON e.collection_id = c.id
-	`
-	
-	conditions := []string{}
-	
-	if whereClause != "" {
-		conditions = append(conditions, whereClause)
-	}
-	
-	if opts.Collection != "" {
-		conditions = append(conditions, "c.name = ?")
-		params = append(params, opts.Collection)
-	}
-	
-	if len(conditions) > 0 {
-		query += " WHERE " + strings.Join(conditions, " AND ")
-	}
-	
-	rows, err := s.db.QueryContext(ctx, query, params...)
-	if err != nil {
-		return nil, fmt.Errorf("failed to query with filter: %w", err)
+// matchesMetadata evaluates a filter expression against the metadata of an embedding
+func matchesMetadata(filter *FilterExpression, metadata map[string]string) bool {
+	if filter == nil {
+		return true
 	}
-	defer func() { _ = rows.Close() }()
-	
-	var candidates []ScoredEmbedding
-	for rows.Next() {
-		candidate, err := s.scanEmbedding(rows)
-		if err != nil {
-			continue
-		}
-		candidates = append(candidates, candidate)
+	values := make(map[string]interface{}, len(metadata))
+	for k, v := range metadata {
+		values[k] = v
 	}
-	
-	return candidates, rows.Err()
+	return evaluateFilter(filter, values)
 }
 
 // evaluateFilter evaluates a filter expression against metadata
@@ -673,7 +711,10 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		if !exists {
 			return false
 		}
-		values := filter.Value.([]interface{})
+		values := filterValues(filter)
+		if len(values) != 2 {
+			return false
+		}
 		return compareValues(val, values[0], FilterGTE) && compareValues(val, values[1], FilterLTE)
 		
 	case FilterIN:
@@ -681,7 +722,7 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		if !exists {
 			return false
 		}
-		values := filter.Value.([]interface{})
+		values := filterValues(filter)
 		for _, v := range values {
 			if compareValues(val, v, FilterEQ) {
 				return true
@@ -696,17 +737,33 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		}
 		pattern := fmt.Sprintf("%v", filter.Value)
 		text := fmt.Sprintf("%v", val)
-		// Convert SQL LIKE pattern to regex
-		pattern = strings.ReplaceAll(pattern, "%", ".*")
-		pattern = strings.ReplaceAll(pattern, "_", ".")
-		matched, _ := regexp.MatchString("^"+pattern+"$", text)
-		return matched
+		return matchesLike(asciiLower(pattern), asciiLower(text))
 		
 	default:
 		return false
 	}
 }
 
+// matchesLike matches text against a SQL LIKE pattern
+func matchesLike(pattern, text string) bool {
+	// Convert SQL LIKE pattern to regex
+	pattern = regexp.QuoteMeta(pattern)
+	pattern = strings.ReplaceAll(pattern, "%", ".*")
+	pattern = strings.ReplaceAll(pattern, "_", ".")
+	matched, _ := regexp.MatchString("^(?s:"+pattern+")$", text)
+	return matched
+}
+
+// asciiLower maps ASCII letters to lower case: SQL LIKE ignores the case of no others
+func asciiLower(str string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= 'A' && r <= 'Z' {
+			return r + ('a' - 'A')
+		}
+		return r
+	}, str)
+}
+
 // compareValues compares two values based on operator
 func compareValues(a, b interface{}, op FilterOperator) bool {
 	// Convert to comparable types
@@ -763,8 +820,16 @@ func toFloat64(val interface{}) (float64, bool) {
 		return float64(v), true
 	case int64:
 		return float64(v), true
+	case int32:
+		return float64(v), true
+	case uint:
+		return float64(v), true
+	case uint32:
+		return float64(v), true
+	case uint64:
+		return float64(v), true
 	case string:
-		if f, err := strconv.ParseFloat(v, 64); err == nil {
+		if f, err := strconv.ParseFloat(v, 64); err == nil && !math.IsNaN(f) && !math.IsInf(f, 0) {
 			return f, true
 		}
 	}
diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 7edcb7d..f4fc25f 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -3,14 +3,11 @@ package core
 
 import (
 	"context"
-	"database/sql"
 	"fmt"
 	"math"
 	"math/rand"
 	"sort"
 	"strings"
-
-	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
 // HybridSearchOptions for combined vector + keyword search
@@ -29,10 +26,18 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 		return nil, wrapError("search_acl", ErrStoreClosed)
 	}
 
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
+		return nil, wrapError("search_acl", err)
+	}
+
 	// If ACL is empty, only return public documents (acl IS NULL)
 	// If ACL is provided, return public OR matching acl
-	
-	whereClause := "json_extract(acl, '$') IS NULL" // Public
+	// An embedding without an ACL inherits that of its document
+	effectiveACL := `COALESCE(CAST(e.acl AS TEXT), (
+		SELECT NULLIF(NULLIF(CAST(d.acl AS TEXT), 'null'), '[]') FROM documents d WHERE d.id = e.doc_id))`
+
+	whereClause := effectiveACL + " IS NULL" // Public
 	params := []interface{}{}
 
 	if len(acl) > 0 {
@@ -42,17 +47,20 @@ func (s *SQLiteStore) SearchWithACL(ctx context.Context, query []float32, acl []
 			params = append(params, id)
 		}
 		// Check if any provided ACL ID exists in the acl JSON array
-		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(acl) WHERE value IN (%s))", strings.Join(placeholders, ","))
+		whereClause += fmt.Sprintf(" OR EXISTS (SELECT 1 FROM json_each(%s) WHERE value IN (%s))", effectiveACL, strings.Join(placeholders, ","))
 	}
 
 	// Fetch candidates with ACL filter
 	candidates, err := s.fetchCandidatesWithSQL(ctx, whereClause, params, opts)
 	if err != nil {
-		return nil, err
+		return nil, wrapError("search_acl", err)
 	}
 
 	// Score candidates
-	return s.scoreAndSort(query, candidates, opts)
+	if opts.TopK <= 0 {
+		opts.TopK = len(candidates)
+	}
+	return s.scoreCandidates(query, candidates, opts), nil
 }
 
 // HybridSearch performs combined vector and keyword search using RRF fusion
@@ -75,33 +83,17 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	}
 
 	// 2. Keyword Search (FTS5)
-	ftsRanks := make(map[int64]int)
+	var ftsResults []ScoredEmbedding
 	if textQuery != "" {
-		ftsQuery := `
-			SELECT rowid, rank 
-			FROM chunks_fts 
-			WHERE chunks_fts MATCH ? 
-			ORDER BY rank 
-			LIMIT ?
-		`
 		// Fetch more than topK to have a better pool for fusion
 		limit := opts.TopK * 3
 		if limit <= 0 {
 			limit = 30
 		}
-		
-		rows, err := s.db.QueryContext(ctx, ftsQuery, textQuery, limit)
-		if err == nil {
-			defer rows.Close()
-			rank := 1
-			for rows.Next() {
-				var rowid int64
-				var score float64
-				if err := rows.Scan(&rowid, &score); err == nil {
-					ftsRanks[rowid] = rank
-					rank++
-				}
-			}
+
+		ftsResults, err = s.keywordCandidates(ctx, textQuery, limit, opts.SearchOptions)
+		if err != nil {
+			return nil, fmt.Errorf("keyword search failed: %w", err)
 		}
 	}
 
@@ -124,66 +116,12 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	}
 
 	// Process FTS Ranks
-	// First, we need to map FTS rowids back to IDs
-	if len(ftsRanks) > 0 {
-		rowids := make([]int64, 0, len(ftsRanks))
-		for rid := range ftsRanks {
-			rowids = append(rowids, rid)
-		}
+	for i, res := range ftsResults {
+		fusedScores[res.ID] += 1.0 / (k + float64(i+1))
 
-		placeholders := make([]string, len(rowids))
-		args := make([]interface{}, len(rowids))
-		for i, rid := range rowids {
-			placeholders[i] = "?"
-			args[i] = rid
-		}
-
-		query := fmt.Sprintf(
-			"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.rowid "+
-				"FROM embeddings e "+
-				"LEFT JOIN collections c ON e.collection_id = c.id "+
-				"WHERE e.rowid IN (%s)",
-			strings.Join(placeholders, ","),
-		)
-
-		rows, err := s.db.QueryContext(ctx, query, args...)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var id, content, metadataJSON string
-				var docID sql.NullString
-				var collectionName sql.NullString
-				var collectionID int
-				var vectorBytes []byte
-				var rowid int64
-
-				if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &rowid); err != nil {
-					continue
-				}
-
-				// Calculate FTS score contribution
-				if rank, ok := ftsRanks[rowid]; ok {
-					score := 1.0 / (k + float64(rank))
-					fusedScores[id] += score
-
-					// If not already in map (from vector search), add it
-					if _, exists := embeddingsMap[id]; !exists {
-						vec, _ := encoding.DecodeVector(vectorBytes)
-						meta, _ := encoding.DecodeMetadata(metadataJSON)
-						
-						embeddingsMap[id] = ScoredEmbedding{
-							Embedding: Embedding{
-								ID:         id,
-								Collection: collectionName.String,
-								Vector:     vec,
-								Content:    content,
-								DocID:      docID.String,
-								Metadata:   meta,
-							},
-						}
-					}
-				}
-			}
+		// If not already in map (from vector search), add it
+		if _, exists := embeddingsMap[res.ID]; !exists {
+			embeddingsMap[res.ID] = res
 		}
 	}
 
@@ -197,7 +135,10 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 
 	// Sort by fused score
 	sort.Slice(results, func(i, j int) bool {
-		return results[i].Score > results[j].Score
+		if results[i].Score != results[j].Score {
+			return results[i].Score > results[j].Score
+		}
+		return results[i].ID < results[j].ID
 	})
 
 	// Apply TopK
@@ -208,24 +149,54 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	return results, nil
 }
 
-// scoreAndSort helper
-func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding, opts SearchOptions) ([]ScoredEmbedding, error) {
-	results := make([]ScoredEmbedding, 0, len(candidates))
-	for _, candidate := range candidates {
-		score := s.similarityFn(query, candidate.Vector)
-		candidate.Score = score
-		results = append(results, candidate)
+// keywordCandidates returns the best keyword matches that satisfy the search options
+func (s *SQLiteStore) keywordCandidates(ctx context.Context, textQuery string, limit int, opts SearchOptions) ([]ScoredEmbedding, error) {
+	results, err := s.matchKeywords(ctx, textQuery, limit, opts)
+	if err != nil && ctx.Err() == nil {
+		// Not a valid FTS5 expression, so search for its words
+		var words []string
+		for _, word := range strings.Fields(textQuery) {
+			words = append(words, `"`+strings.ReplaceAll(word, `"`, `""`)+`"`)
+		}
+		results, err = s.matchKeywords(ctx, strings.Join(words, " "), limit, opts)
 	}
-	
-	sort.Slice(results, func(i, j int) bool {
-		return results[i].Score > results[j].Score
-	})
-	
-	if opts.TopK > 0 && len(results) > opts.TopK {
-		results = results[:opts.TopK]
+	return results, err
+}
+
+// matchKeywords runs an FTS5 query
+func (s *SQLiteStore) matchKeywords(ctx context.Context, ftsQuery string, limit int, opts SearchOptions) ([]ScoredEmbedding, error) {
+	query := `
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		FROM chunks_fts
+		JOIN embeddings e ON e.rowid = chunks_fts.rowid
+		LEFT JOIN collections c ON e.collection_id = c.id
+		WHERE chunks_fts MATCH ?
+	`
+	args := []interface{}{ftsQuery}
+	conditions, params := searchConditions(opts)
+	for _, condition := range conditions {
+		query += " AND " + condition
+	}
+	args = append(args, params...)
+	query += " ORDER BY chunks_fts.rank"
+
+	rows, err := s.db.QueryContext(ctx, query, args...)
+	if err != nil {
+		return nil, err
 	}
-	
-	return results, nil
+	defer func() { _ = rows.Close() }()
+
+	var results []ScoredEmbedding
+	for len(results) < limit && rows.Next() {
+		candidate, err := s.scanEmbedding(rows)
+		if err != nil {
+			continue
+		}
+		if s.matchesFilter(candidate.Embedding, opts.Filter) {
+			results = append(results, candidate)
+		}
+	}
+	return results, rows.Err()
 }
 
 // NegativeSearchOptions for "not like this" queries
@@ -297,9 +268,9 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		
 		// Calculate positive scores
 		if len(opts.PositiveVectors) > 0 {
-			for _, posVec := range opts.PositiveVectors {
+			for j, posVec := range opts.PositiveVectors {
 				score := float32(s.similarityFn(posVec, candidates[i].Vector))
-				if score > positiveScore {
+				if j == 0 || score > positiveScore {
 					positiveScore = score
 				}
 			}
@@ -307,9 +278,9 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		
 		// Calculate negative scores
 		if len(opts.NegativeVectors) > 0 {
-			for _, negVec := range opts.NegativeVectors {
+			for j, negVec := range opts.NegativeVectors {
 				score := float32(s.similarityFn(negVec, candidates[i].Vector))
-				if score > negativeScore {
+				if j == 0 || score > negativeScore {
 					negativeScore = score
 				}
 			}
@@ -347,6 +318,10 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 		return nil, wrapError("search_diversity", ErrStoreClosed)
 	}
 	
+	if opts.TopK <= 0 {
+		opts.TopK = 10
+	}
+
 	// Get initial candidates (more than needed for diversity)
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
@@ -401,9 +376,9 @@ func (s *SQLiteStore) diversifyMMR(candidates []ScoredEmbedding, query []float32
 			
 			// Diversity score (minimum similarity to selected items)
 			maxSim := float32(0)
-			for _, sel := range selected {
+			for j, sel := range selected {
 				sim := float32(s.similarityFn(candidate.Vector, sel.Vector))
-				if sim > maxSim {
+				if j == 0 || sim > maxSim {
 					maxSim = sim
 				}
 			}
@@ -411,7 +386,7 @@ func (s *SQLiteStore) diversifyMMR(candidates []ScoredEmbedding, query []float32
 			// MMR score
 			mmrScore := lambda*relevance - (1-lambda)*maxSim
 			
-			if mmrScore > bestScore {
+			if bestIdx < 0 || mmrScore > bestScore {
 				bestScore = mmrScore
 				bestIdx = i
 			}
@@ -500,8 +475,14 @@ func (s *SQLiteStore) diversifyDPP(candidates []ScoredEmbedding, opts DiversityS
 	
 	// Build similarity kernel matrix
 	n := len(candidates)
-	if n > 100 {
-		n = 100 // Limit for computational efficiency
+	if limit := max(100, opts.TopK); n > limit {
+		n = limit // Limit for computational efficiency
+	}
+
+	// Qualities must be positive
+	quality := make([]float64, n)
+	for i := range quality {
+		quality[i] = math.Max(candidates[i].Score, 1e-6)
 	}
 	
 	kernel := make([][]float32, n)
@@ -510,11 +491,11 @@ func (s *SQLiteStore) diversifyDPP(candidates []ScoredEmbedding, opts DiversityS
 		for j := 0; j < n; j++ {
 			if i == j {
 				// Diagonal: quality score
-				kernel[i][j] = float32(candidates[i].Score)
+				kernel[i][j] = float32(quality[i])
 			} else {
 				// Off-diagonal: similarity * quality
 				sim := float32(s.similarityFn(candidates[i].Vector, candidates[j].Vector))
-				kernel[i][j] = sim * float32(math.Sqrt(float64(candidates[i].Score*candidates[j].Score)))
+				kernel[i][j] = sim * float32(math.Sqrt(quality[i]*quality[j]))
 			}
 		}
 	}
@@ -538,7 +519,7 @@ func (s *SQLiteStore) diversifyDPP(candidates []ScoredEmbedding, opts DiversityS
 				gain -= kernel[i][j] * kernel[i][j] / kernel[j][j]
 			}
 			
-			if gain > bestGain {
+			if bestIdx < 0 || gain > bestGain {
 				bestGain = gain
 				bestIdx = i
 			}
diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index 598ff25..50ba6ea 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -3,9 +3,9 @@ package core
 import (
 	"context"
 	"database/sql"
-	"encoding/json"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // AggregationType defines the type of aggregation
@@ -60,6 +60,10 @@ func (s *SQLiteStore) Aggregate(ctx context.Context, req AggregationRequest) (*A
 		return nil, wrapError("aggregate", err)
 	}
 
+	if len(req.GroupBy) > 0 {
+		return s.aggregateGroupBy(ctx, req)
+	}
+
 	switch req.Type {
 	case AggregationCount:
 		return s.aggregateCount(ctx, req)
@@ -114,11 +118,11 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	// Use JSON extraction for metadata field
 	query := fmt.Sprintf(`
 		SELECT 
-			SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as sum_value,
+			SUM(CAST(%s AS REAL)) as sum_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		metadataField("metadata", req.Field), metadataField("metadata", req.Field))
 
 	args := []interface{}{}
 
@@ -160,11 +164,11 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 
 	query := fmt.Sprintf(`
 		SELECT 
-			AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as avg_value,
+			AVG(CAST(%s AS REAL)) as avg_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		metadataField("metadata", req.Field), metadataField("metadata", req.Field))
 
 	args := []interface{}{}
 
@@ -211,11 +215,11 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 
 	query := fmt.Sprintf(`
 		SELECT 
-			%s(CAST(json_extract(metadata, '$.%s') AS REAL)) as value,
+			%s(CAST(%s AS REAL)) as value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		aggFunc, req.Field, req.Field)
+		WHERE %s IS NOT NULL`,
+		aggFunc, metadataField("metadata", req.Field), metadataField("metadata", req.Field))
 
 	args := []interface{}{}
 
@@ -258,34 +262,40 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	// Build SELECT clause for group keys
 	selectClauses := []string{}
 	groupByClauses := []string{}
-	for _, field := range req.GroupBy {
-		selectClauses = append(selectClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s') as %s", field, field))
-		groupByClauses = append(groupByClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s')", field))
+	for i, field := range req.GroupBy {
+		selectClauses = append(selectClauses, fmt.Sprintf("%s as group_%d", metadataField("metadata", field), i))
+		groupByClauses = append(groupByClauses, strconv.Itoa(i+1))
 	}
 
 	// Add aggregation based on field
-	aggClause := "COUNT(*) as agg_value"
+	aggClause := "COUNT(*)"
 	if req.Field != "" {
 		switch req.Type {
-		case AggregationSum:
-			aggClause = fmt.Sprintf("SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
-		case AggregationAvg:
-			aggClause = fmt.Sprintf("AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
-		case AggregationMin:
-			aggClause = fmt.Sprintf("MIN(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
-		case AggregationMax:
-			aggClause = fmt.Sprintf("MAX(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
-		default:
-			aggClause = "COUNT(*) as agg_value"
+		case AggregationSum, AggregationAvg, AggregationMin, AggregationMax:
+			aggClause = fmt.Sprintf("%s(CAST(%s AS REAL))", strings.ToUpper(string(req.Type)), metadataField("metadata", req.Field))
+		}
+	}
+
+	// Columns that HAVING and ORDER BY may refer to
+	column := func(name string) (string, error) {
+		for i, field := range req.GroupBy {
+			if name == field {
+				return fmt.Sprintf("group_%d", i), nil
+			}
+		}
+		switch strings.ToLower(name) {
+		case "count", "count(*)":
+			return "COUNT(*)", nil
+		case "value", "agg_value":
+			return aggClause, nil
 		}
+		return "", fmt.Errorf("unknown aggregation column: %s", name)
 	}
 
 	query := fmt.Sprintf(`
 		SELECT 
 			%s,
-			%s,
+			%s as agg_value,
 			COUNT(*) as count
 		FROM embeddings 
 		WHERE 1=1`,
@@ -310,7 +320,14 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if len(req.Having) > 0 {
 		havingClauses := []string{}
 		for field, value := range req.Having {
-			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", field))
+			expr, err := column(field)
+			if err != nil {
+				return nil, wrapError("aggregate", err)
+			}
+			if strings.HasPrefix(expr, "group_") {
+				value = fmt.Sprint(value) // Metadata values are text
+			}
+			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", expr))
 			args = append(args, value)
 		}
 		query += fmt.Sprintf(" HAVING %s", joinStrings(havingClauses, " AND "))
@@ -318,7 +335,11 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 
 	// Add ORDER BY clause
 	if req.OrderBy != "" {
-		query += fmt.Sprintf(" ORDER BY %s DESC", req.OrderBy)
+		expr, err := column(req.OrderBy)
+		if err != nil {
+			return nil, wrapError("aggregate", err)
+		}
+		query += fmt.Sprintf(" ORDER BY %s DESC", expr)
 	} else {
 		query += " ORDER BY count DESC"
 	}
@@ -410,30 +431,9 @@ func validateAggregationRequest(req AggregationRequest) error {
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND json_extract(metadata, '$.%s') = ?", field)
-		
-		// Convert value to appropriate SQL type
-		switch v := value.(type) {
-		case string:
-			args = append(args, v)
-		case int:
-			args = append(args, v)
-		case float64:
-			args = append(args, v)
-		case bool:
-			if v {
-				args = append(args, 1)
-			} else {
-				args = append(args, 0)
-			}
-		default:
-			// Try to convert to JSON string
-			if jsonBytes, err := json.Marshal(v); err == nil {
-				args = append(args, string(jsonBytes))
-			} else {
-				args = append(args, fmt.Sprintf("%v", v))
-			}
-		}
+		// Metadata values are text
+		query += fmt.Sprintf(" AND %s = ?", metadataField("metadata", field))
+		args = append(args, fmt.Sprint(value))
 	}
 	return query, args
 }
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index eed5c44..90865e1 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -241,7 +241,7 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 	}
 
 	// Delete all embeddings in the collection, then the collection
-	_, err = s.deleteEmbeddings(ctx, []deleteCondition{{"collection_id = ?", []interface{}{collectionID}}}, func(tx *sql.Tx) error {
+	_, err = s.deleteEmbeddings(ctx, []deleteCondition{{where: "collection_id = ?", args: []interface{}{collectionID}}}, func(tx *sql.Tx) error {
 		if _, err := tx.ExecContext(ctx, "DELETE FROM collections WHERE id = ?", collectionID); err != nil {
 			return fmt.Errorf("failed to delete collection: %w", err)
 		}
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index cd402e2..f1f65e0 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -82,11 +82,16 @@ func (s *SQLiteStore) SearchWithFacets(ctx context.Context, query []float32, opt
 		return nil, nil, wrapError("search_faceted", ErrStoreClosed)
 	}
 	
+	query, err := s.prepareQuery(query, opts.SearchOptions)
+	if err != nil {
+		return nil, nil, wrapError("search_faceted", err)
+	}
+
 	// Build faceted query
 	whereClause, args := s.buildFacetedWhereClause(opts.Facets)
 	
 	// Get candidates with facet filtering
-	candidates, err := s.fetchCandidatesWithFacets(ctx, whereClause, args, opts)
+	candidates, err := s.fetchCandidatesWithSQL(ctx, whereClause, args, opts.SearchOptions)
 	if err != nil {
 		return nil, nil, wrapError("search_faceted", err)
 	}
@@ -99,8 +104,7 @@ func (s *SQLiteStore) SearchWithFacets(ctx context.Context, query []float32, opt
 	if opts.ReturnFacets {
 		facetResults, err = s.computeFacetCounts(ctx, opts)
 		if err != nil {
-			// Don't fail search if facet counting fails
-			facetResults = []FacetResult{}
+			return nil, nil, wrapError("search_faceted", err)
 		}
 	}
 	
@@ -119,7 +123,7 @@ func (s *SQLiteStore) buildFacetedWhereClause(facets map[string]FacetFilter) (st
 	for field, filter := range facets {
 		condition, filterArgs := s.buildFilterCondition(field, filter)
 		if condition != "" {
-			conditions = append(conditions, condition)
+			conditions = append(conditions, "("+condition+")")
 			args = append(args, filterArgs...)
 		}
 	}
@@ -133,10 +137,12 @@ func (s *SQLiteStore) buildFacetedWhereClause(facets map[string]FacetFilter) (st
 
 // buildFilterCondition builds SQL condition for a single filter
 func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (string, []interface{}) {
+	value := metadataField("e.metadata", field)
+
 	switch filter.Type {
 	case FilterTypeEquals:
 		if len(filter.Values) > 0 {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", field), filter.Values[:1]
+			return value + " = ?", textValues(filter.Values[:1])
 		}
 		
 	case FilterTypeIn:
@@ -145,7 +151,7 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 			for i := range placeholders {
 				placeholders[i] = "?"
 			}
-			return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", field, strings.Join(placeholders, ",")), filter.Values
+			return fmt.Sprintf("%s IN (%s)", value, strings.Join(placeholders, ",")), textValues(filter.Values)
 		}
 		
 	case FilterTypeRange:
@@ -153,11 +159,11 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		args := []interface{}{}
 		
 		if filter.Min != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", field))
+			conditions = append(conditions, "CAST("+value+" AS REAL) >= CAST(? AS REAL)")
 			args = append(args, filter.Min)
 		}
 		if filter.Max != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", field))
+			conditions = append(conditions, "CAST("+value+" AS REAL) <= CAST(? AS REAL)")
 			args = append(args, filter.Max)
 		}
 		
@@ -167,16 +173,16 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		
 	case FilterTypeContains:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{"%" + filter.Pattern + "%"}
+			return value + ` LIKE ? ESCAPE '\'`, []interface{}{"%" + escapeLike(filter.Pattern) + "%"}
 		}
 		
 	case FilterTypePrefix:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{filter.Pattern + "%"}
+			return value + ` LIKE ? ESCAPE '\'`, []interface{}{escapeLike(filter.Pattern) + "%"}
 		}
 		
 	case FilterTypeExists:
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IS NOT NULL", field), nil
+		return value + " IS NOT NULL", nil
 		
 	case FilterTypeNested:
 		return s.buildNestedCondition(field, filter)
@@ -185,6 +191,20 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 	return "", nil
 }
 
+// textValues converts values to the text form in which metadata is stored
+func textValues(values []interface{}) []interface{} {
+	result := make([]interface{}, len(values))
+	for i, value := range values {
+		result[i] = fmt.Sprint(value)
+	}
+	return result
+}
+
+// escapeLike makes a LIKE pattern that matches the text literally
+func escapeLike(text string) string {
+	return strings.NewReplacer(`\`, `\\`, `%`, `\%`, `_`, `\_`).Replace(text)
+}
+
 // buildNestedCondition builds SQL for nested filter conditions
 func (s *SQLiteStore) buildNestedCondition(field string, filter FacetFilter) (string, []interface{}) {
 	if len(filter.Nested) == 0 {
@@ -219,92 +239,46 @@ func (s *SQLiteStore) buildNestedCondition(field string, filter FacetFilter) (st
 	return strings.Join(conditions, operator), args
 }
 
-// fetchCandidatesWithFacets fetches candidates with facet filtering
-func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause string, args []interface{}, opts FacetedSearchOptions) ([]ScoredEmbedding, error) {
-	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
-		FROM embeddings e
-		LEFT JOIN collections c ON e.collection_id = c.id
-	`
-	
-	conditions := []string{}
-	
-	// Add facet conditions
-	if whereClause != "" {
-		conditions = append(conditions, whereClause)
-	}
-	
-	// Add collection filter
-	if opts.Collection != "" {
-		conditions = append(conditions, "c.name = ?")
-		args = append(args, opts.Collection)
-	}
-	
-	// Add metadata filter
-	if opts.Filter != nil {
-		for key, value := range opts.Filter {
-			conditions = append(conditions, fmt.Sprintf("json_extract(metadata, '$.%s') = ?", key))
-			args = append(args, value)
-		}
-	}
-	
-	if len(conditions) > 0 {
-		query += " WHERE " + strings.Join(conditions, " AND ")
-	}
-	
-	// Add limit for performance
-	if opts.TopK > 0 {
-		query += fmt.Sprintf(" LIMIT %d", opts.TopK*10) // Get more candidates for scoring
-	}
-	
-	rows, err := s.db.QueryContext(ctx, query, args...)
-	if err != nil {
-		return nil, fmt.Errorf("failed to query with facets: %w", err)
-	}
-	defer func() {
-		if err := rows.Close(); err != nil {
-			// Log error but don't override the main error
-			_ = err
-		}
-	}()
-	
-	var candidates []ScoredEmbedding
-	for rows.Next() {
-		candidate, err := s.scanEmbedding(rows)
-		if err != nil {
-			continue
-		}
-		candidates = append(candidates, candidate)
-	}
-	
-	return candidates, rows.Err()
-}
-
 // computeFacetCounts computes facet value counts
 func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearchOptions) ([]FacetResult, error) {
 	results := []FacetResult{}
 	
 	// For each facet field, count distinct values
 	for field := range opts.Facets {
+		value := metadataField("e.metadata", field)
 		query := fmt.Sprintf(`
-			SELECT 
-				json_extract(metadata, '$.%s') as value,
+			SELECT
+				%s as value,
 				COUNT(*) as count
-			FROM embeddings
-			WHERE json_extract(metadata, '$.%s') IS NOT NULL
-			GROUP BY value
-			ORDER BY count DESC
+			FROM embeddings e
+			WHERE %s IS NOT NULL
+		`, value, value)
+
+		// Count within the searched collection and metadata filter
+		conditions, args := searchConditions(opts.SearchOptions)
+		for key, filterValue := range opts.Filter {
+			if key != "doc_id" {
+				conditions = append(conditions, metadataField("e.metadata", key)+" = ?")
+				args = append(args, filterValue)
+			}
+		}
+		for _, condition := range conditions {
+			query += " AND " + condition
+		}
+		query += `
+			GROUP BY 1
+			ORDER BY count DESC, value
 			LIMIT ?
-		`, field, field)
-		
+		`
+
 		limit := opts.MaxFacetValues
 		if limit <= 0 {
 			limit = 10
 		}
 		
-		rows, err := s.db.QueryContext(ctx, query, limit)
+		rows, err := s.db.QueryContext(ctx, query, append(args, limit)...)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to count facet values: %w", err)
 		}
 		
 		facetResult := FacetResult{
@@ -320,6 +294,10 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 				facetResult.Total += count
 			}
 		}
+		if err := rows.Err(); err != nil {
+			_ = rows.Close()
+			return nil, fmt.Errorf("failed to count facet values: %w", err)
+		}
 		if err := rows.Close(); err != nil {
 			// Log error but don't override the main error
 			_ = err
@@ -347,6 +325,19 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		return nil, fmt.Errorf("radius must be positive, got %f", radius)
 	}
 	
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
+		return nil, wrapError("range_search", err)
+	}
+
+	// - Euclidean: score is negative distance, so actual distance = -score
+	// - Cosine: score is similarity (-1 to 1), so distance = 1 - score
+	// - DotProduct: not suitable for range search (unbounded)
+	// A vector's similarity to itself tells them apart.
+	unit := make([]float32, len(query))
+	unit[0] = 1
+	negativeDistance := s.similarityFn(unit, unit) <= 0
+
 	// Get all candidates (no topK limit for range search)
 	candidates, err := s.fetchCandidates(ctx, opts)
 	if err != nil {
@@ -364,20 +355,13 @@ func (s *SQLiteStore) RangeSearch(ctx context.Context, query []float32, radius f
 		
 		score := s.similarityFn(query, candidate.Vector)
 		
-		// For range search, we need to handle different similarity metrics:
-		// - Euclidean: score is negative distance, so actual distance = -score
-		// - Cosine: score is similarity (0 to 1), so distance = 1 - score
-		// - DotProduct: not suitable for range search (unbounded)
-		
 		var distance float32
-		if score <= 0 {
-			// Euclidean distance (negative score)
+		if negativeDistance {
 			distance = float32(-score)
 		} else {
-			// Cosine similarity or other bounded metrics
 			distance = float32(1.0 - score)
 		}
-		
+
 		if distance <= radius {
 			// For display, use the actual distance as the score for range search
 			candidate.Score = float64(distance)
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 1f7d5b6..c2455ee 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -70,7 +70,7 @@ func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*E
 		vectorBytes  []byte
 		docID        sql.NullString
 		metadataJSON string
-		aclJSON      []byte
+		aclJSON      sql.NullString
 	}
 	rows := make([]row, len(embs))
 	collectionIDs := make(map[string]int)
@@ -125,10 +125,12 @@ func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*E
 
 		// Encode ACL
 		if len(emb.ACL) > 0 {
-			r.aclJSON, err = json.Marshal(emb.ACL)
+			aclJSON, err := json.Marshal(emb.ACL)
 			if err != nil {
 				return wrapError(op, fmt.Errorf("failed to marshal ACL at index %d: %w", i, err))
 			}
+			// Stored as text: SQLite may take a blob for its binary JSON format
+			r.aclJSON = sql.NullString{String: string(aclJSON), Valid: true}
 		}
 
 		// Handle DocID (treat empty as NULL)
@@ -327,7 +329,18 @@ func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteC
 	}()
 
 	var ids []string
-	for _, c := range conditions {
+	for i := 0; i < len(conditions); i++ {
+		c := conditions[i]
+		if c.filter != nil {
+			matching, err := idsMatching(ctx, tx, c.filter)
+			if err != nil {
+				return nil, fmt.Errorf("failed to evaluate filter: %w", err)
+			}
+			for _, id := range matching {
+				conditions = append(conditions, deleteCondition{where: c.where, args: []interface{}{id}})
+			}
+			continue
+		}
 		rows, err := tx.QueryContext(ctx, "DELETE FROM embeddings WHERE "+c.where+" RETURNING id", c.args...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to delete embeddings: %w", err)
@@ -365,8 +378,35 @@ func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteC
 
 // deleteCondition selects embeddings to delete
 type deleteCondition struct {
-	where string
-	args  []interface{}
+	where  string
+	args   []interface{}
+	filter *FilterExpression // If set, where is applied to the ID of each matching embedding
+}
+
+// idsMatching returns the IDs of the embeddings whose metadata satisfies the filter
+func idsMatching(ctx context.Context, tx *sql.Tx, filter *FilterExpression) ([]string, error) {
+	rows, err := tx.QueryContext(ctx, "SELECT id, metadata FROM embeddings")
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = rows.Close() }()
+
+	var ids []string
+	for rows.Next() {
+		var id string
+		var metadataJSON sql.NullString
+		if err := rows.Scan(&id, &metadataJSON); err != nil {
+			return nil, err
+		}
+		metadata, err := encoding.DecodeMetadata(metadataJSON.String)
+		if err != nil {
+			return nil, fmt.Errorf("failed to decode metadata of %s: %w", id, err)
+		}
+		if matchesMetadata(filter, metadata) {
+			ids = append(ids, id)
+		}
+	}
+	return ids, rows.Err()
 }
 
 // Delete removes an embedding by ID
@@ -382,7 +422,7 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 		return wrapError("delete", fmt.Errorf("ID cannot be empty"))
 	}
 
-	deleted, err := s.deleteEmbeddings(ctx, []deleteCondition{{"id = ?", []interface{}{id}}})
+	deleted, err := s.deleteEmbeddings(ctx, []deleteCondition{{where: "id = ?", args: []interface{}{id}}})
 	if err != nil {
 		return wrapError("delete", err)
 	}
@@ -407,7 +447,7 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{{"doc_id = ?", []interface{}{docID}}}); err != nil {
+	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{{where: "doc_id = ?", args: []interface{}{docID}}}); err != nil {
 		return wrapError("delete_by_doc_id", err)
 	}
 
@@ -455,7 +495,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 			placeholders[j] = "?"
 			args[j] = id
 		}
-		conditions = append(conditions, deleteCondition{fmt.Sprintf("id IN (%s)", strings.Join(placeholders, ",")), args})
+		conditions = append(conditions, deleteCondition{where: fmt.Sprintf("id IN (%s)", strings.Join(placeholders, ",")), args: args})
 	}
 
 	deleted, err := s.deleteEmbeddings(ctx, conditions)
@@ -485,13 +525,8 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 		return wrapError("delete_by_filter", ErrStoreClosed)
 	}
 
-	// Build WHERE clause from filter
-	whereClause, params := filter.ToSQL()
-	if whereClause == "" {
-		return wrapError("delete_by_filter", fmt.Errorf("failed to build filter"))
-	}
-
-	deleted, err := s.deleteEmbeddings(ctx, []deleteCondition{{whereClause, params}})
+	// One definition of what a filter matches serves searching and deleting
+	deleted, err := s.deleteEmbeddings(ctx, []deleteCondition{{where: "id = ?", filter: filter.expression}})
 	if err != nil {
 		return wrapError("delete_by_filter", err)
 	}
@@ -510,7 +545,7 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
-	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{{"1 = 1", nil}}); err != nil {
+	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{{where: "1 = 1", args: nil}}); err != nil {
 		return wrapError("clear", err)
 	}
 
@@ -537,7 +572,7 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		if docID == "" {
 			continue // Skip empty doc IDs
 		}
-		conditions = append(conditions, deleteCondition{"doc_id = ?", []interface{}{docID}})
+		conditions = append(conditions, deleteCondition{where: "doc_id = ?", args: []interface{}{docID}})
 	}
 
 	if _, err := s.deleteEmbeddings(ctx, conditions); err != nil {
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index c6b4ab2..6095204 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -22,25 +22,12 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 // searchLocked is Search for callers that hold the store lock. They must not call Search:
 // a second read lock deadlocks once a writer waits in between.
 func (s *SQLiteStore) searchLocked(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
-	storeDim := s.config.VectorDim
-
 	if s.closed {
 		return nil, wrapError("search", ErrStoreClosed)
 	}
 
-	queryDim := len(query)
-
-	// Auto-adapt query vector if dimensions don't match
-	if storeDim > 0 && queryDim != storeDim {
-		adaptedQuery, err := s.adapter.AdaptVector(query, queryDim, storeDim)
-		if err != nil {
-			return nil, wrapError("search", fmt.Errorf("query adaptation failed: %w", err))
-		}
-		s.adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
-		query = adaptedQuery
-	}
-
-	if err := s.validateSearchInput(query, opts); err != nil {
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
 		return nil, wrapError("search", err)
 	}
 
@@ -64,30 +51,38 @@ func (s *SQLiteStore) searchLocked(ctx context.Context, query []float32, opts Se
 	return results, nil
 }
 
-// SearchWithFilter performs vector similarity search with advanced metadata filtering
-func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
+// prepareQuery adapts a query vector to the store's dimension and validates it
+func (s *SQLiteStore) prepareQuery(query []float32, opts SearchOptions) ([]float32, error) {
 	storeDim := s.config.VectorDim
-
-	if s.closed {
-		return nil, wrapError("searchWithFilter", ErrStoreClosed)
-	}
-
 	queryDim := len(query)
 
 	// Auto-adapt query vector if dimensions don't match
 	if storeDim > 0 && queryDim != storeDim {
 		adaptedQuery, err := s.adapter.AdaptVector(query, queryDim, storeDim)
 		if err != nil {
-			return nil, wrapError("searchWithFilter", fmt.Errorf("query adaptation failed: %w", err))
+			return nil, fmt.Errorf("query adaptation failed: %w", err)
 		}
 		s.adapter.logDimensionEvent("search_adapt", queryDim, storeDim, "query_vector")
 		query = adaptedQuery
 	}
 
 	if err := s.validateSearchInput(query, opts); err != nil {
+		return nil, err
+	}
+	return query, nil
+}
+
+// SearchWithFilter performs vector similarity search with advanced metadata filtering
+func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	if s.closed {
+		return nil, wrapError("searchWithFilter", ErrStoreClosed)
+	}
+
+	query, err := s.prepareQuery(query, opts)
+	if err != nil {
 		return nil, wrapError("searchWithFilter", err)
 	}
 
@@ -324,38 +319,51 @@ func (s *SQLiteStore) validateSearchInput(query []float32, opts SearchOptions) e
 // buildSearchQuery builds SQL query with filtering
 func (s *SQLiteStore) buildSearchQuery(opts SearchOptions) (string, []interface{}) {
 	querySQL := "SELECT e.id, e.collection_id, c.name as collection_name, e.vector, e.content, e.doc_id, e.metadata FROM embeddings e LEFT JOIN collections c ON e.collection_id = c.id"
-	args := []interface{}{}
+	conditions, args := searchConditions(opts)
 
-	var conditions []string
+	if len(conditions) > 0 {
+		querySQL += " WHERE " + strings.Join(conditions, " AND ")
+	}
 
+	return querySQL, args
+}
+
+// searchConditions returns the SQL conditions on embeddings e that search options imply
+func searchConditions(opts SearchOptions) (conditions []string, args []interface{}) {
 	// Filter by collection if specified
 	if opts.Collection != "" {
-		conditions = append(conditions, "collection_id = (SELECT id FROM collections WHERE name = ?)")
+		conditions = append(conditions, "e.collection_id = (SELECT id FROM collections WHERE name = ?)")
 		args = append(args, opts.Collection)
 	}
 
 	// Handle other filters
 	for key, value := range opts.Filter {
 		if key == "doc_id" {
-			conditions = append(conditions, "doc_id = ?")
+			conditions = append(conditions, "e.doc_id = ?")
 			args = append(args, value)
 		}
 		// Note: Non-doc_id metadata filtering is done post-query
 	}
 
-	if len(conditions) > 0 {
-		querySQL += " WHERE " + conditions[0]
-		for i := 1; i < len(conditions); i++ {
-			querySQL += " AND " + conditions[i]
-		}
-	}
-
-	return querySQL, args
+	return conditions, args
 }
 
 // fetchCandidates retrieves candidate embeddings from database
 func (s *SQLiteStore) fetchCandidates(ctx context.Context, opts SearchOptions) ([]ScoredEmbedding, error) {
+	return s.fetchCandidatesWithSQL(ctx, "", nil, opts)
+}
+
+// fetchCandidatesWithSQL retrieves the candidates that also satisfy an SQL condition on embeddings e
+func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, condition string, params []interface{}, opts SearchOptions) ([]ScoredEmbedding, error) {
 	querySQL, args := s.buildSearchQuery(opts)
+	if condition != "" {
+		if len(args) > 0 {
+			querySQL += " AND (" + condition + ")"
+		} else {
+			querySQL += " WHERE (" + condition + ")"
+		}
+		args = append(args, params...)
+	}
 
 	rows, err := s.db.QueryContext(ctx, querySQL, args...)
 	if err != nil {
-- 
2.43.0


From 2f9381bd264373efd52af872272581122e0eed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:02 +0000
Subject: [PATCH 07/32] fix: restore everything from a dump and make backups
 consistent

- a dump carries access lists and the documents and collections its records need
- loading malformed lines ends with an error instead of looping forever
- a backup's keyword index is rebuilt, since VACUUM renumbers the rows
- an imported index is reconciled with the stored embeddings
---
 pkg/core/document.go |  11 +-
 pkg/core/io.go       | 238 ++++++++++++++++++++++++++++++++++++-------
 2 files changed, 212 insertions(+), 37 deletions(-)

diff --git a/pkg/core/document.go b/pkg/core/document.go
index 0bf689e..b00c925 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -46,7 +46,7 @@ func (s *SQLiteStore) CreateDocument(ctx context.Context, doc *Document) error {
 		VALUES (?, ?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`
 
-	_, err = s.db.ExecContext(ctx, query, doc.ID, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, metadataJSON, aclJSON)
+	_, err = s.db.ExecContext(ctx, query, doc.ID, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, string(metadataJSON), string(aclJSON))
 	if err != nil {
 		return wrapError("create_document", fmt.Errorf("failed to insert document: %w", err))
 	}
@@ -59,6 +59,11 @@ func (s *SQLiteStore) GetDocument(ctx context.Context, id string) (*Document, er
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	return s.getDocumentLocked(ctx, id)
+}
+
+// getDocumentLocked is GetDocument for callers that hold the store lock
+func (s *SQLiteStore) getDocumentLocked(ctx context.Context, id string) (*Document, error) {
 	if s.closed {
 		return nil, wrapError("get_document", ErrStoreClosed)
 	}
@@ -104,7 +109,7 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 
 	// Delete the embeddings too, rather than leave them to the cascade, to learn which ones
 	// must be removed from the in-memory indexes
-	_, err := s.deleteEmbeddings(ctx, []deleteCondition{{"doc_id = ?", []interface{}{id}}}, func(tx *sql.Tx) error {
+	_, err := s.deleteEmbeddings(ctx, []deleteCondition{{where: "doc_id = ?", args: []interface{}{id}}}, func(tx *sql.Tx) error {
 		if _, err := tx.ExecContext(ctx, "DELETE FROM documents WHERE id = ?", id); err != nil {
 			return fmt.Errorf("failed to delete document: %w", err)
 		}
@@ -142,7 +147,7 @@ func (s *SQLiteStore) UpdateDocument(ctx context.Context, doc *Document) error {
 		WHERE id = ?
 	`
 
-	result, err := s.db.ExecContext(ctx, query, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, metadataJSON, aclJSON, doc.ID)
+	result, err := s.db.ExecContext(ctx, query, doc.Title, doc.SourceURL, doc.Content, doc.Version, doc.Author, string(metadataJSON), string(aclJSON), doc.ID)
 	if err != nil {
 		return wrapError("update_document", fmt.Errorf("failed to update document: %w", err))
 	}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 5a926e5..4135fab 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -9,7 +9,7 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
+	"sort"
 	"time"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -109,10 +109,18 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	schemaStats, _ := s.statsLocked(ctx)
 	stats.TotalDocuments = int(schemaStats.Count)
 
+	// Embeddings cannot be loaded without the documents and collections they belong to
+	documents, collections, err := s.getDocumentsOf(ctx, embeddings)
+	if err != nil {
+		return nil, wrapError("dump_json", err)
+	}
+
 	// Build export structure
 	export := struct {
-		Metadata   ExportMetadata `json:"metadata"`
-		Embeddings []*Embedding   `json:"embeddings"`
+		Metadata    ExportMetadata `json:"metadata"`
+		Collections []*Collection  `json:"collections,omitempty"`
+		Documents   []*Document    `json:"documents,omitempty"`
+		Embeddings  []*Embedding   `json:"embeddings"`
 	}{
 		Metadata: ExportMetadata{
 			Version:    "1.0",
@@ -121,7 +129,9 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 			ExportedAt: currentTimeStr(),
 			Config:     s.config,
 		},
-		Embeddings: embeddings,
+		Collections: collections,
+		Documents:   documents,
+		Embeddings:  embeddings,
 	}
 
 	// Encode and write
@@ -134,6 +144,11 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	return stats, nil
 }
 
+// documentLine is the JSON Lines form of a document; every other line is an embedding
+type documentLine struct {
+	Document *Document `json:"document,omitempty"`
+}
+
 // dumpJSONL exports data as JSON Lines (one JSON per line)
 func (s *SQLiteStore) dumpJSONL(ctx context.Context, w io.Writer, opts DumpOptions) (*DumpStats, error) {
 	stats := &DumpStats{}
@@ -144,7 +159,18 @@ func (s *SQLiteStore) dumpJSONL(ctx context.Context, w io.Writer, opts DumpOptio
 	}
 	stats.TotalEmbeddings = len(embeddings)
 
+	// Embeddings cannot be loaded without the documents they belong to
+	documents, _, err := s.getDocumentsOf(ctx, embeddings)
+	if err != nil {
+		return nil, wrapError("dump_jsonl", err)
+	}
+
 	encoder := json.NewEncoder(w)
+	for _, doc := range documents {
+		if err := encoder.Encode(documentLine{Document: doc}); err != nil {
+			return stats, wrapError("dump_jsonl", fmt.Errorf("failed to encode: %w", err))
+		}
+	}
 	for _, emb := range embeddings {
 		if err := encoder.Encode(emb); err != nil {
 			return stats, wrapError("dump_jsonl", fmt.Errorf("failed to encode: %w", err))
@@ -165,7 +191,6 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 	stats.TotalEmbeddings = len(embeddings)
 
 	writer := csv.NewWriter(w)
-	defer writer.Flush()
 
 	// Write header
 	headers := []string{"id", "content", "doc_id", "metadata"}
@@ -194,29 +219,25 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 		}
 	}
 
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		return nil, wrapError("dump_csv", err)
+	}
+
 	return stats, nil
 }
 
 // getAllEmbeddings retrieves all embeddings with optional filtering
 func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([]*Embedding, error) {
 	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
 		FROM embeddings e
 		LEFT JOIN collections c ON e.collection_id = c.id
 	`
 
-	var args []interface{}
-	if opts.Filter != nil && !opts.Filter.IsEmpty() {
-		whereClause, params := opts.Filter.ToSQL()
-		if whereClause != "" {
-			// Prefix metadata with 'e.' to avoid ambiguity with collections table
-			whereClause = strings.ReplaceAll(whereClause, "json_extract(metadata", "json_extract(e.metadata")
-			query += " WHERE " + whereClause
-			args = params
-		}
-	}
-
-	rows, err := s.db.QueryContext(ctx, query, args...)
+	rows, err := s.db.QueryContext(ctx, query)
 	if err != nil {
 		return nil, wrapError("get_all_embeddings", fmt.Errorf("failed to query: %w", err))
 	}
@@ -224,20 +245,14 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 
 	var embeddings []*Embedding
 	for rows.Next() {
-		scoredEmb, err := s.scanEmbedding(rows)
+		emb, err := s.scanEmbeddingForGet(rows)
 		if err != nil {
 			// Log error but continue with other rows
 			continue
 		}
 
-		// Convert ScoredEmbedding to Embedding
-		emb := &Embedding{
-			ID:           scoredEmb.ID,
-			Collection:   scoredEmb.Collection,
-			Vector:       scoredEmb.Vector,
-			Content:      scoredEmb.Content,
-			DocID:        scoredEmb.DocID,
-			Metadata:     scoredEmb.Metadata,
+		if !opts.Filter.IsEmpty() && !matchesMetadata(opts.Filter.expression, emb.Metadata) {
+			continue
 		}
 
 		if !opts.IncludeVectors {
@@ -250,6 +265,43 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 	return embeddings, rows.Err()
 }
 
+// getDocumentsOf retrieves the documents and collections that the embeddings refer to
+func (s *SQLiteStore) getDocumentsOf(ctx context.Context, embeddings []*Embedding) ([]*Document, []*Collection, error) {
+	docIDs := make(map[string]bool)
+	names := make(map[string]bool)
+	for _, emb := range embeddings {
+		docIDs[emb.DocID] = true
+		names[emb.Collection] = true
+	}
+	delete(docIDs, "")
+	delete(names, "")
+
+	var documents []*Document
+	for id := range docIDs {
+		doc, err := s.getDocumentLocked(ctx, id)
+		if errors.Is(err, ErrNotFound) {
+			continue
+		}
+		if err != nil {
+			return nil, nil, err
+		}
+		documents = append(documents, doc)
+	}
+	sort.Slice(documents, func(i, j int) bool { return documents[i].ID < documents[j].ID })
+
+	var collections []*Collection
+	for name := range names {
+		collection, err := s.getCollectionLocked(ctx, name)
+		if err != nil {
+			return nil, nil, err
+		}
+		collections = append(collections, collection)
+	}
+	sort.Slice(collections, func(i, j int) bool { return collections[i].ID < collections[j].ID })
+
+	return documents, collections, nil
+}
+
 // Load imports embeddings from a reader
 func (s *SQLiteStore) Load(ctx context.Context, r io.Reader, opts LoadOptions) (*ImportStats, error) {
 	if s.isClosed() {
@@ -291,8 +343,9 @@ func (s *SQLiteStore) loadJSON(ctx context.Context, r io.Reader, opts LoadOption
 	stats := &ImportStats{}
 
 	var export struct {
-		Metadata   ExportMetadata `json:"metadata"`
-		Embeddings []*Embedding   `json:"embeddings"`
+		Collections []*Collection `json:"collections"`
+		Documents   []*Document   `json:"documents"`
+		Embeddings  []*Embedding  `json:"embeddings"`
 	}
 
 	decoder := json.NewDecoder(r)
@@ -300,6 +353,19 @@ func (s *SQLiteStore) loadJSON(ctx context.Context, r io.Reader, opts LoadOption
 		return nil, wrapError("load_json", fmt.Errorf("failed to decode JSON: %w", err))
 	}
 
+	for _, collection := range export.Collections {
+		if collection != nil {
+			if err := s.importCollection(ctx, collection); err != nil {
+				return nil, wrapError("load_json", err)
+			}
+		}
+	}
+	for _, doc := range export.Documents {
+		if err := s.importDocument(ctx, doc, stats); err != nil {
+			return nil, wrapError("load_json", err)
+		}
+	}
+
 	// Batch upsert
 	for _, emb := range export.Embeddings {
 		skipped, err := s.processImportEmbedding(ctx, emb, opts)
@@ -323,16 +389,30 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 
 	decoder := json.NewDecoder(r)
 	for {
-		var emb Embedding
-		if err := decoder.Decode(&emb); err != nil {
+		var line struct {
+			Embedding
+			documentLine
+		}
+		if err := decoder.Decode(&line); err != nil {
 			if errors.Is(err, io.EOF) {
 				break
 			}
 			stats.FailedCount++
+			var typeErr *json.UnmarshalTypeError
+			if errors.As(err, &typeErr) {
+				continue // The decoder has moved on to the next value
+			}
+			return stats, wrapError("load_jsonl", fmt.Errorf("failed to decode JSON: %w", err))
+		}
+
+		if line.Document != nil {
+			if err := s.importDocument(ctx, line.Document, stats); err != nil {
+				return stats, wrapError("load_jsonl", err)
+			}
 			continue
 		}
 
-		skipped, err := s.processImportEmbedding(ctx, &emb, opts)
+		skipped, err := s.processImportEmbedding(ctx, &line.Embedding, opts)
 		if err != nil {
 			stats.FailedCount++
 			continue
@@ -349,6 +429,10 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 
 // processImportEmbedding processes a single embedding during import
 func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding, opts LoadOptions) (skipped bool, err error) {
+	if emb == nil {
+		return false, fmt.Errorf("embedding is nil")
+	}
+
 	// Check if exists
 	if opts.SkipExisting {
 		existing, _ := s.GetByID(ctx, emb.ID)
@@ -357,6 +441,14 @@ func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding
 		}
 	}
 
+	// The collection's number may mean another collection here
+	emb.CollectionID = 0
+	if emb.Collection != "" {
+		if err := s.importCollection(ctx, &Collection{Name: emb.Collection}); err != nil {
+			return false, err
+		}
+	}
+
 	// Use upsert or insert
 	if opts.Upsert {
 		return false, s.Upsert(ctx, emb)
@@ -365,6 +457,53 @@ func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding
 	return false, s.Upsert(ctx, emb)
 }
 
+// importCollection creates a collection unless it exists
+func (s *SQLiteStore) importCollection(ctx context.Context, collection *Collection) error {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	if s.closed {
+		return ErrStoreClosed
+	}
+
+	var metadataJSON sql.NullString
+	if len(collection.Metadata) > 0 {
+		data, err := json.Marshal(collection.Metadata)
+		if err != nil {
+			return fmt.Errorf("failed to marshal collection metadata: %w", err)
+		}
+		metadataJSON = sql.NullString{String: string(data), Valid: true}
+	}
+	_, err := s.db.ExecContext(ctx, `
+		INSERT INTO collections (name, dimensions, description, metadata, created_at, updated_at)
+		VALUES (?, ?, NULLIF(?, ''), ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
+		ON CONFLICT (name) DO NOTHING
+	`, collection.Name, collection.Dimensions, collection.Description, metadataJSON)
+	if err != nil {
+		return fmt.Errorf("failed to create collection '%s': %w", collection.Name, err)
+	}
+	return nil
+}
+
+// importDocument creates a document unless it exists
+func (s *SQLiteStore) importDocument(ctx context.Context, doc *Document, stats *ImportStats) error {
+	if doc == nil {
+		return nil
+	}
+	_, err := s.GetDocument(ctx, doc.ID)
+	if err == nil {
+		return nil
+	}
+	if !errors.Is(err, ErrNotFound) {
+		return err
+	}
+	if err := s.CreateDocument(ctx, doc); err != nil {
+		return err
+	}
+	stats.TotalDocuments++
+	return nil
+}
+
 // DumpToFile exports data to a file
 func (s *SQLiteStore) DumpToFile(ctx context.Context, filepath string, opts DumpOptions) (*DumpStats, error) {
 	file, err := os.Create(filepath)
@@ -454,7 +593,13 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 			})
 		}
 
-		if err := s.hnswIndex.Load(file); err != nil {
+		err := s.hnswIndex.Load(file)
+		if err == nil {
+			// The file may describe other embeddings than the stored ones
+			if err := s.reconcileHNSWIndex(ctx); err != nil {
+				return wrapError("import_index", err)
+			}
+		} else {
 			// Try IVF format
 			file.Seek(0, 0)
 			if s.ivfIndex == nil {
@@ -463,6 +608,9 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 			if err := s.ivfIndex.Load(file); err != nil {
 				return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
 			}
+			if err := s.reconcileIVFIndex(ctx); err != nil {
+				return wrapError("import_index", err)
+			}
 		}
 		return nil
 	}
@@ -480,14 +628,36 @@ func (s *SQLiteStore) Backup(ctx context.Context, filepath string) error {
 	}
 
 	// Use SQLite backup API
-	_, err := s.db.ExecContext(ctx, fmt.Sprintf("VACUUM INTO '%s'", filepath))
+	_, err := s.db.ExecContext(ctx, "VACUUM INTO ?", filepath)
 	if err != nil {
 		return wrapError("backup", fmt.Errorf("failed to create backup: %w", err))
 	}
 
+	// VACUUM renumbers rows, so the keyword indexes of the copy must be built anew
+	if err := rebuildKeywordIndexes(ctx, filepath); err != nil {
+		_ = os.Remove(filepath)
+		return wrapError("backup", fmt.Errorf("failed to create backup: %w", err))
+	}
+
 	return nil
 }
 
+// rebuildKeywordIndexes rebuilds the FTS5 indexes of the database in a file
+func rebuildKeywordIndexes(ctx context.Context, filepath string) error {
+	db, err := sql.Open("sqlite", filepath)
+	if err != nil {
+		return err
+	}
+	defer func() { _ = db.Close() }()
+
+	for _, table := range []string{"chunks_fts", "messages_fts"} {
+		if _, err := db.ExecContext(ctx, fmt.Sprintf("INSERT INTO %s(%s) VALUES('rebuild')", table, table)); err != nil {
+			return fmt.Errorf("failed to rebuild %s: %w", table, err)
+		}
+	}
+	return db.Close()
+}
+
 // scanEmbeddingWithACL scans a row with ACL field
 func (s *SQLiteStore) scanEmbeddingWithACL(rows *sql.Rows) (*Embedding, error) {
 	var emb Embedding
-- 
2.43.0


From 9a0456080859331e52cc4f9c2c7e8d9404960b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:36 +0000
Subject: [PATCH 08/32] fix: multi-vector, streaming, incremental index and
 chat history corner cases

---
 internal/encoding/utils.go |  16 +++-
 pkg/core/chat.go           |  70 ++++++++++++---
 pkg/core/multi_vector.go   | 166 ++++++++++++++--------------------
 pkg/core/reranker.go       |  16 +++-
 pkg/core/store_crud.go     |  21 +++--
 pkg/core/streaming.go      | 179 ++++++++++++++++---------------------
 6 files changed, 245 insertions(+), 223 deletions(-)

diff --git a/internal/encoding/utils.go b/internal/encoding/utils.go
index 9dc51d4..0ac63ba 100644
--- a/internal/encoding/utils.go
+++ b/internal/encoding/utils.go
@@ -103,9 +103,23 @@ func DecodeMetadata(jsonStr string) (map[string]string, error) {
 	}
 	
 	var metadata map[string]string
-	if err := json.Unmarshal([]byte(jsonStr), &metadata); err != nil {
+	if err := json.Unmarshal([]byte(jsonStr), &metadata); err == nil {
+		return metadata, nil
+	}
+
+	// Values of other types are kept in their JSON form
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal([]byte(jsonStr), &raw); err != nil {
 		return nil, fmt.Errorf("failed to decode metadata: %w", err)
 	}
+	metadata = make(map[string]string, len(raw))
+	for key, value := range raw {
+		var text string
+		if err := json.Unmarshal(value, &text); err != nil {
+			text = string(value)
+		}
+		metadata[key] = text
+	}
 	
 	return metadata, nil
 }
diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 6d75d17..b766641 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -39,13 +39,16 @@ func (s *SQLiteStore) CreateSession(ctx context.Context, session *Session) error
 		return wrapError("create_session", ErrStoreClosed)
 	}
 
-	metadataJSON, _ := json.Marshal(session.Metadata)
+	metadataJSON, err := json.Marshal(session.Metadata)
+	if err != nil {
+		return wrapError("create_session", fmt.Errorf("failed to marshal metadata: %w", err))
+	}
 
 	query := `
 		INSERT INTO sessions (id, user_id, metadata, created_at, updated_at)
 		VALUES (?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`
-	_, err := s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
+	_, err = s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
 	return err
 }
 
@@ -54,6 +57,10 @@ func (s *SQLiteStore) GetSession(ctx context.Context, id string) (*Session, erro
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session", ErrStoreClosed)
+	}
+
 	var sess Session
 	var metadataJSON []byte
 
@@ -83,12 +90,17 @@ func (s *SQLiteStore) AddMessage(ctx context.Context, msg *Message) error {
 		return wrapError("add_message", ErrStoreClosed)
 	}
 
-	metadataJSON, _ := json.Marshal(msg.Metadata)
+	metadataJSON, err := json.Marshal(msg.Metadata)
+	if err != nil {
+		return wrapError("add_message", fmt.Errorf("failed to marshal metadata: %w", err))
+	}
 
 	// Encode vector if present
 	var vectorBytes []byte
-	var err error
 	if len(msg.Vector) > 0 {
+		if err := encoding.ValidateVector(msg.Vector); err != nil {
+			return wrapError("add_message", err)
+		}
 		vectorBytes, err = encoding.EncodeVector(msg.Vector)
 		if err != nil {
 			return fmt.Errorf("failed to encode message vector: %w", err)
@@ -114,11 +126,15 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session_history", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, session_id, role, content, vector, metadata, created_at
 		FROM messages 
 		WHERE session_id = ? 
-		ORDER BY created_at DESC 
+		ORDER BY rowid DESC -- the order of insertion, which clock readings need not follow
 		LIMIT ?
 	`
 
@@ -147,6 +163,10 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 		messages = append(messages, &msg)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// Reverse to return chronological order (oldest first)
 	for i, j := 0, len(messages)-1; i < j; i, j = i+1, j-1 {
 		messages[i], messages[j] = messages[j], messages[i]
@@ -161,6 +181,14 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_chat_history", ErrStoreClosed)
+	}
+
+	if limit <= 0 {
+		limit = 10
+	}
+
 	// This is a linear scan over the session's messages.
 	// For huge history, we should use HNSW, but session history is usually small (<1000 items).
 
@@ -178,7 +206,7 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 
 	type scoredMsg struct {
 		msg   *Message
-		score float32
+		score float64
 	}
 	var scored []scoredMsg
 
@@ -186,7 +214,9 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		var msg Message
 		var vectorBytes, metadataJSON []byte
 
-		rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vectorBytes, &metadataJSON, &msg.CreatedAt)
+		if err := rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vectorBytes, &metadataJSON, &msg.CreatedAt); err != nil {
+			return nil, err
+		}
 
 		if len(vectorBytes) > 0 {
 			msg.Vector, _ = encoding.DecodeVector(vectorBytes)
@@ -196,10 +226,14 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 				_ = json.Unmarshal(metadataJSON, &msg.Metadata)
 			}
 
-			scored = append(scored, scoredMsg{msg: &msg, score: float32(score)})
+			scored = append(scored, scoredMsg{msg: &msg, score: score})
 		}
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// Sort by score
 	// Note: Implement simple sort
 	for i := 0; i < len(scored); i++ {
@@ -210,7 +244,7 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		}
 	}
 
-	result := make([]*Message, 0, limit)
+	result := make([]*Message, 0, min(limit, len(scored)))
 	for i := 0; i < len(scored) && i < limit; i++ {
 		result = append(result, scored[i].msg)
 	}
@@ -225,6 +259,10 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("keyword_search_messages", ErrStoreClosed)
+	}
+
 	if query == "" || userID == "" {
 		return nil, nil
 	}
@@ -259,6 +297,10 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_messages_by_user", ErrStoreClosed)
+	}
+
 	if userID == "" || len(queryVec) == 0 {
 		return nil, nil
 	}
@@ -282,7 +324,7 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 
 	type scored struct {
 		msg   *Message
-		score float32
+		score float64
 	}
 	var results []scored
 
@@ -303,7 +345,11 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 		if len(metaJSON) > 0 {
 			_ = json.Unmarshal(metaJSON, &msg.Metadata)
 		}
-		results = append(results, scored{msg: &msg, score: float32(s.similarityFn(queryVec, vec))})
+		results = append(results, scored{msg: &msg, score: s.similarityFn(queryVec, vec)})
+	}
+
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("search messages by user: %w", err)
 	}
 
 	// Sort descending by score
@@ -315,7 +361,7 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 		}
 	}
 
-	out := make([]*Message, 0, limit)
+	out := make([]*Message, 0, min(limit, len(results)))
 	for i := 0; i < len(results) && i < limit; i++ {
 		out = append(out, results[i].msg)
 	}
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index d3e9c19..ceae48e 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -4,7 +4,10 @@ package core
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"sort"
+
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
@@ -51,68 +54,51 @@ const (
 
 // UpsertMultiVector inserts or updates a multi-vector entity
 func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVectorEntity) error {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	
-	if s.closed {
+	if s.isClosed() {
 		return wrapError("upsert_multi_vector", ErrStoreClosed)
 	}
-	
-	// Start transaction
-	tx, err := s.db.BeginTx(ctx, nil)
-	if err != nil {
+	if entity == nil || entity.ID == "" {
+		return wrapError("upsert_multi_vector", fmt.Errorf("entity ID cannot be empty"))
+	}
+	if len(entity.Vectors) == 0 {
+		return nil
+	}
+
+	// The entity belongs to the document of the same ID, if there is one
+	docID := entity.ID
+	if _, err := s.GetDocument(ctx, entity.ID); errors.Is(err, ErrNotFound) {
+		docID = ""
+	} else if err != nil {
 		return wrapError("upsert_multi_vector", err)
 	}
-	defer func() {
-		if err := tx.Rollback(); err != nil {
-			// Log error but don't override the main error
-			_ = err
-		}
-	}()
-	
+
 	// Insert each vector with a composite ID
+	embs := make([]*Embedding, 0, len(entity.Vectors))
+	metadataJSON := make([]string, 0, len(entity.Vectors))
 	for fieldName, vector := range entity.Vectors {
-		compositeID := fmt.Sprintf("%s___%s", entity.ID, fieldName)
-		
 		// Prepare metadata with field info
 		metadata := make(map[string]interface{})
-		if entity.Metadata != nil {
-			for k, v := range entity.Metadata {
-				metadata[k] = v
-			}
+		for k, v := range entity.Metadata {
+			metadata[k] = v
 		}
 		metadata["_entity_id"] = entity.ID
 		metadata["_vector_field"] = fieldName
-		
-		metadataJSON, err := json.Marshal(metadata)
-		if err != nil {
-			return wrapError("upsert_multi_vector", err)
-		}
-		
-		vectorBytes, err := encoding.EncodeVector(vector)
-		if err != nil {
-			return wrapError("upsert_multi_vector", err)
-		}
-		
-		_, err = tx.ExecContext(ctx, `
-			INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
-			VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
-		`, compositeID, 1, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
-		
+
+		data, err := json.Marshal(metadata)
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
-		// Update HNSW index if enabled
-		if s.config.HNSW.Enabled && s.hnswIndex != nil {
-			if err := s.hnswIndex.Insert(compositeID, vector); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
+
+		embs = append(embs, &Embedding{
+			ID:      fmt.Sprintf("%s___%s", entity.ID, fieldName),
+			Vector:  vector,
+			Content: entity.Content,
+			DocID:   docID,
+		})
+		metadataJSON = append(metadataJSON, string(data))
 	}
-	
-	return tx.Commit()
+
+	return s.upsertEmbeddings(ctx, "upsert_multi_vector", embs, metadataJSON)
 }
 
 // SearchMultiVector performs multi-vector search
@@ -128,7 +114,21 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 	entityScores := make(map[string][]float32)
 	entityEmbeddings := make(map[string]ScoredEmbedding)
 	
-	for fieldName, queryVector := range queryVectors {
+	// An entity's score needs all of its fields, so no field is cut to TopK
+	stats, err := s.statsLocked(ctx)
+	if err != nil {
+		return nil, wrapError("search_multi_vector", err)
+	}
+
+	fieldNames := make([]string, 0, len(queryVectors))
+	for fieldName := range queryVectors {
+		fieldNames = append(fieldNames, fieldName)
+	}
+	sort.Strings(fieldNames)
+
+	for _, fieldName := range fieldNames {
+		queryVector := queryVectors[fieldName]
+
 		// Only search specified fields
 		if len(opts.VectorFields) > 0 {
 			found := false
@@ -145,14 +145,16 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		// Search with field-specific filter
 		fieldOpts := opts.SearchOptions
-		if fieldOpts.Filter == nil {
-			fieldOpts.Filter = make(map[string]string)
+		fieldOpts.Filter = make(map[string]string, len(opts.Filter)+1)
+		for k, v := range opts.Filter {
+			fieldOpts.Filter[k] = v
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
-		
+		fieldOpts.TopK = int(stats.Count)
+
 		results, err := s.searchLocked(ctx, queryVector, fieldOpts)
 		if err != nil {
-			continue
+			return nil, wrapError("search_multi_vector", err)
 		}
 		
 		// Group by entity ID
@@ -188,13 +190,12 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 	}
 	
 	// Sort by aggregated score
-	for i := 0; i < len(finalResults)-1; i++ {
-		for j := i + 1; j < len(finalResults); j++ {
-			if finalResults[j].Score > finalResults[i].Score {
-				finalResults[i], finalResults[j] = finalResults[j], finalResults[i]
-			}
+	sort.Slice(finalResults, func(i, j int) bool {
+		if finalResults[i].Score != finalResults[j].Score {
+			return finalResults[i].Score > finalResults[j].Score
 		}
-	}
+		return finalResults[i].ID < finalResults[j].ID
+	})
 	
 	// Apply TopK limit
 	if opts.TopK > 0 && len(finalResults) > opts.TopK {
@@ -266,7 +267,7 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 	rows, err := s.db.QueryContext(ctx, `
 		SELECT id, vector, content, metadata
 		FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
+		WHERE `+metadataField("metadata", "_entity_id")+` = ?
 	`, entityID)
 	if err != nil {
 		return nil, wrapError("get_multi_vector", err)
@@ -324,6 +325,10 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 		}
 	}
 	
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("get_multi_vector", err)
+	}
+
 	if len(entity.Vectors) == 0 {
 		return nil, wrapError("get_multi_vector", ErrNotFound)
 	}
@@ -340,45 +345,10 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		return wrapError("delete_multi_vector", ErrStoreClosed)
 	}
 	
-	// Get all composite IDs first
-	rows, err := s.db.QueryContext(ctx, `
-		SELECT id FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
-	`, entityID)
-	if err != nil {
+	condition := deleteCondition{where: metadataField("metadata", "_entity_id") + " = ?", args: []interface{}{entityID}}
+	if _, err := s.deleteEmbeddings(ctx, []deleteCondition{condition}); err != nil {
 		return wrapError("delete_multi_vector", err)
 	}
-	
-	var compositeIDs []string
-	for rows.Next() {
-		var id string
-		if err := rows.Scan(&id); err == nil {
-			compositeIDs = append(compositeIDs, id)
-		}
-	}
-	if err := rows.Close(); err != nil {
-		// Log error but don't override the main error
-		_ = err
-	}
-	
-	// Delete from database
-	_, err = s.db.ExecContext(ctx, `
-		DELETE FROM embeddings
-		WHERE json_extract(metadata, '$._entity_id') = ?
-	`, entityID)
-	if err != nil {
-		return wrapError("delete_multi_vector", err)
-	}
-	
-	// Update HNSW index
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		for _, id := range compositeIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
-	}
-	
+
 	return nil
-}
\ No newline at end of file
+}
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index dc2d393..bec84da 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -75,7 +75,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 	}
 
 	// Apply reranking
-	reranked, err := reranker.Rerank(ctx, queryText, initialResults)
+	reranked, err := reranker.Rerank(ctx, queryText, append([]ScoredEmbedding(nil), initialResults...))
 	if err != nil {
 		return nil, wrapError("search_rerank", fmt.Errorf("reranking failed: %w", err))
 	}
@@ -99,6 +99,20 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 		results = results[:opts.TopK]
 	}
 
+	// Report the similarity instead of the reranker's score if asked to
+	if opts.PreserveOriginalScore {
+		original := make(map[string]float64, len(initialResults))
+		for _, r := range initialResults {
+			original[r.ID] = r.Score
+		}
+		results = append([]ScoredEmbedding(nil), results...)
+		for i := range results {
+			if score, ok := original[results[i].ID]; ok {
+				results[i].Score = score
+			}
+		}
+	}
+
 	return results, nil
 }
 
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index c2455ee..e878ab9 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -14,7 +14,7 @@ import (
 
 // Upsert inserts or updates a single embedding
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
-	return s.upsertEmbeddings(ctx, "upsert", []*Embedding{emb})
+	return s.upsertEmbeddings(ctx, "upsert", []*Embedding{emb}, nil)
 }
 
 // UpsertBatch inserts or updates multiple embeddings in a transaction
@@ -25,11 +25,12 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		}
 		return nil
 	}
-	return s.upsertEmbeddings(ctx, "upsert_batch", embs)
+	return s.upsertEmbeddings(ctx, "upsert_batch", embs, nil)
 }
 
-// upsertEmbeddings writes embeddings in one transaction and then updates the in-memory indexes
-func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*Embedding) (err error) {
+// upsertEmbeddings writes embeddings in one transaction and then updates the in-memory indexes.
+// If metadata is not nil, it holds the metadata to store instead of the embeddings' own, as JSON.
+func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*Embedding, metadata []string) (err error) {
 	if s.isClosed() {
 		return wrapError(op, ErrStoreClosed)
 	}
@@ -55,7 +56,7 @@ func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*E
 	if s.config.VectorDim != currentDim && !s.closed {
 		// The write that had set the dimension failed meanwhile
 		s.mu.RUnlock()
-		return s.upsertEmbeddings(ctx, op, embs)
+		return s.upsertEmbeddings(ctx, op, embs, metadata)
 	}
 	defer s.mu.RUnlock()
 
@@ -118,9 +119,13 @@ func (s *SQLiteStore) upsertEmbeddings(ctx context.Context, op string, embs []*E
 			return wrapError(op, fmt.Errorf("failed to encode vector at index %d: %w", i, err))
 		}
 
-		r.metadataJSON, err = encoding.EncodeMetadata(emb.Metadata)
-		if err != nil {
-			return wrapError(op, fmt.Errorf("failed to encode metadata at index %d: %w", i, err))
+		if metadata != nil {
+			r.metadataJSON = metadata[i]
+		} else {
+			r.metadataJSON, err = encoding.EncodeMetadata(emb.Metadata)
+			if err != nil {
+				return wrapError(op, fmt.Errorf("failed to encode metadata at index %d: %w", i, err))
+			}
 		}
 
 		// Encode ACL
diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index c55c19e..8d50036 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -42,6 +42,17 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		opts.MaxLatency = 100 * time.Millisecond
 	}
 	
+	query, err := s.prepareQuery(query, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
+	}
+
+	// Get all candidates while the store is known to be open
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
+	}
+
 	// Create result channel
 	resultChan := make(chan StreamingResult, opts.BatchSize)
 	
@@ -49,12 +60,6 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	go func() {
 		defer close(resultChan)
 		
-		// Get all candidates
-		candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
-		if err != nil {
-			return
-		}
-		
 		// Process in batches
 		batchID := 0
 		totalCandidates := len(candidates)
@@ -77,6 +82,9 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 			// Score batch
 			for _, candidate := range batch {
 				score := s.similarityFn(query, candidate.Vector)
+				if opts.Threshold > 0 && score < opts.Threshold {
+					continue
+				}
 				candidate.Score = score
 				
 				result := StreamingResult{
@@ -178,7 +186,7 @@ func MergeStreamResults(ctx context.Context, channels ...<-chan StreamingResult)
 // CollectTopKFromStream collects top-k results from a streaming channel
 func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k int) ([]ScoredEmbedding, error) {
 	// Use a heap to maintain top-k
-	topK := make([]ScoredEmbedding, 0, k)
+	topK := []ScoredEmbedding{}
 	seen := make(map[string]bool)
 	
 	for {
@@ -196,6 +204,9 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 			seen[result.ID] = true
 			
 			// Add to top-k
+			if k <= 0 {
+				continue
+			}
 			if len(topK) < k {
 				topK = append(topK, result.ScoredEmbedding)
 				sort.Slice(topK, func(i, j int) bool {
@@ -207,37 +218,34 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 					return topK[i].Score > topK[j].Score
 				})
 			}
-			
-			// Check if we have k results with good scores
-			if len(topK) == k && topK[k-1].Score > 0.9 {
-				// Drain remaining results
-				go func() {
-					for range stream {
-					}
-				}()
-				return topK, nil
-			}
-			
+
 		case <-ctx.Done():
 			return topK, ctx.Err()
 		}
 	}
 }
 
+// maxPendingUpdates is the capacity of an incremental index's update queue
+const maxPendingUpdates = 100
+
 // IncrementalIndex allows adding vectors while searching continues
 type IncrementalIndex struct {
-	mu        sync.RWMutex
+	mu        sync.Mutex
 	store     *SQLiteStore
-	updates   chan *Embedding
+	pending   []*Embedding // Updates not yet stored, oldest first
+	flushMu   sync.Mutex   // Keeps flushes in order
 	closed    bool
 	closeOnce sync.Once
+	stop      chan struct{}
+	done      chan struct{}
 }
 
 // NewIncrementalIndex creates a new incremental index
 func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 	idx := &IncrementalIndex{
-		store:   store,
-		updates: make(chan *Embedding, 100),
+		store: store,
+		stop:  make(chan struct{}),
+		done:  make(chan struct{}),
 	}
 	
 	// Start background update processor
@@ -248,118 +256,83 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 
 // AddAsync adds a vector asynchronously
 func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
-	idx.mu.RLock()
-	defer idx.mu.RUnlock()
+	if err := validateEmbedding(emb); err != nil {
+		return err
+	}
+
+	idx.mu.Lock()
+	defer idx.mu.Unlock()
 	
 	if idx.closed {
 		return fmt.Errorf("index is closed")
 	}
-	
-	select {
-	case idx.updates <- emb:
-		return nil
-	default:
+	if len(idx.pending) >= maxPendingUpdates {
 		return fmt.Errorf("update queue is full")
 	}
+
+	update := *emb
+	update.Vector = append([]float32(nil), emb.Vector...)
+	idx.pending = append(idx.pending, &update)
+	return nil
 }
 
 // SearchWithUpdates performs search while considering ongoing updates
 func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
-	// Get current results
-	results, err := idx.store.Search(ctx, query, opts)
-	if err != nil {
-		return nil, err
+	idx.flush(ctx)
+	return idx.store.Search(ctx, query, opts)
+}
+
+// flush stores the pending updates in the order in which they were added
+func (idx *IncrementalIndex) flush(ctx context.Context) {
+	idx.flushMu.Lock()
+	defer idx.flushMu.Unlock()
+
+	idx.mu.Lock()
+	batch := idx.pending
+	idx.pending = nil
+	idx.mu.Unlock()
+
+	if len(batch) == 0 {
+		return
 	}
-	
-	// Check pending updates
-	idx.mu.RLock()
-	pendingCount := len(idx.updates)
-	idx.mu.RUnlock()
-	
-	if pendingCount > 0 {
-		// Process some pending updates quickly
-		processedCount := 0
-		timeout := time.After(10 * time.Millisecond)
-		
-	ProcessLoop:
-		for processedCount < pendingCount && processedCount < 10 {
-			select {
-			case emb := <-idx.updates:
-				if emb != nil {
-					score := idx.store.similarityFn(query, emb.Vector)
-					if opts.TopK == 0 || len(results) < opts.TopK || score > results[len(results)-1].Score {
-						// This update might affect results
-						results = append(results, ScoredEmbedding{
-							Embedding: *emb,
-							Score:     score,
-						})
-						
-						// Re-sort
-						sort.Slice(results, func(i, j int) bool {
-							return results[i].Score > results[j].Score
-						})
-						
-						// Trim to TopK
-						if opts.TopK > 0 && len(results) > opts.TopK {
-							results = results[:opts.TopK]
-						}
-					}
-					
-					// Re-queue for background processing
-					idx.updates <- emb
-				}
-				processedCount++
-				
-			case <-timeout:
-				break ProcessLoop
-			}
+	if err := idx.store.UpsertBatch(ctx, batch); err == nil {
+		return
+	}
+
+	// One invalid update must not discard the others
+	for _, emb := range batch {
+		if err := idx.store.Upsert(context.WithoutCancel(ctx), emb); err != nil {
+			idx.store.logger.Warn("failed to store update", "id", emb.ID, "error", err)
 		}
 	}
-	
-	return results, nil
 }
 
-// Close shuts down the incremental index
+// Close shuts down the incremental index after storing the pending updates
 func (idx *IncrementalIndex) Close() {
 	idx.closeOnce.Do(func() {
 		idx.mu.Lock()
 		idx.closed = true
-		close(idx.updates)
 		idx.mu.Unlock()
+		close(idx.stop)
 	})
+	<-idx.done
 }
 
 // processUpdates handles background update processing
 func (idx *IncrementalIndex) processUpdates() {
-	batch := make([]*Embedding, 0, 100)
+	defer close(idx.done)
+
 	ticker := time.NewTicker(100 * time.Millisecond)
 	defer ticker.Stop()
 	
 	for {
 		select {
-		case emb, ok := <-idx.updates:
-			if !ok {
-				// Channel closed, flush remaining batch
-				if len(batch) > 0 {
-					_ = idx.store.UpsertBatch(context.Background(), batch)
-				}
-				return
-			}
-			
-			batch = append(batch, emb)
-			
-			// Flush batch if full
-			if len(batch) >= 100 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
-				batch = batch[:0]
-			}
-			
+		case <-idx.stop:
+			idx.flush(context.Background())
+			return
 		case <-ticker.C:
 			// Periodic flush
-			if len(batch) > 0 {
-				_ = idx.store.UpsertBatch(context.Background(), batch)
-				batch = batch[:0]
-			}
+			idx.flush(context.Background())
 		}
 	}
-}
\ No newline at end of file
+}
-- 
2.43.0


From f451f7055cbe6b073ba0dce0090d3d62254de22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:18 +0000
Subject: [PATCH 09/32] fix: store and import graph elements completely and
 keep the graph index in step

Batch writes, deletes and imports now update the graph's HNSW index, encoding
errors and non-finite values are reported instead of being stored as damaged
rows, and an import is one transaction that fails on the first bad element
instead of silently skipping it. GraphML weights keep their full precision.
---
 pkg/graph/graph.go        | 117 ++++++++++++--------
 pkg/graph/graph_batch.go  | 221 +++++++++++---------------------------
 pkg/graph/graph_export.go | 108 ++++++++++---------
 3 files changed, 196 insertions(+), 250 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index e6da873..98f6f90 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -5,9 +5,11 @@ import (
 	"database/sql"
 	"encoding/json"
 	"fmt"
+	"math"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -79,6 +81,7 @@ type GraphStore struct {
 	store     *core.SQLiteStore
 	db        *sql.DB
 	hnswIndex *HNSWGraphIndex // HNSW index for fast vector search
+	indexMu   sync.Mutex      // keeps node writes and index updates in the same order
 }
 
 // NewGraphStore creates a new graph store from a SQLite store
@@ -129,6 +132,62 @@ func (g *GraphStore) InitGraphSchema(ctx context.Context) error {
 	return err
 }
 
+// encodeNode returns the stored form of a node's vector and properties
+func encodeNode(node *GraphNode) (vector []byte, properties string, err error) {
+	if err := encoding.ValidateVector(node.Vector); err != nil {
+		return nil, "", fmt.Errorf("invalid node %s: %w", node.ID, err)
+	}
+	vector, err = encoding.EncodeVector(node.Vector)
+	if err != nil {
+		return nil, "", fmt.Errorf("failed to encode vector: %w", err)
+	}
+	properties, err = encodeProperties(node.Properties)
+	return vector, properties, err
+}
+
+// encodeEdge returns the stored form of an edge's vector and properties
+func encodeEdge(edge *GraphEdge) (vector []byte, properties string, err error) {
+	if math.IsNaN(edge.Weight) || math.IsInf(edge.Weight, 0) {
+		return nil, "", fmt.Errorf("invalid edge %s: weight is not finite", edge.ID)
+	}
+	if len(edge.Vector) > 0 {
+		if err := encoding.ValidateVector(edge.Vector); err != nil {
+			return nil, "", fmt.Errorf("invalid edge %s: %w", edge.ID, err)
+		}
+		vector, err = encoding.EncodeVector(edge.Vector)
+		if err != nil {
+			return nil, "", fmt.Errorf("failed to encode vector: %w", err)
+		}
+	}
+	properties, err = encodeProperties(edge.Properties)
+	return vector, properties, err
+}
+
+func encodeProperties(properties map[string]interface{}) (string, error) {
+	if properties == nil {
+		return "", nil
+	}
+	data, err := json.Marshal(properties)
+	if err != nil {
+		return "", fmt.Errorf("failed to encode properties: %w", err)
+	}
+	return string(data), nil
+}
+
+// indexNodes brings the HNSW index, when enabled, in line with a committed write.
+// The caller holds indexMu.
+func (g *GraphStore) indexNodes(upserted []*GraphNode, deleted []string) {
+	if g.hnswIndex == nil {
+		return
+	}
+	for _, node := range upserted {
+		_ = g.hnswIndex.index.Add(node.ID, node.Vector)
+	}
+	for _, id := range deleted {
+		g.hnswIndex.index.Remove(id)
+	}
+}
+
 // UpsertNode inserts or updates a node in the graph
 func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 	if node == nil || node.ID == "" {
@@ -139,20 +198,13 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		return fmt.Errorf("invalid node: missing vector")
 	}
 
-	// Encode vector
-	vectorBytes, err := encoding.EncodeVector(node.Vector)
+	vectorBytes, propertiesJSON, err := encodeNode(node)
 	if err != nil {
-		return fmt.Errorf("failed to encode vector: %w", err)
+		return err
 	}
 
-	// Encode properties as JSON
-	var propertiesJSON []byte
-	if node.Properties != nil {
-		propertiesJSON, err = json.Marshal(node.Properties)
-		if err != nil {
-			return fmt.Errorf("failed to encode properties: %w", err)
-		}
-	}
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
 
 	query := `
 	INSERT INTO graph_nodes (id, vector, content, node_type, properties, updated_at)
@@ -170,20 +222,14 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		vectorBytes,
 		node.Content,
 		node.NodeType,
-		string(propertiesJSON),
+		propertiesJSON,
 	)
 
 	if err != nil {
 		return err
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(node.ID)
-		if err := g.hnswIndex.index.Add(node.ID, node.Vector); err != nil {
-			return fmt.Errorf("failed to update hnsw index: %w", err)
-		}
-	}
-
+	g.indexNodes([]*GraphNode{node}, nil)
 	return nil
 }
 
@@ -235,6 +281,9 @@ func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, er
 
 // DeleteNode removes a node and all its edges
 func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
 	// Edges are automatically deleted due to CASCADE
 	query := `DELETE FROM graph_nodes WHERE id = ?`
 	result, err := g.db.ExecContext(ctx, query, nodeID)
@@ -251,10 +300,7 @@ func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
 		return fmt.Errorf("node not found: %s", nodeID)
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(nodeID)
-	}
-
+	g.indexNodes(nil, []string{nodeID})
 	return nil
 }
 
@@ -273,24 +319,9 @@ func (g *GraphStore) UpsertEdge(ctx context.Context, edge *GraphEdge) error {
 		edge.Weight = 1.0
 	}
 
-	// Encode properties as JSON
-	var propertiesJSON []byte
-	if edge.Properties != nil {
-		var err error
-		propertiesJSON, err = json.Marshal(edge.Properties)
-		if err != nil {
-			return fmt.Errorf("failed to encode properties: %w", err)
-		}
-	}
-
-	// Encode vector if present
-	var vectorBytes []byte
-	if len(edge.Vector) > 0 {
-		var err error
-		vectorBytes, err = encoding.EncodeVector(edge.Vector)
-		if err != nil {
-			return fmt.Errorf("failed to encode vector: %w", err)
-		}
+	vectorBytes, propertiesJSON, err := encodeEdge(edge)
+	if err != nil {
+		return err
 	}
 
 	query := `
@@ -305,13 +336,13 @@ func (g *GraphStore) UpsertEdge(ctx context.Context, edge *GraphEdge) error {
 		vector = excluded.vector
 	`
 
-	_, err := g.db.ExecContext(ctx, query,
+	_, err = g.db.ExecContext(ctx, query,
 		edge.ID,
 		edge.FromNodeID,
 		edge.ToNodeID,
 		edge.EdgeType,
 		edge.Weight,
-		string(propertiesJSON),
+		propertiesJSON,
 		vectorBytes,
 	)
 
diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 427f389..73f050d 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -36,6 +36,9 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -43,76 +46,19 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	}
 	defer func() { _ = tx.Rollback() }()
 	
-	// Prepare statement for batch insert
-	stmt, err := tx.PrepareContext(ctx, `
-		INSERT INTO graph_nodes (id, vector, content, node_type, properties, updated_at)
-		VALUES (?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
-		ON CONFLICT(id) DO UPDATE SET
-			vector = excluded.vector,
-			content = excluded.content,
-			node_type = excluded.node_type,
-			properties = excluded.properties,
-			updated_at = CURRENT_TIMESTAMP
-	`)
+	nodeResult, stored, err := g.upsertNodesBatchTx(ctx, tx, nodes)
 	if err != nil {
-		return nil, fmt.Errorf("failed to prepare statement: %w", err)
-	}
-	defer func() { _ = stmt.Close() }()
-	
-	// Process each node
-	for _, node := range nodes {
-		if node == nil || node.ID == "" {
-			result.Errors = append(result.Errors, fmt.Errorf("invalid node: missing ID"))
-			result.FailedCount++
-			continue
-		}
-		
-		if len(node.Vector) == 0 {
-			result.Errors = append(result.Errors, fmt.Errorf("invalid node %s: missing vector", node.ID))
-			result.FailedCount++
-			continue
-		}
-		
-		// Encode vector
-		vectorBytes, err := encoding.EncodeVector(node.Vector)
-		if err != nil {
-			result.Errors = append(result.Errors, fmt.Errorf("failed to encode vector for %s: %w", node.ID, err))
-			result.FailedCount++
-			continue
-		}
-		
-		// Encode properties
-		var propertiesJSON []byte
-		if node.Properties != nil {
-			propertiesJSON, err = json.Marshal(node.Properties)
-			if err != nil {
-				result.Errors = append(result.Errors, fmt.Errorf("failed to encode properties for %s: %w", node.ID, err))
-				result.FailedCount++
-				continue
-			}
-		}
-		
-		// Execute insert
-		_, err = stmt.ExecContext(ctx,
-			node.ID,
-			vectorBytes,
-			node.Content,
-			node.NodeType,
-			string(propertiesJSON),
-		)
-		
-		if err != nil {
-			result.Errors = append(result.Errors, fmt.Errorf("failed to insert node %s: %w", node.ID, err))
-			result.FailedCount++
-		} else {
-			result.SuccessCount++
-		}
+		return nil, fmt.Errorf("failed to upsert nodes: %w", err)
 	}
+	result.SuccessCount = nodeResult.SuccessCount
+	result.FailedCount = nodeResult.FailedCount
+	result.Errors = append(result.Errors, nodeResult.Errors...)
 	
 	// Commit transaction
 	if err := tx.Commit(); err != nil {
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
+	g.indexNodes(stored, nil)
 	
 	return result, nil
 }
@@ -127,6 +73,9 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -161,6 +110,7 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 	if err := tx.Commit(); err != nil {
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
+	g.indexNodes(nil, nodeIDs)
 	
 	return result, nil
 }
@@ -182,82 +132,13 @@ func (g *GraphStore) UpsertEdgesBatch(ctx context.Context, edges []*GraphEdge) (
 	}
 	defer func() { _ = tx.Rollback() }()
 	
-	// Prepare statement for batch insert
-	stmt, err := tx.PrepareContext(ctx, `
-		INSERT INTO graph_edges (id, from_node_id, to_node_id, edge_type, weight, properties, vector)
-		VALUES (?, ?, ?, ?, ?, ?, ?)
-		ON CONFLICT(id) DO UPDATE SET
-			from_node_id = excluded.from_node_id,
-			to_node_id = excluded.to_node_id,
-			edge_type = excluded.edge_type,
-			weight = excluded.weight,
-			properties = excluded.properties,
-			vector = excluded.vector
-	`)
+	edgeResult, err := g.upsertEdgesBatchTx(ctx, tx, edges)
 	if err != nil {
-		return nil, fmt.Errorf("failed to prepare statement: %w", err)
-	}
-	defer func() { _ = stmt.Close() }()
-	
-	// Process each edge
-	for _, edge := range edges {
-		if edge == nil || edge.ID == "" {
-			result.Errors = append(result.Errors, fmt.Errorf("invalid edge: missing ID"))
-			result.FailedCount++
-			continue
-		}
-		
-		if edge.FromNodeID == "" || edge.ToNodeID == "" {
-			result.Errors = append(result.Errors, fmt.Errorf("invalid edge %s: missing node IDs", edge.ID))
-			result.FailedCount++
-			continue
-		}
-		
-		// Set default weight
-		if edge.Weight == 0 {
-			edge.Weight = 1.0
-		}
-		
-		// Encode properties
-		var propertiesJSON []byte
-		if edge.Properties != nil {
-			propertiesJSON, err = json.Marshal(edge.Properties)
-			if err != nil {
-				result.Errors = append(result.Errors, fmt.Errorf("failed to encode properties for edge %s: %w", edge.ID, err))
-				result.FailedCount++
-				continue
-			}
-		}
-		
-		// Encode vector if present
-		var vectorBytes []byte
-		if len(edge.Vector) > 0 {
-			vectorBytes, err = encoding.EncodeVector(edge.Vector)
-			if err != nil {
-				result.Errors = append(result.Errors, fmt.Errorf("failed to encode vector for edge %s: %w", edge.ID, err))
-				result.FailedCount++
-				continue
-			}
-		}
-		
-		// Execute insert
-		_, err = stmt.ExecContext(ctx,
-			edge.ID,
-			edge.FromNodeID,
-			edge.ToNodeID,
-			edge.EdgeType,
-			edge.Weight,
-			string(propertiesJSON),
-			vectorBytes,
-		)
-		
-		if err != nil {
-			result.Errors = append(result.Errors, fmt.Errorf("failed to insert edge %s: %w", edge.ID, err))
-			result.FailedCount++
-		} else {
-			result.SuccessCount++
-		}
+		return nil, fmt.Errorf("failed to upsert edges: %w", err)
 	}
+	result.SuccessCount = edgeResult.SuccessCount
+	result.FailedCount = edgeResult.FailedCount
+	result.Errors = append(result.Errors, edgeResult.Errors...)
 	
 	// Commit transaction
 	if err := tx.Commit(); err != nil {
@@ -466,6 +347,9 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		Errors: make([]error, 0),
 	}
 	
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+	
 	// Start transaction
 	tx, err := g.db.BeginTx(ctx, nil)
 	if err != nil {
@@ -473,12 +357,15 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	}
 	defer func() { _ = tx.Rollback() }()
 	
+	var stored []*GraphNode
+
 	// Process node upserts
 	if len(ops.NodeUpserts) > 0 {
-		nodeResult, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
+		nodeResult, upserted, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to upsert nodes: %w", err)
 		}
+		stored = upserted
 		result.SuccessCount += nodeResult.SuccessCount
 		result.FailedCount += nodeResult.FailedCount
 		result.Errors = append(result.Errors, nodeResult.Errors...)
@@ -519,13 +406,14 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	if err := tx.Commit(); err != nil {
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
+	g.indexNodes(stored, ops.NodeDeletes)
 	
 	return result, nil
 }
 
 // Helper functions for transaction-based operations
 
-func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, error) {
+func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, []*GraphNode, error) {
 	result := &BatchResult{Errors: make([]error, 0)}
 	
 	stmt, err := tx.PrepareContext(ctx, `
@@ -539,32 +427,42 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			updated_at = CURRENT_TIMESTAMP
 	`)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	defer func() { _ = stmt.Close() }()
 	
+	stored := make([]*GraphNode, 0, len(nodes))
 	for _, node := range nodes {
-		if node == nil || node.ID == "" || len(node.Vector) == 0 {
+		if node == nil || node.ID == "" {
+			result.Errors = append(result.Errors, fmt.Errorf("invalid node: missing ID"))
 			result.FailedCount++
 			continue
 		}
 		
-		vectorBytes, _ := encoding.EncodeVector(node.Vector)
-		var propertiesJSON []byte
-		if node.Properties != nil {
-			propertiesJSON, _ = json.Marshal(node.Properties)
+		if len(node.Vector) == 0 {
+			result.Errors = append(result.Errors, fmt.Errorf("invalid node %s: missing vector", node.ID))
+			result.FailedCount++
+			continue
 		}
 		
-		_, err = stmt.ExecContext(ctx, node.ID, vectorBytes, node.Content, node.NodeType, string(propertiesJSON))
+		vectorBytes, propertiesJSON, err := encodeNode(node)
 		if err != nil {
-			result.FailedCount++
 			result.Errors = append(result.Errors, err)
+			result.FailedCount++
+			continue
+		}
+		
+		_, err = stmt.ExecContext(ctx, node.ID, vectorBytes, node.Content, node.NodeType, propertiesJSON)
+		if err != nil {
+			result.Errors = append(result.Errors, fmt.Errorf("failed to insert node %s: %w", node.ID, err))
+			result.FailedCount++
 		} else {
 			result.SuccessCount++
+			stored = append(stored, node)
 		}
 	}
 	
-	return result, nil
+	return result, stored, nil
 }
 
 func (g *GraphStore) deleteNodesBatchTx(ctx context.Context, tx *sql.Tx, nodeIDs []string) (*BatchResult, error) {
@@ -614,29 +512,34 @@ func (g *GraphStore) upsertEdgesBatchTx(ctx context.Context, tx *sql.Tx, edges [
 	defer func() { _ = stmt.Close() }()
 	
 	for _, edge := range edges {
-		if edge == nil || edge.ID == "" || edge.FromNodeID == "" || edge.ToNodeID == "" {
+		if edge == nil || edge.ID == "" {
+			result.Errors = append(result.Errors, fmt.Errorf("invalid edge: missing ID"))
 			result.FailedCount++
 			continue
 		}
 		
-		if edge.Weight == 0 {
-			edge.Weight = 1.0
+		if edge.FromNodeID == "" || edge.ToNodeID == "" {
+			result.Errors = append(result.Errors, fmt.Errorf("invalid edge %s: missing node IDs", edge.ID))
+			result.FailedCount++
+			continue
 		}
 		
-		var propertiesJSON []byte
-		if edge.Properties != nil {
-			propertiesJSON, _ = json.Marshal(edge.Properties)
+		// Set default weight
+		if edge.Weight == 0 {
+			edge.Weight = 1.0
 		}
 		
-		var vectorBytes []byte
-		if len(edge.Vector) > 0 {
-			vectorBytes, _ = encoding.EncodeVector(edge.Vector)
+		vectorBytes, propertiesJSON, err := encodeEdge(edge)
+		if err != nil {
+			result.Errors = append(result.Errors, err)
+			result.FailedCount++
+			continue
 		}
 		
-		_, err = stmt.ExecContext(ctx, edge.ID, edge.FromNodeID, edge.ToNodeID, edge.EdgeType, edge.Weight, string(propertiesJSON), vectorBytes)
+		_, err = stmt.ExecContext(ctx, edge.ID, edge.FromNodeID, edge.ToNodeID, edge.EdgeType, edge.Weight, propertiesJSON, vectorBytes)
 		if err != nil {
+			result.Errors = append(result.Errors, fmt.Errorf("failed to insert edge %s: %w", edge.ID, err))
 			result.FailedCount++
-			result.Errors = append(result.Errors, err)
 		} else {
 			result.SuccessCount++
 		}
diff --git a/pkg/graph/graph_export.go b/pkg/graph/graph_export.go
index 0eec310..1bd5939 100644
--- a/pkg/graph/graph_export.go
+++ b/pkg/graph/graph_export.go
@@ -69,7 +69,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -133,7 +133,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 			Target: edge.ToNodeID,
 			Data: []GraphMLData{
 				{Key: "d4", Value: edge.EdgeType},
-				{Key: "d5", Value: fmt.Sprintf("%f", edge.Weight)},
+				{Key: "d5", Value: strconv.FormatFloat(edge.Weight, 'g', -1, 64)},
 			},
 		}
 		
@@ -151,7 +151,9 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 	encoder.Indent("", "  ")
 	
 	// Write XML header
-	_, _ = writer.Write([]byte(xml.Header))
+	if _, err := writer.Write([]byte(xml.Header)); err != nil {
+		return fmt.Errorf("failed to write header: %w", err)
+	}
 	
 	// Encode document
 	if err := encoder.Encode(doc); err != nil {
@@ -194,11 +196,12 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 				node.NodeType = data.Value
 			case "vector":
 				if err := json.Unmarshal([]byte(data.Value), &node.Vector); err != nil {
-					// If vector parsing fails, create a default one
-					node.Vector = make([]float32, 3)
+					return fmt.Errorf("invalid vector of node %s: %w", node.ID, err)
 				}
 			case "properties":
-				_ = json.Unmarshal([]byte(data.Value), &node.Properties)
+				if err := json.Unmarshal([]byte(data.Value), &node.Properties); err != nil {
+					return fmt.Errorf("invalid properties of node %s: %w", node.ID, err)
+				}
 			}
 		}
 		
@@ -210,11 +213,6 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 		nodes = append(nodes, node)
 	}
 	
-	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
-		return fmt.Errorf("failed to import nodes: %w", err)
-	}
-	
 	// Import edges
 	edges := make([]*GraphEdge, 0, len(doc.Graph.Edges))
 	for _, gmlEdge := range doc.Graph.Edges {
@@ -233,23 +231,22 @@ func (g *GraphStore) ImportGraphML(ctx context.Context, reader io.Reader) error
 			case "type":
 				edge.EdgeType = data.Value
 			case "weight":
-				if w, err := strconv.ParseFloat(data.Value, 64); err == nil {
-					edge.Weight = w
+				w, err := strconv.ParseFloat(strings.TrimSpace(data.Value), 64)
+				if err != nil {
+					return fmt.Errorf("invalid weight of edge %s: %w", edge.ID, err)
 				}
+				edge.Weight = w
 			case "properties":
-				_ = json.Unmarshal([]byte(data.Value), &edge.Properties)
+				if err := json.Unmarshal([]byte(data.Value), &edge.Properties); err != nil {
+					return fmt.Errorf("invalid properties of edge %s: %w", edge.ID, err)
+				}
 			}
 		}
 		
 		edges = append(edges, edge)
 	}
 	
-	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
-		return fmt.Errorf("failed to import edges: %w", err)
-	}
-	
-	return nil
+	return g.importElements(ctx, nodes, edges)
 }
 
 // GEXF export/import structures
@@ -336,7 +333,7 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -420,7 +417,9 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 	encoder.Indent("", "  ")
 	
 	// Write XML header
-	_, _ = writer.Write([]byte(xml.Header))
+	if _, err := writer.Write([]byte(xml.Header)); err != nil {
+		return fmt.Errorf("failed to write header: %w", err)
+	}
 	
 	// Encode document
 	if err := encoder.Encode(doc); err != nil {
@@ -464,10 +463,12 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 				node.NodeType = attValue.Value
 			case "vector":
 				if err := json.Unmarshal([]byte(attValue.Value), &node.Vector); err != nil {
-					node.Vector = make([]float32, 3)
+					return fmt.Errorf("invalid vector of node %s: %w", node.ID, err)
 				}
 			case "properties":
-				_ = json.Unmarshal([]byte(attValue.Value), &node.Properties)
+				if err := json.Unmarshal([]byte(attValue.Value), &node.Properties); err != nil {
+					return fmt.Errorf("invalid properties of node %s: %w", node.ID, err)
+				}
 			}
 		}
 		
@@ -479,11 +480,6 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 		nodes = append(nodes, node)
 	}
 	
-	// Batch import nodes
-	if _, err := g.UpsertNodesBatch(ctx, nodes); err != nil {
-		return fmt.Errorf("failed to import nodes: %w", err)
-	}
-	
 	// Import edges
 	edges := make([]*GraphEdge, 0, len(doc.Graph.Edges.Edges))
 	for _, gexfEdge := range doc.Graph.Edges.Edges {
@@ -503,12 +499,7 @@ func (g *GraphStore) ImportGEXF(ctx context.Context, reader io.Reader) error {
 		edges = append(edges, edge)
 	}
 	
-	// Batch import edges
-	if _, err := g.UpsertEdgesBatch(ctx, edges); err != nil {
-		return fmt.Errorf("failed to import edges: %w", err)
-	}
-	
-	return nil
+	return g.importElements(ctx, nodes, edges)
 }
 
 // ExportJSON exports the graph to JSON format
@@ -526,7 +517,7 @@ func (g *GraphStore) ExportJSON(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		for _, edge := range edges {
 			if !edgeSet[edge.ID] {
@@ -570,20 +561,41 @@ func (g *GraphStore) ImportJSON(ctx context.Context, reader io.Reader) error {
 		return fmt.Errorf("failed to decode JSON: %w", err)
 	}
 	
-	// Batch import nodes
-	if len(graphData.Nodes) > 0 {
-		if _, err := g.UpsertNodesBatch(ctx, graphData.Nodes); err != nil {
-			return fmt.Errorf("failed to import nodes: %w", err)
-		}
+	return g.importElements(ctx, graphData.Nodes, graphData.Edges)
+}
+
+// importElements stores imported nodes and edges in one transaction: all of them or, on error, none
+func (g *GraphStore) importElements(ctx context.Context, nodes []*GraphNode, edges []*GraphEdge) error {
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
+	tx, err := g.db.BeginTx(ctx, nil)
+	if err != nil {
+		return fmt.Errorf("failed to begin transaction: %w", err)
 	}
-	
-	// Batch import edges
-	if len(graphData.Edges) > 0 {
-		if _, err := g.UpsertEdgesBatch(ctx, graphData.Edges); err != nil {
-			return fmt.Errorf("failed to import edges: %w", err)
-		}
+	defer func() { _ = tx.Rollback() }()
+
+	nodeResult, stored, err := g.upsertNodesBatchTx(ctx, tx, nodes)
+	if err == nil && nodeResult.FailedCount > 0 {
+		err = nodeResult.Errors[0]
 	}
-	
+	if err != nil {
+		return fmt.Errorf("failed to import nodes: %w", err)
+	}
+
+	edgeResult, err := g.upsertEdgesBatchTx(ctx, tx, edges)
+	if err == nil && edgeResult.FailedCount > 0 {
+		err = edgeResult.Errors[0]
+	}
+	if err != nil {
+		return fmt.Errorf("failed to import edges: %w", err)
+	}
+
+	if err := tx.Commit(); err != nil {
+		return fmt.Errorf("failed to commit transaction: %w", err)
+	}
+	g.indexNodes(stored, nil)
+
 	return nil
 }
 
-- 
2.43.0


From abbae6259377cf0b77547a53d3a49add8d7f4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:59 +0000
Subject: [PATCH 10/32] fix: return complete and current results from graph
 searches

The graph's HNSW index left most nodes unreachable; it now uses the shared HNSW
implementation with the store's similarity. Scores come from the stored vector,
filtered searches fall back to a scan when the index yields too few candidates,
limits apply after type filters, and the caller's query is not modified.
---
 pkg/graph/graph_algorithms.go |  42 +++-
 pkg/graph/graph_hnsw.go       | 358 +++++++++-------------------------
 pkg/graph/graph_hybrid.go     |  54 +++--
 pkg/graph/graph_traversal.go  |  33 ++--
 4 files changed, 176 insertions(+), 311 deletions(-)

diff --git a/pkg/graph/graph_algorithms.go b/pkg/graph/graph_algorithms.go
index 4ba8f65..f31e3b6 100644
--- a/pkg/graph/graph_algorithms.go
+++ b/pkg/graph/graph_algorithms.go
@@ -41,6 +41,9 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		nodes = append(nodes, id)
 	}
 	rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	if len(nodes) == 0 {
 		return []PageRankResult{}, nil
@@ -70,6 +73,9 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		}
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	// 3. Compute PageRank
 	nodeCount := float64(len(nodes))
@@ -152,6 +158,9 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		nodes = append(nodes, id)
 	}
 	rows.Close()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	if len(nodes) == 0 {
 		return []Community{}, nil
@@ -186,6 +195,9 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		}
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	// 3. Louvain Algorithm (Simplified)
 	communities := make([]int, len(nodes))
@@ -299,12 +311,16 @@ func (g *GraphStore) PredictEdges(ctx context.Context, nodeID string, topK int)
 	adj := make(map[string]map[string]bool)
 	for edgeRows.Next() {
 		var u, v string
-		if err := edgeRows.Scan(&u, &v); err == nil {
-			if adj[u] == nil { adj[u] = make(map[string]bool) }
-			if adj[v] == nil { adj[v] = make(map[string]bool) }
-			adj[u][v] = true
-			adj[v][u] = true // Treat as undirected for common neighbors
+		if err := edgeRows.Scan(&u, &v); err != nil {
+			return nil, err
 		}
+		if adj[u] == nil { adj[u] = make(map[string]bool) }
+		if adj[v] == nil { adj[v] = make(map[string]bool) }
+		adj[u][v] = true
+		adj[v][u] = true // Treat as undirected for common neighbors
+	}
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
 	}
 
 	existingConnections := adj[nodeID]
@@ -404,11 +420,17 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	adj := make(map[string][]string)
 	for edgeRows.Next() {
 		var u, v string
-		edgeRows.Scan(&u, &v)
+		if err := edgeRows.Scan(&u, &v); err != nil {
+			edgeRows.Close()
+			return nil, err
+		}
 		adj[u] = append(adj[u], v)
 		adj[v] = append(adj[v], u) // Undirected traversal
 	}
 	edgeRows.Close()
+	if err := edgeRows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Get all IDs for traversal
 	idRows, err := g.db.QueryContext(ctx, "SELECT id FROM graph_nodes")
@@ -418,10 +440,16 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	var allIDs []string
 	for idRows.Next() {
 		var id string
-		idRows.Scan(&id)
+		if err := idRows.Scan(&id); err != nil {
+			idRows.Close()
+			return nil, err
+		}
 		allIDs = append(allIDs, id)
 	}
 	idRows.Close()
+	if err := idRows.Err(); err != nil {
+		return nil, err
+	}
 
 	visited := make(map[string]bool)
 	components := 0
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 37a0435..902194e 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -3,23 +3,18 @@ package graph
 import (
 	"context"
 	"fmt"
-	"math"
-	"math/rand"
 	"sort"
 	"sync"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
+	"github.com/liliang-cn/cortexdb/v2/pkg/index"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 )
 
-// SimpleHNSW implements a simplified HNSW-like index for vector search
+// SimpleHNSW is an HNSW index over node vectors, scored by similarity
 type SimpleHNSW struct {
 	dimensions int
-	maxLevels  int
-	maxConns   int
-	mL         float64
+	hnsw       *index.HNSW
 	vectors    map[string][]float32
-	graph      map[int]map[string][]string  // level -> nodeID -> connections
-	entryPoint string
 	mutex      sync.RWMutex
 	similarity func([]float32, []float32) float64
 }
@@ -29,142 +24,29 @@ type HNSWGraphIndex struct {
 	index *SimpleHNSW
 }
 
-// NewSimpleHNSW creates a new simplified HNSW index
+// NewSimpleHNSW creates a new HNSW index using cosine similarity
 func NewSimpleHNSW(dimensions int, maxConns int) *SimpleHNSW {
+	return newSimpleHNSW(dimensions, maxConns, core.CosineSimilarity)
+}
+
+func newSimpleHNSW(dimensions int, maxConns int, similarity func([]float32, []float32) float64) *SimpleHNSW {
 	return &SimpleHNSW{
 		dimensions: dimensions,
-		maxLevels:  16,
-		maxConns:   maxConns,
-		mL:         1.0 / math.Log(2.0),
+		hnsw: index.NewHNSW(maxConns, 200, func(a, b []float32) float32 {
+			return float32(-similarity(a, b))
+		}),
 		vectors:    make(map[string][]float32),
-		graph:      make(map[int]map[string][]string),
-		similarity: core.CosineSimilarity,
-	}
-}
-
-// randomLevel generates a random level for a new node
-func (h *SimpleHNSW) randomLevel() int {
-	level := 0
-	for rand.Float64() < 0.5 && level < h.maxLevels-1 {
-		level++
+		similarity: similarity,
 	}
-	return level
 }
 
-// Add inserts a vector into the HNSW index
+// Add inserts a vector into the HNSW index, replacing the one stored under id
 func (h *SimpleHNSW) Add(id string, vector []float32) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	h.vectors[id] = vector
-	level := h.randomLevel()
-
-	// Initialize graph levels if needed
-	for l := 0; l <= level; l++ {
-		if h.graph[l] == nil {
-			h.graph[l] = make(map[string][]string)
-		}
-		if h.graph[l][id] == nil {
-			h.graph[l][id] = make([]string, 0, h.maxConns)
-		}
-	}
-
-	// Set entry point if this is the first node or higher level
-	if h.entryPoint == "" || level > h.getNodeLevel(h.entryPoint) {
-		h.entryPoint = id
-	}
-
-	// Connect to existing nodes at each level
-	for l := level; l >= 0; l-- {
-		candidates := h.searchLevel(vector, h.entryPoint, 1, l)
-		maxConnections := h.maxConns
-		if l == 0 {
-			maxConnections = h.maxConns * 2 // More connections at level 0
-		}
-
-		// Connect to best candidates
-		connected := 0
-		for _, candidate := range candidates {
-			if candidate.nodeID != id && connected < maxConnections {
-				h.addConnection(id, candidate.nodeID, l)
-				connected++
-			}
-		}
-	}
-
-	return nil
-}
-
-// searchLevel searches for candidates at a specific level
-func (h *SimpleHNSW) searchLevel(query []float32, entryPoint string, ef int, level int) []searchCandidate {
-	visited := make(map[string]bool)
-	candidates := make([]searchCandidate, 0, ef*2)
-	
-	if entryPoint == "" {
-		return candidates
-	}
-
-	// Start with entry point
-	if vec, exists := h.vectors[entryPoint]; exists {
-		score := h.similarity(query, vec)
-		candidates = append(candidates, searchCandidate{
-			nodeID: entryPoint,
-			score:  score,
-		})
-		visited[entryPoint] = true
-	}
-
-	// Beam search
-	for len(candidates) < ef*2 {
-		if len(candidates) == 0 {
-			break
-		}
-
-		// Find best unvisited candidate
-		sort.Slice(candidates, func(i, j int) bool {
-			return candidates[i].score > candidates[j].score
-		})
-
-		expanded := false
-		for _, candidate := range candidates {
-			if !visited[candidate.nodeID+"_expanded"] {
-				visited[candidate.nodeID+"_expanded"] = true
-				
-				// Explore connections
-				if connections, exists := h.graph[level][candidate.nodeID]; exists {
-					for _, connID := range connections {
-						if !visited[connID] && connID != candidate.nodeID {
-							if vec, exists := h.vectors[connID]; exists {
-								score := h.similarity(query, vec)
-								candidates = append(candidates, searchCandidate{
-									nodeID: connID,
-									score:  score,
-								})
-								visited[connID] = true
-							}
-						}
-					}
-				}
-				expanded = true
-				break
-			}
-		}
-
-		if !expanded {
-			break
-		}
-	}
-
-	// Sort and return top candidates
-	sort.Slice(candidates, func(i, j int) bool {
-		return candidates[i].score > candidates[j].score
-	})
-
-	if len(candidates) > ef {
-		candidates = candidates[:ef]
-	}
-
-	return candidates
+	h.vectors[id] = append([]float32(nil), vector...)
+	return h.hnsw.Upsert(id, vector)
 }
 
 type searchCandidate struct {
@@ -172,89 +54,25 @@ type searchCandidate struct {
 	score  float64
 }
 
-// addConnection adds a bidirectional connection between two nodes at a level
-func (h *SimpleHNSW) addConnection(nodeID1, nodeID2 string, level int) {
-	if h.graph[level] == nil {
-		h.graph[level] = make(map[string][]string)
-	}
-
-	// Add connection from node1 to node2
-	if h.graph[level][nodeID1] == nil {
-		h.graph[level][nodeID1] = make([]string, 0, h.maxConns)
-	}
-	if len(h.graph[level][nodeID1]) < h.maxConns {
-		// Check if already connected
-		for _, conn := range h.graph[level][nodeID1] {
-			if conn == nodeID2 {
-				return
-			}
-		}
-		h.graph[level][nodeID1] = append(h.graph[level][nodeID1], nodeID2)
-	}
-
-	// Add connection from node2 to node1
-	if h.graph[level][nodeID2] == nil {
-		h.graph[level][nodeID2] = make([]string, 0, h.maxConns)
-	}
-	if len(h.graph[level][nodeID2]) < h.maxConns {
-		// Check if already connected
-		for _, conn := range h.graph[level][nodeID2] {
-			if conn == nodeID1 {
-				return
-			}
-		}
-		h.graph[level][nodeID2] = append(h.graph[level][nodeID2], nodeID1)
-	}
-}
-
-// getNodeLevel returns the highest level for a node
-func (h *SimpleHNSW) getNodeLevel(nodeID string) int {
-	for level := h.maxLevels - 1; level >= 0; level-- {
-		if connections, exists := h.graph[level][nodeID]; exists && len(connections) > 0 {
-			return level
-		}
-	}
-	return 0
-}
-
-// Search performs HNSW search
+// Search returns up to k nodes, the most similar first
 func (h *SimpleHNSW) Search(query []float32, k int) []searchCandidate {
 	h.mutex.RLock()
 	defer h.mutex.RUnlock()
 
-	if h.entryPoint == "" {
-		return nil
-	}
-
-	// Start from top level and work down
-	currentNodes := []searchCandidate{{nodeID: h.entryPoint, score: 0}}
-	
-	// Search from top to level 1
-	for level := h.getNodeLevel(h.entryPoint); level > 0; level-- {
-		candidates := h.searchLevel(query, h.entryPoint, 1, level)
-		if len(candidates) > 0 {
-			currentNodes = candidates[:1] // Keep best candidate
-		}
-	}
-
-	// Search at level 0 with desired ef
 	ef := k * 2
 	if ef < 50 {
 		ef = 50
 	}
-	
-	entryPoint := h.entryPoint
-	if len(currentNodes) > 0 {
-		entryPoint = currentNodes[0].nodeID
-	}
-	
-	results := h.searchLevel(query, entryPoint, ef, 0)
-	
-	// Return top k results
-	if len(results) > k {
-		results = results[:k]
+
+	ids, _ := h.hnsw.Search(query, k, ef)
+	results := make([]searchCandidate, 0, len(ids))
+	for _, id := range ids {
+		results = append(results, searchCandidate{nodeID: id, score: h.similarity(query, h.vectors[id])})
 	}
-	
+	sort.SliceStable(results, func(i, j int) bool {
+		return results[i].score > results[j].score
+	})
+
 	return results
 }
 
@@ -264,41 +82,16 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 	defer h.mutex.Unlock()
 
 	delete(h.vectors, nodeID)
-
-	// Remove from all levels
-	for level := 0; level < h.maxLevels; level++ {
-		if connections, exists := h.graph[level][nodeID]; exists {
-			// Remove connections from other nodes
-			for _, connID := range connections {
-				if otherConns, exists := h.graph[level][connID]; exists {
-					for i, conn := range otherConns {
-						if conn == nodeID {
-							h.graph[level][connID] = append(otherConns[:i], otherConns[i+1:]...)
-							break
-						}
-					}
-				}
-			}
-			delete(h.graph[level], nodeID)
-		}
-	}
-
-	// Update entry point if needed
-	if h.entryPoint == nodeID {
-		h.entryPoint = ""
-		// Find new entry point
-		for id := range h.vectors {
-			if h.entryPoint == "" || h.getNodeLevel(id) > h.getNodeLevel(h.entryPoint) {
-				h.entryPoint = id
-			}
-		}
-	}
+	_ = h.hnsw.Delete(nodeID)
 }
 
 // EnableHNSWIndex enables HNSW indexing for the graph store
 func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
-	g.hnswIndex = &HNSWGraphIndex{
-		index: NewSimpleHNSW(dimensions, 16),
+	g.indexMu.Lock()
+	defer g.indexMu.Unlock()
+
+	hnswIndex := &HNSWGraphIndex{
+		index: newSimpleHNSW(dimensions, 16, g.store.GetSimilarityFunc()),
 	}
 	
 	// Index existing nodes with vectors
@@ -315,7 +108,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 		var nodeID string
 		var vectorBytes []byte
 		if err := rows.Scan(&nodeID, &vectorBytes); err != nil {
-			continue
+			return fmt.Errorf("failed to scan node: %w", err)
 		}
 
 		vector, err := encoding.DecodeVector(vectorBytes)
@@ -323,9 +116,13 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 			continue
 		}
 
-		_ = g.hnswIndex.index.Add(nodeID, vector)
+		_ = hnswIndex.index.Add(nodeID, vector)
+	}
+	if err := rows.Err(); err != nil {
+		return fmt.Errorf("failed to read existing nodes: %w", err)
 	}
 
+	g.hnswIndex = hnswIndex
 	return nil
 }
 
@@ -335,29 +132,61 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		return nil, fmt.Errorf("HNSW index not enabled")
 	}
 
+	if k <= 0 {
+		return []*HybridResult{}, nil
+	}
+
 	candidates := g.hnswIndex.index.Search(query, k*2)
-	results := make([]*HybridResult, 0, k)
-
-	for _, candidate := range candidates {
-		if candidate.score >= threshold && len(results) < k {
-			// Get full node data
-			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
-				continue
-			}
+	results := make([]*HybridResult, 0, len(candidates))
 
+	nodes, err := g.candidateNodes(ctx, candidates)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, node := range nodes {
+		score := g.store.GetSimilarityFunc()(query, node.Vector)
+		if score >= threshold {
 			results = append(results, &HybridResult{
 				Node:        node,
-				VectorScore: candidate.score,
+				VectorScore: score,
 				GraphScore:  0.0,
-				TotalScore:  candidate.score,
+				TotalScore:  score,
 			})
 		}
 	}
 
+	sort.SliceStable(results, func(i, j int) bool {
+		return results[i].TotalScore > results[j].TotalScore
+	})
+	if len(results) > k {
+		results = results[:k]
+	}
+
 	return results, nil
 }
 
+// candidateNodes loads the nodes of index candidates, skipping those deleted in the meantime
+func (g *GraphStore) candidateNodes(ctx context.Context, candidates []searchCandidate) ([]*GraphNode, error) {
+	ids := make([]string, len(candidates))
+	for i, candidate := range candidates {
+		ids[i] = candidate.nodeID
+	}
+
+	nodesByID, err := g.getNodesByIDs(ctx, ids)
+	if err != nil {
+		return nil, err
+	}
+
+	nodes := make([]*GraphNode, 0, len(ids))
+	for _, id := range ids {
+		if node, ok := nodesByID[id]; ok {
+			nodes = append(nodes, node)
+		}
+	}
+	return nodes, nil
+}
+
 // HNSWHybridSearch combines HNSW search with graph proximity
 func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) ([]*HybridResult, error) {
 	if g.hnswIndex == nil {
@@ -365,23 +194,28 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 		return g.HybridSearch(ctx, query)
 	}
 
+	if query.TopK <= 0 {
+		return []*HybridResult{}, nil
+	}
+
 	// Get HNSW candidates
 	candidates := g.hnswIndex.index.Search(query.Vector, query.TopK*3)
-	results := make([]*HybridResult, 0, query.TopK)
+	results := make([]*HybridResult, 0, len(candidates))
 
-	// Combine with graph scoring
-	for _, candidate := range candidates {
-		if candidate.score >= query.VectorThreshold {
-			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
-				continue
-			}
+	nodes, err := g.candidateNodes(ctx, candidates)
+	if err != nil {
+		return nil, err
+	}
 
+	// Combine with graph scoring
+	for _, node := range nodes {
+		vectorScore := g.store.GetSimilarityFunc()(query.Vector, node.Vector)
+		if vectorScore >= query.VectorThreshold {
 			// Calculate graph score if center nodes provided
 			graphScore := 0.0
 			if len(query.CenterNodes) > 0 {
 				for _, centerID := range query.CenterNodes {
-					distance, err := g.ShortestPath(ctx, centerID, candidate.nodeID)
+					distance, err := g.ShortestPath(ctx, centerID, node.ID)
 					if err == nil && distance != nil && len(distance.Nodes) > 0 {
 						// Convert path length to score (shorter = higher score)
 						pathScore := 1.0 / float64(len(distance.Nodes))
@@ -392,12 +226,12 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 				}
 			}
 
-			totalScore := query.VectorWeight*candidate.score + query.GraphWeight*graphScore
+			totalScore := query.VectorWeight*vectorScore + query.GraphWeight*graphScore
 			
 			if totalScore >= query.TotalThreshold {
 				results = append(results, &HybridResult{
 					Node:        node,
-					VectorScore: candidate.score,
+					VectorScore: vectorScore,
 					GraphScore:  graphScore,
 					TotalScore:  totalScore,
 				})
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index fbc81a9..d04f248 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -18,17 +18,18 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 	}
 
 	// Normalize weights if needed
-	totalWeight := query.Weights.VectorWeight + query.Weights.GraphWeight + query.Weights.EdgeWeight
+	weights := query.Weights
+	totalWeight := weights.VectorWeight + weights.GraphWeight + weights.EdgeWeight
 	if totalWeight == 0 {
 		// Default weights if none specified
-		query.Weights.VectorWeight = 0.5
-		query.Weights.GraphWeight = 0.3
-		query.Weights.EdgeWeight = 0.2
+		weights.VectorWeight = 0.5
+		weights.GraphWeight = 0.3
+		weights.EdgeWeight = 0.2
 	} else if math.Abs(totalWeight-1.0) > 0.001 {
 		// Normalize to sum to 1.0
-		query.Weights.VectorWeight /= totalWeight
-		query.Weights.GraphWeight /= totalWeight
-		query.Weights.EdgeWeight /= totalWeight
+		weights.VectorWeight /= totalWeight
+		weights.GraphWeight /= totalWeight
+		weights.EdgeWeight /= totalWeight
 	}
 
 	// Phase 1: Vector similarity search if vector provided
@@ -81,16 +82,19 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 			Distance:    -1,
 		}
 
-		// Add graph score if available
+		// Add graph and edge scores if available
+		edgeScore := 0.0
 		if graphResults != nil {
 			if gd, exists := graphResults[nodeID]; exists {
 				result.GraphScore = 1.0 / float64(gd.distance+1) // Inverse distance
 				result.Distance = gd.distance
+				edgeScore = gd.weight
 			}
 		}
 
-		result.CombinedScore = result.VectorScore*query.Weights.VectorWeight +
-			result.GraphScore*query.Weights.GraphWeight
+		result.CombinedScore = result.VectorScore*weights.VectorWeight +
+			result.GraphScore*weights.GraphWeight +
+			edgeScore*weights.EdgeWeight
 
 		nodeScores[nodeID] = result
 	}
@@ -120,9 +124,9 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 				result.VectorScore = g.store.GetSimilarityFunc()(query.Vector, node.Vector)
 			}
 
-			result.CombinedScore = result.VectorScore*query.Weights.VectorWeight +
-				result.GraphScore*query.Weights.GraphWeight +
-				gd.weight*query.Weights.EdgeWeight
+			result.CombinedScore = result.VectorScore*weights.VectorWeight +
+				result.GraphScore*weights.GraphWeight +
+				gd.weight*weights.EdgeWeight
 
 			nodeScores[nodeID] = result
 		}
@@ -148,8 +152,10 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 
 // GraphVectorSearch performs vector search within a graph neighborhood
 func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string, vector []float32, opts TraversalOptions) ([]*HybridResult, error) {
-	// First, get neighbors within specified depth
-	neighbors, err := g.Neighbors(ctx, startNodeID, opts)
+	// First, get all neighbors within specified depth; the limit applies to the ranked result
+	neighborOpts := opts
+	neighborOpts.Limit = 0
+	neighbors, err := g.Neighbors(ctx, startNodeID, neighborOpts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get neighbors: %w", err)
 	}
@@ -309,28 +315,20 @@ func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) (
 		}
 
 		candidates := g.hnswIndex.index.Search(query.Vector, candidateLimit)
-		nodeIDs := make([]string, 0, len(candidates))
-		for _, candidate := range candidates {
-			nodeIDs = append(nodeIDs, candidate.nodeID)
-		}
-
-		nodesByID, err := g.getNodesByIDs(ctx, nodeIDs)
+		candidateNodes, err := g.candidateNodes(ctx, candidates)
 		if err != nil {
 			return nil, err
 		}
 
-		nodes := make([]*GraphNode, 0, len(candidates))
-		for _, candidate := range candidates {
-			node, ok := nodesByID[candidate.nodeID]
-			if !ok {
-				continue
-			}
+		nodes := make([]*GraphNode, 0, len(candidateNodes))
+		for _, node := range candidateNodes {
 			if query.GraphFilter != nil && len(query.GraphFilter.NodeTypes) > 0 && !contains(query.GraphFilter.NodeTypes, node.NodeType) {
 				continue
 			}
 			nodes = append(nodes, node)
 		}
-		if len(nodes) > 0 {
+		// Fall back to the full scan when the filter leaves too few candidates
+		if len(nodes) >= query.TopK {
 			return nodes, nil
 		}
 	}
diff --git a/pkg/graph/graph_traversal.go b/pkg/graph/graph_traversal.go
index 15c3371..21fbad0 100644
--- a/pkg/graph/graph_traversal.go
+++ b/pkg/graph/graph_traversal.go
@@ -89,14 +89,18 @@ func (g *GraphStore) Neighbors(ctx context.Context, nodeID string, opts Traversa
 				}{neighborID, current.depth + 1})
 			}
 
-			// Check limit
-			if opts.Limit > 0 && len(neighborIDs) >= opts.Limit {
-				return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+			// Check limit (with a node type filter it applies to the filtered nodes)
+			if opts.Limit > 0 && len(opts.NodeTypes) == 0 && len(neighborIDs) >= opts.Limit {
+				return g.loadNeighborNodes(ctx, neighborIDs, nil)
 			}
 		}
 	}
 
-	return g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	neighbors, err := g.loadNeighborNodes(ctx, neighborIDs, opts.NodeTypes)
+	if err == nil && opts.Limit > 0 && len(neighbors) > opts.Limit {
+		neighbors = neighbors[:opts.Limit]
+	}
+	return neighbors, err
 }
 
 // ShortestPath finds the shortest path between two nodes using BFS
@@ -205,27 +209,28 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 // Subgraph extracts a subgraph containing specified nodes and their connections
 func (g *GraphStore) Subgraph(ctx context.Context, nodeIDs []string) (*GraphResult, error) {
 	nodeSet := make(map[string]bool)
+	uniqueIDs := make([]string, 0, len(nodeIDs))
 	for _, id := range nodeIDs {
-		nodeSet[id] = true
+		if !nodeSet[id] {
+			nodeSet[id] = true
+			uniqueIDs = append(uniqueIDs, id)
+		}
 	}
+	nodeIDs = uniqueIDs
 
-	nodes := make([]*GraphNode, 0, len(nodeIDs))
 	edges := make([]*GraphEdge, 0)
 
-	// Get all nodes
-	for _, nodeID := range nodeIDs {
-		node, err := g.GetNode(ctx, nodeID)
-		if err != nil {
-			continue // Skip if node not found
-		}
-		nodes = append(nodes, node)
+	// Get all nodes, skipping those that do not exist
+	nodes, err := g.loadNeighborNodes(ctx, nodeIDs, nil)
+	if err != nil {
+		return nil, err
 	}
 
 	// Get edges between nodes in the subgraph
 	for _, nodeID := range nodeIDs {
 		nodeEdges, err := g.GetEdges(ctx, nodeID, "out")
 		if err != nil {
-			continue
+			return nil, err
 		}
 
 		for _, edge := range nodeEdges {
-- 
2.43.0


From 6355d1eb78dd3f321b2beb26916375ba303bcc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:43 +0000
Subject: [PATCH 11/32] fix: do not leak the write lock when a delete is
 cancelled

---
 pkg/core/store_crud.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index e878ab9..a9c1cde 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -346,7 +346,9 @@ func (s *SQLiteStore) deleteEmbeddings(ctx context.Context, conditions []deleteC
 			}
 			continue
 		}
-		rows, err := tx.QueryContext(ctx, "DELETE FROM embeddings WHERE "+c.where+" RETURNING id", c.args...)
+		// The driver leaks a row-returning statement, and with it the write lock, when the context
+		// is cancelled as the first row arrives. The transaction itself still honours the context.
+		rows, err := tx.QueryContext(context.WithoutCancel(ctx), "DELETE FROM embeddings WHERE "+c.where+" RETURNING id", c.args...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to delete embeddings: %w", err)
 		}
-- 
2.43.0


From e9c20d718c1220aeecaa5fc3921848465a2393d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:08 +0000
Subject: [PATCH 12/32] fix: detect the graph format by its root element

---
 pkg/graph/graph_export.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/graph/graph_export.go b/pkg/graph/graph_export.go
index 1bd5939..abde833 100644
--- a/pkg/graph/graph_export.go
+++ b/pkg/graph/graph_export.go
@@ -640,8 +640,8 @@ func (g *GraphStore) Import(ctx context.Context, reader io.Reader, format Export
 func DetectFormat(reader io.Reader) (ExportFormat, error) {
 	// Read first few bytes to detect format
 	buf := make([]byte, 512)
-	n, err := reader.Read(buf)
-	if err != nil && err != io.EOF {
+	n, err := io.ReadFull(reader, buf)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		return "", fmt.Errorf("failed to read: %w", err)
 	}
 	
@@ -649,11 +649,14 @@ func DetectFormat(reader io.Reader) (ExportFormat, error) {
 	content = strings.TrimSpace(content)
 	
 	// Check for XML formats
-	if strings.HasPrefix(content, "<?xml") || strings.HasPrefix(content, "<graphml") {
-		if strings.Contains(content, "graphml") {
+	if strings.HasPrefix(content, "<") {
+		// Escaped text cannot contain "<", so these only match the elements
+		graphml := strings.Index(content, "<graphml")
+		gexf := strings.Index(content, "<gexf")
+		if graphml >= 0 && (gexf < 0 || graphml < gexf) {
 			return FormatGraphML, nil
 		}
-		if strings.Contains(content, "gexf") {
+		if gexf >= 0 {
 			return FormatGEXF, nil
 		}
 	}
-- 
2.43.0


From 0844dd36107b24b24e2521cc7b7bd3a82a1b2f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:54 +0000
Subject: [PATCH 13/32] fix: do not panic on filters with repeated operators

---
 pkg/core/advanced_filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 4c7b298..8649440 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -139,7 +139,7 @@ func splitTopLevel(str string, op FilterOperator) []string {
 			between = false
 			return len(" AND") - 1
 		}
-		if strings.HasPrefix(str[i:], sep) && strings.TrimSpace(str[start:i]) != "" {
+		if strings.HasPrefix(str[i:], sep) && i > start && strings.TrimSpace(str[start:i]) != "" {
 			parts = append(parts, str[start:i])
 			start = i + len(sep)
 			return len(sep) - 2
-- 
2.43.0


From 5011f0ad2a0c002255b9b5689a24ef2a43083516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 14/32] fix: a message to a missing session must not leave its
 connection on an old snapshot

---
 pkg/core/chat.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index b766641..7618ad4 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -107,18 +107,29 @@ func (s *SQLiteStore) AddMessage(ctx context.Context, msg *Message) error {
 		}
 	}
 
+	// In a transaction: when the session is missing, an insert of its own fails with the keyword
+	// index still open, and the connection goes on reading the state before that
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return wrapError("add_message", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
 	query := `
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, ?)
 	`
-	_, err = s.db.ExecContext(ctx, query, msg.ID, msg.SessionID, msg.Role, msg.Content, vectorBytes, metadataJSON, time.Now().UTC())
+	_, err = tx.ExecContext(ctx, query, msg.ID, msg.SessionID, msg.Role, msg.Content, vectorBytes, metadataJSON, time.Now().UTC())
+	if err != nil {
+		return err
+	}
 
 	// If vector is present, we should also index it in the main embeddings table or HNSW
 	// However, for simplicity, we treat message vectors separately or rely on user to also call Upsert()
 	// if they want it in the global search index.
 	// TODO: Consider an option to auto-index messages into a "chat_memory" collection.
 
-	return err
+	return tx.Commit()
 }
 
 // GetSessionHistory retrieves recent messages from a session
-- 
2.43.0


From 662302448bb8b9fac2d776b8522ec004606d58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:47 +0000
Subject: [PATCH 15/32] fix: adapt or reject the example vectors of a negative
 search

---
 pkg/core/advanced_search.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index f4fc25f..bc4fd35 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -255,6 +255,15 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		return nil, wrapError("search_negatives", ErrStoreClosed)
 	}
 	
+	positiveVectors, err := s.prepareQueries(opts.PositiveVectors, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("search_negatives", err)
+	}
+	negativeVectors, err := s.prepareQueries(opts.NegativeVectors, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("search_negatives", err)
+	}
+
 	// Get all candidates
 	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
 	if err != nil {
@@ -267,8 +276,8 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		negativeScore := float32(0)
 		
 		// Calculate positive scores
-		if len(opts.PositiveVectors) > 0 {
-			for j, posVec := range opts.PositiveVectors {
+		if len(positiveVectors) > 0 {
+			for j, posVec := range positiveVectors {
 				score := float32(s.similarityFn(posVec, candidates[i].Vector))
 				if j == 0 || score > positiveScore {
 					positiveScore = score
@@ -277,8 +286,8 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		}
 		
 		// Calculate negative scores
-		if len(opts.NegativeVectors) > 0 {
-			for j, negVec := range opts.NegativeVectors {
+		if len(negativeVectors) > 0 {
+			for j, negVec := range negativeVectors {
 				score := float32(s.similarityFn(negVec, candidates[i].Vector))
 				if j == 0 || score > negativeScore {
 					negativeScore = score
@@ -309,6 +318,18 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 	return candidates, nil
 }
 
+// prepareQueries adapts and validates several query vectors
+func (s *SQLiteStore) prepareQueries(queries [][]float32, opts SearchOptions) ([][]float32, error) {
+	prepared := make([][]float32, len(queries))
+	for i, query := range queries {
+		var err error
+		if prepared[i], err = s.prepareQuery(query, opts); err != nil {
+			return nil, fmt.Errorf("vector %d: %w", i, err)
+		}
+	}
+	return prepared, nil
+}
+
 // SearchWithDiversity performs search with result diversification
 func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32, opts DiversitySearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-- 
2.43.0


From 3a5ebc1b6a22797e1d812a5358d0d872db8e7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:23 +0000
Subject: [PATCH 16/32] fix: diversity reranker picks the greatest marginal
 relevance when all are negative

---
 pkg/core/reranker.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index bec84da..f01aba5 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -360,8 +360,8 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 
 	for len(remaining) > 0 {
 		// Find the item with maximum MMR score
-		bestIdx := 0
-		bestScore := -1.0
+		bestIdx := -1
+		bestScore := 0.0
 
 		for i, item := range remaining {
 			// Relevance to query
@@ -369,9 +369,9 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 
 			// Similarity to already selected items (max similarity)
 			maxSim := 0.0
-			for _, selected := range selected {
+			for j, selected := range selected {
 				sim := simFunc(item.Vector, selected.Vector)
-				if sim > maxSim {
+				if j == 0 || sim > maxSim {
 					maxSim = sim
 				}
 			}
@@ -379,7 +379,7 @@ func (r *DiversityReranker) Rerank(ctx context.Context, query string, results []
 			// MMR score
 			mmrScore := r.Lambda*relevance - (1-r.Lambda)*maxSim
 
-			if mmrScore > bestScore {
+			if bestIdx < 0 || mmrScore > bestScore {
 				bestScore = mmrScore
 				bestIdx = i
 			}
-- 
2.43.0


From 8416a1ecc78989a93063c8e08f11a103fc8658a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:28 +0000
Subject: [PATCH 17/32] fix: streams end early only with enough results, merge
 to the best score and keep no caller data

---
 pkg/core/streaming.go | 52 ++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 8d50036..f73e52d 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -3,6 +3,8 @@ package core
 import (
 	"context"
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"sync"
 	"time"
@@ -47,6 +49,9 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		return nil, wrapError("stream_search", err)
 	}
 
+	// The caller may reuse its query while the stream runs
+	query = append([]float32(nil), query...)
+
 	// Get all candidates while the store is known to be open
 	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
 	if err != nil {
@@ -62,6 +67,7 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		
 		// Process in batches
 		batchID := 0
+		goodResults := 0
 		totalCandidates := len(candidates)
 		
 		for i := 0; i < totalCandidates; i += opts.BatchSize {
@@ -113,7 +119,8 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 				
 				// Check early termination
 				if opts.EarlyTerminate && result.Score >= opts.QualityThreshold {
-					if opts.TopK > 0 && i+len(batchResults) >= opts.TopK {
+					goodResults++
+					if opts.TopK > 0 && goodResults >= opts.TopK {
 						return // Found enough good results
 					}
 				}
@@ -138,6 +145,13 @@ func (s *SQLiteStore) ParallelStreamSearch(ctx context.Context, queries [][]floa
 	for i, query := range queries {
 		ch, err := s.StreamSearch(ctx, query, opts)
 		if err != nil {
+			// Let the streams already started come to an end
+			for _, started := range channels[:i] {
+				go func() {
+					for range started {
+					}
+				}()
+			}
 			return nil, fmt.Errorf("failed to start stream for query %d: %w", i, err)
 		}
 		channels[i] = ch
@@ -187,7 +201,6 @@ func MergeStreamResults(ctx context.Context, channels ...<-chan StreamingResult)
 func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k int) ([]ScoredEmbedding, error) {
 	// Use a heap to maintain top-k
 	topK := []ScoredEmbedding{}
-	seen := make(map[string]bool)
 	
 	for {
 		select {
@@ -197,27 +210,28 @@ func CollectTopKFromStream(ctx context.Context, stream <-chan StreamingResult, k
 				return topK, nil
 			}
 			
-			// Skip duplicates
-			if seen[result.ID] {
-				continue
-			}
-			seen[result.ID] = true
-			
-			// Add to top-k
 			if k <= 0 {
 				continue
 			}
-			if len(topK) < k {
+
+			// Of duplicates, keep the best
+			position := slices.IndexFunc(topK, func(e ScoredEmbedding) bool { return e.ID == result.ID })
+
+			// Add to top-k
+			if position < 0 && len(topK) < k {
 				topK = append(topK, result.ScoredEmbedding)
-				sort.Slice(topK, func(i, j int) bool {
-					return topK[i].Score > topK[j].Score
-				})
-			} else if result.Score > topK[k-1].Score {
-				topK[k-1] = result.ScoredEmbedding
-				sort.Slice(topK, func(i, j int) bool {
-					return topK[i].Score > topK[j].Score
-				})
+			} else {
+				if position < 0 {
+					position = k - 1
+				}
+				if result.Score <= topK[position].Score {
+					continue
+				}
+				topK[position] = result.ScoredEmbedding
 			}
+			sort.Slice(topK, func(i, j int) bool {
+				return topK[i].Score > topK[j].Score
+			})
 
 		case <-ctx.Done():
 			return topK, ctx.Err()
@@ -272,6 +286,8 @@ func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
 
 	update := *emb
 	update.Vector = append([]float32(nil), emb.Vector...)
+	update.Metadata = maps.Clone(emb.Metadata)
+	update.ACL = append([]string(nil), emb.ACL...)
 	idx.pending = append(idx.pending, &update)
 	return nil
 }
-- 
2.43.0


From 3055cfdf1108aefa92ef3eec4c03637623216cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:41 +0000
Subject: [PATCH 18/32] fix: import an exported IVF index into a store
 configured for IVF

---
 pkg/core/io.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/core/io.go b/pkg/core/io.go
index 4135fab..1c607bc 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -602,22 +602,34 @@ func (s *SQLiteStore) ImportIndex(ctx context.Context, filepath string) error {
 		} else {
 			// Try IVF format
 			file.Seek(0, 0)
-			if s.ivfIndex == nil {
-				s.ivfIndex = index.NewIVFIndex(s.config.VectorDim, s.config.IVF.NCentroids)
-			}
-			if err := s.ivfIndex.Load(file); err != nil {
-				return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
-			}
-			if err := s.reconcileIVFIndex(ctx); err != nil {
-				return wrapError("import_index", err)
-			}
+			return s.importIVF(ctx, file)
 		}
 		return nil
 	}
 
+	if s.config.IVF.Enabled {
+		return s.importIVF(ctx, file)
+	}
+
 	return wrapError("import_index", fmt.Errorf("no index enabled in config"))
 }
 
+// importIVF loads an exported IVF index and brings it in line with the stored embeddings
+func (s *SQLiteStore) importIVF(ctx context.Context, file io.Reader) error {
+	ivf := s.ivfIndex
+	if ivf == nil {
+		ivf = index.NewIVFIndex(s.config.VectorDim, s.config.IVF.NCentroids)
+	}
+	if err := ivf.Load(file); err != nil {
+		return wrapError("import_index", fmt.Errorf("failed to load index: %w", err))
+	}
+	s.ivfIndex = ivf
+	if err := s.reconcileIVFIndex(ctx); err != nil {
+		return wrapError("import_index", err)
+	}
+	return nil
+}
+
 // Backup creates a full backup of the database to a file
 func (s *SQLiteStore) Backup(ctx context.Context, filepath string) error {
 	s.mu.RLock()
-- 
2.43.0


From e76e9d6885b752e207093e7d7c7e02d58c3b7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:46 +0000
Subject: [PATCH 19/32] fix: flat, LSH, hybrid and multi indexes act as sets
 and take any K

---
 pkg/index/flat.go        |  6 ++++--
 pkg/index/lsh.go         | 19 +++++++++++++++--
 pkg/index/multi_index.go | 45 ++++++++++++++++++++++++++++++++--------
 3 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/pkg/index/flat.go b/pkg/index/flat.go
index 53974b0..54d2363 100644
--- a/pkg/index/flat.go
+++ b/pkg/index/flat.go
@@ -70,7 +70,7 @@ func (f *FlatIndex) Search(query []float32, k int) ([]string, []float32) {
 	f.mu.RLock()
 	defer f.mu.RUnlock()
 
-	if len(f.vectors) == 0 {
+	if len(f.vectors) == 0 || k <= 0 {
 		return []string{}, []float32{}
 	}
 
@@ -190,11 +190,13 @@ func (f *FlatIndex) BatchInsert(ids []string, vectors [][]float32) error {
 	f.mu.Lock()
 	defer f.mu.Unlock()
 
-	for i, id := range ids {
+	for i := range ids {
 		if len(vectors[i]) != f.dimension {
 			return fmt.Errorf("dimension mismatch at index %d: expected %d, got %d", i, f.dimension, len(vectors[i]))
 		}
+	}
 
+	for i, id := range ids {
 		v := make([]float32, f.dimension)
 		copy(v, vectors[i])
 		
diff --git a/pkg/index/lsh.go b/pkg/index/lsh.go
index c8b298e..eefd8d4 100644
--- a/pkg/index/lsh.go
+++ b/pkg/index/lsh.go
@@ -101,7 +101,11 @@ func (lsh *LSHIndex) Insert(id string, vector []float32) error {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
-	// Store the vector
+	// Replace the vector stored under this ID, if any
+	lsh.remove(id)
+
+	// Store a copy to avoid external modifications
+	vector = append([]float32(nil), vector...)
 	lsh.vectors[id] = vector
 	
 	// Add to all hash tables
@@ -151,6 +155,9 @@ func (lsh *LSHIndex) Search(query []float32, k int) ([]LSHSearchResult, error) {
 	})
 	
 	// Return top k
+	if k < 0 {
+		k = 0
+	}
 	if len(results) > k {
 		results = results[:k]
 	}
@@ -207,6 +214,9 @@ func (lsh *LSHIndex) SearchWithMultiProbe(query []float32, k int, numProbes int)
 		return results[i].Distance < results[j].Distance
 	})
 	
+	if k < 0 {
+		k = 0
+	}
 	if len(results) > k {
 		results = results[:k]
 	}
@@ -219,6 +229,11 @@ func (lsh *LSHIndex) Delete(id string) bool {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
+	return lsh.remove(id)
+}
+
+// remove takes a vector out of the index; the caller holds the write lock
+func (lsh *LSHIndex) remove(id string) bool {
 	vector, exists := lsh.vectors[id]
 	if !exists {
 		return false
@@ -326,7 +341,7 @@ func (lsh *LSHIndex) computeHash(vector []float32, tableIdx int) uint64 {
 // getProbeHashes generates nearby hash values for multi-probe LSH
 func (lsh *LSHIndex) getProbeHashes(vector []float32, tableIdx int, numProbes int) []uint64 {
 	baseHash := lsh.computeHash(vector, tableIdx)
-	probes := make([]uint64, 0, numProbes)
+	probes := make([]uint64, 0, lsh.numHashFuncs)
 	
 	// Calculate projection values and their distances from threshold
 	projections := lsh.hashFunctions[tableIdx]
diff --git a/pkg/index/multi_index.go b/pkg/index/multi_index.go
index 29d1f17..221d85f 100644
--- a/pkg/index/multi_index.go
+++ b/pkg/index/multi_index.go
@@ -2,6 +2,7 @@
 package index
 
 import (
+	"fmt"
 	"sort"
 	"sync"
 )
@@ -125,6 +126,10 @@ func (m *MultiIndex) Search(query []float32, k int) ([]string, []float32) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
+	if k <= 0 {
+		return []string{}, []float32{}
+	}
+	
 	switch m.config.CombineStrategy {
 	case StrategyPrimaryOnly:
 		return m.searchPrimaryOnly(query, k)
@@ -205,7 +210,7 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	if m.config.RerankTopK > 0 {
 		candidateK = m.config.RerankTopK
 	}
-	candidateIDs, _ := primary.Search(query, candidateK)
+	candidateIDs, candidateDists := primary.Search(query, candidateK)
 	
 	if len(candidateIDs) == 0 {
 		return []string{}, []float32{}
@@ -219,8 +224,10 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	}
 	
 	resultMap := make(map[string]*result)
-	for _, id := range candidateIDs {
+	primaryDists := make(map[string]float32, len(candidateIDs))
+	for i, id := range candidateIDs {
 		resultMap[id] = &result{id: id, score: 0, voteCount: 0}
+		primaryDists[id] = candidateDists[i]
 	}
 	
 	// Get refined distances from secondary indices
@@ -241,6 +248,9 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	for _, r := range resultMap {
 		if r.voteCount > 0 {
 			r.score /= float32(r.voteCount)
+		} else {
+			// No secondary index returned it: keep the distance the primary index gave
+			r.score = primaryDists[r.id]
 		}
 		results = append(results, *r)
 	}
@@ -336,12 +346,13 @@ func (m *MultiIndex) Delete(id string) error {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 	
+	var firstErr error
 	for _, index := range m.indices {
-		if err := index.Delete(id); err != nil {
-			return err
+		if err := index.Delete(id); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 // Size returns the size of the primary index
@@ -401,10 +412,11 @@ func (h *HybridIndex) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
-	if err := h.hnsw.Insert(id, vector); err != nil {
+	// The IVF component refuses vectors it cannot hold, so it goes first
+	if err := h.ivf.Add(id, vector); err != nil {
 		return err
 	}
-	return h.ivf.Add(id, vector)
+	return h.hnsw.Upsert(id, vector)
 }
 
 // Search performs hybrid search
@@ -412,6 +424,10 @@ func (h *HybridIndex) Search(query []float32, k int) ([]string, []float32) {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 	
+	if k <= 0 {
+		return []string{}, []float32{}
+	}
+	
 	// Get candidates from HNSW (fast)
 	hnswIDs, _ := h.hnsw.Search(query, k*2, 50)
 	
@@ -478,7 +494,7 @@ func (h *HybridIndex) Delete(id string) error {
 		// Log but don't fail - some indices may not support deletion
 		_ = err
 	}
-	// IVF doesn't support delete, would need rebuild
+	_ = h.ivf.Delete(id) // missing there as well
 	return nil
 }
 
@@ -499,17 +515,28 @@ func (h *HybridIndex) SetAlpha(alpha float32) {
 // HNSWAdapter wraps HNSW to implement VectorIndex interface
 type HNSWAdapter struct {
 	*HNSW
+	dimension int
 	defaultEf int
 }
 
 // NewHNSWAdapter creates a new HNSW adapter
 func NewHNSWAdapter(dimension, M int, distFunc func([]float32, []float32) float32) *HNSWAdapter {
 	return &HNSWAdapter{
-		HNSW:      NewHNSW(dimension, M, distFunc),
+		HNSW:      NewHNSW(M, 200, distFunc),
+		dimension: dimension,
 		defaultEf: 50,
 	}
 }
 
+// Insert implements VectorIndex interface: like the other indices it replaces the vector of an
+// existing ID and refuses vectors of another dimension
+func (h *HNSWAdapter) Insert(id string, vector []float32) error {
+	if len(vector) != h.dimension {
+		return fmt.Errorf("dimension mismatch: expected %d, got %d", h.dimension, len(vector))
+	}
+	return h.HNSW.Upsert(id, vector)
+}
+
 // Search implements VectorIndex interface
 func (h *HNSWAdapter) Search(query []float32, k int) ([]string, []float32) {
 	ef := h.defaultEf
-- 
2.43.0


From becd4a296e4e69d3de660e19401ddd3a2ceb33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:15 +0000
Subject: [PATCH 20/32] fix: quantizers round to the nearest level, measure
 true distances and refuse malformed input

---
 pkg/quantization/product_quantization.go |  98 ++++++++++++++------
 pkg/quantization/scalar_quantization.go  | 113 +++++++++++++++++------
 2 files changed, 154 insertions(+), 57 deletions(-)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 4020a72..bd1daac 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -23,6 +23,10 @@ type ProductQuantizer struct {
 
 // NewProductQuantizer creates a new PQ instance
 func NewProductQuantizer(dimension, numSubspaces, numCentroids int) (*ProductQuantizer, error) {
+	if dimension <= 0 || numSubspaces <= 0 || numCentroids <= 0 {
+		return nil, fmt.Errorf("dimension %d, numSubspaces %d and numCentroids %d must be positive", dimension, numSubspaces, numCentroids)
+	}
+	
 	if dimension%numSubspaces != 0 {
 		return nil, fmt.Errorf("dimension %d must be divisible by numSubspaces %d", dimension, numSubspaces)
 	}
@@ -46,7 +50,13 @@ func (pq *ProductQuantizer) Train(vectors [][]float32) error {
 		return fmt.Errorf("need at least %d vectors for training, got %d", pq.K*pq.M, len(vectors))
 	}
 	
-	pq.TrainSize = len(vectors)
+	for _, vec := range vectors {
+		if len(vec) != pq.D {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), pq.D)
+		}
+	}
+	
+	codebooks := make([][][]float32, pq.M)
 	
 	// Train each subspace independently
 	for m := 0; m < pq.M; m++ {
@@ -64,9 +74,11 @@ func (pq *ProductQuantizer) Train(vectors [][]float32) error {
 			return fmt.Errorf("k-means failed for subspace %d: %w", m, err)
 		}
 		
-		pq.Codebooks[m] = centroids
+		codebooks[m] = centroids
 	}
 	
+	pq.Codebooks = codebooks
+	pq.TrainSize = len(vectors)
 	pq.Trained = true
 	return nil
 }
@@ -143,16 +155,38 @@ func (pq *ProductQuantizer) ComputeDistance(codes []byte, query []float32) (floa
 		return 0, errors.New("quantizer not trained")
 	}
 	
-	// Precompute distance table
-	distTable := pq.computeDistanceTable(query)
+	if len(query) != pq.D {
+		return 0, fmt.Errorf("query dimension %d doesn't match quantizer dimension %d", len(query), pq.D)
+	}
 	
-	// Sum distances from each subspace
-	totalDist := float32(0)
-	for m := 0; m < pq.M; m++ {
-		totalDist += distTable[m][codes[m]]
+	if !pq.validCodes(codes) {
+		return 0, errors.New("invalid codes")
 	}
 	
-	return totalDist, nil
+	return pq.tableDistance(pq.computeDistanceTable(query), codes), nil
+}
+
+// validCodes reports whether codes name a centroid of every subspace
+func (pq *ProductQuantizer) validCodes(codes []byte) bool {
+	if len(codes) != pq.M {
+		return false
+	}
+	for _, code := range codes {
+		if int(code) >= pq.K {
+			return false
+		}
+	}
+	return true
+}
+
+// tableDistance combines the distances of the subspaces into the distance of the whole vectors
+func (pq *ProductQuantizer) tableDistance(distTable [][]float32, codes []byte) float32 {
+	sum := float64(0)
+	for m := 0; m < pq.M; m++ {
+		dist := float64(distTable[m][codes[m]])
+		sum += dist * dist
+	}
+	return float32(math.Sqrt(sum))
 }
 
 // computeDistanceTable precomputes distances between query and all centroids
@@ -175,7 +209,7 @@ func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 
 // SearchPQ performs approximate nearest neighbor search on PQ-compressed vectors
 func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int) ([]int, []float32) {
-	if !pq.Trained || len(codes) == 0 {
+	if !pq.Trained || len(codes) == 0 || len(query) != pq.D || topK <= 0 {
 		return nil, nil
 	}
 	
@@ -188,13 +222,12 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 		dist float32
 	}
 	
-	results := make([]result, len(codes))
+	results := make([]result, 0, len(codes))
 	for i, code := range codes {
-		dist := float32(0)
-		for m := 0; m < pq.M; m++ {
-			dist += distTable[m][code[m]]
+		if !pq.validCodes(code) {
+			continue
 		}
-		results[i] = result{idx: i, dist: dist}
+		results = append(results, result{idx: i, dist: pq.tableDistance(distTable, code)})
 	}
 	
 	// Sort by distance
@@ -270,30 +303,35 @@ func (pq *ProductQuantizer) DeserializeCodebooks(data []byte) error {
 	offset := 0
 	
 	// Read header
-	pq.M = int(binary.LittleEndian.Uint32(data[offset:]))
+	M := int64(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
-	pq.K = int(binary.LittleEndian.Uint32(data[offset:]))
+	K := int64(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
-	pq.D = int(binary.LittleEndian.Uint32(data[offset:]))
+	D := int64(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
-	pq.SubDim = int(binary.LittleEndian.Uint32(data[offset:]))
+	subDim := int64(binary.LittleEndian.Uint32(data[offset:]))
 	offset += 4
 	
-	// Initialize codebooks
-	pq.Codebooks = make([][][]float32, pq.M)
+	// The header must describe exactly the data that follows
+	if M <= 0 || K <= 0 || K > 256 || subDim <= 0 || D%M != 0 || D/M != subDim || int64(len(data)-offset) != D*K*4 {
+		return errors.New("invalid codebook data")
+	}
 	
 	// Read codebooks
-	for m := 0; m < pq.M; m++ {
-		pq.Codebooks[m] = make([][]float32, pq.K)
-		for k := 0; k < pq.K; k++ {
-			pq.Codebooks[m][k] = make([]float32, pq.SubDim)
-			for d := 0; d < pq.SubDim; d++ {
-				pq.Codebooks[m][k][d] = math.Float32frombits(binary.LittleEndian.Uint32(data[offset:]))
+	codebooks := make([][][]float32, M)
+	for m := range codebooks {
+		codebooks[m] = make([][]float32, K)
+		for k := range codebooks[m] {
+			codebooks[m][k] = make([]float32, subDim)
+			for d := range codebooks[m][k] {
+				codebooks[m][k][d] = math.Float32frombits(binary.LittleEndian.Uint32(data[offset:]))
 				offset += 4
 			}
 		}
 	}
 	
+	pq.M, pq.K, pq.D, pq.SubDim = int(M), int(K), int(D), int(subDim)
+	pq.Codebooks = codebooks
 	pq.Trained = true
 	return nil
 }
@@ -369,10 +407,10 @@ func kMeans(vectors [][]float32, k int, maxIters int) ([][]float32, error) {
 
 // euclideanDistance computes Euclidean distance between two vectors
 func euclideanDistance(a, b []float32) float32 {
-	sum := float32(0)
+	sum := float64(0)
 	for i := range a {
-		diff := a[i] - b[i]
+		diff := float64(a[i]) - float64(b[i])
 		sum += diff * diff
 	}
-	return float32(math.Sqrt(float64(sum)))
+	return float32(math.Sqrt(sum))
 }
\ No newline at end of file
diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index a6bef6c..c1e8a36 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -41,8 +41,15 @@ func (sq *ScalarQuantizer) Save(w io.Writer) error {
 
 // Load deserializes the quantizer
 func (sq *ScalarQuantizer) Load(r io.Reader) error {
-	dec := gob.NewDecoder(r)
-	return dec.Decode(sq)
+	var loaded ScalarQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if loaded.NBits < 1 || loaded.NBits > 8 || len(loaded.Min) != loaded.Dimension || len(loaded.Max) != loaded.Dimension {
+		return errors.New("invalid scalar quantizer data")
+	}
+	*sq = loaded
+	return nil
 }
 
 // Train learns the value ranges from training data
@@ -51,6 +58,12 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if err := checkTrainingVector(vec, sq.Dimension); err != nil {
+			return err
+		}
+	}
+	
 	// Initialize min/max
 	for d := 0; d < sq.Dimension; d++ {
 		sq.Min[d] = vectors[0][d]
@@ -59,10 +72,6 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 	
 	// Find min/max for each dimension
 	for _, vec := range vectors {
-		if len(vec) != sq.Dimension {
-			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), sq.Dimension)
-		}
-		
 		for d := 0; d < sq.Dimension; d++ {
 			if vec[d] < sq.Min[d] {
 				sq.Min[d] = vec[d]
@@ -94,7 +103,7 @@ func (sq *ScalarQuantizer) Encode(vector []float32) ([]byte, error) {
 		return nil, fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vector), sq.Dimension)
 	}
 	
-	maxVal := float32((int(1) << uint(sq.NBits)) - 1)
+	maxVal := float64((int(1) << uint(sq.NBits)) - 1)
 	
 	// Calculate bytes needed
 	bitsNeeded := sq.Dimension * sq.NBits
@@ -104,15 +113,15 @@ func (sq *ScalarQuantizer) Encode(vector []float32) ([]byte, error) {
 	bitOffset := 0
 	for d := 0; d < sq.Dimension; d++ {
 		// Normalize to [0, 1]
-		normalized := (vector[d] - sq.Min[d]) / (sq.Max[d] - sq.Min[d])
-		if normalized < 0 {
+		normalized := (float64(vector[d]) - float64(sq.Min[d])) / (float64(sq.Max[d]) - float64(sq.Min[d]))
+		if !(normalized > 0) { // also when the range is empty
 			normalized = 0
 		} else if normalized > 1 {
 			normalized = 1
 		}
 		
-		// Quantize
-		quantized := uint32(normalized * maxVal)
+		// Quantize to the nearest level
+		quantized := uint32(math.Round(normalized * maxVal))
 		
 		// Pack bits
 		for b := 0; b < sq.NBits; b++ {
@@ -136,7 +145,7 @@ func (sq *ScalarQuantizer) Decode(encoded []byte) ([]float32, error) {
 		return nil, errors.New("quantizer not trained")
 	}
 	
-	maxVal := float32((int(1) << uint(sq.NBits)) - 1)
+	maxVal := float64((int(1) << uint(sq.NBits)) - 1)
 	vector := make([]float32, sq.Dimension)
 	
 	bitOffset := 0
@@ -159,8 +168,8 @@ func (sq *ScalarQuantizer) Decode(encoded []byte) ([]float32, error) {
 		}
 		
 		// Dequantize
-		normalized := float32(quantized) / maxVal
-		vector[d] = normalized*(sq.Max[d]-sq.Min[d]) + sq.Min[d]
+		normalized := float64(quantized) / maxVal
+		vector[d] = float32(normalized*(float64(sq.Max[d])-float64(sq.Min[d])) + float64(sq.Min[d]))
 	}
 	
 	return vector, nil
@@ -196,8 +205,15 @@ func (bq *BinaryQuantizer) Save(w io.Writer) error {
 
 // Load deserializes the quantizer
 func (bq *BinaryQuantizer) Load(r io.Reader) error {
-	dec := gob.NewDecoder(r)
-	return dec.Decode(bq)
+	var loaded BinaryQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if len(loaded.Threshold) != loaded.Dimension {
+		return errors.New("invalid binary quantizer data")
+	}
+	*bq = loaded
+	return nil
 }
 
 // Train learns thresholds from training data
@@ -206,22 +222,38 @@ func (bq *BinaryQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	for _, vec := range vectors {
+		if err := checkTrainingVector(vec, bq.Dimension); err != nil {
+			return err
+		}
+	}
+	
 	// Calculate mean for each dimension as threshold
 	for d := 0; d < bq.Dimension; d++ {
-		sum := float32(0)
+		sum := float64(0)
 		for _, vec := range vectors {
-			if len(vec) != bq.Dimension {
-				return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), bq.Dimension)
-			}
-			sum += vec[d]
+			sum += float64(vec[d])
 		}
-		bq.Threshold[d] = sum / float32(len(vectors))
+		bq.Threshold[d] = float32(sum / float64(len(vectors)))
 	}
 	
 	bq.Trained = true
 	return nil
 }
 
+// checkTrainingVector refuses vectors a quantizer cannot learn from
+func checkTrainingVector(vec []float32, dimension int) error {
+	if len(vec) != dimension {
+		return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), dimension)
+	}
+	for _, val := range vec {
+		if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+			return errors.New("training vector has a component that is not finite")
+		}
+	}
+	return nil
+}
+
 // Encode binarizes a vector
 func (bq *BinaryQuantizer) Encode(vector []float32) ([]byte, error) {
 	if !bq.Trained {
@@ -302,11 +334,10 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 		dist int
 	}
 	
-	results := make([]result, len(database))
+	results := make([]result, 0, len(database))
 	for i, vec := range database {
-		results[i] = result{
-			idx:  i,
-			dist: bq.HammingDistance(query, vec),
+		if dist := bq.HammingDistance(query, vec); dist >= 0 { // codes of another length are no match
+			results = append(results, result{idx: i, dist: dist})
 		}
 	}
 	
@@ -321,6 +352,9 @@ func (bq *BinaryQuantizer) SearchBinary(query []byte, database [][]byte, topK in
 	
 	// Return top-K
 	k := topK
+	if k < 0 {
+		k = 0
+	}
 	if k > len(results) {
 		k = len(results)
 	}
@@ -370,8 +404,33 @@ func NewOptimizedBinaryQuantizer(inputDim, outputDim int) *OptimizedBinaryQuanti
 	return obq
 }
 
-// Project applies random projections before binarization
+// Save serializes the quantizer with its projections
+func (obq *OptimizedBinaryQuantizer) Save(w io.Writer) error {
+	return gob.NewEncoder(w).Encode(obq)
+}
+
+// Load deserializes the quantizer with its projections
+func (obq *OptimizedBinaryQuantizer) Load(r io.Reader) error {
+	var loaded OptimizedBinaryQuantizer
+	if err := gob.NewDecoder(r).Decode(&loaded); err != nil {
+		return err
+	}
+	if len(loaded.Threshold) != loaded.Dimension || len(loaded.Projections) != loaded.Dimension {
+		return errors.New("invalid binary quantizer data")
+	}
+	*obq = loaded
+	return nil
+}
+
+// Project applies random projections before binarization. It returns nil for a vector of another
+// dimension than the projections.
 func (obq *OptimizedBinaryQuantizer) Project(vector []float32) []float32 {
+	for _, projection := range obq.Projections {
+		if len(projection) != len(vector) {
+			return nil
+		}
+	}
+	
 	projected := make([]float32, obq.Dimension)
 	
 	for i := 0; i < obq.Dimension; i++ {
-- 
2.43.0


From 5fd058b57cf9bf9b4572713eb93434539bab9193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 21/32] fix: geographic radius search misses points at high
 latitudes and across the date line; re-inserted points stay at their old
 place

---
 pkg/geo/geospatial.go | 85 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 18 deletions(-)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 60e773b..91d5be7 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -3,6 +3,7 @@ package geo
 
 import (
 	"fmt"
+	"maps"
 	"math"
 	"sort"
 	"sync"
@@ -82,7 +83,11 @@ func (g *GeoIndex) Insert(point GeoPoint) error {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	// Replace the point stored under this ID, if any
+	g.remove(point.ID)
+
 	// Store point
+	point = clonePoint(&point)
 	g.points[point.ID] = &point
 
 	// Add to grid index
@@ -97,6 +102,11 @@ func (g *GeoIndex) Delete(id string) bool {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	return g.remove(id)
+}
+
+// remove takes a point out of the index; the caller holds the write lock
+func (g *GeoIndex) remove(id string) bool {
 	point, exists := g.points[id]
 	if !exists {
 		return false
@@ -131,7 +141,7 @@ func (g *GeoIndex) SearchRadius(center Coordinate, radius float64, unit Distance
 		return nil, fmt.Errorf("invalid center coordinate")
 	}
 	
-	if radius <= 0 {
+	if !(radius > 0) {
 		return nil, fmt.Errorf("radius must be positive")
 	}
 
@@ -152,7 +162,7 @@ func (g *GeoIndex) SearchRadius(center Coordinate, radius float64, unit Distance
 			// Convert distance back to requested unit
 			displayDist := convertFromKM(dist, unit)
 			results = append(results, GeoSearchResult{
-				Point:    *point,
+				Point:    clonePoint(point),
 				Distance: displayDist,
 			})
 		}
@@ -184,7 +194,7 @@ func (g *GeoIndex) SearchKNN(center Coordinate, k int) ([]GeoSearchResult, error
 	for _, point := range g.points {
 		dist := haversineDistance(center, point.Coordinate)
 		results = append(results, GeoSearchResult{
-			Point:    *point,
+			Point:    clonePoint(point),
 			Distance: dist,
 		})
 	}
@@ -227,7 +237,7 @@ func (g *GeoIndex) SearchBoundingBox(bbox BoundingBox) ([]GeoPoint, error) {
 					   point.Coordinate.Lat <= bbox.MaxLat &&
 					   point.Coordinate.Lng >= bbox.MinLng && 
 					   point.Coordinate.Lng <= bbox.MaxLng {
-						results = append(results, *point)
+						results = append(results, clonePoint(point))
 					}
 				}
 			}
@@ -259,7 +269,7 @@ func (g *GeoIndex) SearchPolygon(polygon []Coordinate) ([]GeoPoint, error) {
 		
 		// Point-in-polygon test using ray casting algorithm
 		if pointInPolygon(point.Coordinate, polygon) {
-			results = append(results, *point)
+			results = append(results, clonePoint(point))
 		}
 	}
 
@@ -288,7 +298,7 @@ func (g *GeoIndex) GetPoint(id string) (*GeoPoint, bool) {
 	point, exists := g.points[id]
 	if exists {
 		// Return a copy to prevent external modification
-		copy := *point
+		copy := clonePoint(point)
 		return &copy, true
 	}
 	return nil, false
@@ -296,6 +306,13 @@ func (g *GeoIndex) GetPoint(id string) (*GeoPoint, bool) {
 
 // Helper functions
 
+// clonePoint copies a point with its metadata map
+func clonePoint(point *GeoPoint) GeoPoint {
+	clone := *point
+	clone.Metadata = maps.Clone(point.Metadata)
+	return clone
+}
+
 // getGridKey calculates the grid cell key for a coordinate
 func (g *GeoIndex) getGridKey(coord Coordinate) int64 {
 	gridX := int64(coord.Lng / g.gridSize)
@@ -306,20 +323,51 @@ func (g *GeoIndex) getGridKey(coord Coordinate) int64 {
 
 // getCandidateCells returns points from grid cells that might contain results
 func (g *GeoIndex) getCandidateCells(center Coordinate, radiusKM float64) []*GeoPoint {
-	// Calculate how many grid cells we need to check
-	// At equator, 1 degree ≈ 111km
-	degreesRadius := radiusKM / 111.0
-	cellsRadius := int64(math.Ceil(degreesRadius / g.gridSize))
-	
-	centerGridX := int64(center.Lng / g.gridSize)
-	centerGridY := int64(center.Lat / g.gridSize)
+	// Latitudes the circle reaches
+	angle := radiusKM / EarthRadiusKM
+	const margin = 1e-6 // degrees, against rounding
+	latSpan := angle*180/math.Pi + margin
+	minLat, maxLat := center.Lat-latSpan, center.Lat+latSpan
+
+	// Longitudes the circle reaches: all of them when it contains a pole
+	lngSpan := 360.0
+	if minLat > -90 && maxLat < 90 {
+		ratio := math.Sin(angle) / math.Cos(center.Lat*math.Pi/180)
+		if ratio < 1 {
+			lngSpan = math.Asin(ratio)*180/math.Pi + margin
+		}
+	}
+	spans := [][2]float64{{center.Lng - lngSpan, center.Lng + lngSpan}}
+	if lngSpan >= 179 { // its ends may share a cell
+		spans = [][2]float64{{-180, 180}}
+	} else if spans[0][0] < -180 { // across the date line
+		spans = append(spans, [2]float64{spans[0][0] + 360, 180})
+	} else if spans[0][1] > 180 {
+		spans = append(spans, [2]float64{-180, spans[0][1] - 360})
+	}
+
+	minGridY := int64(math.Max(minLat, -90) / g.gridSize)
+	maxGridY := int64(math.Min(maxLat, 90) / g.gridSize)
 	
 	var candidates []*GeoPoint
-	for dx := -cellsRadius; dx <= cellsRadius; dx++ {
-		for dy := -cellsRadius; dy <= cellsRadius; dy++ {
-			gridKey := ((centerGridX + dx) << 32) | ((centerGridY + dy) & 0xFFFFFFFF)
-			if cells, ok := g.grid[gridKey]; ok {
-				candidates = append(candidates, cells...)
+	for _, span := range spans {
+		minGridX := int64(math.Max(span[0], -180) / g.gridSize)
+		maxGridX := int64(math.Min(span[1], 180) / g.gridSize)
+
+		// With fewer points than cells, look at the points
+		if (maxGridX-minGridX+1)*(maxGridY-minGridY+1) > int64(len(g.points)) {
+			for _, point := range g.points {
+				gridX := int64(point.Coordinate.Lng / g.gridSize)
+				if gridX >= minGridX && gridX <= maxGridX {
+					candidates = append(candidates, point)
+				}
+			}
+			continue
+		}
+
+		for x := minGridX; x <= maxGridX; x++ {
+			for y := minGridY; y <= maxGridY; y++ {
+				candidates = append(candidates, g.grid[(x<<32)|(y&0xFFFFFFFF)]...)
 			}
 		}
 	}
@@ -337,6 +385,7 @@ func haversineDistance(p1, p2 Coordinate) float64 {
 	a := math.Sin(deltaLat/2)*math.Sin(deltaLat/2) +
 		math.Cos(lat1Rad)*math.Cos(lat2Rad)*
 			math.Sin(deltaLng/2)*math.Sin(deltaLng/2)
+	a = math.Min(a, 1) // rounding may exceed 1 for antipodes
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	return EarthRadiusKM * c
-- 
2.43.0


From 26906db4681089a8238844ade6d067cfe72628b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:38 +0000
Subject: [PATCH 22/32] fix: semantic routers persist, reload and remove
 routes, report embedder failures instead of caching them, and act atomically

---
 pkg/semantic-router/embedder.go |  34 +++++-
 pkg/semantic-router/hybrid.go   |  50 +++++++--
 pkg/semantic-router/router.go   | 191 +++++++++++++++++++-------------
 pkg/semantic-router/schema.go   |  56 +++++++---
 pkg/semantic-router/sparse.go   |  47 ++++++--
 pkg/semantic-router/types.go    |   3 +-
 6 files changed, 267 insertions(+), 114 deletions(-)

diff --git a/pkg/semantic-router/embedder.go b/pkg/semantic-router/embedder.go
index 73ae939..14e4574 100644
--- a/pkg/semantic-router/embedder.go
+++ b/pkg/semantic-router/embedder.go
@@ -3,6 +3,8 @@ package semanticrouter
 import (
 	"context"
 	"fmt"
+	"slices"
+	"sync"
 )
 
 // MockEmbedder is a simple embedder for testing purposes.
@@ -60,6 +62,7 @@ func (m *MockEmbedder) Dimensions() int {
 type CachedEmbedder struct {
 	embedder Embedder
 	cache    map[string][]float32
+	mu       sync.RWMutex
 }
 
 // NewCachedEmbedder creates a new cached embedder.
@@ -72,7 +75,7 @@ func NewCachedEmbedder(embedder Embedder) *CachedEmbedder {
 
 // Embed returns a cached embedding if available, otherwise computes and caches it.
 func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, error) {
-	if vec, ok := c.cache[text]; ok {
+	if vec, ok := c.get(text); ok {
 		return vec, nil
 	}
 
@@ -81,10 +84,25 @@ func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, err
 		return nil, err
 	}
 
-	c.cache[text] = vec
+	c.put(text, vec)
 	return vec, nil
 }
 
+// get returns a copy of a cached embedding.
+func (c *CachedEmbedder) get(text string) ([]float32, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	vec, ok := c.cache[text]
+	return slices.Clone(vec), ok
+}
+
+// put caches a copy of an embedding.
+func (c *CachedEmbedder) put(text string, vec []float32) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.cache[text] = slices.Clone(vec)
+}
+
 // EmbedBatch embeds multiple texts, using cache where available.
 func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]float32, error) {
 	vectors := make([][]float32, len(texts))
@@ -92,7 +110,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 
 	// Check cache first
 	for i, text := range texts {
-		if vec, ok := c.cache[text]; ok {
+		if vec, ok := c.get(text); ok {
 			vectors[i] = vec
 		} else {
 			uncached[i] = text
@@ -109,7 +127,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 		}
 
 		batchVecs, err := c.embedder.EmbedBatch(ctx, uncachedTexts)
-		if err != nil {
+		if err != nil || len(batchVecs) != len(uncachedTexts) {
 			// Fall back to individual embeddings
 			for origIdx, text := range uncached {
 				vec, err := c.embedder.Embed(ctx, text)
@@ -117,7 +135,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 					return nil, fmt.Errorf("failed to embed %q: %w", text, err)
 				}
 				vectors[origIdx] = vec
-				c.cache[text] = vec
+				c.put(text, vec)
 			}
 			return vectors, nil
 		}
@@ -125,7 +143,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 		for batchIdx, vec := range batchVecs {
 			origIdx := indexMap[batchIdx]
 			vectors[origIdx] = vec
-			c.cache[uncachedTexts[batchIdx]] = vec
+			c.put(uncachedTexts[batchIdx], vec)
 		}
 	}
 
@@ -139,10 +157,14 @@ func (c *CachedEmbedder) Dimensions() int {
 
 // ClearCache clears the embedding cache.
 func (c *CachedEmbedder) ClearCache() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.cache = make(map[string][]float32)
 }
 
 // CacheSize returns the number of cached embeddings.
 func (c *CachedEmbedder) CacheSize() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return len(c.cache)
 }
diff --git a/pkg/semantic-router/hybrid.go b/pkg/semantic-router/hybrid.go
index 45b9ea7..4ea405d 100644
--- a/pkg/semantic-router/hybrid.go
+++ b/pkg/semantic-router/hybrid.go
@@ -18,6 +18,7 @@ type HybridRouter struct {
 	sparseMu    sync.RWMutex
 
 	alpha       float64 // Weight for dense similarity (0-1)
+	alphaMu     sync.RWMutex
 	threshold   float64
 
 	// Similarity function for dense vectors
@@ -52,10 +53,6 @@ type SparseRoute struct {
 	Utterances   []string
 	Handler      RouteHandler
 	Metadata     map[string]string
-
-	cachedVectors map[string]float64
-	cachedOnce    sync.Once
-	cachedErr     error
 }
 
 // SparseConfig holds configuration for sparse router.
@@ -132,6 +129,21 @@ func (r *SparseRouter) Add(route *SparseRoute) error {
 	return nil
 }
 
+// checkNew reports whether all routes could be added.
+func (r *SparseRouter) checkNew(routes []*SparseRoute) error {
+	trial := &SparseRouter{encoder: r.encoder, config: r.config}
+	r.mu.RLock()
+	trial.routes = append(trial.routes, r.routes...)
+	r.mu.RUnlock()
+
+	for _, route := range routes {
+		if err := trial.Add(route); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // Route performs sparse routing.
 func (r *SparseRouter) Route(ctx context.Context, query string) (*RouteResult, error) {
 	if query == "" {
@@ -322,6 +334,9 @@ func (h *HybridRouter) Add(route *Route, sparseRoute *SparseRoute) error {
 
 	if sparseRoute != nil {
 		if err := h.sparse.Add(sparseRoute); err != nil {
+			if route != nil {
+				_ = h.dense.Remove(route.Name) // added above
+			}
 			return fmt.Errorf("failed to add sparse route: %w", err)
 		}
 	}
@@ -336,6 +351,10 @@ func (h *HybridRouter) AddBatch(denseRoutes []*Route, sparseRoutes []*SparseRout
 	defer h.denseMu.Unlock()
 	defer h.sparseMu.Unlock()
 
+	if err := h.sparse.checkNew(sparseRoutes); err != nil {
+		return fmt.Errorf("failed to add sparse route: %w", err)
+	}
+
 	if len(denseRoutes) > 0 {
 		if err := h.dense.AddBatch(denseRoutes); err != nil {
 			return fmt.Errorf("failed to add dense routes: %w", err)
@@ -374,7 +393,8 @@ func (h *HybridRouter) Route(ctx context.Context, query string) (*HybridRouteRes
 	// Compute combined score
 	denseScore := denseResult.Score
 	sparseScore := sparseResult.Score
-	combinedScore := h.alpha*denseScore + (1-h.alpha)*sparseScore
+	alpha := h.GetAlpha()
+	combinedScore := alpha*denseScore + (1-alpha)*sparseScore
 
 	result := &HybridRouteResult{
 		RouteResult: RouteResult{
@@ -426,18 +446,34 @@ func (h *HybridRouter) RouteBatch(ctx context.Context, queries []string) ([]*Hyb
 // List returns all route names from both routers.
 func (h *HybridRouter) List() []string {
 	h.denseMu.RLock()
+	h.sparseMu.RLock()
 	defer h.denseMu.RUnlock()
+	defer h.sparseMu.RUnlock()
 
-	return h.dense.List()
+	names := h.dense.List()
+	seen := make(map[string]bool, len(names))
+	for _, name := range names {
+		seen[name] = true
+	}
+	for _, name := range h.sparse.List() {
+		if !seen[name] {
+			names = append(names, name)
+		}
+	}
+	return names
 }
 
 // GetAlpha returns the current alpha value.
 func (h *HybridRouter) GetAlpha() float64 {
+	h.alphaMu.RLock()
+	defer h.alphaMu.RUnlock()
 	return h.alpha
 }
 
 // SetAlpha updates the alpha weight.
 func (h *HybridRouter) SetAlpha(alpha float64) {
+	h.alphaMu.Lock()
+	defer h.alphaMu.Unlock()
 	h.alpha = alpha
 }
 
@@ -455,7 +491,7 @@ func (h *HybridRouter) Stats() map[string]interface{} {
 	}
 
 	return map[string]interface{}{
-		"alpha":           h.alpha,
+		"alpha":           h.GetAlpha(),
 		"threshold":       h.threshold,
 		"dense_router":    denseStats,
 		"sparse_router":   sparseStats,
diff --git a/pkg/semantic-router/router.go b/pkg/semantic-router/router.go
index 42fbaa3..ca0607a 100644
--- a/pkg/semantic-router/router.go
+++ b/pkg/semantic-router/router.go
@@ -3,6 +3,9 @@ package semanticrouter
 import (
 	"context"
 	"fmt"
+	"math"
+	"sort"
+	"strconv"
 	"sync"
 
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -14,6 +17,7 @@ type Router struct {
 	embedder  Embedder
 	config    Config
 	store     core.Store // Optional: use persistent storage for routes
+	nextOrder int        // position of the next persisted route
 	mu        sync.RWMutex
 }
 
@@ -118,16 +122,16 @@ func (r *Router) Add(route *Route) error {
 		}
 	}
 
-	r.routes = append(r.routes, route)
-
 	// If store is available, persist the route
 	if r.store != nil {
 		ctx := context.Background()
-		if err := r.persistRoute(ctx, route); err != nil {
+		if err := r.persistRoutes(ctx, route); err != nil {
 			return fmt.Errorf("failed to persist route: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, route)
+
 	return nil
 }
 
@@ -138,7 +142,10 @@ func (r *Router) AddBatch(routes []*Route) error {
 
 	ctx := context.Background()
 
-	for _, route := range routes {
+	for i, route := range routes {
+		if route == nil {
+			return fmt.Errorf("route cannot be nil")
+		}
 		if route.Name == "" {
 			return fmt.Errorf("route name cannot be empty")
 		}
@@ -152,19 +159,22 @@ func (r *Router) AddBatch(routes []*Route) error {
 				return fmt.Errorf("route %q already exists", route.Name)
 			}
 		}
+		for _, earlier := range routes[:i] {
+			if earlier.Name == route.Name {
+				return fmt.Errorf("route %q appears more than once", route.Name)
+			}
+		}
 	}
 
-	r.routes = append(r.routes, routes...)
-
 	// Persist routes if store is available
 	if r.store != nil {
-		for _, route := range routes {
-			if err := r.persistRoute(ctx, route); err != nil {
-				return fmt.Errorf("failed to persist route %q: %w", route.Name, err)
-			}
+		if err := r.persistRoutes(ctx, routes...); err != nil {
+			return fmt.Errorf("failed to persist routes: %w", err)
 		}
 	}
 
+	r.routes = append(r.routes, routes...)
+
 	return nil
 }
 
@@ -175,27 +185,27 @@ func (r *Router) Remove(name string) error {
 
 	for i, route := range r.routes {
 		if route.Name == name {
-			// Remove from slice
-			r.routes = append(r.routes[:i], r.routes[i+1:]...)
-
 			// Remove from store if available
 			if r.store != nil {
 				ctx := context.Background()
-				opts := core.SearchOptions{
-					Filter:     map[string]string{"route_name": name},
-					TopK:       1000,
-					Collection: "semantic_routes",
+				results, err := r.storedUtterances(ctx, map[string]string{"route_name": name})
+				if err != nil {
+					return fmt.Errorf("failed to find stored route: %w", err)
+				}
+				ids := make([]string, len(results))
+				for i, r := range results {
+					ids[i] = r.ID
 				}
-				results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
-				if err == nil {
-					ids := make([]string, len(results))
-					for i, r := range results {
-						ids[i] = r.ID
+				if len(ids) > 0 {
+					if err := r.store.DeleteBatch(ctx, ids); err != nil {
+						return fmt.Errorf("failed to remove stored route: %w", err)
 					}
-					r.store.DeleteBatch(ctx, ids)
 				}
 			}
 
+			// Remove from slice
+			r.routes = append(r.routes[:i], r.routes[i+1:]...)
+
 			return nil
 		}
 	}
@@ -225,12 +235,15 @@ func (r *Router) Route(ctx context.Context, query string) (*RouteResult, error)
 	for _, route := range r.routes {
 		vectors, err := r.getRouteVectors(ctx, route)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to embed route %q: %w", route.Name, err)
 		}
 
 		for _, vec := range vectors {
 			score := r.config.SimilarityFunc(queryVec, vec)
-			if score > maxScore {
+			if math.IsNaN(score) {
+				continue
+			}
+			if bestRoute == nil || score > maxScore {
 				maxScore = score
 				bestRoute = route
 			}
@@ -292,34 +305,33 @@ func (r *Router) Get(name string) *Route {
 
 // getRouteVectors returns the cached or computed embeddings for a route's utterances.
 func (r *Router) getRouteVectors(ctx context.Context, route *Route) ([][]float32, error) {
-	// If store is available, try to load from there first
-	if r.store != nil {
-		opts := core.SearchOptions{
-			Filter:     map[string]string{"route_name": route.Name},
-			TopK:       1000,
-			Collection: "semantic_routes",
-		}
-		results, err := r.store.Search(ctx, make([]float32, r.embedder.Dimensions()), opts)
-		if err == nil && len(results) > 0 {
-			vectors := make([][]float32, len(results))
-			for i, r := range results {
-				vectors[i] = r.Vector
+	if !r.config.CacheEmbeddings {
+		// If store is available, try to load from there first
+		if r.store != nil {
+			results, err := r.storedUtterances(ctx, map[string]string{"route_name": route.Name})
+			if err == nil && len(results) > 0 {
+				vectors := make([][]float32, len(results))
+				for i, r := range results {
+					vectors[i] = r.Vector
+				}
+				return vectors, nil
 			}
-			return vectors, nil
 		}
-	}
-
-	// Fall back to caching in memory
-	if !r.config.CacheEmbeddings {
 		return r.embedVectors(ctx, route.Utterances)
 	}
 
-	var err error
-	route.cachedOnce.Do(func() {
-		route.cachedVectors, err = r.embedVectors(ctx, route.Utterances)
-	})
+	// Compute once; a failed attempt is not cached
+	route.cachedMu.Lock()
+	defer route.cachedMu.Unlock()
+	if route.cachedVectors == nil {
+		vectors, err := r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return nil, err
+		}
+		route.cachedVectors = vectors
+	}
 
-	return route.cachedVectors, err
+	return route.cachedVectors, nil
 }
 
 // embedVectors converts text utterances to embeddings.
@@ -330,7 +342,7 @@ func (r *Router) embedVectors(ctx context.Context, utterances []string) ([][]flo
 
 	// Try batch embedding first
 	vectors, err := r.embedder.EmbedBatch(ctx, utterances)
-	if err == nil {
+	if err == nil && len(vectors) == len(utterances) {
 		return vectors, nil
 	}
 
@@ -347,32 +359,56 @@ func (r *Router) embedVectors(ctx context.Context, utterances []string) ([][]flo
 	return vectors, nil
 }
 
-// persistRoute stores a route's utterances in the vector store.
-func (r *Router) persistRoute(ctx context.Context, route *Route) error {
+// persistRoutes stores the utterances of routes in the vector store, all or none.
+func (r *Router) persistRoutes(ctx context.Context, routes ...*Route) error {
 	// Create collection for routes if it doesn't exist
 	_, err := r.store.CreateCollection(ctx, "semantic_routes", r.embedder.Dimensions())
 	if err != nil {
 		// Collection might already exist, ignore error
 	}
 
-	vectors, err := r.embedVectors(ctx, route.Utterances)
-	if err != nil {
+	var embeddings []*core.Embedding
+	vectors := make([][][]float32, len(routes))
+	for n, route := range routes {
+		vectors[n], err = r.embedVectors(ctx, route.Utterances)
+		if err != nil {
+			return err
+		}
+		for i, vec := range vectors[n] {
+			embeddings = append(embeddings, &core.Embedding{
+				ID:         fmt.Sprintf("semantic_routes:%s:%d", route.Name, i),
+				Vector:     vec,
+				Content:    route.Utterances[i],
+				Collection: "semantic_routes",
+				Metadata: map[string]string{
+					"route_name":      route.Name,
+					"route_order":     strconv.Itoa(r.nextOrder + n),
+					"utterance_index": strconv.Itoa(i),
+				},
+			})
+		}
+	}
+
+	if err := r.store.UpsertBatch(ctx, embeddings); err != nil {
 		return err
 	}
 
-	embeddings := make([]*core.Embedding, len(vectors))
-	for i, vec := range vectors {
-		embeddings[i] = &core.Embedding{
-			Vector:     vec,
-			Content:    route.Utterances[i],
-			Collection: "semantic_routes",
-			Metadata: map[string]string{
-				"route_name": route.Name,
-			},
-		}
+	r.nextOrder += len(routes)
+	for n, route := range routes {
+		route.cachedMu.Lock()
+		route.cachedVectors = vectors[n]
+		route.cachedMu.Unlock()
 	}
+	return nil
+}
 
-	return r.store.UpsertBatch(ctx, embeddings)
+// storedUtterances returns the stored utterances matching a metadata filter.
+func (r *Router) storedUtterances(ctx context.Context, filter map[string]string) ([]core.ScoredEmbedding, error) {
+	opts := core.SearchOptions{
+		Filter:     filter,
+		Collection: "semantic_routes",
+	}
+	return r.store.RangeSearch(ctx, make([]float32, r.embedder.Dimensions()), math.MaxFloat32, opts)
 }
 
 // loadRoutesFromStore loads routes from the vector store.
@@ -395,16 +431,22 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 		return nil // No routes stored yet
 	}
 
-	// Search for all route embeddings
-	opts := core.SearchOptions{
-		TopK:       10000,
-		Collection: "semantic_routes",
-	}
-	dim := r.embedder.Dimensions()
-	results, err := r.store.Search(ctx, make([]float32, dim), opts)
+	// Find all route embeddings, in the order they were added
+	results, err := r.storedUtterances(ctx, nil)
 	if err != nil {
-		return nil
+		return err
+	}
+	position := func(e core.ScoredEmbedding, key string) int {
+		n, _ := strconv.Atoi(e.Metadata[key])
+		return n
 	}
+	sort.SliceStable(results, func(i, j int) bool {
+		a, b := results[i], results[j]
+		if x, y := position(a, "route_order"), position(b, "route_order"); x != y {
+			return x < y
+		}
+		return position(a, "utterance_index") < position(b, "utterance_index")
+	})
 
 	// Group results by route name
 	routeMap := make(map[string]*Route)
@@ -419,17 +461,14 @@ func (r *Router) loadRoutesFromStore(ctx context.Context) error {
 				Name:       routeName,
 				Utterances: []string{},
 			}
+			r.routes = append(r.routes, routeMap[routeName])
 		}
+		r.nextOrder = max(r.nextOrder, position(result, "route_order")+1)
 
 		routeMap[routeName].Utterances = append(routeMap[routeName].Utterances, result.Content)
 		routeMap[routeName].cachedVectors = append(routeMap[routeName].cachedVectors, result.Vector)
 	}
 
-	// Add to routes
-	for _, route := range routeMap {
-		r.routes = append(r.routes, route)
-	}
-
 	return nil
 }
 
diff --git a/pkg/semantic-router/schema.go b/pkg/semantic-router/schema.go
index af4f19d..d421818 100644
--- a/pkg/semantic-router/schema.go
+++ b/pkg/semantic-router/schema.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"slices"
+	"sort"
 	"strings"
 	"sync"
 )
@@ -131,7 +133,12 @@ func (fr *FunctionRouter) Add(route *RouteWithFunction) error {
 	fr.mu.Lock()
 	defer fr.mu.Unlock()
 
-	fr.routes[route.FunctionSchema.Name] = route
+	// Semantic routing reports the route's name
+	name := route.FunctionSchema.Name
+	if route.Route != nil && route.Route.Name != "" {
+		name = route.Route.Name
+	}
+	fr.routes[name] = route
 	return nil
 }
 
@@ -157,7 +164,11 @@ func (fr *FunctionRouter) Route(ctx context.Context, text string) (*FunctionCall
 	}
 
 	// Extract parameters using the function schema
-	params, missing, err := fr.extractor.Extract(ctx, text, route.FunctionSchema)
+	extractor := fr.extractor
+	if route.FunctionSchema.Extractor != nil {
+		extractor = route.FunctionSchema.Extractor
+	}
+	params, missing, err := extractor.Extract(ctx, text, route.FunctionSchema)
 	if err != nil {
 		return nil, fmt.Errorf("parameter extraction failed: %w", err)
 	}
@@ -211,18 +222,31 @@ func (r *RegexExtractor) Extract(ctx context.Context, text string, schema *Funct
 
 	textLower := strings.ToLower(text)
 
-	for paramName, paramSchema := range schema.Parameters {
+	names := make([]string, 0, len(schema.Parameters))
+	for paramName := range schema.Parameters {
+		names = append(names, paramName)
+	}
+	for _, paramName := range schema.Required {
+		if _, ok := schema.Parameters[paramName]; !ok {
+			names = append(names, paramName)
+		}
+	}
+	sort.Strings(names)
+
+	for _, paramName := range names {
+		paramSchema := schema.Parameters[paramName]
+		if paramSchema == nil {
+			paramSchema = &ParameterSchema{}
+		}
 		// Check for custom pattern
 		if patterns, ok := r.patterns[schema.Name]; ok {
 			if pattern, ok := patterns[paramName]; ok {
-				re, err := regexp.Compile(pattern)
-				if err != nil {
-					continue
-				}
-				matches := re.FindStringSubmatch(text)
-				if len(matches) > 1 {
-					params[paramName] = r.coerceType(matches[1], paramSchema.Type)
-					continue
+				if re, err := regexp.Compile(pattern); err == nil {
+					matches := re.FindStringSubmatch(text)
+					if len(matches) > 1 {
+						params[paramName] = r.coerceType(matches[1], paramSchema.Type)
+						continue
+					}
 				}
 			}
 		}
@@ -231,7 +255,7 @@ func (r *RegexExtractor) Extract(ctx context.Context, text string, schema *Funct
 		value := r.extractValue(text, textLower, paramName, paramSchema)
 		if value != nil {
 			params[paramName] = value
-		} else if paramSchema.Required {
+		} else if paramSchema.Required || slices.Contains(schema.Required, paramName) {
 			missing = append(missing, paramName)
 		}
 	}
@@ -247,7 +271,7 @@ func (r *RegexExtractor) extractValue(text, textLower, paramName string, schema
 	for _, keyword := range keywords {
 		if strings.Contains(textLower, keyword) {
 			// Try to extract value after the keyword
-			pattern := keyword + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
+			pattern := regexp.QuoteMeta(keyword) + `\s+[:是]?\s*["']?([^"'\s,。.!?]+)["']?`
 			re := regexp.MustCompile(pattern)
 			matches := re.FindStringSubmatch(textLower)
 			if len(matches) > 1 {
@@ -309,7 +333,7 @@ func (r *RegexExtractor) coerceType(value string, typeStr string) interface{} {
 		return value
 	case "integer", "int":
 		// Extract numeric part
-		re := regexp.MustCompile(`\d+`)
+		re := regexp.MustCompile(`-?\d+`)
 		matches := re.FindStringSubmatch(value)
 		if len(matches) > 0 {
 			var result int
@@ -317,7 +341,7 @@ func (r *RegexExtractor) coerceType(value string, typeStr string) interface{} {
 			return result
 		}
 	case "number", "float":
-		re := regexp.MustCompile(`\d+\.?\d*`)
+		re := regexp.MustCompile(`-?\d+\.?\d*`)
 		matches := re.FindStringSubmatch(value)
 		if len(matches) > 0 {
 			var result float64
@@ -390,11 +414,13 @@ func (b *SchemaBuilder) SetHandler(handler FunctionHandler) *SchemaBuilder {
 // Build returns the constructed schema.
 func (b *SchemaBuilder) Build() *FunctionSchema {
 	// Build required list
+	b.schema.Required = nil
 	for name, param := range b.schema.Parameters {
 		if param.Required {
 			b.schema.Required = append(b.schema.Required, name)
 		}
 	}
+	sort.Strings(b.schema.Required)
 	return b.schema
 }
 
diff --git a/pkg/semantic-router/sparse.go b/pkg/semantic-router/sparse.go
index 9f4fa59..66ee4fa 100644
--- a/pkg/semantic-router/sparse.go
+++ b/pkg/semantic-router/sparse.go
@@ -36,14 +36,17 @@ func SparseSimilarity(a, b map[string]float64) float64 {
 
 	var dotProduct, normA, normB float64
 
-	// Compute dot product and norm for a
-	for term, weightA := range a {
+	// Compute dot product and norm for a, in a fixed order so that equal
+	// inputs give equal scores
+	for _, term := range sortedTerms(a) {
+		weightA := a[term]
 		dotProduct += weightA * b[term]
 		normA += weightA * weightA
 	}
 
 	// Compute norm for b
-	for _, weightB := range b {
+	for _, term := range sortedTerms(b) {
+		weightB := b[term]
 		normB += weightB * weightB
 	}
 
@@ -54,6 +57,16 @@ func SparseSimilarity(a, b map[string]float64) float64 {
 	return dotProduct / (math.Sqrt(normA) * math.Sqrt(normB))
 }
 
+// sortedTerms returns the terms of a sparse vector in order.
+func sortedTerms(vec map[string]float64) []string {
+	terms := make([]string, 0, len(vec))
+	for term := range vec {
+		terms = append(terms, term)
+	}
+	sort.Strings(terms)
+	return terms
+}
+
 // tokenize splits text into terms (words).
 func tokenize(text string) []string {
 	// Convert to lowercase and split on non-alphanumeric characters
@@ -137,6 +150,10 @@ func (e *BM25Encoder) Fit(ctx context.Context, documents []string) error {
 
 	e.totalDocs = len(documents)
 	e.docFreq = make(map[string]int)
+	e.idf = make(map[string]float64)
+	e.vocabMu.Lock()
+	e.vocabulary = nil
+	e.vocabMu.Unlock()
 	termDocCount := make(map[string]map[int]bool) // term -> set of doc indices
 
 	totalLen := 0.0
@@ -180,7 +197,10 @@ func (e *BM25Encoder) Fit(ctx context.Context, documents []string) error {
 		e.idf[term] = idf
 	}
 
-	e.avgDocLen = totalLen / float64(e.totalDocs)
+	e.avgDocLen = 0
+	if e.totalDocs > 0 {
+		e.avgDocLen = totalLen / float64(e.totalDocs)
+	}
 
 	return nil
 }
@@ -214,8 +234,12 @@ func (e *BM25Encoder) EncodeSparse(text string) map[string]float64 {
 		}
 
 		// BM25 formula: IDF * (tf * (k1 + 1)) / (tf + k1 * (1 - b + b * (docLen / avgDocLen)))
+		lengthRatio := 1.0 // no corpus to compare with
+		if e.avgDocLen > 0 {
+			lengthRatio = docLen / e.avgDocLen
+		}
 		numerator := float64(tf) * (e.k1 + 1)
-		denominator := float64(tf) + e.k1*(1-e.b+e.b*(docLen/e.avgDocLen))
+		denominator := float64(tf) + e.k1*(1-e.b+e.b*lengthRatio)
 		bm25 := idf * (numerator / denominator)
 
 		result[term] = bm25
@@ -237,7 +261,7 @@ func (e *BM25Encoder) EncodeSparseBatch(texts []string) []map[string]float64 {
 func (e *BM25Encoder) Vocabulary() []string {
 	e.vocabMu.RLock()
 	defer e.vocabMu.RUnlock()
-	return e.vocabulary
+	return append([]string{}, e.vocabulary...)
 }
 
 // Dimensions returns the size of the vocabulary.
@@ -292,6 +316,10 @@ func (e *TFIDFEncoder) Fit(ctx context.Context, documents []string) error {
 
 	e.totalDocs = len(documents)
 	e.docFreq = make(map[string]int)
+	e.idf = make(map[string]float64)
+	e.vocabMu.Lock()
+	e.vocabulary = nil
+	e.vocabMu.Unlock()
 	termDocCount := make(map[string]map[int]bool)
 
 	for docIdx, doc := range documents {
@@ -381,7 +409,7 @@ func (e *TFIDFEncoder) EncodeSparseBatch(texts []string) []map[string]float64 {
 func (e *TFIDFEncoder) Vocabulary() []string {
 	e.vocabMu.RLock()
 	defer e.vocabMu.RUnlock()
-	return e.vocabulary
+	return append([]string{}, e.vocabulary...)
 }
 
 // Dimensions returns the size of the vocabulary.
@@ -488,7 +516,10 @@ func TopTerms(vec map[string]float64, k int) []TermScore {
 
 	// Sort by score descending
 	sort.Slice(scores, func(i, j int) bool {
-		return scores[i].Score > scores[j].Score
+		if scores[i].Score != scores[j].Score {
+			return scores[i].Score > scores[j].Score
+		}
+		return scores[i].Term < scores[j].Term
 	})
 
 	if k > 0 && k < len(scores) {
diff --git a/pkg/semantic-router/types.go b/pkg/semantic-router/types.go
index 9fed0f0..3c4e499 100644
--- a/pkg/semantic-router/types.go
+++ b/pkg/semantic-router/types.go
@@ -26,8 +26,7 @@ type Route struct {
 
 	// cachedVectors stores pre-computed embeddings for utterances
 	cachedVectors [][]float32
-	cachedOnce    sync.Once
-	cachedErr     error
+	cachedMu      sync.Mutex
 }
 
 // RouteHandler is a function that handles a matched route.
-- 
2.43.0


From 10a2125e2a9c87c909df50e4a6cc7f207844d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:10 +0000
Subject: [PATCH 23/32] fix: memories are saved with their bucket in one
 transaction, keep their scope for any names, and never come back after expiry

---
 pkg/cortexdb/memory_api.go | 196 +++++++++++++++++++++++++++----------
 1 file changed, 145 insertions(+), 51 deletions(-)

diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 25bef9a..8d9800b 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
-	"errors"
 	"fmt"
 	"math"
 	"sort"
@@ -33,11 +32,9 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 	if err != nil {
 		return nil, err
 	}
-	if err := db.ensureMemoryBucket(ctx, bucketID, req.UserID, scope, normalizeMemoryNamespace(req.Namespace)); err != nil {
-		return nil, err
-	}
 
-	metadata := buildMemoryMetadata(scope, normalizeMemoryNamespace(req.Namespace), req.Metadata, req.Importance, req.TTLSeconds)
+	namespace := normalizeMemoryNamespace(req.Namespace)
+	metadata := buildMemoryMetadata(scope, namespace, req.Metadata, req.Importance, req.TTLSeconds)
 	vectorBytes, err := db.embedMemoryContent(ctx, req.Content)
 	if err != nil {
 		return nil, err
@@ -47,8 +44,18 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 		return nil, fmt.Errorf("marshal memory metadata: %w", err)
 	}
 
+	// The bucket and the memory are saved together
+	tx, err := db.store.GetDB().BeginTx(ctx, nil)
+	if err != nil {
+		return nil, fmt.Errorf("save memory: %w", err)
+	}
+	defer func() { _ = tx.Rollback() }()
+	if err := ensureMemoryBucket(ctx, tx, bucketID, req.UserID, scope, namespace); err != nil {
+		return nil, err
+	}
+
 	role := firstNonEmpty(req.Role, defaultMemoryRole)
-	if _, err := db.store.GetDB().ExecContext(ctx, `
+	result, err := tx.ExecContext(ctx, `
 		INSERT INTO messages (id, session_id, role, content, vector, metadata, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
 		ON CONFLICT(id) DO UPDATE SET
@@ -57,14 +64,22 @@ func (db *DB) SaveMemory(ctx context.Context, req MemorySaveRequest) (*MemorySav
 			content = excluded.content,
 			vector = excluded.vector,
 			metadata = excluded.metadata
-	`, req.MemoryID, bucketID, role, req.Content, vectorBytes, metadataJSON); err != nil {
+		WHERE messages.session_id GLOB 'memory:*'
+	`, req.MemoryID, bucketID, role, req.Content, vectorBytes, metadataJSON)
+	if err != nil {
 		return nil, fmt.Errorf("save memory: %w", err)
 	}
+	if n, err := result.RowsAffected(); err == nil && n == 0 {
+		return nil, fmt.Errorf("save memory: id %q belongs to a chat message", req.MemoryID)
+	}
 
-	row, err := db.loadMemoryRow(ctx, req.MemoryID)
+	row, err := loadMemoryRow(ctx, tx, req.MemoryID)
 	if err != nil {
 		return nil, err
 	}
+	if err := tx.Commit(); err != nil {
+		return nil, fmt.Errorf("save memory: %w", err)
+	}
 	return &MemorySaveResponse{Memory: row.record}, nil
 }
 
@@ -74,24 +89,49 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
-	row, err := db.loadMemoryRow(ctx, req.MemoryID)
+	row, err := loadMemoryRow(ctx, db.store.GetDB(), req.MemoryID)
 	if err != nil {
 		return nil, err
 	}
+	if memoryExpired(row.record) {
+		return nil, core.ErrNotFound
+	}
 
-	content := row.record.Content
-	vectorBytes := row.vector
+	var newVector []byte
 	if req.Content != nil {
 		if strings.TrimSpace(*req.Content) == "" {
 			return nil, ErrEmptyText
 		}
-		content = *req.Content
-		vectorBytes, err = db.embedMemoryContent(ctx, content)
+		newVector, err = db.embedMemoryContent(ctx, *req.Content)
 		if err != nil {
 			return nil, err
 		}
 	}
 
+	tx, err := db.store.GetDB().BeginTx(ctx, nil)
+	if err != nil {
+		return nil, fmt.Errorf("update memory: %w", err)
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	// Writing first keeps other updates out until this one is done
+	if _, err := tx.ExecContext(ctx, `
+		UPDATE sessions SET updated_at = CURRENT_TIMESTAMP
+		WHERE id = (SELECT session_id FROM messages WHERE id = ?)
+	`, req.MemoryID); err != nil {
+		return nil, fmt.Errorf("update memory: %w", err)
+	}
+	row, err = loadMemoryRow(ctx, tx, req.MemoryID)
+	if err != nil {
+		return nil, err
+	}
+
+	content := row.record.Content
+	vectorBytes := row.vector
+	if req.Content != nil {
+		content, vectorBytes = *req.Content, newVector
+	}
+
 	metadata := cloneAnyMap(row.record.Metadata)
 	if req.Metadata != nil {
 		for key, value := range req.Metadata {
@@ -112,7 +152,7 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("marshal memory metadata: %w", err)
 	}
 
-	if _, err := db.store.GetDB().ExecContext(ctx, `
+	if _, err := tx.ExecContext(ctx, `
 		UPDATE messages
 		SET content = ?, vector = ?, metadata = ?
 		WHERE id = ?
@@ -120,19 +160,25 @@ func (db *DB) UpdateMemory(ctx context.Context, req MemoryUpdateRequest) (*Memor
 		return nil, fmt.Errorf("update memory: %w", err)
 	}
 
-	updated, err := db.loadMemoryRow(ctx, req.MemoryID)
+	updated, err := loadMemoryRow(ctx, tx, req.MemoryID)
 	if err != nil {
 		return nil, err
 	}
+	if err := tx.Commit(); err != nil {
+		return nil, fmt.Errorf("update memory: %w", err)
+	}
 	return &MemorySaveResponse{Memory: updated.record}, nil
 }
 
 // GetMemory fetches a memory record by ID.
 func (db *DB) GetMemory(ctx context.Context, req MemoryGetRequest) (*MemoryGetResponse, error) {
-	row, err := db.loadMemoryRow(ctx, req.MemoryID)
+	row, err := loadMemoryRow(ctx, db.store.GetDB(), req.MemoryID)
 	if err != nil {
 		return nil, err
 	}
+	if memoryExpired(row.record) {
+		return nil, core.ErrNotFound
+	}
 	return &MemoryGetResponse{Memory: row.record}, nil
 }
 
@@ -153,18 +199,29 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 	if db.HasEmbedder() && normalizeRetrievalMode(req.RetrievalMode) != RetrievalModeLexical {
 		queryVec, err := db.embedder.Embed(ctx, req.Query)
 		if err == nil {
-			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, req.TopK)
+			// Expired memories take up no place among the TopK
+			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, math.MaxInt)
 			if err == nil && len(messages) > 0 {
-				hits := make([]MemorySearchHit, 0, len(messages))
-				for i, message := range messages {
-					record := memoryRecordFromMessage(bucketID, "", message)
+				userID := ""
+				if session, err := db.store.GetSession(ctx, bucketID); err == nil {
+					userID = session.UserID
+				}
+				records := make([]MemoryRecord, 0, req.TopK)
+				for _, message := range messages {
+					record := memoryRecordFromMessage(bucketID, userID, message)
 					if memoryExpired(record) {
 						continue
 					}
-					score := float64(len(messages)-i) / float64(len(messages))
-					hits = append(hits, MemorySearchHit{Memory: record, Score: score})
+					if records = append(records, record); len(records) == req.TopK {
+						break
+					}
 				}
-				if len(hits) > 0 {
+				if len(records) > 0 {
+					hits := make([]MemorySearchHit, 0, len(records))
+					for i, record := range records {
+						score := float64(len(records)-i) / float64(len(records))
+						hits = append(hits, MemorySearchHit{Memory: record, Score: score})
+					}
 					return &MemorySearchResponse{Query: req.Query, Results: hits}, nil
 				}
 			}
@@ -184,20 +241,36 @@ func (db *DB) DeleteMemory(ctx context.Context, req MemoryDeleteRequest) (*Memor
 		return nil, fmt.Errorf("memory_id is required")
 	}
 
-	row, err := db.loadMemoryRow(ctx, req.MemoryID)
+	tx, err := db.store.GetDB().BeginTx(ctx, nil)
+	if err != nil {
+		return nil, fmt.Errorf("delete memory: %w", err)
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	// Writing first keeps other writers out until this delete is done
+	if _, err := tx.ExecContext(ctx, `
+		UPDATE sessions SET updated_at = CURRENT_TIMESTAMP
+		WHERE id = (SELECT session_id FROM messages WHERE id = ?)
+	`, req.MemoryID); err != nil {
+		return nil, fmt.Errorf("delete memory: %w", err)
+	}
+	row, err := loadMemoryRow(ctx, tx, req.MemoryID)
 	if err != nil {
 		return nil, err
 	}
-	if _, err := db.store.GetDB().ExecContext(ctx, `DELETE FROM messages WHERE id = ?`, req.MemoryID); err != nil {
+	if _, err := tx.ExecContext(ctx, `DELETE FROM messages WHERE id = ?`, req.MemoryID); err != nil {
 		return nil, fmt.Errorf("delete memory: %w", err)
 	}
-	if _, err := db.store.GetDB().ExecContext(ctx, `
+	if _, err := tx.ExecContext(ctx, `
 		DELETE FROM sessions
 		WHERE id = ?
 		  AND NOT EXISTS (SELECT 1 FROM messages WHERE session_id = ?)
 	`, row.record.SessionID, row.record.SessionID); err != nil {
 		return nil, fmt.Errorf("cleanup empty memory bucket: %w", err)
 	}
+	if err := tx.Commit(); err != nil {
+		return nil, fmt.Errorf("delete memory: %w", err)
+	}
 	return &MemoryDeleteResponse{MemoryID: req.MemoryID, Deleted: true}, nil
 }
 
@@ -226,23 +299,23 @@ func (t *GraphRAGToolbox) DeleteMemory(ctx context.Context, req MemoryDeleteRequ
 	return t.db.DeleteMemory(ctx, req)
 }
 
-func (db *DB) ensureMemoryBucket(ctx context.Context, bucketID, userID, scope, namespace string) error {
-	_, err := db.store.GetSession(ctx, bucketID)
-	if err == nil {
-		return nil
-	}
-	if !errors.Is(err, core.ErrNotFound) {
-		return err
-	}
-	return db.store.CreateSession(ctx, &core.Session{
-		ID:     bucketID,
-		UserID: userID,
-		Metadata: map[string]any{
-			"kind":      "memory_bucket",
-			"scope":     scope,
-			"namespace": namespace,
-		},
+func ensureMemoryBucket(ctx context.Context, tx *sql.Tx, bucketID, userID, scope, namespace string) error {
+	metadataJSON, err := json.Marshal(map[string]any{
+		"kind":      "memory_bucket",
+		"scope":     scope,
+		"namespace": namespace,
 	})
+	if err != nil {
+		return fmt.Errorf("marshal memory bucket metadata: %w", err)
+	}
+	if _, err := tx.ExecContext(ctx, `
+		INSERT INTO sessions (id, user_id, metadata, created_at, updated_at)
+		VALUES (?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
+		ON CONFLICT(id) DO NOTHING
+	`, bucketID, userID, metadataJSON); err != nil {
+		return fmt.Errorf("create memory bucket: %w", err)
+	}
+	return nil
 }
 
 func (db *DB) embedMemoryContent(ctx context.Context, content string) ([]byte, error) {
@@ -260,7 +333,12 @@ func (db *DB) embedMemoryContent(ctx context.Context, content string) ([]byte, e
 	return vectorBytes, nil
 }
 
-func (db *DB) loadMemoryRow(ctx context.Context, memoryID string) (*memoryRow, error) {
+// rowQuerier is a database or a transaction.
+type rowQuerier interface {
+	QueryRowContext(ctx context.Context, query string, args ...any) *sql.Row
+}
+
+func loadMemoryRow(ctx context.Context, q rowQuerier, memoryID string) (*memoryRow, error) {
 	if memoryID == "" {
 		return nil, fmt.Errorf("memory_id is required")
 	}
@@ -268,11 +346,11 @@ func (db *DB) loadMemoryRow(ctx context.Context, memoryID string) (*memoryRow, e
 	row := memoryRow{}
 	var metadataJSON []byte
 	var createdAt time.Time
-	err := db.store.GetDB().QueryRowContext(ctx, `
+	err := q.QueryRowContext(ctx, `
 		SELECT m.id, m.session_id, s.user_id, m.role, m.content, m.vector, m.metadata, m.created_at
 		FROM messages m
 		JOIN sessions s ON s.id = m.session_id
-		WHERE m.id = ?
+		WHERE m.id = ? AND m.session_id GLOB 'memory:*'
 	`, memoryID).Scan(
 		&row.record.ID,
 		&row.record.SessionID,
@@ -314,6 +392,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 		score  float64
 	}
 	merged := make(map[string]scoredMemory)
+	answered := false // some query was well-formed
 	var firstErr error
 
 	for idx, searchQuery := range queries {
@@ -325,8 +404,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			WHERE messages_fts MATCH ?
 			  AND m.session_id = ?
 			ORDER BY bm25(messages_fts)
-			LIMIT ?
-		`, searchQuery, bucketID, topK*4)
+		`, searchQuery, bucketID)
 		if err != nil {
 			if firstErr == nil {
 				firstErr = fmt.Errorf("search memory lexical: %w", err)
@@ -334,7 +412,7 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			continue
 		}
 
-		for rows.Next() {
+		for found := 0; found < topK && rows.Next(); {
 			var record MemoryRecord
 			var metadataJSON []byte
 			var createdAt time.Time
@@ -354,21 +432,30 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			if memoryExpired(record) {
 				continue
 			}
+			found++
 
 			scoreWeight := 1.0 - float64(idx)*0.05
 			if scoreWeight < 0.8 {
 				scoreWeight = 0.8
 			}
-			score := (1 / (1 + math.Abs(rawRank))) * scoreWeight
+			score := math.Abs(rawRank) / (1 + math.Abs(rawRank)) * scoreWeight
 			if existing, ok := merged[record.ID]; !ok || score > existing.score {
 				merged[record.ID] = scoredMemory{record: record, score: score}
 			}
 		}
+		if err := rows.Err(); err == nil {
+			answered = true
+		} else if firstErr == nil {
+			firstErr = fmt.Errorf("search memory lexical: %w", err)
+		}
 		if err := rows.Close(); err != nil {
 			return nil, fmt.Errorf("close lexical memory rows: %w", err)
 		}
 	}
-	if len(merged) == 0 && firstErr != nil {
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+	if !answered && firstErr != nil {
 		return nil, firstErr
 	}
 
@@ -410,6 +497,9 @@ func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, st
 		return "", "", fmt.Errorf("unsupported memory scope: %s", scope)
 	}
 
+	// The namespace is what follows the last colon
+	namespace = strings.NewReplacer("%", "%25", ":", "%3A").Replace(namespace)
+
 	switch scope {
 	case MemoryScopeGlobal:
 		return scope, fmt.Sprintf("memory:%s:%s", scope, namespace), nil
@@ -444,7 +534,11 @@ func buildMemoryMetadata(scope, namespace string, metadata map[string]any, impor
 	out["importance"] = importance
 	out["ttl_seconds"] = ttlSeconds
 	if ttlSeconds > 0 {
-		out["expires_at"] = time.Now().UTC().Add(time.Duration(ttlSeconds) * time.Second).Format(time.RFC3339)
+		ttl := time.Duration(math.MaxInt64)
+		if int64(ttlSeconds) < int64(ttl/time.Second) {
+			ttl = time.Duration(ttlSeconds) * time.Second
+		}
+		out["expires_at"] = time.Now().UTC().Add(ttl).Format(time.RFC3339Nano)
 	} else {
 		delete(out, "expires_at")
 	}
-- 
2.43.0


From 2ccd463b54ea9e190088821b19909ef10c89db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:22 +0000
Subject: [PATCH 24/32] fix: knowledge items and documents are replaced and
 deleted with all their chunks, mentions and relations, failures leave the old
 version, and searches stay in their collection

---
 pkg/cortexdb/graphrag.go                 | 225 +++++++++++++++++++----
 pkg/cortexdb/graphrag_tools.go           |  68 ++++++-
 pkg/cortexdb/knowledge_api.go            | 191 +++++++++++++++++--
 pkg/cortexdb/knowledge_memory_helpers.go |   7 +-
 4 files changed, 433 insertions(+), 58 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 53e4d3e..c6574b5 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -2,6 +2,7 @@ package cortexdb
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"regexp"
@@ -122,18 +123,17 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	if err := db.graph.InitGraphSchema(ctx); err != nil {
 		return nil, fmt.Errorf("init graph schema: %w", err)
 	}
-	if err := db.ensureGraphRAGCollection(ctx, opts.Collection); err != nil {
-		return nil, err
-	}
 
+	// Prepare everything that can fail (embedding, extraction) before the first write, so that a
+	// failure leaves an earlier version of the document as it was
 	chunks := splitGraphRAGText(doc.Content, opts.ChunkSize, opts.ChunkOverlap)
 	if len(chunks) == 0 {
 		return nil, ErrEmptyText
 	}
 
-	chunkVectors, err := db.embedder.EmbedBatch(ctx, chunks)
+	chunkVectors, err := db.embedGraphRAGTexts(ctx, chunks)
 	if err != nil {
-		return nil, fmt.Errorf("%w: %v", ErrEmbeddingFailed, err)
+		return nil, err
 	}
 
 	documentNodeID := graphDocumentNodeID(doc.ID)
@@ -145,9 +145,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		Content: doc.Content,
 		Version: 1,
 	}
-	if err := db.upsertGraphRAGDocumentRecord(ctx, documentRecord); err != nil {
-		return nil, err
-	}
 
 	documentNode := &graph.GraphNode{
 		ID:       documentNodeID,
@@ -159,9 +156,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			"title":       doc.Title,
 		},
 	}
-	if err := db.graph.UpsertNode(ctx, documentNode); err != nil {
-		return nil, fmt.Errorf("upsert document node: %w", err)
-	}
 
 	embeddings := make([]*core.Embedding, 0, len(chunks))
 	chunkNodes := make([]*graph.GraphNode, 0, len(chunks))
@@ -171,6 +165,7 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	entityTexts := make(map[string]GraphEntity)
 	entityMentions := make(map[string]map[string]struct{})
 	relationshipKeys := make(map[string]graph.GraphEdge)
+	endpointNames := make(map[string]string)
 
 	extractor := opts.Extractor
 	if extractor == nil {
@@ -258,6 +253,7 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 			}
 			fromID := graphEntityNodeID(rel.From)
 			toID := graphEntityNodeID(rel.To)
+			endpointNames[fromID], endpointNames[toID] = rel.From, rel.To
 			relType := firstNonEmpty(rel.Type, "related_to")
 			weight := rel.Weight
 			if weight == 0 {
@@ -278,28 +274,29 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
-	if err := db.store.UpsertBatch(ctx, embeddings); err != nil {
-		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
-	}
-	if _, err := db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
-		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
+	// Relationships may name entities that the extractor did not list
+	if err := db.addRelationshipEndpoints(ctx, relationshipKeys, endpointNames, entityTexts); err != nil {
+		return nil, err
 	}
 
 	entityNodeIDs := make([]string, 0, len(entityTexts))
+	var entityNodes []*graph.GraphNode
 	if len(entityTexts) > 0 {
 		entityNames := make([]string, 0, len(entityTexts))
 		idOrder := make([]string, 0, len(entityTexts))
-		for entityID, entity := range entityTexts {
+		for entityID := range entityTexts {
 			idOrder = append(idOrder, entityID)
-			entityNames = append(entityNames, entity.Name)
+		}
+		sort.Strings(idOrder)
+		for _, entityID := range idOrder {
+			entityNames = append(entityNames, entityTexts[entityID].Name)
 		}
 
-		entityVectors, err := db.embedder.EmbedBatch(ctx, entityNames)
+		entityVectors, err := db.embedGraphRAGTexts(ctx, entityNames)
 		if err != nil {
 			return nil, fmt.Errorf("embed entities: %w", err)
 		}
 
-		entityNodes := make([]*graph.GraphNode, 0, len(entityNames))
 		for i, entityID := range idOrder {
 			entity := entityTexts[entityID]
 			entityNodeIDs = append(entityNodeIDs, entityID)
@@ -314,9 +311,6 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 				},
 			})
 		}
-		if _, err := db.graph.UpsertNodesBatch(ctx, entityNodes); err != nil {
-			return nil, fmt.Errorf("upsert entity nodes: %w", err)
-		}
 
 		for chunkID, mentioned := range entityMentions {
 			for entityID := range mentioned {
@@ -344,6 +338,30 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 		}
 	}
 
+	// Write the new version in place of the old one
+	if err := db.ensureGraphRAGCollection(ctx, opts.Collection); err != nil {
+		return nil, err
+	}
+	if err := db.clearDocumentArtifacts(ctx, doc.ID); err != nil {
+		return nil, err
+	}
+	if err := db.upsertGraphRAGDocumentRecord(ctx, documentRecord); err != nil {
+		return nil, err
+	}
+	if err := db.graph.UpsertNode(ctx, documentNode); err != nil {
+		return nil, fmt.Errorf("upsert document node: %w", err)
+	}
+	if err := db.store.UpsertBatch(ctx, embeddings); err != nil {
+		return nil, fmt.Errorf("upsert graphrag embeddings: %w", err)
+	}
+	if _, err := db.graph.UpsertNodesBatch(ctx, chunkNodes); err != nil {
+		return nil, fmt.Errorf("upsert chunk graph nodes: %w", err)
+	}
+	if len(entityNodes) > 0 {
+		if _, err := db.graph.UpsertNodesBatch(ctx, entityNodes); err != nil {
+			return nil, fmt.Errorf("upsert entity nodes: %w", err)
+		}
+	}
 	if len(edges) > 0 {
 		if _, err := db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
 			return nil, fmt.Errorf("upsert graph edges: %w", err)
@@ -357,6 +375,119 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	}, nil
 }
 
+// embedGraphRAGTexts embeds texts and checks that every one of them got a vector.
+func (db *DB) embedGraphRAGTexts(ctx context.Context, texts []string) ([][]float32, error) {
+	vectors, err := db.embedder.EmbedBatch(ctx, texts)
+	if err != nil {
+		return nil, fmt.Errorf("%w: %v", ErrEmbeddingFailed, err)
+	}
+	if len(vectors) != len(texts) {
+		return nil, fmt.Errorf("%w: got %d vectors for %d texts", ErrEmbeddingFailed, len(vectors), len(texts))
+	}
+	for _, vector := range vectors {
+		if len(vector) == 0 {
+			return nil, fmt.Errorf("%w: got an empty vector", ErrEmbeddingFailed)
+		}
+	}
+	return vectors, nil
+}
+
+// addRelationshipEndpoints adds the entities that relationships refer to and that exist nowhere yet.
+func (db *DB) addRelationshipEndpoints(ctx context.Context, relationships map[string]graph.GraphEdge, names map[string]string, entities map[string]GraphEntity) error {
+	missing := make(map[string]struct{})
+	for _, rel := range relationships {
+		for _, id := range []string{rel.FromNodeID, rel.ToNodeID} {
+			if _, ok := entities[id]; !ok {
+				missing[id] = struct{}{}
+			}
+		}
+	}
+	if len(missing) == 0 {
+		return nil
+	}
+	existing, err := db.graph.GetNodesBatch(ctx, sortedKeys(missing))
+	if err != nil {
+		return fmt.Errorf("get relationship entities: %w", err)
+	}
+	for _, node := range existing {
+		delete(missing, node.ID)
+	}
+	for id := range missing {
+		entities[id] = GraphEntity{Name: names[id], Type: "entity"}
+	}
+	return nil
+}
+
+// clearDocumentArtifacts removes the chunks of a document, their graph nodes with all mentions, and
+// the relations that the document contributed. The document itself is kept.
+func (db *DB) clearDocumentArtifacts(ctx context.Context, documentID string) error {
+	embeddings, err := db.store.GetByDocID(ctx, documentID)
+	if err != nil && !errors.Is(err, core.ErrNotFound) {
+		return fmt.Errorf("get document chunks: %w", err)
+	}
+	chunkIDs := make([]string, 0, len(embeddings))
+	for _, embedding := range embeddings {
+		if isChunkOf(embedding.ID, documentID) {
+			chunkIDs = append(chunkIDs, embedding.ID)
+		}
+	}
+	if len(chunkIDs) > 0 {
+		if _, err := db.graph.DeleteNodesBatch(ctx, chunkIDs); err != nil {
+			return fmt.Errorf("delete chunk nodes: %w", err)
+		}
+		if err := db.store.DeleteBatch(ctx, chunkIDs); err != nil {
+			return fmt.Errorf("delete chunks: %w", err)
+		}
+	}
+	return db.deleteDocumentRelations(ctx, documentID)
+}
+
+// deleteDocumentRelations removes the relation edges that a document contributed.
+func (db *DB) deleteDocumentRelations(ctx context.Context, documentID string) error {
+	rows, err := db.store.GetDB().QueryContext(ctx, `
+		SELECT id FROM graph_edges
+		WHERE (id LIKE 'edge:rel:%' OR id LIKE 'edge:relation:%')
+		AND json_valid(properties) AND json_extract(properties, '$.document_id') = ?
+	`, documentID)
+	if err != nil {
+		return fmt.Errorf("get document relations: %w", err)
+	}
+	defer rows.Close()
+
+	var edgeIDs []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return fmt.Errorf("get document relations: %w", err)
+		}
+		edgeIDs = append(edgeIDs, id)
+	}
+	if err := rows.Err(); err != nil {
+		return fmt.Errorf("get document relations: %w", err)
+	}
+	rows.Close()
+
+	if len(edgeIDs) == 0 {
+		return nil
+	}
+	if _, err := db.graph.DeleteEdgesBatch(ctx, edgeIDs); err != nil {
+		return fmt.Errorf("delete document relations: %w", err)
+	}
+	return nil
+}
+
+// chunkInCollection tells whether a chunk is stored in the collection.
+func (db *DB) chunkInCollection(ctx context.Context, chunkID, collection string) (bool, error) {
+	chunk, err := db.store.GetByID(ctx, chunkID)
+	if errors.Is(err, core.ErrNotFound) {
+		return false, nil
+	}
+	if err != nil {
+		return false, err
+	}
+	return chunk.Collection == collection, nil
+}
+
 // SearchGraphRAG performs seed chunk retrieval plus graph neighborhood expansion.
 func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQueryOptions) (*GraphRAGQueryResult, error) {
 	if db.embedder == nil {
@@ -424,6 +555,13 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 				}
 				related := chunkResults[neighbor.ID]
 				if related == nil {
+					inside, err := db.chunkInCollection(ctx, neighbor.ID, opts.Collection)
+					if err != nil {
+						return nil, fmt.Errorf("expand graph neighborhood: %w", err)
+					}
+					if !inside {
+						continue
+					}
 					related = &GraphRAGChunkResult{
 						ID:      neighbor.ID,
 						Content: neighbor.Content,
@@ -463,21 +601,14 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 	}
 
 	for chunkID, chunk := range chunkResults {
-		neighbors, err := db.graph.Neighbors(ctx, chunkID, graph.TraversalOptions{
-			MaxDepth:  1,
-			Direction: "both",
-			NodeTypes: []string{"entity"},
-			Limit:     16,
-		})
+		entities, err := db.GraphRAGTools().getChunkEntityNames(ctx, chunkID)
 		if err != nil {
 			return nil, fmt.Errorf("load chunk entities: %w", err)
 		}
-		chunk.Entities = make([]string, 0, len(neighbors))
-		for _, entityNode := range neighbors {
-			chunk.Entities = append(chunk.Entities, entityNode.Content)
-			entitySet[entityNode.Content] = struct{}{}
+		chunk.Entities = entities
+		for _, name := range entities {
+			entitySet[name] = struct{}{}
 		}
-		sort.Strings(chunk.Entities)
 	}
 
 	seedChunkList := make([]GraphRAGChunkResult, 0, len(seeds))
@@ -495,7 +626,7 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 		chunk.BaseScore = chunk.Score
 		relatedChunkList = append(relatedChunkList, *chunk)
 	}
-	sort.Slice(relatedChunkList, func(i, j int) bool { return relatedChunkList[i].Score > relatedChunkList[j].Score })
+	sortChunksByScore(relatedChunkList)
 	if len(relatedChunkList) > opts.MaxRelatedChunks {
 		relatedChunkList = relatedChunkList[:opts.MaxRelatedChunks]
 	}
@@ -517,6 +648,16 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 	return result, nil
 }
 
+// sortChunksByScore orders chunks best first, and by ID among equals.
+func sortChunksByScore(chunks []GraphRAGChunkResult) {
+	sort.Slice(chunks, func(i, j int) bool {
+		if chunks[i].Score == chunks[j].Score {
+			return chunks[i].ID < chunks[j].ID
+		}
+		return chunks[i].Score > chunks[j].Score
+	})
+}
+
 type defaultGraphRAGExtractor struct{}
 
 func (defaultGraphRAGExtractor) Extract(_ context.Context, text string) (*GraphExtraction, error) {
@@ -588,12 +729,15 @@ func (db *DB) ensureGraphRAGCollection(ctx context.Context, name string) error {
 
 func (db *DB) upsertGraphRAGDocumentRecord(ctx context.Context, doc *core.Document) error {
 	existing, err := db.store.GetDocument(ctx, doc.ID)
-	if err != nil {
+	if errors.Is(err, core.ErrNotFound) {
 		if err := db.store.CreateDocument(ctx, doc); err != nil {
 			return fmt.Errorf("create document record: %w", err)
 		}
 		return nil
 	}
+	if err != nil {
+		return fmt.Errorf("get document record: %w", err)
+	}
 	existing.Title = doc.Title
 	existing.Content = doc.Content
 	existing.Version++
@@ -666,6 +810,15 @@ func graphChunkNodeID(documentID string, index int) string {
 	return fmt.Sprintf("chunk:%s:%03d", documentID, index)
 }
 
+// isChunkOf tells whether an ID is one that graphChunkNodeID gives to a chunk of the document.
+func isChunkOf(chunkID, documentID string) bool {
+	suffix, ok := strings.CutPrefix(chunkID, "chunk:"+documentID+":")
+	if !ok || suffix == "" {
+		return false
+	}
+	return strings.Trim(suffix, "0123456789") == ""
+}
+
 func graphEntityNodeID(name string) string {
 	normalized := strings.ToLower(strings.TrimSpace(name))
 	var b strings.Builder
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index bfb2df7..4d91d48 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -3,6 +3,7 @@ package cortexdb
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"sort"
@@ -549,6 +550,9 @@ func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocu
 		Content: req.Content,
 		Version: 1,
 	}
+	if err := t.db.clearDocumentArtifacts(ctx, req.DocumentID); err != nil {
+		return nil, err
+	}
 	if err := t.db.upsertGraphRAGDocumentRecord(ctx, docRecord); err != nil {
 		return nil, err
 	}
@@ -700,6 +704,15 @@ func (t *GraphRAGToolbox) UpsertEntities(ctx context.Context, req ToolUpsertEnti
 		}
 	}
 
+	// Check the mentioned chunks first: a failure must not leave entities behind
+	mentioned := make(map[string]struct{})
+	for _, edge := range edges {
+		mentioned[edge.FromNodeID] = struct{}{}
+	}
+	if err := t.db.requireGraphNodes(ctx, mentioned); err != nil {
+		return nil, err
+	}
+
 	if len(nodes) > 0 {
 		if _, err := t.db.graph.UpsertNodesBatch(ctx, nodes); err != nil {
 			return nil, fmt.Errorf("upsert entity nodes: %w", err)
@@ -736,18 +749,22 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 		}
 		edgeType := firstNonEmpty(rel.Type, "related_to")
 		edgeID := fmt.Sprintf("edge:relation:%s:%s:%s:%d", fromID, toID, edgeType, i)
+		if req.DocumentID != "" {
+			// Several documents may state the same relation
+			edgeID += ":" + req.DocumentID
+		}
 		edgeIDs = append(edgeIDs, edgeID)
 
 		properties := map[string]interface{}{}
+		for k, v := range rel.Metadata {
+			properties[k] = v
+		}
 		if req.DocumentID != "" {
 			properties["document_id"] = req.DocumentID
 		}
 		if len(rel.ChunkIDs) > 0 {
 			properties["chunk_ids"] = rel.ChunkIDs
 		}
-		for k, v := range rel.Metadata {
-			properties[k] = v
-		}
 
 		weight := rel.Weight
 		if weight == 0 {
@@ -786,6 +803,9 @@ func (t *GraphRAGToolbox) SearchText(ctx context.Context, req ToolSearchTextRequ
 }
 
 func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSearchTextRequest) ([]core.ScoredEmbedding, error) {
+	if req.TopK <= 0 {
+		req.TopK = 10
+	}
 	searchOpts := TextSearchOptions{
 		Collection: req.Collection,
 		TopK:       req.TopK,
@@ -851,6 +871,11 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 
 // SearchChunksByEntities finds chunks that are linked to the requested entities.
 func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest) (*ToolSearchChunksByEntitiesResponse, error) {
+	return t.searchChunksByEntities(ctx, req, "")
+}
+
+// searchChunksByEntities is SearchChunksByEntities within a collection, or in all of them if it is empty.
+func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest, collection string) (*ToolSearchChunksByEntitiesResponse, error) {
 	if len(req.EntityNames) == 0 {
 		return &ToolSearchChunksByEntitiesResponse{}, nil
 	}
@@ -878,6 +903,18 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 		}
 	}
 
+	if collection != "" {
+		for chunkID := range scoreMap {
+			inside, err := t.db.chunkInCollection(ctx, chunkID, collection)
+			if err != nil {
+				return nil, err
+			}
+			if !inside {
+				delete(scoreMap, chunkID)
+			}
+		}
+	}
+
 	ordered := sortIDsByScore(scoreMap)
 	if len(ordered) > req.TopK {
 		ordered = ordered[:req.TopK]
@@ -1054,11 +1091,11 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 	}
 
 	if useGraph && len(entityNames) > 0 {
-		entityResp, err := t.SearchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
+		entityResp, err := t.searchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
 			EntityNames: entityNames,
 			TopK:        opts.TopK,
 			MaxHops:     opts.MaxHops,
-		})
+		}, opts.Collection)
 		if err != nil {
 			return nil, err
 		}
@@ -1105,6 +1142,15 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			case "entity":
 				entitySet[node.Content] = struct{}{}
 			case "chunk":
+				if _, known := chunkResults[node.ID]; !known {
+					inside, err := t.db.chunkInCollection(ctx, node.ID, opts.Collection)
+					if err != nil {
+						return nil, err
+					}
+					if !inside {
+						continue
+					}
+				}
 				chunk := ToolChunk{
 					ID:      node.ID,
 					Content: node.Content,
@@ -1143,7 +1189,7 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 		}
 		relatedChunks = append(relatedChunks, *chunk)
 	}
-	sort.Slice(relatedChunks, func(i, j int) bool { return relatedChunks[i].Score > relatedChunks[j].Score })
+	sortChunksByScore(relatedChunks)
 	if len(relatedChunks) > opts.MaxRelatedChunks {
 		relatedChunks = relatedChunks[:opts.MaxRelatedChunks]
 	}
@@ -1211,9 +1257,12 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 	chunks := make([]ToolChunk, 0, len(orderedIDs))
 	for _, chunkID := range orderedIDs {
 		emb, err := t.db.store.GetByID(ctx, chunkID)
-		if err != nil {
+		if errors.Is(err, core.ErrNotFound) {
 			continue
 		}
+		if err != nil {
+			return nil, err
+		}
 		var entities []string
 		if includeEntities {
 			entities, err = t.getChunkEntityNames(ctx, chunkID)
@@ -1240,9 +1289,8 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 func (t *GraphRAGToolbox) getChunkEntityNames(ctx context.Context, chunkID string) ([]string, error) {
 	neighbors, err := t.db.graph.Neighbors(ctx, chunkID, graph.TraversalOptions{
 		MaxDepth:  1,
-		Direction: "both",
-		NodeTypes: []string{"entity"},
-		Limit:     32,
+		Direction: "out",
+		EdgeTypes: []string{"mentions"},
 	})
 	if err != nil {
 		return nil, err
diff --git a/pkg/cortexdb/knowledge_api.go b/pkg/cortexdb/knowledge_api.go
index 55c2de9..8e56a74 100644
--- a/pkg/cortexdb/knowledge_api.go
+++ b/pkg/cortexdb/knowledge_api.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -30,11 +31,6 @@ func (db *DB) SaveKnowledge(ctx context.Context, req KnowledgeSaveRequest) (*Kno
 	if err != nil && !errors.Is(err, core.ErrNotFound) {
 		return nil, fmt.Errorf("get existing knowledge: %w", err)
 	}
-	if existing != nil {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
-	}
 
 	metadata := cloneStringMap(req.Metadata)
 	ingest, err := db.ingestKnowledgeContent(ctx, req.KnowledgeID, req.Title, req.Content, req.Collection, req.ChunkSize, req.ChunkOverlap, metadata, req.Entities, req.Relations)
@@ -123,17 +119,23 @@ func (db *DB) UpdateKnowledge(ctx context.Context, req KnowledgeUpdateRequest) (
 		chunkOverlap = *req.ChunkOverlap
 	}
 
-	replaceArtifacts := req.Content != nil || req.Title != nil || req.Collection != nil || req.Metadata != nil
 	ingest := &knowledgeIngestResult{}
-	if replaceArtifacts {
-		if err := db.cleanupKnowledgeArtifacts(ctx, req.KnowledgeID); err != nil {
-			return nil, err
-		}
+	if req.Content != nil {
 		ingest, err = db.ingestKnowledgeContent(ctx, req.KnowledgeID, title, content, collection, chunkSize, chunkOverlap, metadata, req.Entities, req.Relations)
 		if err != nil {
 			return nil, err
 		}
-	} else if len(req.Entities) > 0 || len(req.Relations) > 0 {
+	} else {
+		if err := db.checkKnowledgeLinks(ctx, req.KnowledgeID, nil, req.Entities, req.Relations); err != nil {
+			return nil, err
+		}
+		if req.Title != nil || req.Collection != nil || req.Metadata != nil {
+			// The text stays, and with it the chunks, their entities and relations
+			if err := db.refreshKnowledgeChunks(ctx, req.KnowledgeID, title, content, collection, metadata); err != nil {
+				return nil, err
+			}
+			ingest.documentNodeID = graphDocumentNodeID(req.KnowledgeID)
+		}
 		toolbox := db.GraphRAGTools()
 		if len(req.Entities) > 0 {
 			entityResp, err := toolbox.UpsertEntities(ctx, ToolUpsertEntitiesRequest{
@@ -305,6 +307,12 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 	toolbox := db.GraphRAGTools()
 	result := &knowledgeIngestResult{}
 
+	chunkOpts := GraphRAGIngestOptions{Collection: collection, ChunkSize: chunkSize, ChunkOverlap: chunkOverlap}
+	applyGraphRAGIngestDefaults(&chunkOpts)
+	if err := db.checkKnowledgeLinks(ctx, knowledgeID, splitGraphRAGText(content, chunkOpts.ChunkSize, chunkOpts.ChunkOverlap), entities, relations); err != nil {
+		return nil, err
+	}
+
 	if db.HasEmbedder() {
 		ingest, err := db.InsertGraphDocument(ctx, doc, GraphRAGIngestOptions{
 			Collection:   collection,
@@ -375,6 +383,161 @@ func (db *DB) ingestKnowledgeContent(ctx context.Context, knowledgeID, title, co
 	return result, nil
 }
 
+// checkKnowledgeLinks checks that every chunk and entity that entities and relations refer to exists or
+// comes with the item, before anything is written. chunks holds the new chunks, or is nil if the old ones stay.
+func (db *DB) checkKnowledgeLinks(ctx context.Context, knowledgeID string, chunks []string, entities []ToolEntityInput, relations []ToolRelationInput) error {
+	if len(entities) == 0 && len(relations) == 0 {
+		return nil
+	}
+	if err := db.graph.InitGraphSchema(ctx); err != nil {
+		return fmt.Errorf("init graph schema: %w", err)
+	}
+
+	known := make(map[string]struct{})
+	for i, chunk := range chunks {
+		known[graphChunkNodeID(knowledgeID, i)] = struct{}{}
+		if db.HasEmbedder() {
+			for _, entity := range extractTitleEntities(chunk) {
+				known[graphEntityNodeID(entity.Name)] = struct{}{}
+			}
+		}
+	}
+	for _, entity := range entities {
+		known[resolveEntityNodeID(entity.ID, entity.Name)] = struct{}{}
+	}
+
+	required := make(map[string]struct{})
+	for _, entity := range entities {
+		if strings.TrimSpace(entity.Name) == "" && strings.TrimSpace(entity.ID) == "" {
+			continue
+		}
+		for _, chunkID := range entity.ChunkIDs {
+			if chunkID == "" {
+				continue
+			}
+			if _, ok := known[chunkID]; ok {
+				continue
+			}
+			if chunks != nil && isChunkOf(chunkID, knowledgeID) {
+				return fmt.Errorf("unknown chunk %q", chunkID)
+			}
+			required[chunkID] = struct{}{}
+		}
+	}
+	for _, relation := range relations {
+		fromID, toID := resolveEntityNodeID("", relation.From), resolveEntityNodeID("", relation.To)
+		if fromID == "" || toID == "" {
+			continue
+		}
+		for _, entityID := range []string{fromID, toID} {
+			if _, ok := known[entityID]; !ok {
+				required[entityID] = struct{}{}
+			}
+		}
+	}
+	return db.requireGraphNodes(ctx, required)
+}
+
+// requireGraphNodes reports an error unless all of the nodes exist.
+func (db *DB) requireGraphNodes(ctx context.Context, nodeIDs map[string]struct{}) error {
+	if len(nodeIDs) == 0 {
+		return nil
+	}
+	nodes, err := db.graph.GetNodesBatch(ctx, sortedKeysFromSet(nodeIDs))
+	if err != nil {
+		return fmt.Errorf("get graph nodes: %w", err)
+	}
+	found := make(map[string]struct{}, len(nodes))
+	for _, node := range nodes {
+		found[node.ID] = struct{}{}
+	}
+	for _, id := range sortedKeysFromSet(nodeIDs) {
+		if _, ok := found[id]; !ok {
+			return fmt.Errorf("unknown graph node %q", id)
+		}
+	}
+	return nil
+}
+
+// refreshKnowledgeChunks gives the chunks of an item a new title, metadata or collection.
+func (db *DB) refreshKnowledgeChunks(ctx context.Context, knowledgeID, title, content, collection string, metadata map[string]string) error {
+	opts := GraphRAGIngestOptions{Collection: collection}
+	applyGraphRAGIngestDefaults(&opts)
+
+	if err := db.graph.InitGraphSchema(ctx); err != nil {
+		return fmt.Errorf("init graph schema: %w", err)
+	}
+	vectorDim := 0
+	if db.HasEmbedder() {
+		if err := db.ensureGraphRAGCollection(ctx, opts.Collection); err != nil {
+			return err
+		}
+	} else {
+		toolbox := db.GraphRAGTools()
+		var err error
+		if vectorDim, err = toolbox.lexicalVectorDim(ctx, opts.Collection); err != nil {
+			return err
+		}
+		if err := toolbox.ensureLexicalCollection(ctx, opts.Collection, vectorDim); err != nil {
+			return err
+		}
+	}
+
+	chunks, err := db.store.GetByDocID(ctx, knowledgeID)
+	if err != nil && !errors.Is(err, core.ErrNotFound) {
+		return fmt.Errorf("get knowledge chunks: %w", err)
+	}
+	updated := make([]*core.Embedding, 0, len(chunks))
+	nodeIDs := []string{graphDocumentNodeID(knowledgeID)}
+	for _, chunk := range chunks {
+		if !isChunkOf(chunk.ID, knowledgeID) {
+			continue
+		}
+		index, _ := strconv.Atoi(strings.TrimPrefix(chunk.ID, "chunk:"+knowledgeID+":"))
+		chunkMetadata := map[string]string{
+			"graph_kind":  "chunk",
+			"document_id": knowledgeID,
+			"chunk_index": fmt.Sprintf("%d", index),
+			"title":       title,
+		}
+		for key, value := range metadata {
+			chunkMetadata[key] = value
+		}
+		chunk.Metadata = chunkMetadata
+		chunk.Collection = opts.Collection
+		if vectorDim > 0 && len(chunk.Vector) != vectorDim {
+			chunk.Vector = lexicalVectorForText(chunk.Content, vectorDim)
+		}
+		updated = append(updated, chunk)
+		nodeIDs = append(nodeIDs, chunk.ID)
+	}
+	if len(updated) > 0 {
+		if err := db.store.UpsertBatch(ctx, updated); err != nil {
+			return fmt.Errorf("update knowledge chunks: %w", err)
+		}
+	}
+
+	nodes, err := db.graph.GetNodesBatch(ctx, nodeIDs)
+	if err != nil {
+		return fmt.Errorf("get knowledge nodes: %w", err)
+	}
+	for _, node := range nodes {
+		if node.Properties == nil {
+			node.Properties = map[string]interface{}{}
+		}
+		node.Properties["title"] = title
+		if node.NodeType == "document" {
+			node.Content = firstNonEmpty(title, content)
+		}
+	}
+	if len(nodes) > 0 {
+		if _, err := db.graph.UpsertNodesBatch(ctx, nodes); err != nil {
+			return fmt.Errorf("update knowledge nodes: %w", err)
+		}
+	}
+	return nil
+}
+
 func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string) error {
 	if err := db.graph.InitGraphSchema(ctx); err != nil {
 		return fmt.Errorf("init graph schema: %w", err)
@@ -393,6 +556,9 @@ func (db *DB) cleanupKnowledgeArtifacts(ctx context.Context, knowledgeID string)
 	if _, err := db.graph.DeleteNodesBatch(ctx, nodeIDs); err != nil {
 		return fmt.Errorf("delete graph nodes: %w", err)
 	}
+	if err := db.deleteDocumentRelations(ctx, knowledgeID); err != nil {
+		return err
+	}
 	if err := db.store.DeleteDocument(ctx, knowledgeID); err != nil {
 		return fmt.Errorf("delete knowledge document: %w", err)
 	}
@@ -535,6 +701,9 @@ func (db *DB) aggregateKnowledgeHits(ctx context.Context, chunks []GraphRAGChunk
 		}
 		if _, ok := docCache[chunk.DocumentID]; !ok {
 			doc, err := db.store.GetDocument(ctx, chunk.DocumentID)
+			if errors.Is(err, core.ErrNotFound) {
+				continue // deleted meanwhile
+			}
 			if err != nil {
 				return nil, err
 			}
diff --git a/pkg/cortexdb/knowledge_memory_helpers.go b/pkg/cortexdb/knowledge_memory_helpers.go
index 2c551af..a11aebb 100644
--- a/pkg/cortexdb/knowledge_memory_helpers.go
+++ b/pkg/cortexdb/knowledge_memory_helpers.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 func compactSnippet(content string) string {
@@ -11,7 +12,11 @@ func compactSnippet(content string) string {
 	if len(content) <= 180 {
 		return content
 	}
-	return content[:177] + "..."
+	cut := 177
+	for cut > 0 && !utf8.RuneStart(content[cut]) {
+		cut--
+	}
+	return content[:cut] + "..."
 }
 
 func cloneStringMap(values map[string]string) map[string]string {
-- 
2.43.0


From a310cd330d4e3a4b7bac22a0f1534ec82b6a4c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:02 +0000
Subject: [PATCH 25/32] fix: memory banks keep their own memories, settings and
 observations apart, complete and intact over restarts, and recall reports
 failures

---
 pkg/hindsight/chat.go      |  32 +-
 pkg/hindsight/hindsight.go | 722 +++++++++++++++++++------------------
 pkg/hindsight/hooks.go     |   3 +
 3 files changed, 388 insertions(+), 369 deletions(-)

diff --git a/pkg/hindsight/chat.go b/pkg/hindsight/chat.go
index 31224dd..fbe06f6 100644
--- a/pkg/hindsight/chat.go
+++ b/pkg/hindsight/chat.go
@@ -78,14 +78,14 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 	// 3. Fire async extraction — does not block AddMessage's caller.
 	windowSize := cfg.WindowSize
 	sessionID := msg.SessionID
+	messageID := msg.ID
 
 	s.wg.Add(1)
 	go func() {
 		defer s.wg.Done()
 		bgCtx := context.Background()
 		// Retrieve the sliding window of recent messages.
-		// GetSessionHistory returns messages in descending order (newest first).
-		recent, err := s.store.GetSessionHistory(bgCtx, sessionID, windowSize)
+		recent, err := s.messageWindow(bgCtx, sessionID, messageID, windowSize)
 		if err != nil {
 			slog.Error("hindsight/auto-retain: fetch session history",
 				"session_id", sessionID, "bank_id", bankID, "error", err)
@@ -94,8 +94,6 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 		if len(recent) == 0 {
 			return
 		}
-		// Reverse to chronological order before passing to extractor.
-		reverseMessages(recent)
 
 		result, err := s.RetainFromText(bgCtx, bankID, recent)
 		if err != nil {
@@ -117,6 +115,25 @@ func (s *System) AddMessage(ctx context.Context, bankID string, msg *core.Messag
 	return nil
 }
 
+// messageWindow returns up to size messages of a session that end with the given message, in
+// chronological order. Messages that were added since are left out: they belong to a later window.
+func (s *System) messageWindow(ctx context.Context, sessionID, messageID string, size int) ([]*core.Message, error) {
+	for limit := size; ; limit *= 2 {
+		recent, err := s.store.GetSessionHistory(ctx, sessionID, limit)
+		if err != nil {
+			return nil, err
+		}
+		for i, m := range recent {
+			if m.ID == messageID && (i+1 >= size || len(recent) < limit) {
+				return recent[max(0, i+1-size) : i+1], nil
+			}
+		}
+		if len(recent) < limit {
+			return recent[max(0, len(recent)-size):], nil // The message is gone
+		}
+	}
+}
+
 // roleMatches reports whether role should count toward the trigger.
 // filter == nil or empty means every role matches.
 func roleMatches(role string, filter []string) bool {
@@ -130,10 +147,3 @@ func roleMatches(role string, filter []string) bool {
 	}
 	return false
 }
-
-// reverseMessages reverses a slice of messages in-place.
-func reverseMessages(msgs []*core.Message) {
-	for i, j := 0, len(msgs)-1; i < j; i, j = i+1, j-1 {
-		msgs[i], msgs[j] = msgs[j], msgs[i]
-	}
-}
diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 34de8f0..fefc9c4 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -7,10 +7,15 @@ package hindsight
 
 import (
 	"context"
+	"encoding/json"
+	"errors"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -25,6 +30,10 @@ type System struct {
 	store      core.Store
 	graph      *graph.GraphStore
 	collection *core.Collection
+	// collectionName is the configured collection for memories
+	collectionName string
+	// retainMu serializes the writes that first look up what an ID already stands for
+	retainMu   sync.Mutex
 	mu         sync.RWMutex
 	banks      map[string]*Bank
 	// optional hooks (registered via SetFactExtractor / SetReranker)
@@ -81,6 +90,8 @@ func New(cfg *Config) (*System, error) {
 		graph:         db.Graph(),
 		banks:         make(map[string]*Bank),
 		autoRetainCfg: defaultAutoRetainConfig(),
+
+		collectionName: cfg.Collection,
 	}
 
 	// Initialize the store and graph schema
@@ -99,14 +110,22 @@ func New(cfg *Config) (*System, error) {
 	// Create default collection if it doesn't exist
 	if _, err := sys.store.GetCollection(ctx, cfg.Collection); err != nil {
 		if _, err := sys.store.CreateCollection(ctx, cfg.Collection, cfg.VectorDim); err != nil {
-			// Collection may already exist, continue
+			db.Close()
+			return nil, fmt.Errorf("create collection: %w", err)
 		}
 	}
 
 	// Store collection reference and load persisted banks
-	collection, _ := sys.store.GetCollection(ctx, cfg.Collection)
+	collection, err := sys.store.GetCollection(ctx, cfg.Collection)
+	if err != nil {
+		db.Close()
+		return nil, fmt.Errorf("get collection: %w", err)
+	}
 	sys.collection = collection
-	_ = sys.loadPersistedBanks(ctx)
+	if err := sys.loadPersistedBanks(ctx); err != nil {
+		db.Close()
+		return nil, fmt.Errorf("load banks: %w", err)
+	}
 
 	return sys, nil
 }
@@ -143,11 +162,39 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 		mem.CreatedAt = time.Now()
 	}
 
+	s.retainMu.Lock()
+	defer s.retainMu.Unlock()
+
+	key, err := s.storageKey(ctx, mem.BankID, mem.ID)
+	if err != nil {
+		return fmt.Errorf("store memory: %w", err)
+	}
+
 	// Build metadata for cortexdb
 	metadata := s.buildMetadata(mem)
+	if key != mem.ID {
+		metadata["memory_id"] = mem.ID
+	}
+
+	// Store the memory vector and content
+	embedding := &core.Embedding{
+		ID:         key,
+		Collection: s.getCollection(),
+		Vector:     mem.Vector,
+		Content:    mem.Content,
+		Metadata:   metadata,
+	}
 
-	// Extract entities from content for graph storage (optional, failures ignored)
+	err = s.store.Upsert(ctx, embedding)
+	if err != nil {
+		return fmt.Errorf("store memory: %w", err)
+	}
+
+	// Add the entities to the graph (optional, failures ignored)
 	for _, entity := range mem.Entities {
+		if _, err := s.graph.GetNode(ctx, entity); err == nil {
+			continue // The ID already stands for this entity, for a bank or for another node
+		}
 		// Add entity node to graph (using a simple hash-based vector)
 		node := &graph.GraphNode{
 			ID:       entity,
@@ -159,148 +206,178 @@ func (s *System) Retain(ctx context.Context, mem *Memory) error {
 		_ = s.graph.UpsertNode(ctx, node) // Ignore errors - graph is optional
 	}
 
-	// Store the memory vector and content
-	embedding := &core.Embedding{
-		ID:         mem.ID,
-		Collection: s.getCollection(),
-		Vector:     mem.Vector,
-		Content:    mem.Content,
-		Metadata:   metadata,
+	return nil
+}
+
+// storageKey returns the embedding ID of a memory. Memory IDs are scoped to the bank while
+// embedding IDs are global, so a memory whose ID is taken by another bank or another
+// collection gets a key of its own.
+func (s *System) storageKey(ctx context.Context, bankID, memoryID string) (string, error) {
+	reader, ok := s.store.(interface {
+		GetByID(ctx context.Context, id string) (*core.Embedding, error)
+	})
+	if !ok {
+		return memoryID, nil
 	}
 
-	err := s.store.Upsert(ctx, embedding)
+	scope, err := json.Marshal([]string{s.getCollection(), bankID, memoryID})
 	if err != nil {
-		return fmt.Errorf("store memory: %w", err)
+		return "", err
+	}
+	scoped := "memory:" + uuid.NewSHA1(uuid.NameSpaceOID, scope).String()
+	if _, err := reader.GetByID(ctx, scoped); err == nil {
+		return scoped, nil
+	} else if !errors.Is(err, core.ErrNotFound) {
+		return "", err
 	}
 
-	return nil
+	existing, err := reader.GetByID(ctx, memoryID)
+	if errors.Is(err, core.ErrNotFound) {
+		return memoryID, nil
+	}
+	if err != nil {
+		return "", err
+	}
+	if existing.Collection == s.getCollection() && existing.Metadata["bank_id"] == bankID && existing.Metadata["memory_id"] == "" {
+		return memoryID, nil
+	}
+	return scoped, nil
 }
 
 // getCollection returns the collection name for memories.
 func (s *System) getCollection() string {
-	return "memories"
+	return s.collectionName
+}
+
+// userMetadataPrefix marks metadata of the caller whose key the memory system uses itself.
+const userMetadataPrefix = "user_metadata."
+
+// reservedMetadata holds the keys under which the fields of a memory are stored.
+var reservedMetadata = map[string]bool{
+	"bank_id":         true,
+	"memory_id":       true,
+	"memory_type":     true,
+	"created_at":      true,
+	"created_at_nsec": true,
+	"confidence":      true,
+	"entities":        true,
 }
 
 // buildMetadata converts a Memory to cortexdb metadata map.
 func (s *System) buildMetadata(mem *Memory) map[string]string {
 	metadata := make(map[string]string)
 
+	// Copy additional metadata (convert to string)
+	for k, v := range mem.Metadata {
+		if reservedMetadata[k] || strings.HasPrefix(k, userMetadataPrefix) {
+			k = userMetadataPrefix + k
+		}
+		metadata[k] = fmt.Sprintf("%v", v)
+	}
+
 	// Core metadata
 	metadata["bank_id"] = mem.BankID
 	metadata["memory_type"] = string(mem.Type)
 	metadata["created_at"] = fmt.Sprintf("%d", mem.CreatedAt.Unix())
+	metadata["created_at_nsec"] = strconv.Itoa(mem.CreatedAt.Nanosecond())
 
 	// Type-specific metadata
 	if mem.Type == OpinionMemory || mem.Type == ObservationMemory {
-		metadata["confidence"] = fmt.Sprintf("%.4f", mem.Confidence)
+		metadata["confidence"] = strconv.FormatFloat(mem.Confidence, 'g', -1, 64)
 	}
 
 	// Store entities as comma-separated string for filtering
 	if len(mem.Entities) > 0 {
-		metadata["entities"] = strings.Join(mem.Entities, ",")
+		metadata["entities"] = joinList(mem.Entities)
 	}
 
-	// Copy additional metadata (convert to string)
-	for k, v := range mem.Metadata {
-		metadata[k] = fmt.Sprintf("%v", v)
+	return metadata
+}
+
+// joinList joins values with commas, or as a JSON array if commas cannot separate them.
+func joinList(values []string) string {
+	if len(values) == 0 {
+		return ""
 	}
+	joined := strings.Join(values, ",")
+	if joined == "" || strings.HasPrefix(joined, "[") || strings.Count(joined, ",") != len(values)-1 {
+		if encoded, err := json.Marshal(values); err == nil {
+			return string(encoded)
+		}
+	}
+	return joined
+}
 
-	return metadata
+// splitList is the inverse of joinList.
+func splitList(joined string) []string {
+	if joined == "" {
+		return nil
+	}
+	var values []string
+	if strings.HasPrefix(joined, "[") && json.Unmarshal([]byte(joined), &values) == nil {
+		return values
+	}
+	return strings.Split(joined, ",")
 }
 
 // Recall retrieves memories using the specified TEMPR strategies.
 func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	if req.Strategy == nil {
-		req.Strategy = DefaultStrategy()
+		withStrategy := *req
+		withStrategy.Strategy = DefaultStrategy()
+		req = &withStrategy
 	}
 
-	var allResults []*RecallResult
-	var wg sync.WaitGroup
-	resultsMu := sync.Mutex{}
-
-	// Run enabled strategies in parallel
-	if req.Strategy.Memory && req.QueryVector != nil {
-		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.semanticSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+	// Collect the enabled strategies
+	type strategyFn func(context.Context, *RecallRequest) ([]*RecallResult, error)
+	var strategies []strategyFn
+	if req.Strategy.Memory && len(req.QueryVector) > 0 {
+		strategies = append(strategies, s.semanticSearch)
 	}
-
 	if req.Strategy.Priming && req.Query != "" {
-		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.keywordSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+		strategies = append(strategies, s.keywordSearch)
 	}
-
 	if req.Strategy.Temporal != nil {
-		wg.Add(1)
-		go func() {
-			defer wg.Done()
-			if results := s.temporalSearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
-		}()
+		strategies = append(strategies, s.temporalSearch)
 	}
-
 	if len(req.Strategy.Entity) > 0 {
+		strategies = append(strategies, s.entitySearch)
+	}
+
+	// Run them in parallel
+	results := make([][]*RecallResult, len(strategies))
+	errs := make([]error, len(strategies))
+	var wg sync.WaitGroup
+	for i, strategy := range strategies {
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-			if results := s.entitySearch(ctx, req); results != nil {
-				resultsMu.Lock()
-				allResults = append(allResults, results...)
-				resultsMu.Unlock()
-			}
+			results[i], errs[i] = strategy(ctx, req)
 		}()
 	}
-
 	wg.Wait()
 
-	// Count how many strategies returned results
-	strategyCount := 0
-	if req.Strategy.Memory && req.QueryVector != nil {
-		strategyCount++
-	}
-	if req.Strategy.Priming && req.Query != "" {
-		strategyCount++
-	}
-	if req.Strategy.Temporal != nil {
-		strategyCount++
+	var allResults []*RecallResult
+	for _, r := range results {
+		allResults = append(allResults, r...)
 	}
-	if len(req.Strategy.Entity) > 0 {
-		strategyCount++
+
+	// A failed strategy is tolerated as long as another one finds something
+	if len(allResults) == 0 {
+		if err := errors.Join(errs...); err != nil {
+			return nil, err
+		}
 	}
 
 	// Only apply RRF when multiple strategies are enabled and have results
 	// When only one strategy is used, return original scores directly
 	var merged []*RecallResult
-	if strategyCount > 1 && len(allResults) > 0 {
+	if len(strategies) > 1 && len(allResults) > 0 {
 		merged = s.rrfFuse(allResults)
 	} else {
 		// Single strategy or no results - sort by original score
 		merged = allResults
-		if len(merged) > 1 {
-			for i := 0; i < len(merged); i++ {
-				for j := i + 1; j < len(merged); j++ {
-					if merged[j].Score > merged[i].Score {
-						merged[i], merged[j] = merged[j], merged[i]
-					}
-				}
-			}
-		}
+		sortResults(merged)
 	}
 
 	// Apply optional RerankerFn after RRF; silently fall back on error or empty result.
@@ -308,7 +385,9 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 	reranker := s.reranker
 	s.mu.RUnlock()
 	if reranker != nil && req.Query != "" && len(merged) > 0 {
-		if reranked, err := reranker(ctx, req.Query, merged); err == nil && len(reranked) > 0 {
+		// The reranker may reorder its argument before it fails
+		candidates := append([]*RecallResult(nil), merged...)
+		if reranked, err := reranker(ctx, req.Query, candidates); err == nil && len(reranked) > 0 {
 			merged = reranked
 		}
 	}
@@ -321,222 +400,133 @@ func (s *System) Recall(ctx context.Context, req *RecallRequest) ([]*RecallResul
 	return merged, nil
 }
 
-// semanticSearch performs vector similarity search.
-func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+// sortResults sorts results by score, best first.
+func sortResults(results []*RecallResult) {
+	sort.SliceStable(results, func(i, j int) bool {
+		return results[i].Score > results[j].Score
+	})
+}
+
+// strategyLimit returns the maximum number of results per strategy.
+func strategyLimit(req *RecallRequest) int {
 	topK := req.Strategy.TopK
 	if topK == 0 {
 		topK = req.TopK
 	}
-	if topK == 0 {
+	if topK <= 0 {
 		topK = 10
 	}
+	return topK
+}
 
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       topK,
-		Filter:     map[string]string{"bank_id": req.BankID},
+// toResults converts search results to recall results of a strategy.
+func (s *System) toResults(scored []core.ScoredEmbedding, strategy string) []*RecallResult {
+	out := make([]*RecallResult, 0, len(scored))
+	for i := range scored {
+		out = append(out, &RecallResult{
+			Memory:   s.scoredEmbeddingToMemory(&scored[i]),
+			Score:    scored[i].Score,
+			Strategy: strategy,
+		})
 	}
+	return out
+}
 
-	results, err := s.store.Search(ctx, req.QueryVector, opts)
+// scanBank returns all memories of a bank by similarity to the vector, which may be nil.
+func (s *System) scanBank(ctx context.Context, bankID string, vector []float32) ([]core.ScoredEmbedding, error) {
+	if len(vector) == 0 {
+		vector = make([]float32, 1) // Any vector will do
+	}
+	return s.store.SearchWithAdvancedFilter(ctx, vector, core.AdvancedSearchOptions{
+		SearchOptions: core.SearchOptions{
+			Collection: s.getCollection(),
+			Filter:     map[string]string{"bank_id": bankID},
+		},
+	})
+}
+
+// matchBank returns the best memories of a bank that satisfy a condition.
+func (s *System) matchBank(ctx context.Context, req *RecallRequest, strategy string, matches func(*Memory) bool) ([]*RecallResult, error) {
+	scored, err := s.scanBank(ctx, req.BankID, req.QueryVector)
 	if err != nil {
-		return nil
+		return nil, fmt.Errorf("%s search: %w", strategy, err)
 	}
 
-	out := make([]*RecallResult, 0, len(results))
-	for _, r := range results {
-		mem := s.scoredEmbeddingToMemory(&r)
-		if mem != nil {
-			out = append(out, &RecallResult{
-				Memory:   mem,
-				Score:    r.Score,
-				Strategy: "semantic",
-			})
+	topK := strategyLimit(req)
+	out := make([]*RecallResult, 0)
+	for _, r := range s.toResults(scored, strategy) {
+		if len(out) == topK {
+			break
+		}
+		if matches(r.Memory) {
+			out = append(out, r)
 		}
 	}
-	return out
+	return out, nil
 }
 
-// keywordSearch performs BM25 keyword search using HybridSearch.
-func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
-	topK := req.Strategy.TopK
-	if topK == 0 {
-		topK = req.TopK
-	}
-	if topK == 0 {
-		topK = 10
+// semanticSearch performs vector similarity search.
+func (s *System) semanticSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
+	results, err := s.store.Search(ctx, req.QueryVector, core.SearchOptions{
+		Collection: s.getCollection(),
+		TopK:       strategyLimit(req),
+		Filter:     map[string]string{"bank_id": req.BankID},
+	})
+	if err != nil {
+		return nil, fmt.Errorf("semantic search: %w", err)
 	}
+	return s.toResults(results, "semantic"), nil
+}
 
+// keywordSearch performs BM25 keyword search using HybridSearch.
+func (s *System) keywordSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	// Use HybridSearch for keyword + vector combination
-	// HybridSearch combines FTS5 keyword search with vector search using RRF
-	opts := core.HybridSearchOptions{
+	// HybridSearch combines FTS5 keyword search with vector search using RRF;
+	// without a vector it ranks by keywords only
+	results, err := s.store.HybridSearch(ctx, req.QueryVector, req.Query, core.HybridSearchOptions{
 		SearchOptions: core.SearchOptions{
 			Collection: s.getCollection(),
-			TopK:       topK,
+			TopK:       strategyLimit(req),
 			Filter:     map[string]string{"bank_id": req.BankID},
 			QueryText:  req.Query,
 			TextWeight: 0.7, // Higher weight for text similarity
 		},
 		RRFK: 60, // RRF constant
-	}
-
-	var results []core.ScoredEmbedding
-	var err error
-
-	if req.QueryVector != nil {
-		results, err = s.store.HybridSearch(ctx, req.QueryVector, req.Query, opts)
-	} else {
-		// No vector provided - just do semantic search with text similarity
-		searchOpts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-			QueryText:  req.Query,
-			TextWeight: 1.0, // Text-only
-		}
-		// Need at least a minimal vector for search
-		dummyVec := make([]float32, 1)
-		results, err = s.store.Search(ctx, dummyVec, searchOpts)
-	}
-
+	})
 	if err != nil {
-		return nil
-	}
-
-	out := make([]*RecallResult, 0, len(results))
-	for _, r := range results {
-		mem := s.scoredEmbeddingToMemory(&r)
-		if mem != nil {
-			out = append(out, &RecallResult{
-				Memory:   mem,
-				Score:    r.Score,
-				Strategy: "keyword",
-			})
-		}
+		return nil, fmt.Errorf("keyword search: %w", err)
 	}
-	return out
+	return s.toResults(results, "keyword"), nil
 }
 
 // temporalSearch performs time-range filtered search.
-func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) []*RecallResult {
+func (s *System) temporalSearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
 	tf := req.Strategy.Temporal
-	if tf == nil {
-		return nil
-	}
-
-	topK := req.Strategy.TopK
-	if topK == 0 {
-		topK = req.TopK
-	}
-	if topK == 0 {
-		topK = 10
-	}
-
-	// For temporal search, we first get all bank memories then filter
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       topK * 5, // Get more to filter
-		Filter:     map[string]string{"bank_id": req.BankID},
-	}
-
-	if req.QueryVector == nil {
-		return nil // Need vector for search
-	}
-
-	results, err := s.store.Search(ctx, req.QueryVector, opts)
-	if err != nil {
-		return nil
-	}
-
-	// Filter by time range
-	out := make([]*RecallResult, 0)
-	for _, r := range results {
-		mem := s.scoredEmbeddingToMemory(&r)
-		if mem == nil {
-			continue
-		}
-
-		// Check time range
-		inRange := true
+	return s.matchBank(ctx, req, "temporal", func(mem *Memory) bool {
 		if tf.Start != nil && mem.CreatedAt.Before(*tf.Start) {
-			inRange = false
+			return false
 		}
 		if tf.End != nil && mem.CreatedAt.After(*tf.End) {
-			inRange = false
-		}
-
-		if inRange {
-			out = append(out, &RecallResult{
-				Memory:   mem,
-				Score:    r.Score,
-				Strategy: "temporal",
-			})
+			return false
 		}
-	}
-
-	return out
+		return true
+	})
 }
 
-// entitySearch performs graph-based entity search.
-func (s *System) entitySearch(ctx context.Context, req *RecallRequest) []*RecallResult {
-	if len(req.Strategy.Entity) == 0 {
-		return nil
-	}
-
-	topK := req.Strategy.TopK
-	if topK == 0 {
-		topK = req.TopK
-	}
-	if topK == 0 {
-		topK = 10
-	}
-
-	// Find memories that contain the specified entities
-	// We use metadata filtering for this
-	var allResults []*RecallResult
-	seen := make(map[string]bool)
-
+// entitySearch finds memories that contain one of the specified entities.
+func (s *System) entitySearch(ctx context.Context, req *RecallRequest) ([]*RecallResult, error) {
+	wanted := make(map[string]bool)
 	for _, entity := range req.Strategy.Entity {
-		opts := core.SearchOptions{
-			Collection: s.getCollection(),
-			TopK:       topK,
-			Filter:     map[string]string{"bank_id": req.BankID},
-		}
-
-		var results []core.ScoredEmbedding
-		var err error
-
-		if req.QueryVector != nil {
-			results, err = s.store.Search(ctx, req.QueryVector, opts)
-		} else {
-			// No vector - can't search effectively
-			continue
-		}
-
-		if err != nil {
-			continue
-		}
-
-		for _, r := range results {
-			if !seen[r.ID] {
-				// Check if this memory contains the entity
-				if entities, ok := r.Metadata["entities"]; ok {
-					if strings.Contains(entities, entity) {
-						seen[r.ID] = true
-						mem := s.scoredEmbeddingToMemory(&r)
-						if mem != nil {
-							allResults = append(allResults, &RecallResult{
-								Memory:   mem,
-								Score:    r.Score,
-								Strategy: "entity",
-							})
-						}
-					}
-				}
+		wanted[entity] = true
+	}
+	return s.matchBank(ctx, req, "entity", func(mem *Memory) bool {
+		for _, entity := range mem.Entities {
+			if wanted[entity] {
+				return true
 			}
 		}
-	}
-
-	return allResults
+		return false
+	})
 }
 
 // rrfFuse combines results from multiple strategies using Reciprocal Rank Fusion.
@@ -549,55 +539,23 @@ func (s *System) rrfFuse(results []*RecallResult) []*RecallResult {
 		return results
 	}
 
-	// Group by memory ID
+	// Add up the scores of each memory, in the order of the strategies
+	merged := make([]*RecallResult, 0, len(results))
 	byID := make(map[string]*RecallResult)
-	ranks := make(map[string]map[string]int) // memoryID -> strategy -> rank
-
-	// Track rank per strategy
-	byStrategy := make(map[string][]*RecallResult)
+	ranks := make(map[string]int) // strategy -> last rank
 	for _, r := range results {
-		byStrategy[r.Strategy] = append(byStrategy[r.Strategy], r)
-	}
-
-	// Calculate ranks and aggregate
-	for strategy, stratResults := range byStrategy {
-		for rank, r := range stratResults {
-			if ranks[r.ID] == nil {
-				ranks[r.ID] = make(map[string]int)
-			}
-			ranks[r.ID][strategy] = rank + 1
-
-			if existing := byID[r.ID]; existing == nil {
-				byID[r.ID] = r
-				r.Score = 0
-			}
-		}
-	}
-
-	// Calculate RRF scores
-	for id, r := range byID {
-		rrfScore := 0.0
-		for _, rank := range ranks[id] {
-			rrfScore += 1.0 / (k + float64(rank))
+		ranks[r.Strategy]++
+		score := 1.0 / (k + float64(ranks[r.Strategy]))
+		if existing := byID[r.ID]; existing != nil {
+			existing.Score += score
+			continue
 		}
-		r.Score = rrfScore
-	}
-
-	// Convert to slice and sort by score
-	merged := make([]*RecallResult, 0, len(byID))
-	for _, r := range byID {
+		r.Score = score
+		byID[r.ID] = r
 		merged = append(merged, r)
 	}
 
-	// Sort by score descending
-	for i := 0; i < len(merged); i++ {
-		for j := i + 1; j < len(merged); j++ {
-			if merged[j].Score > merged[i].Score {
-				merged[i], merged[j] = merged[j], merged[i]
-			}
-		}
-	}
-
+	sortResults(merged)
 	return merged
 }
 
@@ -616,6 +574,9 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 	}
 
 	// Extract metadata
+	if memoryID, ok := r.Metadata["memory_id"]; ok {
+		mem.ID = memoryID
+	}
 	if bankID, ok := r.Metadata["bank_id"]; ok {
 		mem.BankID = bankID
 	}
@@ -623,17 +584,18 @@ func (s *System) scoredEmbeddingToMemory(r *core.ScoredEmbedding) *Memory {
 		mem.Type = MemoryType(memType)
 	}
 	if createdStr, ok := r.Metadata["created_at"]; ok {
-		var created int64
-		fmt.Sscanf(createdStr, "%d", &created)
-		mem.CreatedAt = time.Unix(created, 0)
+		created, _ := strconv.ParseInt(createdStr, 10, 64)
+		nsec, _ := strconv.ParseInt(r.Metadata["created_at_nsec"], 10, 64)
+		mem.CreatedAt = time.Unix(created, nsec)
 	}
 	if confStr, ok := r.Metadata["confidence"]; ok {
-		var conf float64
-		fmt.Sscanf(confStr, "%f", &conf)
-		mem.Confidence = conf
+		mem.Confidence, _ = strconv.ParseFloat(confStr, 64)
 	}
-	if entities, ok := r.Metadata["entities"]; ok && entities != "" {
-		mem.Entities = strings.Split(entities, ",")
+	mem.Entities = splitList(r.Metadata["entities"])
+	for k, v := range r.Metadata {
+		if !reservedMetadata[k] {
+			mem.Metadata[strings.TrimPrefix(k, userMetadataPrefix)] = v
+		}
 	}
 
 	return mem
@@ -668,7 +630,11 @@ func (s *System) Reflect(ctx context.Context, req *ContextRequest) (*ContextResp
 	tokenCount := len(context) / 4
 	if req.TokenBudget > 0 && tokenCount > req.TokenBudget {
 		// Truncate context to fit budget
-		context = context[:req.TokenBudget*4]
+		limit := req.TokenBudget * 4
+		for limit > 0 && !utf8.RuneStart(context[limit]) {
+			limit--
+		}
+		context = context[:limit]
 		tokenCount = req.TokenBudget
 	}
 
@@ -750,6 +716,9 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		return fmt.Errorf("bank %s already exists", bank.ID)
 	}
 
+	if bank.Disposition == nil {
+		bank.Disposition = DefaultDisposition()
+	}
 	bank.CreatedAt = time.Now().Unix()
 
 	// Persist bank to graph_nodes for cross-session persistence
@@ -773,6 +742,8 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		"created_at":  bank.CreatedAt,
 	}
 
+	s.retainMu.Lock()
+	defer s.retainMu.Unlock()
 	if err := s.graph.UpsertNode(ctx, &graph.GraphNode{
 		ID:         bank.ID,
 		Vector:     vector,
@@ -780,8 +751,7 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		NodeType:   "bank",
 		Properties: properties,
 	}); err != nil {
-		// Log but don't fail - bank is still in memory
-		fmt.Printf("[Warning] Failed to persist bank to graph: %v\n", err)
+		return fmt.Errorf("persist bank: %w", err)
 	}
 
 	s.banks[bank.ID] = bank
@@ -803,12 +773,7 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 	ctx := context.Background()
 	node, err := s.graph.GetNode(ctx, bankID)
 	if err == nil && node.NodeType == "bank" {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
+		bank := s.nodeToBank(node)
 
 		s.mu.Lock()
 		s.banks[bankID] = bank
@@ -841,12 +806,13 @@ func (s *System) DeleteBank(bankID string) error {
 		return fmt.Errorf("bank %s not found", bankID)
 	}
 
-	delete(s.banks, bankID)
-
-	// Also delete from graph database for persistence
+	// Delete from graph database for persistence
 	ctx := context.Background()
-	_ = s.graph.DeleteNode(ctx, bankID)
+	if err := s.graph.DeleteNode(ctx, bankID); err != nil && !strings.HasPrefix(err.Error(), "node not found") {
+		return fmt.Errorf("delete bank: %w", err)
+	}
 
+	delete(s.banks, bankID)
 	return nil
 }
 
@@ -915,14 +881,22 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 
 	// Group memories by entities to find patterns
 	byEntity := make(map[string][]*Memory)
+	var entities []string
 	for _, m := range memories {
 		for _, e := range m.Entities {
-			byEntity[e] = append(byEntity[e], m)
+			known := byEntity[e]
+			if len(known) == 0 {
+				entities = append(entities, e)
+			} else if known[len(known)-1] == m {
+				continue // Listed twice
+			}
+			byEntity[e] = append(known, m)
 		}
 	}
 
 	// Detect patterns for entities with multiple memories
-	for entity, entityMemories := range byEntity {
+	for _, entity := range entities {
+		entityMemories := byEntity[entity]
 		if len(entityMemories) >= 2 {
 			// Check for pattern: repeated interactions or behaviors
 			if s.isPreferencePattern(entityMemories) {
@@ -930,6 +904,7 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 					ID:              uuid.New().String(),
 					BankID:          req.BankID,
 					Content:         fmt.Sprintf("%s shows consistent patterns in behavior", entity),
+					Vector:          meanVector(entityMemories),
 					SourceMemoryIDs: memoryIDs(entityMemories),
 					Confidence:      s.calculateConfidence(entityMemories, bank),
 					ObservationType: PreferenceObservation,
@@ -945,6 +920,7 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 					ID:              uuid.New().String(),
 					BankID:          req.BankID,
 					Content:         fmt.Sprintf("%s's actions show cause-effect patterns", entity),
+					Vector:          meanVector(entityMemories),
 					SourceMemoryIDs: memoryIDs(entityMemories),
 					Confidence:      s.calculateConfidence(entityMemories, bank),
 					ObservationType: CausalObservation,
@@ -964,7 +940,36 @@ func (s *System) detectPatterns(memories []*Memory, bank *Bank, req *ReflectRequ
 		}
 	}
 
-	return observations
+	if len(req.ObservationTypes) == 0 {
+		return observations
+	}
+	var requested []*Observation
+	for _, obs := range observations {
+		for _, t := range req.ObservationTypes {
+			if obs.ObservationType == t {
+				requested = append(requested, obs)
+				break
+			}
+		}
+	}
+	return requested
+}
+
+// meanVector returns the mean of the vectors of memories, which places an observation
+// among the memories it was derived from.
+func meanVector(memories []*Memory) []float32 {
+	var mean []float32
+	for _, m := range memories {
+		if mean == nil {
+			mean = make([]float32, len(m.Vector))
+		}
+		for i := range mean {
+			if i < len(m.Vector) {
+				mean[i] += m.Vector[i] / float32(len(memories))
+			}
+		}
+	}
+	return mean
 }
 
 // isPreferencePattern checks if memories indicate a preference pattern.
@@ -1012,7 +1017,7 @@ func (s *System) generalizeFromMemories(memories []*Memory, bank *Bank, req *Ref
 	var topTheme string
 	var maxCount int
 	for theme, count := range themes {
-		if count > maxCount && count >= 2 {
+		if count >= 2 && (count > maxCount || count == maxCount && theme < topTheme) {
 			maxCount = count
 			topTheme = theme
 		}
@@ -1026,6 +1031,7 @@ func (s *System) generalizeFromMemories(memories []*Memory, bank *Bank, req *Ref
 		ID:              uuid.New().String(),
 		BankID:          req.BankID,
 		Content:         fmt.Sprintf("General pattern: interactions involving %s show consistency", topTheme),
+		Vector:          meanVector(memories),
 		SourceMemoryIDs: memoryIDs(memories),
 		Confidence:      s.calculateConfidence(memories, bank),
 		ObservationType: GeneralizationObservation,
@@ -1088,7 +1094,7 @@ func (s *System) RetainObservation(ctx context.Context, obs *Observation) error
 
 	// Store source memory IDs in metadata
 	metadata := make(map[string]any)
-	metadata["source_memory_ids"] = strings.Join(obs.SourceMemoryIDs, ",")
+	metadata["source_memory_ids"] = joinList(obs.SourceMemoryIDs)
 	metadata["observation_type"] = string(obs.ObservationType)
 	metadata["reasoning"] = obs.Reasoning
 
@@ -1166,18 +1172,7 @@ func (s *System) AddObservation(ctx context.Context, obs *Observation) error {
 
 // GetObservations retrieves observations for a bank.
 func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observation, error) {
-	opts := core.SearchOptions{
-		Collection: s.getCollection(),
-		TopK:       100,
-		Filter: map[string]string{
-			"bank_id":     bankID,
-			"memory_type": string(ObservationMemory),
-		},
-	}
-
-	// Use a dummy vector for search
-	dummyVec := make([]float32, 1)
-	results, err := s.store.Search(ctx, dummyVec, opts)
+	results, err := s.scanBank(ctx, bankID, nil)
 	if err != nil {
 		return nil, fmt.Errorf("search observations: %w", err)
 	}
@@ -1197,7 +1192,7 @@ func (s *System) GetObservations(ctx context.Context, bankID string) ([]*Observa
 
 			// Extract metadata
 			if sourceIDs, ok := mem.Metadata["source_memory_ids"].(string); ok {
-				obs.SourceMemoryIDs = strings.Split(sourceIDs, ",")
+				obs.SourceMemoryIDs = splitList(sourceIDs)
 			}
 			if obsType, ok := mem.Metadata["observation_type"].(string); ok {
 				obs.ObservationType = ObservationType(obsType)
@@ -1221,18 +1216,11 @@ func (s *System) loadPersistedBanks(ctx context.Context) error {
 
 	nodes, err := s.graph.GetAllNodes(ctx, filter)
 	if err != nil {
-		return nil // Don't fail on load error
+		return err
 	}
 
 	for _, node := range nodes {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
-
-		s.banks[bank.ID] = bank
+		s.banks[node.ID] = s.nodeToBank(node)
 	}
 
 	return nil
@@ -1244,10 +1232,28 @@ func (s *System) nodeToBank(node *graph.GraphNode) *Bank {
 		return nil
 	}
 
-	return &Bank{
-		ID:          node.ID,
-		Name:        node.Content,
-		Description: node.Content,
-		CreatedAt:   node.CreatedAt.Unix(),
+	bank := NewBank(node.ID, node.Content)
+	bank.Description = node.Content
+	bank.CreatedAt = node.CreatedAt.Unix()
+
+	if description, ok := node.Properties["description"].(string); ok {
+		bank.Description = description
+	}
+	if background, ok := node.Properties["background"].(string); ok {
+		bank.Background = background
+	}
+	// Numbers come back from JSON as float64
+	if skepticism, ok := node.Properties["skepticism"].(float64); ok {
+		bank.Skepticism = int(skepticism)
+	}
+	if literalism, ok := node.Properties["literalism"].(float64); ok {
+		bank.Literalism = int(literalism)
+	}
+	if empathy, ok := node.Properties["empathy"].(float64); ok {
+		bank.Empathy = int(empathy)
+	}
+	if createdAt, ok := node.Properties["created_at"].(float64); ok {
+		bank.CreatedAt = int64(createdAt)
 	}
+	return bank
 }
diff --git a/pkg/hindsight/hooks.go b/pkg/hindsight/hooks.go
index 129b9b0..ef35863 100644
--- a/pkg/hindsight/hooks.go
+++ b/pkg/hindsight/hooks.go
@@ -277,6 +277,9 @@ func (s *System) RetainFromText(ctx context.Context, bankID string, messages []*
 			result.Errors = append(result.Errors, fmt.Errorf("fact[%d] %q: empty Vector, skipped", i, f.ID))
 			continue
 		}
+		if f.Type == "" {
+			f.Type = WorldMemory
+		}
 		if err := s.Retain(ctx, &Memory{
 			ID:         f.ID,
 			BankID:     bankID,
-- 
2.43.0


From e35e57139a46f4222d676e26d75314f78aee8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:03 +0000
Subject: [PATCH 26/32] fix: tool calls report missing parameters, unknown
 relation end points and honest schemas

Call accepted calls without parameters that the definition requires; schemas declared
any value for maps that only take strings; upsert_relations acknowledged edges that were
never written; expand_graph and get_nodes failed on a database without graph tables;
huge result counts overflowed or panicked.
---
 pkg/cortexdb/graphrag.go                  |  9 ++++
 pkg/cortexdb/graphrag_tools.go            | 59 +++++++++++++++++++++--
 pkg/cortexdb/knowledge_memory_tooldefs.go |  8 +--
 pkg/cortexdb/memory_api.go                |  2 +-
 4 files changed, 70 insertions(+), 8 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index c6574b5..12b1c85 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -16,6 +16,9 @@ import (
 
 const defaultGraphRAGCollection = "graphrag_chunks"
 
+// maxGraphRAGResults bounds requested result counts so that sums and multiples of them cannot overflow.
+const maxGraphRAGResults = 1 << 27
+
 const (
 	// RetrievalModeAuto enables lightweight heuristics to decide whether graph expansion is worth the cost.
 	RetrievalModeAuto = "auto"
@@ -688,9 +691,15 @@ func applyGraphRAGQueryDefaults(opts *GraphRAGQueryOptions) {
 	if opts.TopK <= 0 {
 		opts.TopK = 4
 	}
+	if opts.TopK > maxGraphRAGResults {
+		opts.TopK = maxGraphRAGResults
+	}
 	if opts.MaxHops <= 0 {
 		opts.MaxHops = 2
 	}
+	if opts.MaxRelatedChunks > maxGraphRAGResults {
+		opts.MaxRelatedChunks = maxGraphRAGResults
+	}
 	if opts.MaxRelatedChunks < 0 {
 		opts.MaxRelatedChunks = 0
 	}
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 4d91d48..23cd36c 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -224,7 +224,7 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 					"collection":    toolStringSchema("Optional chunk collection name."),
 					"chunk_size":    toolIntegerSchema("Optional chunk size in words."),
 					"chunk_overlap": toolIntegerSchema("Optional chunk overlap in words."),
-					"metadata":      toolMapSchema("Optional document metadata."),
+					"metadata":      toolStringMapSchema("Optional document metadata."),
 				},
 			),
 		},
@@ -245,7 +245,7 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 								"type":        toolStringSchema("Optional entity type."),
 								"description": toolStringSchema("Optional entity description."),
 								"chunk_ids":   toolStringArraySchema("Chunk IDs that mention this entity."),
-								"metadata":    toolMapSchema("Optional metadata."),
+								"metadata":    toolStringMapSchema("Optional metadata."),
 							},
 						),
 					},
@@ -269,7 +269,7 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 								"type":      toolStringSchema("Optional relation type."),
 								"weight":    toolNumberSchema("Optional edge weight."),
 								"chunk_ids": toolStringArraySchema("Optional supporting chunk IDs."),
-								"metadata":  toolMapSchema("Optional metadata."),
+								"metadata":  toolStringMapSchema("Optional metadata."),
 							},
 						),
 					},
@@ -385,6 +385,10 @@ func (t *GraphRAGToolbox) Definitions() []ToolDefinition {
 
 // Call dispatches a tool request from JSON input to a typed implementation.
 func (t *GraphRAGToolbox) Call(ctx context.Context, name string, input json.RawMessage) (any, error) {
+	if err := t.checkRequiredParameters(name, input); err != nil {
+		return nil, err
+	}
+
 	switch name {
 	case "ingest_document":
 		var req ToolIngestDocumentRequest
@@ -511,6 +515,26 @@ func (t *GraphRAGToolbox) Call(ctx context.Context, name string, input json.RawM
 	}
 }
 
+// checkRequiredParameters reports parameters that the tool's definition requires and the input lacks.
+func (t *GraphRAGToolbox) checkRequiredParameters(name string, input json.RawMessage) error {
+	for _, definition := range t.Definitions() {
+		if definition.Name != name {
+			continue
+		}
+		var params map[string]json.RawMessage
+		if err := json.Unmarshal(input, &params); err != nil {
+			return fmt.Errorf("decode %s: %w", name, err)
+		}
+		required, _ := definition.InputSchema["required"].([]string)
+		for _, param := range required {
+			if _, ok := params[param]; !ok {
+				return fmt.Errorf("%s is required", param)
+			}
+		}
+	}
+	return nil
+}
+
 // IngestDocument stores lexical chunks and graph nodes without requiring an embedder.
 func (t *GraphRAGToolbox) IngestDocument(ctx context.Context, req ToolIngestDocumentRequest) (*ToolIngestDocumentResponse, error) {
 	if req.DocumentID == "" {
@@ -780,6 +804,16 @@ func (t *GraphRAGToolbox) UpsertRelations(ctx context.Context, req ToolUpsertRel
 		})
 	}
 
+	// The batch skips edges without end points: report them instead of acknowledging them
+	endpoints := make(map[string]struct{})
+	for _, edge := range edges {
+		endpoints[edge.FromNodeID] = struct{}{}
+		endpoints[edge.ToNodeID] = struct{}{}
+	}
+	if err := t.db.requireGraphNodes(ctx, endpoints); err != nil {
+		return nil, err
+	}
+
 	if len(edges) > 0 {
 		if _, err := t.db.graph.UpsertEdgesBatch(ctx, edges); err != nil {
 			return nil, fmt.Errorf("upsert relation edges: %w", err)
@@ -882,6 +916,9 @@ func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSe
 	if req.TopK <= 0 {
 		req.TopK = 10
 	}
+	if req.TopK > maxGraphRAGResults {
+		req.TopK = maxGraphRAGResults
+	}
 	if req.MaxHops <= 0 {
 		req.MaxHops = 1
 	}
@@ -935,6 +972,10 @@ func (t *GraphRAGToolbox) ExpandGraph(ctx context.Context, req ToolExpandGraphRe
 		req.MaxHops = 1
 	}
 
+	if err := t.db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
+
 	nodeSet := make(map[string]struct{}, len(req.NodeIDs))
 	for _, nodeID := range req.NodeIDs {
 		if nodeID == "" {
@@ -966,6 +1007,9 @@ func (t *GraphRAGToolbox) ExpandGraph(ctx context.Context, req ToolExpandGraphRe
 
 // GetNodes fetches graph nodes by ID.
 func (t *GraphRAGToolbox) GetNodes(ctx context.Context, req ToolGetNodesRequest) (*ToolGetNodesResponse, error) {
+	if err := t.db.graph.InitGraphSchema(ctx); err != nil {
+		return nil, fmt.Errorf("init graph schema: %w", err)
+	}
 	nodes, err := t.db.graph.GetNodesBatch(ctx, req.NodeIDs)
 	if err != nil {
 		return nil, err
@@ -1528,6 +1572,15 @@ func toolMapSchema(description string) map[string]any {
 	}
 }
 
+// toolStringMapSchema is for maps that only hold string values.
+func toolStringMapSchema(description string) map[string]any {
+	return map[string]any{
+		"type":                 "object",
+		"description":          description,
+		"additionalProperties": map[string]any{"type": "string"},
+	}
+}
+
 func toolStringArraySchema(description string) map[string]any {
 	return map[string]any{
 		"type":        "array",
diff --git a/pkg/cortexdb/knowledge_memory_tooldefs.go b/pkg/cortexdb/knowledge_memory_tooldefs.go
index 777b730..acba8ff 100644
--- a/pkg/cortexdb/knowledge_memory_tooldefs.go
+++ b/pkg/cortexdb/knowledge_memory_tooldefs.go
@@ -16,7 +16,7 @@ func knowledgeMemoryToolDefinitions() []ToolDefinition {
 					"collection":    toolStringSchema("Optional chunk collection."),
 					"chunk_size":    toolIntegerSchema("Optional chunk size in words."),
 					"chunk_overlap": toolIntegerSchema("Optional chunk overlap in words."),
-					"metadata":      toolMapSchema("Optional metadata."),
+					"metadata":      toolStringMapSchema("Optional metadata."),
 					"entities":      toolEntityArraySchema(),
 					"relations":     toolRelationArraySchema(),
 				},
@@ -36,7 +36,7 @@ func knowledgeMemoryToolDefinitions() []ToolDefinition {
 					"collection":    toolStringSchema("Optional new chunk collection."),
 					"chunk_size":    toolIntegerSchema("Optional chunk size for refreshed content."),
 					"chunk_overlap": toolIntegerSchema("Optional chunk overlap for refreshed content."),
-					"metadata":      toolMapSchema("Optional replacement metadata."),
+					"metadata":      toolStringMapSchema("Optional replacement metadata."),
 					"entities":      toolEntityArraySchema(),
 					"relations":     toolRelationArraySchema(),
 				},
@@ -170,7 +170,7 @@ func toolEntityArraySchema() map[string]any {
 				"type":        toolStringSchema("Optional entity type."),
 				"description": toolStringSchema("Optional entity description."),
 				"chunk_ids":   toolStringArraySchema("Chunk IDs that mention this entity."),
-				"metadata":    toolMapSchema("Optional metadata."),
+				"metadata":    toolStringMapSchema("Optional metadata."),
 			},
 		),
 	}
@@ -187,7 +187,7 @@ func toolRelationArraySchema() map[string]any {
 				"type":      toolStringSchema("Optional relation type."),
 				"weight":    toolNumberSchema("Optional edge weight."),
 				"chunk_ids": toolStringArraySchema("Optional supporting chunk IDs."),
-				"metadata":  toolMapSchema("Optional metadata."),
+				"metadata":  toolStringMapSchema("Optional metadata."),
 			},
 		),
 	}
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 8d9800b..71d45c5 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -206,7 +206,7 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 				if session, err := db.store.GetSession(ctx, bucketID); err == nil {
 					userID = session.UserID
 				}
-				records := make([]MemoryRecord, 0, req.TopK)
+				records := make([]MemoryRecord, 0, min(req.TopK, len(messages)))
 				for _, message := range messages {
 					record := memoryRecordFromMessage(bucketID, userID, message)
 					if memoryExpired(record) {
-- 
2.43.0


From a6f864cb379151eb1142317522b21c51538c4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:45 +0000
Subject: [PATCH 27/32] fix: large result limits no longer overflow the
 candidate pools

---
 pkg/core/advanced_search.go | 4 ++--
 pkg/core/reranker.go        | 3 ++-
 pkg/graph/graph_hnsw.go     | 7 ++++---
 pkg/graph/graph_hybrid.go   | 2 +-
 pkg/index/hnsw.go           | 2 +-
 pkg/index/multi_index.go    | 9 +++++----
 6 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index bc4fd35..de3d652 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -86,7 +86,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	var ftsResults []ScoredEmbedding
 	if textQuery != "" {
 		// Fetch more than topK to have a better pool for fusion
-		limit := opts.TopK * 3
+		limit := min(opts.TopK, math.MaxInt/3) * 3
 		if limit <= 0 {
 			limit = 30
 		}
@@ -345,7 +345,7 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 
 	// Get initial candidates (more than needed for diversity)
 	searchOpts := opts.SearchOptions
-	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
+	searchOpts.TopK = min(opts.TopK, math.MaxInt/3) * 3 // Get 3x candidates for diversity selection
 	
 	candidates, err := s.searchLocked(ctx, query, searchOpts)
 	if err != nil {
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index f01aba5..084988c 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 )
@@ -60,7 +61,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 
 	// Perform initial search with more candidates than needed
 	candidateMultiplier := 5
-	initialTopK := opts.TopK * candidateMultiplier
+	initialTopK := min(opts.TopK, math.MaxInt/candidateMultiplier) * candidateMultiplier
 	if initialTopK < 50 {
 		initialTopK = 50
 	}
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 902194e..c66d98b 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -3,6 +3,7 @@ package graph
 import (
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"sync"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -59,7 +60,7 @@ func (h *SimpleHNSW) Search(query []float32, k int) []searchCandidate {
 	h.mutex.RLock()
 	defer h.mutex.RUnlock()
 
-	ef := k * 2
+	ef := min(k, math.MaxInt/2) * 2
 	if ef < 50 {
 		ef = 50
 	}
@@ -136,7 +137,7 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		return []*HybridResult{}, nil
 	}
 
-	candidates := g.hnswIndex.index.Search(query, k*2)
+	candidates := g.hnswIndex.index.Search(query, min(k, math.MaxInt/2)*2)
 	results := make([]*HybridResult, 0, len(candidates))
 
 	nodes, err := g.candidateNodes(ctx, candidates)
@@ -199,7 +200,7 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 	}
 
 	// Get HNSW candidates
-	candidates := g.hnswIndex.index.Search(query.Vector, query.TopK*3)
+	candidates := g.hnswIndex.index.Search(query.Vector, min(query.TopK, math.MaxInt/3)*3)
 	results := make([]*HybridResult, 0, len(candidates))
 
 	nodes, err := g.candidateNodes(ctx, candidates)
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index d04f248..0a91622 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -309,7 +309,7 @@ type graphDistance struct {
 
 func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) ([]*GraphNode, error) {
 	if g.hnswIndex != nil && query.TopK > 0 {
-		candidateLimit := query.TopK * 5
+		candidateLimit := min(query.TopK, math.MaxInt/5) * 5
 		if candidateLimit < 50 {
 			candidateLimit = 50
 		}
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 224b515..dec8d25 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -765,7 +765,7 @@ func (h *HNSW) SearchVectorIndex(query []float32, k int) ([]string, []float32) {
 	// Use a reasonable default ef value
 	ef := 50
 	if ef < k {
-		ef = k * 2
+		ef = min(k, math.MaxInt/2) * 2
 	}
 	return h.Search(query, k, ef)
 }
diff --git a/pkg/index/multi_index.go b/pkg/index/multi_index.go
index 221d85f..e0d6817 100644
--- a/pkg/index/multi_index.go
+++ b/pkg/index/multi_index.go
@@ -3,6 +3,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"sync"
 )
@@ -206,7 +207,7 @@ func (m *MultiIndex) searchWithRerank(query []float32, k int) ([]string, []float
 	}
 	
 	// Get candidates from primary index
-	candidateK := k * 2
+	candidateK := min(k, math.MaxInt/2) * 2
 	if m.config.RerankTopK > 0 {
 		candidateK = m.config.RerankTopK
 	}
@@ -288,7 +289,7 @@ func (m *MultiIndex) searchWithVoting(query []float32, k int) ([]string, []float
 	
 	// Collect votes from all indices
 	for _, index := range m.indices {
-		ids, dists := index.Search(query, k*2)
+		ids, dists := index.Search(query, min(k, math.MaxInt/2)*2)
 		for rank, id := range ids {
 			if v, exists := voteMap[id]; exists {
 				v.count++
@@ -429,7 +430,7 @@ func (h *HybridIndex) Search(query []float32, k int) ([]string, []float32) {
 	}
 	
 	// Get candidates from HNSW (fast)
-	hnswIDs, _ := h.hnsw.Search(query, k*2, 50)
+	hnswIDs, _ := h.hnsw.Search(query, min(k, math.MaxInt/2)*2, 50)
 	
 	// Get candidates from IVF (accurate)
 	ivfIDs, ivfDists, _ := h.ivf.Search(query, k)
@@ -541,7 +542,7 @@ func (h *HNSWAdapter) Insert(id string, vector []float32) error {
 func (h *HNSWAdapter) Search(query []float32, k int) ([]string, []float32) {
 	ef := h.defaultEf
 	if ef < k {
-		ef = k * 2
+		ef = min(k, math.MaxInt/2) * 2
 	}
 	return h.HNSW.Search(query, k, ef)
 }
-- 
2.43.0


From 266267b4961183eaf630401538a20d84495107bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 28/32] fix: a short answer of the embedder is an error and
 Info names the similarity function in use

---
 pkg/cortexdb/cortexdb.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index 1c4d761..1735037 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"reflect"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
@@ -148,16 +149,17 @@ func (db *DB) Info() DBInfo {
 		info.IndexType = "Unknown"
 	}
 
-	// Map SimilarityFn to string
-	// Predefined names from the core package
-	info.SimilarityFn = "custom"
-	// Heuristic comparison - we check for the most common ones
-	// Function pointers can be compared in Go if we assign them to variables
-	// However, we are getting it from the config, so we can't directly check against the var address easily across packages
-	// but we'll try a common-sense approach or just report based on the fact we know what we used in DefaultConfig.
-	
-	// Since we can't easily compare functions in Go, we'll keep it simple.
-	info.SimilarityFn = "cosine" 
+	// Map SimilarityFn to string. Functions are only comparable by their code pointers.
+	switch reflect.ValueOf(config.SimilarityFn).Pointer() {
+	case reflect.ValueOf(core.CosineSimilarity).Pointer():
+		info.SimilarityFn = "cosine"
+	case reflect.ValueOf(core.DotProduct).Pointer():
+		info.SimilarityFn = "dot_product"
+	case reflect.ValueOf(core.EuclideanDist).Pointer():
+		info.SimilarityFn = "euclidean"
+	default:
+		info.SimilarityFn = "custom"
+	}
 	
 	if db.embedder != nil {
 		info.Embedder = fmt.Sprintf("%T", db.embedder)
@@ -330,6 +332,9 @@ func (db *DB) InsertTextBatch(ctx context.Context, texts map[string]string, meta
 	if err != nil {
 		return fmt.Errorf("%w: %v", ErrEmbeddingFailed, err)
 	}
+	if len(vectors) != len(textList) {
+		return fmt.Errorf("%w: %d vectors for %d texts", ErrEmbeddingFailed, len(vectors), len(textList))
+	}
 
 	embeddings := make([]*core.Embedding, len(ids))
 	for i, id := range ids {
-- 
2.43.0


From f943427d873e7de8649b34bb14fec519be91a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:49 +0000
Subject: [PATCH 29/32] fix: a stored vector without a finite distance does not
 end an HNSW search early

---
 pkg/index/hnsw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index dec8d25..40d66a8 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -386,7 +386,7 @@ func (h *HNSW) searchLayer(query []float32, entryPoints []string, ef int, layer
 	}
 	
 	for candidates.Len() > 0 {
-		if dynamicList.Len() > 0 {
+		if dynamicList.Len() >= ef {
 			lowerBound := (*candidates)[0].dist
 			if lowerBound > -(*dynamicList)[0].dist {
 				break
-- 
2.43.0


From c3c8e2e74b0f3a39d978cf5fbce918bd45f0bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:00 +0000
Subject: [PATCH 30/32] fix: collection statistics report when the last record
 was written

---
 pkg/core/collections.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 90865e1..752b431 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -287,7 +287,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	// Get last inserted timestamp if any embeddings exist
 	if stats.Count > 0 {
 		err = s.db.QueryRowContext(ctx, `
-			SELECT MAX(created_at) FROM embeddings WHERE collection_id = ?
+			SELECT created_at FROM embeddings WHERE collection_id = ? ORDER BY created_at DESC LIMIT 1
 		`, collection.ID).Scan(&stats.LastInsertedAt)
 		if err != nil {
 			// Don't fail for this
-- 
2.43.0


From fbc42e6d4a70267eef6f516c23824d64c4ee93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:04 +0000
Subject: [PATCH 31/32] fix: compare small integer filter values as numbers

---
 pkg/core/advanced_filter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 8649440..b9743c5 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -822,10 +822,18 @@ func toFloat64(val interface{}) (float64, bool) {
 		return float64(v), true
 	case int32:
 		return float64(v), true
+	case int16:
+		return float64(v), true
+	case int8:
+		return float64(v), true
 	case uint:
 		return float64(v), true
 	case uint32:
 		return float64(v), true
+	case uint16:
+		return float64(v), true
+	case uint8:
+		return float64(v), true
 	case uint64:
 		return float64(v), true
 	case string:
-- 
2.43.0


From e0527eff025187477d101748cba476a0d5890022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 32/32] fix: let an entity mention another of the same call

---
 pkg/cortexdb/graphrag_tools.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 23cd36c..bfa6d60 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -733,6 +733,9 @@ func (t *GraphRAGToolbox) UpsertEntities(ctx context.Context, req ToolUpsertEnti
 	for _, edge := range edges {
 		mentioned[edge.FromNodeID] = struct{}{}
 	}
+	for _, entityID := range entityIDs {
+		delete(mentioned, entityID) // written along with it
+	}
 	if err := t.db.requireGraphNodes(ctx, mentioned); err != nil {
 		return nil, err
 	}
-- 
2.43.0

