From 34b333292accf7c714189741e05d78a94b133700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 01/22] fix: parallel operations wait for all functions even
 when the left one panics

A panic in the part that runs on the calling goroutine used to unwind past
wg.Wait, so that the operation panicked while other functions were running.
---
 parallel/parallel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 7613b17..0caa7d3 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -30,6 +30,7 @@ func Reduce[T any](
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -86,6 +87,7 @@ func ReduceSum[T Addable](functions ...func() T) (result T) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -142,6 +144,7 @@ func ReduceProduct[T Multipliable](functions ...func() T) T {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -188,6 +191,7 @@ func Do(thunks ...func()) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(thunks) {
 	case 2:
 		go func() {
@@ -234,6 +238,7 @@ func And(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -281,6 +286,7 @@ func Or(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -344,6 +350,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -400,6 +407,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -456,6 +464,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -517,6 +526,7 @@ func RangeReduce[T any](
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -574,6 +584,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -634,6 +645,7 @@ func RangeReduceProduct[T Multipliable](
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
-- 
2.43.0


From b8f96a06da669550ad02fe84fa8199cb61460eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 02/22] fix: range operations no longer overflow near the ends
 of the integers

The midpoint computation overflowed for ranges that end near math.MaxInt
(batches outside the range were processed), and ranges with more than
math.MaxInt elements were rejected as invalid.
---
 internal/internal.go       | 10 ++++-----
 parallel/parallel.go       | 42 ++++++++++++++++++++++----------------
 speculative/speculative.go | 28 ++++++++++++++-----------
 3 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index b93740d..4161522 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -9,8 +9,8 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.NumCPU() into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
-	switch size := high - low; {
-	case size > 0:
+	switch size := uint(high) - uint(low); {
+	case high > low:
 		switch {
 		case n == 0:
 			batches = 2 * runtime.NumCPU()
@@ -19,10 +19,10 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 		default:
 			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
-		if batches > size {
-			batches = size
+		if uint(batches) > size {
+			batches = int(size)
 		}
-	case size == 0:
+	case high == low:
 		batches = 1
 	default:
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
diff --git a/parallel/parallel.go b/parallel/parallel.go
index 0caa7d3..ed0be45 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -340,13 +340,14 @@ func Range(low, high, n int, f func(low, high int)) {
 		case n == 1:
 			f(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				f(low, high)
 				return
 			}
+			mid := low + int(offset)
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
@@ -397,12 +398,13 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 		case n == 1:
 			return f(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return f(low, high)
 			}
+			mid := low + int(offset)
 			var b0, b1 bool
 			var p interface{}
 			var wg sync.WaitGroup
@@ -454,12 +456,13 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 		case n == 1:
 			return f(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return f(low, high)
 			}
+			mid := low + int(offset)
 			var b0, b1 bool
 			var p interface{}
 			var wg sync.WaitGroup
@@ -516,12 +519,13 @@ func RangeReduce[T any](
 		case n == 1:
 			return reduce(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return reduce(low, high)
 			}
+			mid := low + int(offset)
 			var left, right T
 			var p interface{}
 			var wg sync.WaitGroup
@@ -574,12 +578,13 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 		case n == 1:
 			return reduce(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return reduce(low, high)
 			}
+			mid := low + int(offset)
 			var left, right T
 			var p interface{}
 			var wg sync.WaitGroup
@@ -635,12 +640,13 @@ func RangeReduceProduct[T Multipliable](
 		case n == 1:
 			return reduce(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return reduce(low, high)
 			}
+			mid := low + int(offset)
 			var left, right T
 			var p interface{}
 			var wg sync.WaitGroup
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 69d4e34..4b3a177 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -248,12 +248,13 @@ func Range(low, high, n int, f func(low, high int) bool) bool {
 		case n == 1:
 			return f(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return f(low, high)
 			}
+			mid := low + int(offset)
 			var b1 bool
 			var p interface{}
 			var wg sync.WaitGroup
@@ -307,12 +308,13 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 		case n == 1:
 			return f(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return f(low, high)
 			}
+			mid := low + int(offset)
 			var b1 bool
 			var p interface{}
 			var wg sync.WaitGroup
@@ -366,12 +368,13 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 		case n == 1:
 			return f(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return f(low, high)
 			}
+			mid := low + int(offset)
 			var b1 bool
 			var p interface{}
 			var wg sync.WaitGroup
@@ -434,12 +437,13 @@ func RangeReduce[T any](
 		case n == 1:
 			return reduce(low, high)
 		case n > 1:
-			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
-			mid := low + batchSize*half
-			if mid >= high {
+			size := uint(high) - uint(low)
+			offset := ((size-1)/uint(n) + 1) * uint(half)
+			if offset >= size {
 				return reduce(low, high)
 			}
+			mid := low + int(offset)
 			var left, right T
 			var b0, b1 bool
 			var p interface{}
-- 
2.43.0


From dfc2f814e352988ca28fb4b327aa56b181f968e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 03/22] fix: a negative number of batches panics for empty
 ranges too

---
 internal/internal.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 4161522..4cfa96c 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -9,15 +9,14 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.NumCPU() into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
+	if n < 0 {
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
+	}
 	switch size := uint(high) - uint(low); {
 	case high > low:
-		switch {
-		case n == 0:
+		batches = n
+		if n == 0 {
 			batches = 2 * runtime.NumCPU()
-		case n > 0:
-			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if uint(batches) > size {
 			batches = int(size)
-- 
2.43.0


From 89e47ede89f4a890db9115448524c2e0acf69ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 04/22] fix: sortedness tests no longer read the collection
 after they returned

The speculative And left goroutines behind that kept calling Less, which
raced with the caller (and with Sort itself, which tests first and then
starts to move elements).
---
 psort/sort.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 99d21de..fff8c97 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/speculative"
+	"github.com/intel/forGoParallel/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -44,13 +43,14 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(j, j-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 2ad5f048ecd977419b7141ee3ade517bb6eaf146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 05/22] fix: Float64Slice orders NaN values before other values

SequentialSort uses sort.Float64Slice, which orders NaNs first, so the
merging and partitioning code must use the same order.
---
 psort/sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psort/sort.go b/psort/sort.go
index fff8c97..b0dda04 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -2,6 +2,7 @@
 package psort
 
 import (
+	"math"
 	"sort"
 	"sync/atomic"
 
@@ -114,7 +115,7 @@ func (s Float64Slice) Len() int {
 }
 
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (math.IsNaN(s[i]) && !math.IsNaN(s[j]))
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 2d5fe2ac1f7af95a34e2a3e45e94a6146711a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 06/22] fix: gsync.Map supports nil values and keys of
 interface types

---
 gsync/sync.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gsync/sync.go b/gsync/sync.go
index 34c6ad3..20410a1 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -23,7 +23,8 @@ func (m *Map[K, V]) Delete(key K) {
 func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 	v, ok := (*sync.Map)(m).Load(key)
 	if ok {
-		return v.(V), true
+		value, _ = v.(V) // v is nil if V is an interface type and the value is nil
+		return value, true
 	}
 	return
 }
@@ -31,19 +32,23 @@ func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadAndDelete(key)
 	if loaded {
-		return v.(V), true
+		value, _ = v.(V) // v is nil if V is an interface type and the value is nil
+		return value, true
 	}
 	return
 }
 
 func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)
-	return v.(V), loaded
+	actual, _ = v.(V)
+	return actual, loaded
 }
 
 func (m *Map[K, V]) Range(f func(K, V) bool) {
 	(*sync.Map)(m).Range(func(k any, v any) bool {
-		return f(k.(K), v.(V))
+		key, _ := k.(K)
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
@@ -54,7 +59,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 func (m *Map[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	prev, loaded := (*sync.Map)(m).Swap(key, value)
 	if loaded {
-		previous = prev.(V)
+		previous, _ = prev.(V)
 	}
 	return
 }
-- 
2.43.0


From e75ffdeef30662717f3c00c669469c10c49921f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 07/22] fix: gsync.Pool.Get returns nil instead of panicking
 when New is nil

---
 gsync/sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsync/sync.go b/gsync/sync.go
index 20410a1..ba851ba 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -76,6 +76,9 @@ func (p *Pool[T]) getSyncPool() *sync.Pool {
 	}
 	result := &sync.Pool{
 		New: func() any {
+			if p.New == nil {
+				return (*T)(nil)
+			}
 			return p.New()
 		},
 	}
-- 
2.43.0


From e1c0e313e9cdfec1ce039528bb4aac112fd543b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 08/22] fix: scanner sources report the number of elements they
 fetched

---
 pipeline/source.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 5ee9439..36ca0f7 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -89,12 +89,9 @@ func (src *Scanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *Scanner) Fetch(n int) (fetched int) {
 	var data []string
-	for fetched = range n {
-		if src.Scan() {
-			data = append(data, src.Text())
-		} else {
-			break
-		}
+	for fetched < n && src.Scan() {
+		data = append(data, src.Text())
+		fetched++
 	}
 	src.data = data
 	return
@@ -126,12 +123,9 @@ func (src *BytesScanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *BytesScanner) Fetch(n int) (fetched int) {
 	var data [][]byte
-	for fetched = range n {
-		if src.Scan() {
-			data = append(data, slices.Clone(src.Bytes()))
-		} else {
-			break
-		}
+	for fetched < n && src.Scan() {
+		data = append(data, slices.Clone(src.Bytes()))
+		fetched++
 	}
 	src.data = data
 	return
-- 
2.43.0


From b596516b3ade4e379e4cdd7d3ea33c0d826646e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 09/22] fix: no batch is larger than maxBatchSize

---
 pipeline/pipeline.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c1a56ce..14e6185 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -248,11 +248,10 @@ func (p *Pipeline[T]) finalizeVariableBatchSize() {
 }
 
 func (p *Pipeline[T]) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if p.batchInc >= p.maxBatchSize-batchSize {
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // Notify installs a thunk that gets invoked just before this pipeline starts running.
@@ -326,7 +325,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From ddf0bef1c487101eab086ed8146de84133d0f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 10/22] fix: nodes before a StrictOrd node are made ordered
 before they start

---
 pipeline/pipeline.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 14e6185..4915796 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -291,6 +291,21 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		p.notifiers[i] = nil
 	}
 	dataSize := p.source.Prepare(p.ctx)
+	// Nodes decide in Begin how to receive batches, so they need to know before
+	// that if they are followed by a StrictOrd node.
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if p.nodes[index].StrictOrd() {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode[T]:
+					node.kind = Ordered
+				case *lparnode[T]:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
@@ -310,19 +325,6 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if p.nodes[index].StrictOrd() {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode[T]:
-						node.kind = Ordered
-					case *lparnode[T]:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From 182e50301d0a12d77a4025ed2c5189c3f8d27350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 11/22] fix: Count does not add to the old value of its result
 variable

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index bf8b559..6c43639 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -248,6 +248,7 @@ func Count[T any](result *int) Filter[[]T] {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data []T) []T {
 				*result += len(data)
 				return data
-- 
2.43.0


From bfc8308bd46e86687654b6973f578cb75b694a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 12/22] fix: Skip reports the size of what it passes on

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 6c43639..26b048b 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -314,7 +314,7 @@ func Skip[T any](n int) Node[[]T] {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data []T) (result []T) {
-- 
2.43.0


From e7d62bfc44ba4e17248225ed922532ed333a6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 13/22] fix: nodes forward batches with the index seen by Feed,
 not by Begin

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 19 ++++++++++---------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index dd672e4..664d812 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -39,7 +39,7 @@ func (node *lparnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -68,7 +68,7 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -82,7 +82,7 @@ func (node *lparnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *lparnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -91,7 +91,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch[T]{seqNo, data}:
+				case node.channel <- dataBatch[T]{index, seqNo, data}:
 					return
 				}
 			}
@@ -106,7 +106,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 7e5d3e4..ba036cd 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch[T any] struct {
+		index int
 		seqNo int
 		data  T
 	}
@@ -45,7 +46,7 @@ func (node *seqnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *seqnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,14 +64,14 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
 		case Ordered:
 			go func() {
 				defer node.waitGroup.Done()
-				stash := make(map[int]T)
+				stash := make(map[int]dataBatch[T])
 				run := 0
 				for {
 					select {
@@ -83,9 +84,9 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						case batch.seqNo < run:
 							panic("Invalid receive order in an ordered pipeline node.")
 						case batch.seqNo > run:
-							stash[batch.seqNo] = batch.data
+							stash[batch.seqNo] = batch
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -93,12 +94,12 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 									return
 								default:
 									run++
-									data, ok := stash[run]
+									batch, ok := stash[run]
 									if !ok {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, batch.data)
 								}
 							}
 						}
@@ -117,11 +118,11 @@ func (node *seqnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *seqnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index e7d1f2c..fc99004 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -76,7 +76,7 @@ func (node *strictordnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *strictordnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -84,7 +84,7 @@ func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch[T]{seqNo, data}:
+			case node.channel <- dataBatch[T]{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From a0b8978ba7526714ea2946a6ea43f56b66f703e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 14/22] fix: the total size is unknown behind a transform

---
 pipeline/transformnode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index f2da4eb..3618bf2 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -98,6 +98,7 @@ func (node *transformNode[S, T]) TryMerge(_ Node[S]) (merged bool) {
 }
 
 func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (keep bool) {
+	*dataSize = -1 // the transform function may change the sizes of the batches
 	for index := 0; index < len(node.next.nodes); {
 		if node.next.nodes[index].Begin(node.next, index, dataSize) {
 			index++
-- 
2.43.0


From 110e2afc695e0a4f31b1cdf7cf573514c3b447e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 15/22] fix: appending to a batch of a slice source does not
 overwrite the next one

---
 pipeline/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 36ca0f7..93ad0c8 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -57,7 +57,7 @@ func (src *Slice[T]) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value[:n]
+		src.data = src.value[:n:n] // appending must not reach the next batch
 		src.value = src.value[n:]
 		src.size -= n
 	}
-- 
2.43.0


From 6d0d49f448be34074010fd7c8dccc6c1758db5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 16/22] fix: SetErr can be called before the pipeline is run

---
 pipeline/pipeline.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 4915796..760ef65 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -156,8 +156,11 @@ func (p *Pipeline[T]) SetErr(err error) bool {
 	p.mutex.Lock()
 	if p.err == nil {
 		p.err = err
+		cancel := p.cancel
 		p.mutex.Unlock()
-		p.cancel()
+		if cancel != nil { // otherwise the pipeline has not been started yet
+			cancel()
+		}
 		return true
 	}
 	p.mutex.Unlock()
@@ -282,10 +285,13 @@ func (p *Pipeline[T]) RunWithContext(ctx context.Context, cancel context.CancelF
 }
 
 func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.CancelFunc) {
+	p.mutex.Lock()
 	if p.err != nil {
+		p.mutex.Unlock()
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
+	p.mutex.Unlock()
 	for i, notifier := range p.notifiers {
 		go notifier()
 		p.notifiers[i] = nil
-- 
2.43.0


From 870acd521f8b5ef8cb42f72db4d2fcf78369e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 17/22] fix: the pipeline accesses its error under its lock

---
 pipeline/pipeline.go      | 6 +++---
 pipeline/transformnode.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 760ef65..d12a062 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -320,7 +320,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			p.nodes = slices.Delete(p.nodes, index, index+1)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -361,8 +361,8 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.SetErr(err)
 	}
 }
 
diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index 3618bf2..072cdfc 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -106,7 +106,7 @@ func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (ke
 			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
 		}
 	}
-	if node.next.err != nil {
+	if node.next.Err() != nil {
 		return
 	}
 	if len(node.next.nodes) == 0 {
-- 
2.43.0


From 2e3b2150de4a97ce4046f8f6ef20da71a5447195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 18/22] fix: cancelling does not miss nodes that are about to
 wait for their turn

---
 pipeline/lparnode.go      | 4 ++++
 pipeline/strictordnode.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 664d812..ec76817 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -52,7 +52,11 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool)
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							// The lock ensures that Feed either sees that the context
+							// is done, or is already waiting.
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index fc99004..25b11c9 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,11 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep
 			for {
 				select {
 				case <-p.ctx.Done():
+					// The lock ensures that Feed either sees that the context is
+					// done, or is already waiting.
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 6cc6f4ca48c10c4ad124f288ba9974940a655d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 19/22] fix: a cancelled pipeline stops fetching from its
 source

After Cancel, or after the context of the run was cancelled, the run loop went
on fetching from the source and dropping the batches until the end of the
source, so that a run over an endless source, for example with
Limit(n, true), never returned.
---
 pipeline/pipeline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index d12a062..1db0834 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -333,7 +333,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
@@ -347,7 +347,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			if batchSize == 0 {
 				batchSize = 1
 			}
-			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {
+			for seqNo := 0; p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo++ {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 0ebe68b77e5584762c0b6d5bb5a07adf4ae80abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 20/22] fix: deliver panics of NewTemp and Assign to the caller
 of StableSort

A panic in these methods occurred in a goroutine without recover and ended the
process. A panic elsewhere could also leave StableSort before that goroutine
was done with the collection.
---
 psort/mergesort.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psort/mergesort.go b/psort/mergesort.go
index e4d022b..2cc0901 100755
--- a/psort/mergesort.go
+++ b/psort/mergesort.go
@@ -3,6 +3,7 @@ package psort
 import (
 	"sync"
 
+	"github.com/intel/forGoParallel/internal"
 	"github.com/intel/forGoParallel/parallel"
 )
 
@@ -154,10 +155,15 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var p interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
+	defer temp.Wait()
 	go func() {
-		defer temp.Done()
+		defer func() {
+			p = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
@@ -177,6 +183,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if p != nil {
+				panic(p)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From 7263a090278b251fef7ce321e4898f4ee16799a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:37 +0000
Subject: [PATCH 21/22] fix: nodes own the list of their filters

The constructors kept the slice the filters were passed in, and appended to it
when nodes were merged. With spare capacity this overwrote the filters of other
nodes made from the same array, so that filters ran in the wrong node, twice or
not at all.
---
 pipeline/lparnode.go      | 3 ++-
 pipeline/parnode.go       | 3 ++-
 pipeline/seqnode.go       | 5 +++--
 pipeline/strictordnode.go | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index ec76817..3e05348 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -2,6 +2,7 @@ package pipeline
 
 import (
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -19,7 +20,7 @@ type lparnode[T any] struct {
 
 // LimitedPar creates a parallel node with the given filters.
 func LimitedPar[T any](filters ...Filter[T]) Node[T] {
-	return &lparnode[T]{limit: runtime.NumCPU(), filters: filters}
+	return &lparnode[T]{limit: runtime.NumCPU(), filters: slices.Clone(filters)}
 }
 
 func (node *lparnode[T]) makeOrdered() {
diff --git a/pipeline/parnode.go b/pipeline/parnode.go
index 7bc53f5..698e076 100644
--- a/pipeline/parnode.go
+++ b/pipeline/parnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -13,7 +14,7 @@ type parnode[T any] struct {
 
 // Par creates a parallel node with the given filters.
 func Par[T any](filters ...Filter[T]) Node[T] {
-	return &parnode[T]{filters: filters}
+	return &parnode[T]{filters: slices.Clone(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index ba036cd..91cfe40 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -23,12 +24,12 @@ type (
 
 // Ord creates an ordered node with the given filters.
 func Ord[T any](filters ...Filter[T]) Node[T] {
-	return &seqnode[T]{kind: Ordered, filters: filters}
+	return &seqnode[T]{kind: Ordered, filters: slices.Clone(filters)}
 }
 
 // Seq creates a sequential node with the given filters.
 func Seq[T any](filters ...Filter[T]) Node[T] {
-	return &seqnode[T]{kind: Sequential, filters: filters}
+	return &seqnode[T]{kind: Sequential, filters: slices.Clone(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 25b11c9..30e7d70 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -1,6 +1,7 @@
 package pipeline
 
 import (
+	"slices"
 	"sync"
 )
 
@@ -16,7 +17,7 @@ type strictordnode[T any] struct {
 
 // StrictOrd creates an ordered node with the given filters.
 func StrictOrd[T any](filters ...Filter[T]) Node[T] {
-	return &strictordnode[T]{filters: filters}
+	return &strictordnode[T]{filters: slices.Clone(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
-- 
2.43.0


From dd99ca8929c1efd256af1e5578e122ba4ba6dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 22/22] fix: speculative operations do not use the slice of
 functions after they have returned

Reduce, Do, And and Or may return while goroutines they have started have not
yet called, or not even fetched, their functions. If the caller used the slice
of functions again in the meantime, functions were called that the operation
had not been given, in addition to the call that they were meant for.
---
 speculative/speculative.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4b3a177..d52ea6b 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -5,6 +5,7 @@ package speculative
 
 import (
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/intel/forGoParallel/internal"
@@ -37,22 +38,24 @@ func Reduce[T any](
 	var wg sync.WaitGroup
 	wg.Add(1)
 	if len(moreFunctions) == 1 {
+		second := moreFunctions[0]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = moreFunctions[0]()
+			right, b1 = second()
 		}()
 		left, b0 = firstFunction()
 	} else {
 		half := (len(moreFunctions) + 1) / 2
+		rest := slices.Clone(moreFunctions[half:])
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)
+			right, b1 = Reduce(join, rest[0], rest[1:]...)
 		}()
 		left, b0 = Reduce(join, firstFunction, moreFunctions[:half]...)
 	}
@@ -90,22 +93,24 @@ func Do(thunks ...func() bool) bool {
 	wg.Add(1)
 	switch len(thunks) {
 	case 2:
+		second := thunks[1]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = thunks[1]()
+			b1 = second()
 		}()
 		b0 = thunks[0]()
 	default:
 		half := len(thunks) / 2
+		rest := slices.Clone(thunks[half:])
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = Do(thunks[half:]...)
+			b1 = Do(rest...)
 		}()
 		b0 = Do(thunks[:half]...)
 	}
@@ -141,22 +146,24 @@ func And(predicates ...func() bool) bool {
 	wg.Add(1)
 	switch len(predicates) {
 	case 2:
+		second := predicates[1]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = predicates[1]()
+			b1 = second()
 		}()
 		b0 = predicates[0]()
 	default:
 		half := len(predicates) / 2
+		rest := slices.Clone(predicates[half:])
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = And(predicates[half:]...)
+			b1 = And(rest...)
 		}()
 		b0 = And(predicates[:half]...)
 	}
@@ -191,22 +198,24 @@ func Or(predicates ...func() bool) bool {
 	wg.Add(1)
 	switch len(predicates) {
 	case 2:
+		second := predicates[1]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = predicates[1]()
+			b1 = second()
 		}()
 		b0 = predicates[0]()
 	default:
 		half := len(predicates) / 2
+		rest := slices.Clone(predicates[half:])
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = Or(predicates[half:]...)
+			b1 = Or(rest...)
 		}()
 		b0 = Or(predicates[:half]...)
 	}
-- 
2.43.0

