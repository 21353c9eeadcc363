From 2b1358aa7683fd5de6696a9835892e49e2ce8211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 01/29] fix: copy-on-write clones must own their slices

copyFloat64Slice and copyIntSlice returned the source slice instead of the
copy they had just made, so changing a cloned node changed the original.
---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 71cc12f..7db936c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -521,13 +521,13 @@ func (t *NodeTrain) clone(cowId int) *NodeTrain {
 func copyIntSlice(s []int) []int {
 	newS := make([]int, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func copyFloat64Slice(s []float64) []float64 {
 	newS := make([]float64, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func intSliceContains(slice []int, value int) bool {
-- 
2.43.0


From 56596ed42cb711ca6ad87b0c4fad7e8c8ea3285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 02/29] fix: first-layer bias step is learning rate times error

Without Adam the first layer added the learning rate to the error instead of
scaling the error by it.
---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 7db936c..4b7d019 100644
--- a/node/node.go
+++ b/node/node.go
@@ -406,7 +406,7 @@ func (nd *Node) BackPropagateFirstLayer(
 		// TODO: ?? biasgradTsq = biasgradT * biasgradT
 		n.base.tBias += biasgradT
 	} else {
-		n.base.mirrorBias += learningRate + train[inputId].lastDeltaforBPs
+		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs
 	}
 
 	train[inputId].activeinputIds = 0 // deactivate inputIDs
-- 
2.43.0


From 30a7f7da676517f7adbdd50bf2557c43b000de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 03/29] fix: divide the whole softmax error of a label by the
 batch size

The target share was left undivided, so true labels pulled batch-size times
too hard and the output errors of an example did not sum to zero.
---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 4b7d019..985b444 100644
--- a/node/node.go
+++ b/node/node.go
@@ -315,8 +315,8 @@ func (nd *Node) ComputeExtaStatsForSoftMax(
 	//TODO:check gradient
 
 	if intSliceContains(labels, n.base.idInLayer) {
-		train[inputId].lastDeltaforBPs = 1.0/float64(len(labels)) -
-			train[inputId].lastActivations/float64(n.base.currentBatchsize)
+		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -
+			train[inputId].lastActivations) / float64(n.base.currentBatchsize)
 	} else {
 		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /
 			float64(n.base.currentBatchsize)
-- 
2.43.0


From 424b8b7e141bc2d8eeb291dd20cc72d948c9accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 04/29] fix: without Adam, collect weight updates apart from
 the live weights

The mirror weights were the very slice of the live weights, so updates of one
example were already seen by the next examples of the batch (and by the layers
below), while those of the bias were correctly deferred to the end of the
batch.
---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 985b444..2b29141 100644
--- a/node/node.go
+++ b/node/node.go
@@ -84,6 +84,8 @@ func NewNode(
 		newNode.base.adamAvgMom = adamAvgMom
 		newNode.base.adamAvgVel = adamAvgVel
 		newNode.base.t = make([]float64, adamTDim)
+	} else {
+		newNode.base.mirrorWeights = copyFloat64Slice(weights)
 	}
 
 	train := make([]*NodeTrain, batchsize)
@@ -220,6 +222,8 @@ func (nd *Node) Update(
 		n.base.adamAvgMom = adamAvgMom
 		n.base.adamAvgVel = adamAvgVel
 		n.base.t = make([]float64, adamTDim)
+	} else {
+		n.base.mirrorWeights = copyFloat64Slice(weights)
 	}
 
 	n.train = trainBlob
-- 
2.43.0


From eecb9171d1c1f8b1e91cde8ab85d5ea0ad2db509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 05/29] fix: densified WTA must hash sparse entries by feature
 index

The sparse form used the position of an entry in the list instead of its
feature index, so codes depended on the order of the entries and had nothing
in common with the dense codes of the neurons.
---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index 1dd3794..a943472 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -84,8 +84,8 @@ func (dw *DensifiedWtaHash) GetHash(data []index_value.Pair) []int {
 
 	for p := 0; p < dw.permute; p++ {
 		binIndex := p * dw.rangePow
-		for i, pair := range data {
-			innerIndex := binIndex + i
+		for _, pair := range data {
+			innerIndex := binIndex + pair.Index
 			binId := dw.indices[innerIndex]
 			if binId < dw.numHashes &&
 				(!items[binId].init || items[binId].value < pair.Value) {
-- 
2.43.0


From 7739bddd9aeb5b296bda8e049fdd4163b807c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 06/29] fix: densification probes must wrap around at 32 bits

The multiply-shift hash was computed with 64-bit integers, so practically
every probe was clamped to the last bin and empty bins were left without a
code whenever the last bin was empty too.
---
 densified_minhash/densified_minhash.go   | 5 +++--
 densified_wta_hash/densified_wta_hash.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 85addf4..77ebb56 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -194,8 +194,9 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 }
 
 func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
+	// The hash relies on 32-bit wrap-around.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func (dm *DensifiedMinhash) GetMap(n int) []int {
diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index a943472..c2b6f17 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -163,8 +163,9 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 }
 
 func (dw *DensifiedWtaHash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
+	// The hash relies on 32-bit wrap-around.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func positiveOddRandomInt() int {
-- 
2.43.0


From 2d5308f5bb43462e51e5d33130c43f1d97bd4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 07/29] fix: WTA codes are the position of the winner in its
 bin

The code was the winner's feature index, which does not fit the three bits per
code that the hash tables use: looking up a bucket ran out of its range.
---
 wta_hash/wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index a8dc16e..624d587 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -76,7 +76,7 @@ func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
 
 			curIndex := wh.indices[jOffset]
 			if value := data[curIndex].Value; values[i] < value {
-				hashes[i] = curIndex
+				hashes[i] = j
 				values[i] = value
 			}
 		}
@@ -103,7 +103,7 @@ func (wh *WtaHash) GetHashDense(data []float64) []int {
 
 			curIndex := wh.indices[jOffset]
 			if value := data[curIndex]; values[i] < value {
-				hashes[i] = curIndex
+				hashes[i] = j
 				values[i] = value
 			}
 		}
-- 
2.43.0


From cd08def7247a5aa0b701570e4834d4ace6844c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 08/29] fix: WTA must hash sparse entries by feature index

The sparse form took the n-th listed entry for the n-th feature: it crashed
when some features were not listed, and its codes depended on the order of the
entries. Features that are not listed count as zero.
---
 wta_hash/wta_hash.go | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index 624d587..780520d 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -60,32 +60,13 @@ func New(numHashes, numOfBitsToHash int) *WtaHash {
 }
 
 func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
-	hashes := make([]int, wh.numHashes)
-	values := make([]float64, wh.numHashes)
-
-	for i := 0; i < wh.numHashes; i++ {
-		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+	dense := make([]float64, wh.rangePow)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
 	}
-
-	for i := 0; i < wh.numHashes; i++ {
-		iOffset := i * binSize
-
-		for j := 0; j < binSize; j++ {
-			jOffset := iOffset + j
-
-			curIndex := wh.indices[jOffset]
-			if value := data[curIndex].Value; values[i] < value {
-				hashes[i] = j
-				values[i] = value
-			}
-		}
-	}
-
-	return hashes
+	return wh.GetHashDense(dense)
 }
 
-// TODO: avoid code duplication
 func (wh *WtaHash) GetHashDense(data []float64) []int {
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
-- 
2.43.0


From 0b12cf479c35111cf265cf359954afc118dc6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 09/29] fix: min-hash must hash sparse entries by feature index

The sparse form used the position of an entry in the list instead of its
feature index, so its codes could not match the dense codes of the neurons.
---
 densified_minhash/densified_minhash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 77ebb56..2e6c584 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -88,13 +88,13 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// O(1) and apply minhash on retuned index.
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
-		pq[index] = indexValuePair{index, value.Value}
+		pq[index] = indexValuePair{value.Index, value.Value}
 	}
 	heap.Init(&pq)
 
 	dataLen := len(data)
 	for index := topK; index < dataLen; index++ {
-		heap.Push(&pq, indexValuePair{index, data[index].Value})
+		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})
 		heap.Pop(&pq)
 	}
 
-- 
2.43.0


From 5d8078eaea8ede9dac3ce729b19f38272d5f2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 10/29] fix: min-hash of a vector with fewer than topK entries

It crashed slicing past the end of the vector.
---
 densified_minhash/densified_minhash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 2e6c584..23fd6c2 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -86,6 +86,7 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{value.Index, value.Value}
@@ -144,6 +145,7 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{index, value}
-- 
2.43.0


From 484514aba7a198cda41fd419b0f086d8cb9e5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 11/29] fix: min-hash must keep the top-k values, not the
 bottom ones

heap.Pop removes the smallest element according to Less, so the reversed
comparison dropped the largest values.
---
 densified_minhash/index_value_pairs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/index_value_pairs.go b/densified_minhash/index_value_pairs.go
index 57f0c80..08b216e 100644
--- a/densified_minhash/index_value_pairs.go
+++ b/densified_minhash/index_value_pairs.go
@@ -20,8 +20,8 @@ func (p indexValuePriorityQueue) Len() int {
 }
 
 func (p indexValuePriorityQueue) Less(i, j int) bool {
-	// lower is better
-	return p[i].value > p[j].value // TODO: check if correct
+	// The lowest value is popped first, so that the top ones are kept.
+	return p[i].value < p[j].value
 }
 
 func (p indexValuePriorityQueue) Swap(i, j int) {
-- 
2.43.0


From 621f56382fc73426f32099ff82304e298ac0e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 12/29] fix: min-hash bin map for more than 62 hash bits

The hash width of a layer is the number of nodes of the previous one; from 63
on the range overflowed and every bin was invalid.
---
 densified_minhash/densified_minhash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 23fd6c2..42173b7 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -204,7 +204,8 @@ func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 func (dm *DensifiedMinhash) GetMap(n int) []int {
 	binIds := make([]int, n)
 
-	rng := 1 << dm.rangePow
+	// 32 bits of hash are plenty, and neither shifts nor floats overflow.
+	rng := uint64(1) << minInt(dm.rangePow, 32)
 
 	// The number of times the range is larger than
 	// the total number of hashes we need.
@@ -221,7 +222,7 @@ func (dm *DensifiedMinhash) GetMap(n int) []int {
 		mh.Write(buf[:bufLen])
 		curHash := mh.Sum64()
 
-		curHash = curHash & ((1 << dm.rangePow) - 1)
+		curHash = curHash & (rng - 1)
 		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))
 	}
 
-- 
2.43.0


From 6e1a329d1fe38343963ef033d552e4c2e4334489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 13/29] fix: random projection of sparse entries that are not
 sorted by index

The merge with the projection's sorted indices silently skipped entries that
were out of order. Active nodes come out of a map in random order.
---
 sparse_random_projection/sparse_random_projection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparse_random_projection/sparse_random_projection.go b/sparse_random_projection/sparse_random_projection.go
index 87e9d79..239f726 100644
--- a/sparse_random_projection/sparse_random_projection.go
+++ b/sparse_random_projection/sparse_random_projection.go
@@ -85,6 +85,12 @@ func (srp *SparseRandomProjection) GetHash(vector []float64) []int {
 func (srp *SparseRandomProjection) GetHashSparse(
 	data []index_value.Pair,
 ) []int {
+	byIndex := func(i, j int) bool { return data[i].Index < data[j].Index }
+	if !sort.SliceIsSorted(data, byIndex) {
+		data = append([]index_value.Pair(nil), data...)
+		sort.Slice(data, byIndex)
+	}
+
 	length := len(data)
 	hashes := make([]int, srp.numHashes)
 
-- 
2.43.0


From ac5ef8845aaa449e3c95b49e4315e83af96227c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 14/29] fix: bits per WTA code is the base-2 logarithm of the
 bin size

With the natural logarithm, codes of 0 to 7 were packed two bits apart: they
overlapped, so that different codes shared a bucket.
---
 lsh/lsh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index eda739c..390f42a 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -14,7 +14,7 @@ import (
 
 const binSize = 8
 
-var logBinSize = int(math.Floor(math.Log(float64(binSize))))
+var logBinSize = int(math.Floor(math.Log2(float64(binSize))))
 
 type LSH struct {
 	buckets  [][]*fifo.FifoBucket
-- 
2.43.0


From c1fd687956ebf893cf5ad05b80b16d3343df98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 15/29] fix: true labels must pass the threshold with few hash
 tables

With one or two tables the count given to the label nodes did not exceed the
threshold, so they were left out of the training candidates.
---
 layer/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer/layer.go b/layer/layer.go
index 9397dcb..7da110d 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -334,6 +334,9 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
 					counts[labelValue] = l.l
+					if l.l <= threshold {
+						counts[labelValue] = threshold + 1
+					}
 				}
 			}
 
-- 
2.43.0


From a25596cae3b7c24b62c00f000e26f75a91dc3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 16/29] fix: random selection with repeated or many labels, or
 a large layer

Repeated labels were activated twice, more labels than places crashed, and so
did a layer with more nodes than the fixed size of the bitset.
---
 layer/layer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 7da110d..2a38879 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -26,7 +26,6 @@ const topK = 30
 const normalDistributionStdDev = 0.01
 const normalDistributionMean = 0.0
 const threshold = 2
-const mapLen = 325_056
 
 type Layer struct {
 	cowId                   int // "thread" ID for copy on write
@@ -363,14 +362,16 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
-				bs := make([]bool, mapLen) // bitset
+				bs := make([]bool, len(l.nodes)) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
-					for i, labelValue := range label {
-						activeNodesPerLayer[layerIndex+1][i].Index = labelValue
-						bs[labelValue] = true
+					for _, labelValue := range label {
+						if tmpSize < length && !bs[labelValue] {
+							activeNodesPerLayer[layerIndex+1][tmpSize].Index = labelValue
+							bs[labelValue] = true
+							tmpSize++
+						}
 					}
-					tmpSize = len(label)
 				}
 				for tmpSize < length {
 					v := rand.Intn(len(l.nodes))
-- 
2.43.0


From e565d59172465080c92c18e44c9b5b66b945ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 17/29] fix: exact-top selection must stop at the selected
 number of nodes

It wrote all the sorted nodes into a list with room for a fraction of them,
and crashed. Labels sort before any other node, however high its score.
---
 layer/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 2a38879..52b504e 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -397,7 +397,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 					if intSliceContains(label, s) {
 						sortW = append(sortW, index_value.Pair{
 							Index: s,
-							Value: -1000000000, // TODO: maybe min int?
+							Value: math.Inf(-1),
 						})
 						what++
 					} else {
@@ -410,7 +410,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 				sort.Sort(indexValuePairByValue(sortW))
 
-				for i, sw := range sortW {
+				for i, sw := range sortW[:length] {
 					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
 					if intSliceContains(label, sw.Index) {
 						in = 1
-- 
2.43.0


From fdf970d469ebda6bfe34bdd096b46ecc3ee691b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 18/29] fix: count repeated labels once when sampling
 candidates

Each repetition added a spurious activation of node 0, which then crashed the
back-propagation.
---
 layer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 52b504e..2f720d5 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -457,9 +457,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
+					if counts[labelValue] == -1 {
+						countsSize++
+					}
 					counts[labelValue] = l.l
 				}
-				countsSize = len(label)
 			}
 
 			for _, iVal := range actives {
-- 
2.43.0


From 3a2a317aa8cd799e4a65773fe5e3452f85261d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 19/29] fix: subtract the real maximum in the softmax

The maximum was taken to be at least zero, so that with very negative sums all
the exponentials vanished and every class scored zero.
---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 2f720d5..2f1caa1 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -537,7 +537,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				cowId, currentLayerActiveNodes, inputId,
 			)
 		nextLayerActiveNodes[i].Value = value
-		if l.nodeType == node.Softmax && value > maxValue {
+		if i == 0 || value > maxValue {
 			maxValue = value
 		}
 	}
-- 
2.43.0


From ef3ca054d560044240bd0493caec4762bf6ece6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 20/29] fix: no active output node means no predicted class

Class 0 was taken as predicted, and counted as correct.
---
 network/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 9d9e8cc..995ae04 100644
--- a/network/network.go
+++ b/network/network.go
@@ -130,7 +130,7 @@ func (ne *Network) PredictClass(
 
 		//compute softmax
 		var maxAct float64
-		var predictClass int
+		predictClass := -1
 		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
 			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
 			if maxAct < act || pairIndex == 0 {
-- 
2.43.0


From d7ef47b01faf8e9869b9e3a907599643d5ead561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 21/29] fix: a rebuild must re-insert the nodes in the hash
 tables

Without a simultaneous rehash, the tables kept the nodes where the previous
hash functions had put them.
---
 network/network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 995ae04..1c4703c 100644
--- a/network/network.go
+++ b/network/network.go
@@ -246,7 +246,8 @@ func (ne *Network) ProcessInput(
 
 	for layerIndex, layer := range hiddenLayers {
 		curLayerSparsity := n.sparsity[layerIndex]
-		tmpRehash := rehash && curLayerSparsity < 1.0
+		// New hash functions make the content of the tables useless.
+		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0
 		tmpRebuild := rebuild && curLayerSparsity < 1.0
 
 		if tmpRehash {
-- 
2.43.0


From 71bd5a1d1f0972f6db8347762e326b6db165021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 22/29] fix: rehash or rebuild period shorter than a batch

The period in batches was zero, and training crashed dividing by it.
---
 goslide.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/goslide.go b/goslide.go
index ce796c2..fad22fd 100644
--- a/goslide.go
+++ b/goslide.go
@@ -143,11 +143,13 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 		rebuild := false
 
 		if config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {
-			if (epoch*numBatches+i)%(config.Rehash/config.BatchSize) == (config.Rehash/config.BatchSize - 1) {
+			rehashPeriod := batchesPeriod(config.Rehash, config.BatchSize)
+			if (epoch*numBatches+i)%rehashPeriod == rehashPeriod-1 {
 				rehash = true
 			}
 			// TODO: probably there was an error in the original code (using rehash at right)
-			if (epoch*numBatches+i)%(config.Rebuild/config.BatchSize) == (config.Rebuild/config.BatchSize - 1) {
+			rebuildPeriod := batchesPeriod(config.Rebuild, config.BatchSize)
+			if (epoch*numBatches+i)%rebuildPeriod == rebuildPeriod-1 {
 				rebuild = true
 			}
 		}
@@ -163,6 +165,14 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 	}
 }
 
+// batchesPeriod converts a period from records to batches, at least one.
+func batchesPeriod(records, batchSize int) int {
+	if records < batchSize {
+		return 1
+	}
+	return records / batchSize
+}
+
 func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
-- 
2.43.0


From c1a0f62a6785ffa6bdd618a709ec1bcbc0910833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 23/29] fix: accuracy is relative to the test examples really
 evaluated

With a test file shorter than the batches to evaluate, missing examples were
counted as wrong predictions.
---
 goslide.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/goslide.go b/goslide.go
index fad22fd..f2d0afe 100644
--- a/goslide.go
+++ b/goslide.go
@@ -177,6 +177,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
 	totCorrect := 0
+	totExamples := 0
 
 	file, err := os.Open(config.TestData)
 	if err != nil {
@@ -215,18 +216,19 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 		correctPredict, myNet = myNet.PredictClass(cowId, examples)
 
 		totCorrect += correctPredict
+		totExamples += len(examples)
 
 		logger.Println("Iter", i, "-",
-			float64(totCorrect)/(float64(config.BatchSize)*(float64(i)+1)),
+			float64(totCorrect)/float64(totExamples),
 			"correct")
 	}
 
 	logger.Println("Over all:",
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)),
+		float64(totCorrect)/float64(totExamples),
 		"correct")
 
 	logger.Println(iter, globalTime,
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)))
+		float64(totCorrect)/float64(totExamples))
 }
 
 func validateArguments() {
-- 
2.43.0


From e0fc0b383c8497bbff960f98071ad7449519bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 24/29] fix: copy-on-write of networks and layers

Under a new owner ID, the clones of a network and of its layers still shared
layers, nodes and hash tables with the original, which was modified, while
the updated copies of the nodes were dropped, so the clone was not properly
trained either. Put the copies back in their layer, and give the clones their
own containers. Nothing changes as long as a single owner ID is used.
---
 bucket/fifo/fifo.go |  8 ++++++++
 layer/layer.go      | 14 +++++++++++++-
 lsh/lsh.go          | 15 +++++++++++++++
 network/network.go  | 22 ++++++++++++----------
 node/node.go        |  8 ++++++++
 5 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/bucket/fifo/fifo.go b/bucket/fifo/fifo.go
index b383fb0..718379d 100644
--- a/bucket/fifo/fifo.go
+++ b/bucket/fifo/fifo.go
@@ -21,6 +21,14 @@ func New() *FifoBucket {
 	}
 }
 
+// Clone returns an independent copy of the bucket.
+func (b *FifoBucket) Clone() *FifoBucket {
+	newBucket := New()
+	newBucket.slice = append(newBucket.slice, b.slice...)
+	newBucket.count = b.count
+	return newBucket
+}
+
 func (b *FifoBucket) Reset() {
 	b.slice = b.slice[:0]
 	b.count = 0
diff --git a/layer/layer.go b/layer/layer.go
index 2f1caa1..4fd9014 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -635,6 +635,12 @@ func (l *Layer) innerproduct(
 	return total
 }
 
+// OwnedBy returns the layer itself if it belongs to the given owner, or
+// otherwise a copy of it which does.
+func (l *Layer) OwnedBy(cowId int) *Layer {
+	return l.cloneIfNeeded(cowId)
+}
+
 func (l *Layer) cloneIfNeeded(cowId int) *Layer {
 	if l.cowId != cowId {
 		return l.clone(cowId)
@@ -643,10 +649,16 @@ func (l *Layer) cloneIfNeeded(cowId int) *Layer {
 }
 
 func (l *Layer) clone(cowId int) *Layer {
-	// TODO: copy slices and pointers too?
 	newLayer := &Layer{}
 	*newLayer = *l
 	newLayer.cowId = cowId
+	// Everything which is modified in place must not be shared; nodes
+	// are copied on write on their own.
+	newLayer.nodes = append([]*node.Node(nil), l.nodes...)
+	newLayer.randNode = append([]int(nil), l.randNode...)
+	newLayer.normalizationConstants =
+		append([]float64(nil), l.normalizationConstants...)
+	newLayer.hashTables = l.hashTables.Clone()
 	return newLayer
 }
 
diff --git a/lsh/lsh.go b/lsh/lsh.go
index 390f42a..b540901 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -52,6 +52,21 @@ func New(k, l, rangePow int) *LSH {
 	}
 }
 
+// Clone returns a copy with the same hash functions and independent buckets.
+func (lsh *LSH) Clone() *LSH {
+	newLsh := &LSH{}
+	*newLsh = *lsh
+	newLsh.buckets = make([][]*fifo.FifoBucket, len(lsh.buckets))
+	for i, buckets := range lsh.buckets {
+		newBuckets := make([]*fifo.FifoBucket, len(buckets))
+		for j, bucket := range buckets {
+			newBuckets[j] = bucket.Clone()
+		}
+		newLsh.buckets[i] = newBuckets
+	}
+	return newLsh
+}
+
 func (lsh *LSH) Clear() {
 	for _, buckets := range lsh.buckets {
 		for _, bucket := range buckets {
diff --git a/network/network.go b/network/network.go
index 1c4703c..402b0dd 100644
--- a/network/network.go
+++ b/network/network.go
@@ -212,8 +212,7 @@ func (ne *Network) ProcessInput(
 				node := layer.GetNodeById(pair.Index)
 				if layerIndex == n.numberOfLayers-1 {
 					//TODO: Compute Extra stats: labels[i];
-					// FIXME: we should reassign the cow-ed node into the layer
-					node.ComputeExtaStatsForSoftMax(
+					node = node.ComputeExtaStatsForSoftMax(
 						cowId,
 						layer.GetNomalizationConstant(i),
 						i,
@@ -222,24 +221,23 @@ func (ne *Network) ProcessInput(
 				}
 				if layerIndex != 0 {
 					prevLayer := hiddenLayers[layerIndex-1]
-					// FIXME: we should reassign the cow-ed node into the layer
 					allNodes := prevLayer.GetAllNodes()
-					node.BackPropagate(
+					node = node.BackPropagate(
 						cowId,
-						&allNodes, // FIXME: problematic...
+						&allNodes,
 						curLayerActiveNodes,
 						tmpLr,
 						i,
 					)
 				} else {
-					// FIXME: we should reassign the cow-ed node into the layer
-					node.BackPropagateFirstLayer(
+					node = node.BackPropagateFirstLayer(
 						cowId,
 						example.Features,
 						tmpLr,
 						i,
 					)
 				}
+				layer.GetAllNodes()[pair.Index] = node
 			}
 		}
 	}
@@ -262,7 +260,7 @@ func (ne *Network) ProcessInput(
 
 		// TODO: parallel!
 		for m := 0; m < layer.NumOfNodes(); m++ {
-			tmp := layer.GetNodeById(m)
+			tmp := layer.GetNodeById(m).OwnedBy(cowId)
 			curWeights := tmp.Weights()
 
 			if configuration.Global.UseAdam {
@@ -293,7 +291,8 @@ func (ne *Network) ProcessInput(
 				tmp = tmp.CopyWeightsAndBiasFromMirror(cowId)
 			}
 
-			// FIXME: now tmp was modified and should be set back into hiddenLayers[l]
+			layer.GetAllNodes()[m] = tmp
+
 			if tmpRehash {
 				hashes := layer.GetHashForInputProcessing(curWeights)
 				hashIndices := layer.HashesToIndex(hashes)
@@ -322,10 +321,13 @@ func (n *Network) cloneIfNeeded(cowId int) *Network {
 }
 
 func (n *Network) clone(cowId int) *Network {
-	// TODO: copy slices too?
 	newNetwork := &Network{}
 	*newNetwork = *n
 	newNetwork.cowId = cowId
+	newNetwork.hiddenLayers = make([]*layer.Layer, len(n.hiddenLayers))
+	for i, hiddenLayer := range n.hiddenLayers {
+		newNetwork.hiddenLayers[i] = hiddenLayer.OwnedBy(cowId)
+	}
 	return newNetwork
 }
 
diff --git a/node/node.go b/node/node.go
index 2b29141..2843e5d 100644
--- a/node/node.go
+++ b/node/node.go
@@ -457,6 +457,14 @@ func (n *Node) GetGradient(
 	return -n.train[inputId].lastDeltaforBPs * inputVal
 }
 
+// OwnedBy returns the node itself, or a copy of it, which can be modified
+// by the given owner, parameters included.
+func (nd *Node) OwnedBy(cowId int) *Node {
+	n := nd.cloneIfNeeded(cowId)
+	n.base = n.base.cloneIfNeeded(cowId)
+	return n
+}
+
 func (n *Node) cloneIfNeeded(cowId int) *Node {
 	if n.cowId != cowId {
 		return n.clone(cowId)
-- 
2.43.0


From ccaab660dab8263be15d8b1bbea9c0f699040e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 25/29] verif: guarded trace points for training and prediction
 calls

---
 network/network.go   |  2 ++
 network/verif_off.go | 16 +++++++++++++
 network/verif_on.go  | 56 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 74 insertions(+)
 create mode 100644 network/verif_off.go
 create mode 100644 network/verif_on.go

diff --git a/network/network.go b/network/network.go
index 402b0dd..e51e23d 100644
--- a/network/network.go
+++ b/network/network.go
@@ -147,6 +147,7 @@ func (ne *Network) PredictClass(
 	endTime := time.Now()
 	fmt.Printf("Inference takes %v.\n", endTime.Sub(startTime))
 
+	verifPredictClass(examples, correctPred)
 	return correctPred, n
 }
 
@@ -157,6 +158,7 @@ func (ne *Network) ProcessInput(
 	rehash bool,
 	rebuild bool,
 ) (float64, *Network) {
+	verifProcessInput(examples, iter, rehash, rebuild)
 	n := ne.cloneIfNeeded(cowId)
 
 	hiddenLayers := n.hiddenLayers
diff --git a/network/verif_off.go b/network/verif_off.go
new file mode 100644
index 0000000..507f197
--- /dev/null
+++ b/network/verif_off.go
@@ -0,0 +1,16 @@
+// Copyright (c) 2020, The GoSLIDE Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build !verif
+// +build !verif
+
+package network
+
+import "github.com/nlpodyssey/goslide/dataset"
+
+// Trace points for verification; they do nothing without the "verif" tag.
+
+func verifProcessInput(examples []dataset.Example, iter int, rehash, rebuild bool) {}
+
+func verifPredictClass(examples []dataset.Example, correct int) {}
diff --git a/network/verif_on.go b/network/verif_on.go
new file mode 100644
index 0000000..72f7a8e
--- /dev/null
+++ b/network/verif_on.go
@@ -0,0 +1,56 @@
+// Copyright (c) 2020, The GoSLIDE Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build verif
+// +build verif
+
+package network
+
+import (
+	"encoding/json"
+	"os"
+
+	"github.com/nlpodyssey/goslide/dataset"
+)
+
+type verifEvent struct {
+	Ev       string
+	Iter     int
+	Rehash   bool
+	Rebuild  bool
+	Correct  int
+	Examples []dataset.Example
+}
+
+var verifTrace *json.Encoder
+
+func init() {
+	path := os.Getenv("GOSLIDE_VERIF_TRACE")
+	if path == "" {
+		return
+	}
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
+	if err != nil {
+		panic(err)
+	}
+	verifTrace = json.NewEncoder(f)
+}
+
+func verifEmit(e verifEvent) {
+	if verifTrace == nil {
+		return
+	}
+	if err := verifTrace.Encode(e); err != nil {
+		panic(err)
+	}
+}
+
+func verifProcessInput(examples []dataset.Example, iter int, rehash, rebuild bool) {
+	verifEmit(verifEvent{
+		Ev: "train", Iter: iter, Rehash: rehash, Rebuild: rebuild, Examples: examples})
+}
+
+func verifPredictClass(examples []dataset.Example, correct int) {
+	verifEmit(verifEvent{Ev: "predict", Correct: correct, Examples: examples})
+}
-- 
2.43.0


From de77ac9859d1a143170c90b0d883202f102c9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 26/29] fix: WTA windows whose values are all below the
 smallest integer

---
 densified_wta_hash/densified_wta_hash.go | 3 ++-
 wta_hash/wta_hash.go                     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index c2b6f17..a4371ff 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -133,7 +133,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 		for i, dataValue := range data {
 			innerIndex := binIndex + i
 			binId := dw.indices[innerIndex]
-			if binId < dw.numHashes && values[binId] < dataValue {
+			if binId < dw.numHashes &&
+				(hashes[binId] == math.MinInt64 || values[binId] < dataValue) {
 				values[binId] = dataValue
 				hashes[binId] = dw.pos[innerIndex]
 			}
diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index 780520d..b048a54 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -83,7 +83,7 @@ func (wh *WtaHash) GetHashDense(data []float64) []int {
 			jOffset := iOffset + j
 
 			curIndex := wh.indices[jOffset]
-			if value := data[curIndex]; values[i] < value {
+			if value := data[curIndex]; j == 0 || values[i] < value {
 				hashes[i] = j
 				values[i] = value
 			}
-- 
2.43.0


From 3291ecdf6bd78dea1293f872abf1bef67b687080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 27/29] fix: dataset lines longer than 64 KB are read

---
 dataset/xcrepo/xcrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataset/xcrepo/xcrepo.go b/dataset/xcrepo/xcrepo.go
index 073f9dd..5144205 100644
--- a/dataset/xcrepo/xcrepo.go
+++ b/dataset/xcrepo/xcrepo.go
@@ -12,6 +12,7 @@ import (
 	"bufio"
 	"errors"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -45,6 +46,9 @@ func NewScanner(r io.Reader) *Scanner {
 		bufScanner: bufio.NewScanner(r),
 	}
 
+	// Lines with thousands of features exceed the default limit.
+	s.bufScanner.Buffer(nil, math.MaxInt32)
+
 	if s.bufScanner.Err() != nil {
 		return s
 	}
-- 
2.43.0


From f23c0527386d74824e909139da9b48c2670cfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:01 +0000
Subject: [PATCH 28/29] verif: guarded trace point for network construction

---
 network/network.go   |  2 ++
 network/verif_off.go | 12 +++++++++++-
 network/verif_on.go  | 38 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/network/network.go b/network/network.go
index e51e23d..d3bac59 100644
--- a/network/network.go
+++ b/network/network.go
@@ -43,6 +43,8 @@ func New(
 	rangePow []int,
 	sparsity []float64,
 ) *Network {
+	verifNew(numOfLayers, sizesOfLayers, layerTypes, batchSize, learningRate,
+		inputDim, k, l, rangePow, sparsity)
 	hiddenLayers := make([]*layer.Layer, numOfLayers)
 	previousLayerNumOfNodes := inputDim
 
diff --git a/network/verif_off.go b/network/verif_off.go
index 507f197..4cf06a2 100644
--- a/network/verif_off.go
+++ b/network/verif_off.go
@@ -7,10 +7,20 @@
 
 package network
 
-import "github.com/nlpodyssey/goslide/dataset"
+import (
+	"github.com/nlpodyssey/goslide/dataset"
+	"github.com/nlpodyssey/goslide/node"
+)
 
 // Trace points for verification; they do nothing without the "verif" tag.
 
+func verifNew(
+	numOfLayers int, sizesOfLayers []int, layerTypes []node.NodeType,
+	batchSize int, learningRate float64, inputDim int,
+	k, l, rangePow []int, sparsity []float64,
+) {
+}
+
 func verifProcessInput(examples []dataset.Example, iter int, rehash, rebuild bool) {}
 
 func verifPredictClass(examples []dataset.Example, correct int) {}
diff --git a/network/verif_on.go b/network/verif_on.go
index 72f7a8e..946bac9 100644
--- a/network/verif_on.go
+++ b/network/verif_on.go
@@ -11,7 +11,9 @@ import (
 	"encoding/json"
 	"os"
 
+	"github.com/nlpodyssey/goslide/configuration"
 	"github.com/nlpodyssey/goslide/dataset"
+	"github.com/nlpodyssey/goslide/node"
 )
 
 type verifEvent struct {
@@ -23,6 +25,21 @@ type verifEvent struct {
 	Examples []dataset.Example
 }
 
+// verifNetwork is what a network is built from.
+type verifNetwork struct {
+	Ev            string
+	Layers        int
+	Sizes         []int
+	Types         []node.NodeType
+	BatchSize     int
+	LearningRate  float64
+	InputDim      int
+	K, L          []int
+	RangePow      []int
+	Sparsity      []float64
+	Configuration *configuration.Configuration
+}
+
 var verifTrace *json.Encoder
 
 func init() {
@@ -37,7 +54,7 @@ func init() {
 	verifTrace = json.NewEncoder(f)
 }
 
-func verifEmit(e verifEvent) {
+func verifEmit(e interface{}) {
 	if verifTrace == nil {
 		return
 	}
@@ -46,6 +63,25 @@ func verifEmit(e verifEvent) {
 	}
 }
 
+func verifNew(
+	numOfLayers int,
+	sizesOfLayers []int,
+	layerTypes []node.NodeType,
+	batchSize int,
+	learningRate float64,
+	inputDim int,
+	k []int,
+	l []int,
+	rangePow []int,
+	sparsity []float64,
+) {
+	verifEmit(verifNetwork{
+		Ev: "new", Layers: numOfLayers, Sizes: sizesOfLayers, Types: layerTypes,
+		BatchSize: batchSize, LearningRate: learningRate, InputDim: inputDim,
+		K: k, L: l, RangePow: rangePow, Sparsity: sparsity,
+		Configuration: configuration.Global})
+}
+
 func verifProcessInput(examples []dataset.Example, iter int, rehash, rebuild bool) {
 	verifEmit(verifEvent{
 		Ev: "train", Iter: iter, Rehash: rehash, Rebuild: rebuild, Examples: examples})
-- 
2.43.0


From a4b2766a7890c329a091e1a9451976201dfa0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:01 +0000
Subject: [PATCH 29/29] fix: an incomplete test batch is announced with its own
 number of records

---
 goslide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goslide.go b/goslide.go
index f2d0afe..7f8b45c 100644
--- a/goslide.go
+++ b/goslide.go
@@ -207,7 +207,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 			logger.Fatalf("Error at line %d. %v", scanner.LineNumber(), err)
 		}
 
-		logger.Println(config.BatchSize, "records, with", numFeatures,
+		logger.Println(len(examples), "records, with", numFeatures,
 			"features and", numLabels, "labels")
 
 		var correctPredict int
-- 
2.43.0

