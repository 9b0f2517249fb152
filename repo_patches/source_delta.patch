From 39ae9e6ee73523f1a2a8f3425ebe9339efba4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:32 +0000
Subject: [PATCH 01/23] fix: DeleteOperation.Abort unlocked node, child and
 parent in the wrong order

The arguments of unlockNodes3 are (child, node, parent). With a zero parent (node is
the root) the parent and not the child was taken for the node without a lock, and
the abort panicked or left locks behind.
---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index b7537db..5042ad2 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From 54d48bf35d6386b83c7eb176a0724571c78b37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:32 +0000
Subject: [PATCH 02/23] fix: recycling a node of 258 slots panicked, larger
 nodes were never reused

The bounds check of Allocator.recycle was off by one. Nodes above the table size,
such as a node-256 with a prefix, were dropped, so replacing them again and again
used up memory without end. The table now grows with the sizes in use.
---
 allocator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..cc0c739 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,8 +178,9 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
-		return
+	for slots >= len(a.recycler) {
+		// large nodes (a node-256 with a prefix or a node with a very long prefix)
+		a.recycler = append(a.recycler, nil)
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
 	a.recycler[slots] = append(a.recycler[slots], recycledItem{node, e})
@@ -298,6 +299,12 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 			}
 			size, _ := strconv.Atoi(string(values[:space]))
 			count, _ := strconv.Atoi(string(values[space+1:]))
+			if size < 0 || size > blockSize>>3 || count < 0 || count > maxBlockCount*(blockSize>>3) {
+				return fmt.Errorf("Corrupted state file, ignoring bad line %v", line)
+			}
+			for size >= len(a.recycler) {
+				a.recycler = append(a.recycler, nil)
+			}
 			if count <= cap(a.recycler[size]) {
 				a.recycler[size] = a.recycler[size][0:count]
 			} else {
-- 
2.43.0


From 0ec17332237b037fe8de47dca4d9233e9c7c73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 03/23] fix: reads of an empty tree and of an empty key
 panicked

Lookup and prefix searches on a new tree followed the empty root to block 0, which
does not exist before the background block allocator has run. An empty key was
indexed when the root is a leaf.
---
 delete.go | 2 +-
 radix.go  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/delete.go b/delete.go
index 5042ad2..4c3b5f1 100644
--- a/delete.go
+++ b/delete.go
@@ -78,7 +78,7 @@ func (op *DeleteOperation) prepare(key []byte) (found bool) {
 	op.allocator.startOp()
 S:
 	root := atomic.LoadUint64(&op.idx.root)
-	if root == 0 {
+	if root == 0 || len(key) == 0 {
 		op.kind = notFound
 		return false
 	}
diff --git a/radix.go b/radix.go
index d8479c0..ef21ca0 100644
--- a/radix.go
+++ b/radix.go
@@ -313,7 +313,7 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
-	if len(searchPrefix) == 0 {
+	if root == 0 || len(searchPrefix) == 0 {
 		return root, 0
 	}
 	if isLeaf(root) {
@@ -508,6 +508,9 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 || len(key) == 0 {
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From 5c9a5b31b35ed9d5883eb7cc24d9d5da9fb7785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:05 +0000
Subject: [PATCH 04/23] fix: deleting from a node-256 took no lock and could be
 lost

The leaf was removed by compare-and-swap while a concurrent operation holding the
lock (a prefix split of the node, a merge with its parent) was copying the children,
so that the removed key came back with the copy. Two callers could also both prepare
the same key. The delete now locks node and parent like every other operation.
---
 delete.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/delete.go b/delete.go
index 4c3b5f1..0fa34c5 100644
--- a/delete.go
+++ b/delete.go
@@ -44,6 +44,9 @@ type DeleteOperation struct {
 	leafPtr *uint64
 	nodePtr *uint64
 
+	// the leaf to remove from a node-256
+	currentLeaf uint64
+
 	parentGen, nodeGen, childGen int32
 	parent, node, child          uint64
 
@@ -155,8 +158,12 @@ searchLoop:
 				return false
 			}
 			if isLeaf(a) {
-				op.raw = a
+				if !op.lock() {
+					runtime.Gosched()
+					goto S
+				}
 				op.leafPtr = p
+				op.currentLeaf = a
 				op.kind = deleteLeaf256
 				op.Value = getLeafValue(a)
 				return true
@@ -316,13 +323,14 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		deleted = true
 
 	case deleteLeaf256:
-		// PARAMETERS: op.leafPtr, op.raw
+		// PARAMETERS: op.leafPtr, op.currentLeaf, op.node, op.parent
 		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
 		// TODO(oscar): replace with a leaf when there is only one child left
-		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.currentLeaf, 0)
 		if deleted {
 			op.allocator.itemCounter--
 		}
+		op.unlock()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
@@ -338,7 +346,7 @@ func (op *DeleteOperation) Abort() {
 	switch op.kind {
 	case deleteRoot:
 		op.idx.unlockRoot()
-	case deleteLeaf, replaceNodeWithLeaf:
+	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
 		op.unlock3()
-- 
2.43.0


From ea35841e65ef4891d75c28595271ee7917fbdffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 05/23] fix: a node-256 was never shrunk

After deleting its children, an empty node-256 stayed in the tree: minimum and
maximum reported an empty tree although it had keys, and a node-256 with one child
left broke the rule that every node has at least two. It is now replaced with a
variable sized node when half of the children that led to it are left. Minimum and
maximum start again if the node they found no child in was being changed.
---
 delete.go | 36 ++++++++++++++++++++++++++++++------
 radix.go  | 17 +++++++++++++++--
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/delete.go b/delete.go
index 0fa34c5..afab4b3 100644
--- a/delete.go
+++ b/delete.go
@@ -323,14 +323,38 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		deleted = true
 
 	case deleteLeaf256:
-		// PARAMETERS: op.leafPtr, op.currentLeaf, op.node, op.parent
-		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
-		// TODO(oscar): replace with a leaf when there is only one child left
-		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.currentLeaf, 0)
-		if deleted {
-			op.allocator.itemCounter--
+		// PARAMETERS: op.leafPtr, op.currentLeaf, op.node, op.parent, op.nodePtr, op.raw, op.prefixLen, op.prefixSlots
+		children := op.data[op.prefixSlots : op.prefixSlots+256]
+		left := -1
+		for i := range children {
+			if atomic.LoadUint64(&children[i]) != 0 {
+				left++
+			}
+		}
+		if left > shrinkFullAt || left < 2 {
+			deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.currentLeaf, 0)
+			if deleted {
+				op.allocator.itemCounter--
+			}
+			op.unlock()
+			break
 		}
+		// few children left, switch back to a variable sized node
+		newNode, dst := op.idx.allocateNode(op.allocator, left, op.prefixLen)
+		copy(dst, op.data[:op.prefixSlots])
+		position := op.prefixSlots
+		for i := range children {
+			a := children[i]
+			if a != 0 && a != op.currentLeaf {
+				dst[position] = a
+				position++
+			}
+		}
+		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, left, op.prefixLen))
 		op.unlock()
+		op.allocator.recycle(op.node, 256+op.prefixSlots)
+		op.allocator.itemCounter--
+		deleted = true
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
diff --git a/radix.go b/radix.go
index ef21ca0..b333ed0 100644
--- a/radix.go
+++ b/radix.go
@@ -44,6 +44,9 @@ const (
 
 	fullAllocFrom  = 128
 	fullAllocAfter = fullAllocFrom - 1
+
+	// a node-256 is replaced with a variable sized node when so many children are left
+	shrinkFullAt = fullAllocFrom / 2
 )
 
 const (
@@ -395,6 +398,7 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+S:
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -421,6 +425,7 @@ searchLoop:
 		}
 		if count >= fullAllocFrom {
 			// find max, iterate from top
+			gen := idx.generation(node)
 			for k := 255; k >= 0; k-- {
 				a := atomic.LoadUint64(&data[k])
 				if a != 0 {
@@ -431,7 +436,10 @@ searchLoop:
 					continue searchLoop
 				}
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
+			if idx.generation(node) != gen {
+				// the children were replaced one after the other while we scanned them
+				goto S
+			}
 			return 0, false
 		}
 		// load the last child (since they are ordered)
@@ -447,6 +455,7 @@ searchLoop:
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+S:
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -473,6 +482,7 @@ searchLoop:
 		}
 		if count >= fullAllocFrom {
 			// find min, iterate from bottom
+			gen := idx.generation(node)
 			for k := range data[:count] {
 				a := atomic.LoadUint64(&data[k])
 				if a != 0 {
@@ -483,7 +493,10 @@ searchLoop:
 					continue searchLoop
 				}
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
+			if idx.generation(node) != gen {
+				// the children were replaced one after the other while we scanned them
+				goto S
+			}
 			return 0, false
 		}
 		// load first child (since they are ordered)
-- 
2.43.0


From a9ebd8ef7ef27af4fc426a00ed89f4d071882727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:34 +0000
Subject: [PATCH 06/23] fix: nodes sharing a lock were locked without comparing
 all generations

When parent, node or child map to the same lock only the generation read last was
compared, so that a change made after the parent was read went unnoticed and the
operation was applied to a node no longer in the tree.
---
 locks.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/locks.go b/locks.go
index ad61f9e..f18684c 100644
--- a/locks.go
+++ b/locks.go
@@ -62,21 +62,30 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if nodeGen != childGen {
+		// the shared lock was used between reading the two generations
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	// lock parent, if needed
 	block3 := parent >> blockSlotsShift
 	lock3 := parent & lockOffsetMask
-	lock3Unique := (lock3 != lock || block3 != block) && (lock3 != lock2 || block3 != block2)
-	if lock3Unique {
-		if !atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1) {
-			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
-			if lock2Unique {
-				atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
-			}
-			return false
+	var parentLocked bool
+	switch {
+	case lock3 == lock && block3 == block:
+		parentLocked = parentGen == childGen
+	case lock3 == lock2 && block3 == block2:
+		parentLocked = parentGen == nodeGen
+	default:
+		parentLocked = atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1)
+	}
+	if !parentLocked {
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		if lock2Unique {
+			atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
 		}
 	}
-	return true
+	return parentLocked
 }
 
 // unlockNodes3 releases locks for three nodes.
@@ -135,6 +144,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// the shared lock was used between reading the two generations
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From bf78bb28ad1dc966da4f9cbee30e78d3b00c6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:34 +0000
Subject: [PATCH 07/23] fix: Stop, Start, Len and the allocators command got in
 each other's way

Stop returned at once while another caller was still withdrawing the allocators, Len
started a tree that had been stopped by the caller, Start gave back allocators before
the Stop in progress had got them, and two callers collecting allocators at the same
time waited for each other forever. Collecting them is now exclusive.
---
 admin.go |  9 ++-------
 radix.go | 52 +++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..1aa3640 100644
--- a/admin.go
+++ b/admin.go
@@ -32,17 +32,12 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 		switch {
 		case len(argv) == 1:
 			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
-			}
+			wasStopped := idx.withdrawAllocators()
 			for i, a := range idx.allocators {
 				a.printStats(out, i)
 			}
 			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
+			idx.restoreAllocators(wasStopped)
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index b333ed0..3f5c388 100644
--- a/radix.go
+++ b/radix.go
@@ -54,6 +54,14 @@ const (
 	blockAllocated
 )
 
+// states of Tree.stopped
+const (
+	treeRunning   int32 = iota
+	treeStopping        // one caller is withdrawing or has withdrawn the allocators
+	treeStopped         // the allocators are withdrawn until Start is called
+	treeInspected       // stopped, and one caller has exclusive use of the allocators
+)
+
 type nodeBlock struct {
 	data  []uint64
 	locks [locksPerBlock]int32
@@ -138,12 +146,12 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
+	wasStopped := idx.withdrawAllocators()
 	count = int(idx.liveObjects)
 	for _, a := range idx.allocators {
 		count += int(a.itemCounter)
 	}
-	idx.Start()
+	idx.restoreAllocators(wasStopped)
 	return
 }
 
@@ -151,23 +159,49 @@ func (idx *Tree) Len() (count int) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
-		return
-	}
-	for i := 0; i < len(idx.allocators); i++ {
-		_ = idx.allocatorQueue.get()
-	}
+	idx.withdrawAllocators()
+	atomic.StoreInt32(&idx.stopped, treeStopped)
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
+	for !atomic.CompareAndSwapInt32(&idx.stopped, treeStopped, treeInspected) {
+		if s := atomic.LoadInt32(&idx.stopped); s == treeRunning || s == treeStopping {
+			return
+		}
+		runtime.Gosched()
+	}
+	idx.restoreAllocators(false)
+}
+
+// withdrawAllocators gets all allocators, for the exclusive use of the caller.
+// It reports if the tree was stopped already.
+func (idx *Tree) withdrawAllocators() (wasStopped bool) {
+	for {
+		if atomic.CompareAndSwapInt32(&idx.stopped, treeRunning, treeStopping) {
+			for i := 0; i < len(idx.allocators); i++ {
+				_ = idx.allocatorQueue.get()
+			}
+			return false
+		}
+		if atomic.CompareAndSwapInt32(&idx.stopped, treeStopped, treeInspected) {
+			return true
+		}
+		runtime.Gosched()
+	}
+}
+
+// restoreAllocators ends the exclusive use of the allocators.
+func (idx *Tree) restoreAllocators(wasStopped bool) {
+	if wasStopped {
+		atomic.StoreInt32(&idx.stopped, treeStopped)
 		return
 	}
 	for i := 0; i < len(idx.allocators); i++ {
 		idx.allocatorQueue.put(i)
 	}
+	atomic.StoreInt32(&idx.stopped, treeRunning)
 }
 
 // Close stops the index, and then terminates the memory allocation goroutine, which will otherwise leak.
-- 
2.43.0


From 4ca9044c041c04a23b6be87d121a93989c7a473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 08/23] fix: MinKey and MaxKey walked the tree without
 reserving the epoch

A delayed query could follow a node whose memory had been reused for another one.
---
 radix.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/radix.go b/radix.go
index 3f5c388..48b88f9 100644
--- a/radix.go
+++ b/radix.go
@@ -432,6 +432,11 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, we need an allocator for this
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 S:
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
@@ -489,6 +494,11 @@ searchLoop:
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, we need an allocator for this
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 S:
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
-- 
2.43.0


From d6d6da1892f5e4daf9c07fc8925c1de9ea81a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:09 +0000
Subject: [PATCH 09/23] fix: an iterator resumed behind the last child of the
 root node

When a batch ended exactly with the last child of the first node, the slot behind
it was read as the place to resume: keys were repeated without end, or the read
was out of range.
---
 iterator.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..30219e4 100644
--- a/iterator.go
+++ b/iterator.go
@@ -232,11 +232,14 @@ searchLoop:
 
 func (i *Iterator) storeResumePosition() {
 	// first trim consecutive items without any more children from end of stack
-	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
-		if i.stack[j].more {
-			break
-		}
+	j := len(i.stack) - 1
+	for j >= 0 && !i.stack[j].more {
+		j--
+	}
+	if j < 0 {
+		// nothing is left to return after the current batch
+		i.done = true
+		return
 	}
 	i.stack = i.stack[:j+1]
 
-- 
2.43.0


From 51ec3b4fc94ace72c9f5c7dad0f8042c17907200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:09 +0000
Subject: [PATCH 10/23] fix: an iterator returned a batch twice when one leaf
 was left in the tree

If all but one of the matching keys were deleted between two batches, the previous
batch was returned once more behind the remaining leaf.
---
 iterator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iterator.go b/iterator.go
index 30219e4..f8f919f 100644
--- a/iterator.go
+++ b/iterator.go
@@ -84,6 +84,7 @@ func (i *Iterator) Next() bool {
 	if isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
 		i.value = getLeafValue(raw)
 		i.done = true
-- 
2.43.0


From 44300f5fd50828c7eaabc4055ff7f632efb951ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:38 +0000
Subject: [PATCH 11/23] fix: an iterator lost its place when writers changed
 the path it resumes at

Resuming skipped the prefixes of the nodes on the way without comparing them,
started a subtree over when the stored child was gone, took 0 for the key of a
child of a node-256 deleted while the batch ended, and counted from wherever the
search for the iterator's prefix now ended. Keys were repeated or left out. The
place is now a key prefix from the first byte, and resuming seeks the first child
which is not before it.
---
 iterator.go | 131 +++++++++++++++++++++++++++-------------------------
 1 file changed, 69 insertions(+), 62 deletions(-)

diff --git a/iterator.go b/iterator.go
index f8f919f..7e6f42e 100644
--- a/iterator.go
+++ b/iterator.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"bytes"
 	"sync"
 	"sync/atomic"
 )
@@ -28,6 +29,7 @@ type Iterator struct {
 	pp           int
 	searchPrefix []byte
 	resumeAt     []byte
+	nodePrefix   []byte
 	done         bool
 }
 
@@ -69,9 +71,12 @@ func (i *Iterator) Next() bool {
 	alloc.startOp()
 
 	// 2. seek to start
-	var raw uint64
+	var (
+		raw   uint64
+		depth int
+	)
 	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
+		raw, depth = i.idx.partialSearch(i.searchPrefix)
 	} else {
 		raw = atomic.LoadUint64(&i.idx.root)
 	}
@@ -86,77 +91,72 @@ func (i *Iterator) Next() bool {
 		i.idx.ReleaseAllocator(alloc)
 		i.prefetched = i.prefetched[:0]
 		i.pp = 0
-		i.value = getLeafValue(raw)
 		i.done = true
+		if len(i.resumeAt) > 0 && byte(raw) < i.resumeAt[depth] {
+			// the only item left is before the place where we left of
+			return false
+		}
+		i.value = getLeafValue(raw)
 		return true
 	}
 
 	// 3. seek to the partial key where we last left of, while building stack
-	// we traverse i.resumeAt to reposition raw & nextChild
+	// raw & nextChild are positioned on the first child which is not before i.resumeAt
+	startDepth := depth
 	nextChild := 0
-preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	for depth < len(i.resumeAt) {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
-			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
+			var slots int
+			i.nodePrefix, slots = appendPrefix(i.nodePrefix[:0], data, prefixLen)
+			data = data[slots:]
+			expected := i.resumeAt[depth:]
+			if len(expected) > len(i.nodePrefix) {
+				expected = expected[:len(i.nodePrefix)]
 			}
-			data = data[prefixSlots:]
-			k += prefixLen
-			if k >= len(i.resumeAt) {
-				break preSearchLoop
+			order := bytes.Compare(i.nodePrefix, expected)
+			if order < 0 {
+				// the whole node is before i.resumeAt
+				nextChild = count
+			}
+			depth += len(i.nodePrefix)
+			if order != 0 || depth >= len(i.resumeAt) {
+				break
 			}
 		}
-
-		char := i.resumeAt[k]
+		char := i.resumeAt[depth]
+		depth++
 		if count >= fullAllocFrom {
-			// check a fixed size node-256
-			a := atomic.LoadUint64(&data[int(char)])
-			if a != 0 && byte(a) == char {
-				if isLeaf(a) {
-					nextChild = int(char)
-					break preSearchLoop
-				}
-				// child node found
-				// since it's a node-256 we need to check if there are any more children in this node
-				var next int
-				for next = int(char) + 1; next < count; next++ {
-					if atomic.LoadUint64(&data[next]) != 0 {
-						break
-					}
-				}
-				// go down into this node, saving the current position on the stack
-				i.stack = append(i.stack, position{raw, next, next < count})
-				raw = a
-				continue preSearchLoop
-			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break preSearchLoop
+			// a fixed size node-256
+			nextChild = int(char)
 		} else {
-			// scan a variable sized node
-			for l := range data[:count] {
-				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
-					// go down into this node, saving the current position on the stack
-					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
-					raw = a
-					continue preSearchLoop
-				}
+			// a variable sized node
+			for nextChild < count && byte(atomic.LoadUint64(&data[nextChild])) < char {
+				nextChild++
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
+		}
+		if nextChild == count {
+			break
+		}
+		a := atomic.LoadUint64(&data[nextChild])
+		if a == 0 || isLeaf(a) || byte(a) != char {
+			// the subtree might have been deleted since last iteration, continue with whatever comes next
 			break
 		}
+		// go down into this node, saving the current position on the stack
+		next := nextChild + 1
+		if count >= fullAllocFrom {
+			// since it's a node-256 we need to check if there are any more children in this node
+			for ; next < count; next++ {
+				if atomic.LoadUint64(&data[next]) != 0 {
+					break
+				}
+			}
+		}
+		i.stack = append(i.stack, position{raw, next, next < count})
+		raw = a
+		nextChild = 0
 	}
 
 	// 4. continue the scan, adding leaves to the prefetched array
@@ -209,7 +209,7 @@ searchLoop:
 		}
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
-			i.storeResumePosition()
+			i.storeResumePosition(startDepth)
 			break
 		}
 		// pop from stack
@@ -231,7 +231,9 @@ searchLoop:
 	return false
 }
 
-func (i *Iterator) storeResumePosition() {
+// storeResumePosition stores the partial key (from its first byte) where the next batch starts.
+// The first node on the stack was found at the given depth.
+func (i *Iterator) storeResumePosition(depth int) {
 	// first trim consecutive items without any more children from end of stack
 	j := len(i.stack) - 1
 	for j >= 0 && !i.stack[j].more {
@@ -245,9 +247,9 @@ func (i *Iterator) storeResumePosition() {
 	i.stack = i.stack[:j+1]
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:depth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -258,8 +260,13 @@ func (i *Iterator) storeResumePosition() {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
-			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
-			i.resumeAt = append(i.resumeAt, byte(a))
+			if count >= fullAllocFrom {
+				// the child might have been deleted by now, but the position in a node-256 is the key
+				i.resumeAt = append(i.resumeAt, byte(pos.k))
+			} else {
+				a := atomic.LoadUint64(&data[prefixSlots+pos.k])
+				i.resumeAt = append(i.resumeAt, byte(a))
+			}
 		}
 	}
 }
-- 
2.43.0


From 74aa2ee117eeb239fab5da694ca5298aec94c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:39 +0000
Subject: [PATCH 12/23] fix: items not yet flushed by the allocators were
 missing from a saved count

The length of a tree loaded from a saved state was too small, or negative.
---
 state.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 8f63d92..39b76e2 100644
--- a/state.go
+++ b/state.go
@@ -19,8 +19,14 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// the total number of items, including those not yet flushed by the allocators
+	objects := atomic.LoadInt64(&idx.liveObjects)
+	for _, a := range idx.allocators {
+		objects += a.itemCounter
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From ffbba28cedb00cb6758367797f47d4ff12992489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 13/23] fix: a save did not end when writing a block failed

The writer returned, the compression workers then waited for it for ever. It now
reads the remaining blocks and reports the error in the end.
---
 state.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/state.go b/state.go
index 39b76e2..7f77289 100644
--- a/state.go
+++ b/state.go
@@ -73,25 +73,32 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	writerDone := make(chan error)
 	go func() {
 		// writer
-		var writeTime time.Duration
+		var (
+			writeTime time.Duration
+			failed    error
+		)
 		for job := range toWrite {
+			if failed != nil {
+				// don't block the compression workers
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- failed
 	}()
 
 	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
-- 
2.43.0


From f2b32a77f59b2145d776a8c9e056ed74aecb1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 14/23] fix: the block handed out last could be missing from a
 saved state

nextFreeBlock is set by the background task, some time after it handed out the
previous block. A save before that left out a block in use, and the loaded tree
used its number once more.
---
 allocator.go |  2 +-
 state.go     | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/allocator.go b/allocator.go
index cc0c739..b36c3fa 100644
--- a/allocator.go
+++ b/allocator.go
@@ -282,7 +282,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
diff --git a/state.go b/state.go
index 7f77289..b36ee6f 100644
--- a/state.go
+++ b/state.go
@@ -25,8 +25,16 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		objects += a.itemCounter
 	}
 
+	// the number of blocks, including the last one handed out even if the next one isn't prepared yet
+	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
+	for _, a := range idx.allocators {
+		if !a.empty && a.block >= next {
+			next = a.block + 1
+		}
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -101,7 +109,6 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- failed
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
 	for i := 0; i < next; i++ {
 		toCompress <- i
 	}
-- 
2.43.0


From d0525d71b70fad8f040c8e0574394b0b71e0bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:41 +0000
Subject: [PATCH 15/23] fix: an incomplete saved state was loaded

A state cut short between two sections, or in one of the first lines, gave a tree
with missing blocks, or an empty tree, and no error.
---
 state.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index b36ee6f..fef075f 100644
--- a/state.go
+++ b/state.go
@@ -129,22 +129,38 @@ func (idx *Tree) loadState(data io.Reader) error {
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
+		seen       = make(map[string]bool)
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
 		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
 
+		switch string(line[:space]) {
+		case "size":
+			seen[fmt.Sprintf("block %d", nextBlock)] = true
+		case "allocator":
+			seen[string(line)] = true
+		default:
+			seen[string(line[:space])] = true
+		}
+
 		switch string(line[:space]) {
 		case "objects":
 			idx.liveObjects = int64(v)
@@ -220,5 +236,19 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 		}
 	}
+
+	// all parts must be there
+	expected := []string{"objects", "blocksize", "allocated_blocks", "allocators", "root_node", "epoch"}
+	for i := range idx.allocators {
+		expected = append(expected, fmt.Sprintf("allocator %d", i))
+	}
+	for i := 0; i < int(idx.nextFreeBlock); i++ {
+		expected = append(expected, fmt.Sprintf("block %d", i))
+	}
+	for _, e := range expected {
+		if !seen[e] {
+			return fmt.Errorf("Incomplete index state file. Missing %s", e)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From b90a4b0d1862221b91923d57bbeb8891a8e67e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:42 +0000
Subject: [PATCH 16/23] fix: a node replaced by its child was never reused

Only the child was recycled.
---
 delete.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index afab4b3..fc10650 100644
--- a/delete.go
+++ b/delete.go
@@ -50,6 +50,9 @@ type DeleteOperation struct {
 	parentGen, nodeGen, childGen int32
 	parent, node, child          uint64
 
+	// number of slots used by a node with two children which is replaced together with its child
+	nodeSlots int
+
 	data []uint64
 
 	newLeaf      uint64
@@ -240,6 +243,7 @@ searchLoop:
 					op.prefix, _ = appendPrefix(op.prefix[:0], op.data, prefixLen)
 					// add the child node key
 					op.prefix = append(op.prefix, childKey)
+					op.nodeSlots = 2 + op.prefixSlots
 					// update op.data to point to child node data
 					childBlock := int(op.child >> blockSlotsShift)
 					childOffset := int(op.child & blockSlotsOffsetMask)
@@ -298,7 +302,8 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old node and its child node
+		op.allocator.recycle(op.node, op.nodeSlots)
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
-- 
2.43.0


From 82bf60ae1672841640d625e7c665b21e65008d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:13 +0000
Subject: [PATCH 17/23] fix: a child sharing its lock with the parent was
 unlocked too early

A writer passing a node which is being replaced together with its child could lock
the detached child, and remove a node from it a second time.
---
 locks.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/locks.go b/locks.go
index f18684c..b8a0aa8 100644
--- a/locks.go
+++ b/locks.go
@@ -95,18 +95,19 @@ func (idx *Tree) unlockNodes3(child, node, parent uint64) {
 		idx.unlockNodes2(child, node)
 		return
 	}
-	// unlock from top to bottom
-	block := parent >> blockSlotsShift
-	lock := parent & lockOffsetMask
+	// unlock node before child (the child may share its lock with the parent), otherwise a writer
+	// on its way from node to child finds the node unchanged and the child unlocked
+	block := node >> blockSlotsShift
+	lock := node & lockOffsetMask
 	if atomic.AddInt32(&idx.blocks[block].locks[lock], 1)&1 != 0 {
-		panic("Unlock of unlocked parent")
+		panic("Unlock of unlocked node")
 	}
-	block2 := node >> blockSlotsShift
-	lock2 := node & lockOffsetMask
+	block2 := parent >> blockSlotsShift
+	lock2 := parent & lockOffsetMask
 	lock2Unique := lock2 != lock || block2 != block
 	if lock2Unique {
 		if atomic.AddInt32(&idx.blocks[block2].locks[lock2], 1)&1 != 0 {
-			panic("Unlock of unlocked node")
+			panic("Unlock of unlocked parent")
 		}
 	}
 	block3 := child >> blockSlotsShift
-- 
2.43.0


From 2ab6cb706b1f42e3c14ee5cab4e45d1d143771c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 18/23] fix: printing a node raced with writers reusing its
 memory

---
 admin.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/admin.go b/admin.go
index 1aa3640..c713652 100644
--- a/admin.go
+++ b/admin.go
@@ -57,12 +57,15 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 		t.Print(out)
 
 	case "root":
+		// withdraw all allocators, since the node might otherwise be changed and its memory reused while printing
+		wasStopped := idx.withdrawAllocators()
 		root := atomic.LoadUint64(&idx.root)
 		if root == 0 {
 			fmt.Fprint(out, "Index is empty\n")
-			return
+		} else {
+			idx.debugPrintNode(out, root)
 		}
-		idx.debugPrintNode(out, root)
+		idx.restoreAllocators(wasStopped)
 
 	case "node":
 		if len(argv) != 2 {
@@ -70,7 +73,9 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			return
 		}
 		node, _ := strconv.Atoi(argv[1])
+		wasStopped := idx.withdrawAllocators()
 		idx.debugPrintNode(out, uint64(node))
+		idx.restoreAllocators(wasStopped)
 
 	default:
 		fmt.Fprintf(out, "Unknown command '%s'\n", argv[0])
-- 
2.43.0


From ec11f2128406f26aa62af7dc5cb15378eae162ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 19/23] fix: printing a node crashed for ids that are not nodes

---
 admin.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/admin.go b/admin.go
index c713652..0857e66 100644
--- a/admin.go
+++ b/admin.go
@@ -72,9 +72,13 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			fmt.Fprint(out, "usage: node <id>\n")
 			return
 		}
-		node, _ := strconv.Atoi(argv[1])
+		node, err := strconv.ParseUint(argv[1], 10, 64)
+		if err != nil {
+			fmt.Fprint(out, "usage: node <id>\n")
+			return
+		}
 		wasStopped := idx.withdrawAllocators()
-		idx.debugPrintNode(out, uint64(node))
+		idx.debugPrintNode(out, node)
 		idx.restoreAllocators(wasStopped)
 
 	default:
@@ -93,20 +97,34 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	if !idx.blockInUse(block) {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
 	data := idx.blocks[block].data[offset:]
 
+	// the id might not belong to a node, so make sure all of it is within the block
+	prefixSlots := uint64(prefixLen+7) >> 3
+	if prefixLen == 255 {
+		if data[0] < 255 || data[0] > uint64(len(data))*8 {
+			fmt.Fprintf(out, "Invalid node\n")
+			return
+		}
+		prefixSlots = (data[0] + 15) >> 3
+	}
+	if prefixSlots+uint64(count) > uint64(len(data)) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
 	var prefix []byte
 	if prefixLen > 0 {
-		prefix, slots := appendPrefix(prefix, data, prefixLen)
+		prefix, _ = appendPrefix(prefix, data, prefixLen)
 		fmt.Fprintf(out, "Prefix: %s\n", prefix)
-		data = data[slots:]
+		data = data[prefixSlots:]
 	}
 
 	for i := range data[:count] {
@@ -120,6 +138,19 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	}
 }
 
+// blockInUse reports if the block has been handed out to an allocator. The allocators must be withdrawn by the caller.
+func (idx *Tree) blockInUse(block uint64) bool {
+	if block < atomic.LoadUint64(&idx.nextFreeBlock) {
+		return true
+	}
+	for _, a := range idx.allocators {
+		if !a.empty && uint64(a.block) == block {
+			return true
+		}
+	}
+	return false
+}
+
 func printableChar(c byte) string {
 	switch {
 	case c >= 32 && c <= 126:
-- 
2.43.0


From 89c26aa49a3784407eca1e2a4f5d37509f86abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 20/23] fix: the counter counted nodes once per child in its
 statistics

---
 counter.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/counter.go b/counter.go
index 8b32ef6..a4fe29c 100644
--- a/counter.go
+++ b/counter.go
@@ -69,17 +69,24 @@ searchLoop:
 		if prefixLen > 0 {
 			prefixSlots := ((prefixLen + 7) >> 3)
 			if prefixLen == 255 {
-				c.LargePrefixes++
 				prefixLen = int(data[0])
 				prefixSlots = ((prefixLen + 15) >> 3)
 			}
-			c.NodesWithPrefix++
-			c.TotalPrefixBytes += prefixSlots * 8
-			c.TotalPrefixLength += prefixLen
 			data = data[prefixSlots:]
+			// nodes on the stack are visited again for each of their child nodes, but counted only the first time
+			if p.nextChild == 0 {
+				if prefixLen >= 255 {
+					c.LargePrefixes++
+				}
+				c.NodesWithPrefix++
+				c.TotalPrefixBytes += prefixSlots * 8
+				c.TotalPrefixLength += prefixLen
+			}
 		}
 
-		c.NodeSizes[count]++
+		if p.nextChild == 0 {
+			c.NodeSizes[count]++
+		}
 
 		for k := p.nextChild; k < count; k++ {
 			a := atomic.LoadUint64(&data[k])
-- 
2.43.0


From 46b8a7bd6e29c8d876c849c4dedef669dd121628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:50 +0000
Subject: [PATCH 21/23] fix: printing an update at the root crashed after a
 deeper one

---
 update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/update.go b/update.go
index 70680de..01636f4 100644
--- a/update.go
+++ b/update.go
@@ -101,6 +101,9 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.Match = false
 	op.Value = 0
 	op.FetchedKey = op.FetchedKey[:0]
+	// the operation is recycled, so this could otherwise be beyond the end of key if the root is empty or a leaf
+	op.depth = 0
+	op.prefix = op.prefix[:0]
 	op.allocator.startOp()
 S:
 	root := atomic.LoadUint64(&op.idx.root)
-- 
2.43.0


From 6e80b643eeb0f70c0f1768fc5a5d4282e19ac9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 22/23] fix: minimum and maximum of a loaded state with emptied
 nodes

---
 radix.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/radix.go b/radix.go
index 48b88f9..57ca365 100644
--- a/radix.go
+++ b/radix.go
@@ -446,6 +446,7 @@ S:
 		return getLeafValue(raw), true
 	}
 	// now find the max
+	top := raw
 searchLoop:
 	for {
 		_, node, count, prefixLen := explodeNode(raw)
@@ -479,7 +480,11 @@ searchLoop:
 				// the children were replaced one after the other while we scanned them
 				goto S
 			}
-			return 0, false
+			leaf, changed := idx.searchAll(top, true)
+			if changed {
+				goto S
+			}
+			return getLeafValue(leaf), leaf != 0
 		}
 		// load the last child (since they are ordered)
 		a := atomic.LoadUint64(&data[count-1])
@@ -508,6 +513,7 @@ S:
 		return getLeafValue(raw), true
 	}
 	// now find the min
+	top := raw
 searchLoop:
 	for {
 		_, node, count, prefixLen := explodeNode(raw)
@@ -541,7 +547,11 @@ searchLoop:
 				// the children were replaced one after the other while we scanned them
 				goto S
 			}
-			return 0, false
+			leaf, changed := idx.searchAll(top, false)
+			if changed {
+				goto S
+			}
+			return getLeafValue(leaf), leaf != 0
 		}
 		// load first child (since they are ordered)
 		a := atomic.LoadUint64(&data[0])
@@ -552,6 +562,43 @@ searchLoop:
 	}
 }
 
+// searchAll returns the first (or last) leaf below a node, or 0 if there is none. Unlike MinKey and MaxKey it goes on when it
+// meets a node-256 without children. Those were left behind by earlier versions, so they can be part of a loaded state.
+// In case there is no leaf, it reports if any node was changed meanwhile.
+func (idx *Tree) searchAll(top uint64, last bool) (leaf uint64, changed bool) {
+	leaf, generations := idx.edgeLeaf(top, last)
+	if leaf == 0 {
+		// make sure none had children when the last one was passed
+		again, generationsAgain := idx.edgeLeaf(top, last)
+		changed = again != 0 || generations != generationsAgain
+	}
+	return leaf, changed
+}
+
+// edgeLeaf returns the first (or last) leaf below a node, or 0 and the sum of the generations of all nodes passed.
+func (idx *Tree) edgeLeaf(raw uint64, last bool) (leaf uint64, generations int64) {
+	generations = int64(idx.generation(getNodeValue(raw)))
+	count, _, data := idx.getNodeFromRaw(raw)
+	for i := range data[:count] {
+		if last {
+			i = count - 1 - i
+		}
+		a := atomic.LoadUint64(&data[i])
+		if a == 0 {
+			continue
+		}
+		if isLeaf(a) {
+			return a, 0
+		}
+		leaf, below := idx.edgeLeaf(a, last)
+		if leaf != 0 {
+			return leaf, 0
+		}
+		generations += below
+	}
+	return 0, generations
+}
+
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
 func (idx *Tree) NewIterator(searchPrefix []byte) *Iterator {
 	return NewIterator(idx, searchPrefix)
-- 
2.43.0


From 63ce8e7dcca9c4a0eece30e158a8a843bcf8c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 23/23] fix: states without their last block were loaded

---
 state.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/state.go b/state.go
index fef075f..3b3af8a 100644
--- a/state.go
+++ b/state.go
@@ -250,5 +250,11 @@ func (idx *Tree) loadState(data io.Reader) error {
 			return fmt.Errorf("Incomplete index state file. Missing %s", e)
 		}
 	}
+	for _, a := range idx.allocators {
+		// earlier versions left out a block taken into use right before saving
+		if !a.empty && uint64(a.block) >= idx.nextFreeBlock {
+			return fmt.Errorf("Incomplete index state file. Missing block %d", a.block)
+		}
+	}
 	return nil
 }
-- 
2.43.0

