From 078cf47784b965974ee964b5cfa0648999e57979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:55 +0000
Subject: [PATCH 01/38] fix: trie lookups of a key that is a strict prefix of a
 node's path

When the key ends at a node that still has a prefix of its own, the key is not
at that node: get returned the node's value, insert overwrote it and delete
removed it.
---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..ef80d19 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -266,7 +266,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return nil, false
 	}
 
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && startNode.prefixLength() == 0 {
 		if startNode.hasValue() {
 			return startNode.value, true
 		} else {
@@ -362,7 +362,7 @@ func (t *Trie) insert(startNode *node, prefixString []byte, offset int, value in
 	startNode.generation = t.gen
 
 	// set value to current node and return
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && startNode.prefixLength() == 0 {
 		// no more prefix, no more actions
 		changed, _, delta := startNode.setValue(value)
 		t.valueCount = t.valueCount + delta
@@ -506,7 +506,7 @@ func (t *Trie) delete(startNode *node, prefixString []byte, offset int) (changed
 	startNode.generation = t.gen
 
 	// remove current node value, if no more prefix
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && startNode.prefixLength() == 0 {
 		changed, shouldRemove, oldValue = t.removeValue(startNode)
 		return
 	}
-- 
2.43.0


From a89adf4902a444a1b42117cc120eae490c7ceda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 02/38] fix: existence proof of an absent key ending at a node
 without value

The proof of absence ended in ErrMissingValue when the key leads exactly to a
branch node; the node's header says that it has no value, so the key is absent.
---
 trie/proof.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/trie/proof.go b/trie/proof.go
index 6ae0ba0..3ca8845 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -468,7 +468,7 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				return true, nil, nil, ErrMismatchProof
 			}
 			if n.ValueHash == nil {
-				return true, nil, nil, ErrMissingValue
+				return n.missingValue()
 			}
 			return true, n.ValueHash, nil, nil
 		} else {
@@ -500,7 +500,7 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				return true, nil, nil, ErrMismatchProof
 			}
 			if n.ValueHash == nil {
-				return true, nil, nil, ErrMissingValue
+				return n.missingValue()
 			}
 			return true, n.ValueHash, nil, nil
 		}
@@ -531,6 +531,16 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 	return true, nil, keyprefix[1:], nil
 }
 
+// missingValue is the match result when the key ends exactly at the current node and the proof
+// carries no value hash: if the node has no value the key does not exist, otherwise the proof
+// is incomplete.
+func (n *NodeProof) missingValue() (matched bool, valueHash *common.Hash, suffix []byte, err error) {
+	if n.Header.NT.HasValue() {
+		return true, nil, nil, ErrMissingValue
+	}
+	return false, nil, nil, nil
+}
+
 func (n *NodeProof) ExistenceHash() ([]byte, error) {
 	if n.PType.IsProofExistence() == false {
 		return nil, fmt.Errorf("only ExistenceProof can Hash, but it's %s", n.PType)
-- 
2.43.0


From ddbf16853f57374b89a5bdb2cf06af2757154a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 03/38] fix: reversed trie iterator skipped values of nodes
 with a child 0

---
 trie/iterator.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7aee241..200f691 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -363,25 +363,20 @@ func (rt *reversedValueIterator) Next() bool {
 				_ = rt.trie.expandNodeValue(last.node)
 			}
 			last.index--
-			for last.index >= 0 {
-				if last.node.children[last.index] == nil {
-					// nil child, ignore
-					last.index--
-					if last.index < 0 {
-						// check value when the reversedTrace just before poping out
-						if last.node.hasValue() {
-							return true
-						} else {
-							// shortcut, pop node if there's no value
-							_ = last.node.collapse()
-							rt.stack = rt.stack[:len(rt.stack)-1]
-						}
-					}
-				} else {
-					// push child node to stack
-					rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
-					break
-				}
+			for last.index >= 0 && last.node.children[last.index] == nil {
+				// nil child, ignore
+				last.index--
+			}
+			if last.index >= 0 {
+				// push child node to stack
+				rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
+			} else if last.node.hasValue() {
+				// check value when the reversedTrace just before poping out
+				return true
+			} else {
+				// shortcut, pop node if there's no value
+				_ = last.node.collapse()
+				rt.stack = rt.stack[:len(rt.stack)-1]
 			}
 		}
 	}
-- 
2.43.0


From caab0168d3d6260aad333f71c5f69c27fe605901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 04/38] fix: trie commit ignored storage failures below the
 root

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index ef80d19..54c590a 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From c00343eab406905ef9197d3b691d2163d0939834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 05/38] fix: reverting to the first checkpoint dropped writes
 made before it

Reverting to checkpoint 0 went back to the committed trie instead of the state
the checkpoint was taken of. Checkpoints of a replaced trie are forgotten.
---
 trie/revertable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index 5754d25..acaf7f7 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -15,6 +15,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"sync"
 
@@ -79,6 +80,7 @@ func (r *RevertableTrie) SetTo(newTrie *Trie) error {
 	}
 	r.Origin = newTrie
 	r.Live = nil
+	r.chkpts = nil
 	return nil
 }
 
@@ -317,6 +319,12 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	r.chkpts = r.chkpts[:checkPoint]
 	if len(r.chkpts) == 0 {
 		r.chkpts = nil
+	}
+	if r.Live == nil {
+		// nothing has been written since the checkpoint
+		return nil
+	}
+	if originRoot, err := r.Origin.HashValue(); err == nil && bytes.Equal(originRoot, root) {
 		r.Live = nil
 	} else {
 		r.Live = r.Live.Inherit(root)
-- 
2.43.0


From 3ea2fea0487ec7352152bcca4d0ccaa79f76c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 06/38] fix: HistoryTree.Has locked twice and never returned

---
 trie/historytree.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 18bde69..6269b9b 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -413,9 +413,7 @@ func (h *HistoryTree) Append(key uint64, value []byte) (err error) {
 }
 
 func (h *HistoryTree) Has(key uint64) bool {
-	h.lock.Lock()
-	defer h.lock.Unlock()
-
+	// Get locks
 	_, exist := h.Get(key)
 	return exist
 }
-- 
2.43.0


From a53634ef5be5e26f5f15fff3160b238c103cc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 07/38] fix: CollapseBefore panicked on a restored tree without
 the previous child

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 6269b9b..5f274ea 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -371,6 +371,10 @@ func (h *HistoryTree) CollapseBefore(key uint64) error {
 	if parentNode.IsLeaf() {
 		return common.ErrIllegalStatus
 	}
+	if parentNode.Children[index-1] == nil {
+		// trees restored from proofs do not have all children
+		return ErrMissingChild
+	}
 	if parentNode.Children[index-1].isDirty {
 		return common.ErrIllegalStatus
 	}
-- 
2.43.0


From d452f4a029b214a279ce6755834a469848aecf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 08/38] fix: RevertableHistoryTree without a tree panicked

---
 trie/revertable.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index acaf7f7..ce1b214 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -388,6 +388,9 @@ func (h *RevertableHistoryTree) CommitAndHash() ([]byte, error) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 	h._prepareCommit()
+	if h.Origin == nil {
+		return nil, nil
+	}
 	return h.Origin.CommitAndHash()
 }
 
@@ -455,18 +458,27 @@ func (h *RevertableHistoryTree) Commit() error {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 	h._prepareCommit()
+	if h.Origin == nil {
+		return nil
+	}
 	return h.Origin.Commit()
 }
 
 func (h *RevertableHistoryTree) Has(key uint64) bool {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Origin == nil {
+		return false
+	}
 	return h.Origin.Has(key)
 }
 
 func (h *RevertableHistoryTree) Get(key uint64) (value []byte, exist bool) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Origin == nil {
+		return nil, false
+	}
 	return h.Origin.Get(key)
 }
 
-- 
2.43.0


From ed3631f00e739809e501c67a9ac3e585a81a14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 09/38] fix: MergeProof dropped values below nodes known by
 hash only, and lookups there destroyed the node

---
 trie/historytree.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 5f274ea..9f887db 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -503,6 +503,11 @@ func (h *HistoryTree) MergeProof(key uint64, value []byte, proofs ProofChain) er
 	prefix := heightToPrefix(key)
 	tracers := make([]nodeTracer, 0)
 	_, _, leafvalue, exist, err := locateNode(h.root, prefix, h.adapter, &tracers)
+	if err == common.ErrNotFound && len(tracers) > 0 {
+		// only the hash of the last node is known, its content comes from the proof
+		tracers = tracers[:len(tracers)-1]
+		err = nil
+	}
 	if err != nil {
 		return fmt.Errorf("locateNode by %d -> (%x) failed: %v", key, prefix, err)
 	}
@@ -1032,8 +1037,8 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		return common.ErrNil
 	}
 
-	n.Reset()
 	if len(root) == 0 || bytes.Compare(root, common.NilHashSlice) == 0 {
+		n.Reset()
 		return nil
 	}
 
@@ -1043,8 +1048,10 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 	}
 
 	if len(content) == 0 {
-		return nil
+		// only the hash is known (restored from a proof), keep it
+		return common.ErrNotFound
 	}
+	n.Reset()
 
 	loadEntire := false
 
@@ -1216,10 +1223,6 @@ func (n *TreeNode) _mergeHashItems(adapter db.DataAdapter, index int, value []by
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-						} else {
-							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
-								return err
-							}
 						}
 					}
 				}
-- 
2.43.0


From cd1cbea09836193d6a973c072edab347adac8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 10/38] fix: reopening or cloning a tree with merged proofs
 found a wrong next height or failed

---
 trie/historytree.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 9f887db..08b0e5e 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -719,9 +719,8 @@ func (n *TreeNode) rightmostChild(checkPrecedingNil bool) (index int, child *Tre
 		if n.Children[i] != nil {
 			index = i
 			child = n.Children[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
+			// without checkPrecedingNil, nil is allowed anywhere: the nodes of a tree
+			// proofs were merged into have gaps
 		} else {
 			if checkPrecedingNil {
 				return
@@ -768,9 +767,8 @@ func (n *TreeNode) rightmostLeaf(checkPrecedingNil bool) (index int, leaf []byte
 		if n.Leafs[i] != nil {
 			index = i
 			leaf = n.Leafs[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
+			// without checkPrecedingNil, nil is allowed anywhere: the nodes of a tree
+			// proofs were merged into have gaps
 		} else {
 			if checkPrecedingNil {
 				return
-- 
2.43.0


From 714467799b07260384337dac2bb00bcdfac3ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 11/38] fix: math.Exp overwrote its base argument

---
 math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/big.go b/math/big.go
index 1da29d3..0ead476 100644
--- a/math/big.go
+++ b/math/big.go
@@ -258,6 +258,7 @@ func S256(x *big.Int) *big.Int {
 // Courtesy @karalabe and @chfast
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 590d7ba5baa5b8afa8d787a433d186380213f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 12/38] fix: rational to int64 conversions were rounded through
 float64

---
 math/big.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/math/big.go b/math/big.go
index 0ead476..3b3dd0e 100644
--- a/math/big.go
+++ b/math/big.go
@@ -19,7 +19,6 @@ package math
 
 import (
 	"fmt"
-	"math"
 	"math/big"
 )
 
@@ -407,24 +406,23 @@ func CopyBigRat(x *big.Rat) *big.Rat {
 // return the smallest integer not less than r. If r is too large or divided by 0,
 // nomeans is true, and x is meaningless
 func RatToInt64(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
-		return 0, true
+	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
+	if m.Sign() != 0 {
+		q.Add(q, Big1)
 	}
-	x = int64(f)
-	if float64(x) < f {
-		x += 1
+	if !q.IsInt64() {
+		return 0, true
 	}
-	return x, false
+	return q.Int64(), false
 }
 
 // lower round of r
 func RatToInt64Floor(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	q := new(big.Int).Div(r.Num(), r.Denom())
+	if !q.IsInt64() {
 		return 0, true
 	}
-	return int64(f), false
+	return q.Int64(), false
 }
 
 func CompareBigInt(a, b *big.Int) int {
-- 
2.43.0


From ac0f61b5ececf94c21ddaf8ed9bf555b9c644e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 13/38] fix: SetBytes of a shorter value kept old leading bytes

---
 basic.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/basic.go b/basic.go
index 193d83a..8ce3e23 100644
--- a/basic.go
+++ b/basic.go
@@ -408,6 +408,9 @@ func (nid *NodeID) SetBytes(b []byte) {
 		b = b[len(b)-NodeIDBytes:]
 	}
 	copy(nid[NodeIDBytes-len(b):], b)
+	for i := range nid[:NodeIDBytes-len(b)] {
+		nid[i] = 0
+	}
 }
 
 func (nid NodeID) MarshalText() ([]byte, error) {
@@ -1283,6 +1286,9 @@ func (a *Address) SetBytes(b []byte) {
 		b = b[len(b)-AddressLength:]
 	}
 	copy(a[AddressLength-len(b):], b)
+	for i := range a[:AddressLength-len(b)] {
+		a[i] = 0
+	}
 }
 
 // MarshalText returns the hex representation of a.
@@ -1466,8 +1472,10 @@ func (h *Hash) SetBytes(b []byte) {
 	if len(b) > len(h) {
 		b = b[len(b)-HashLength:]
 	}
-
 	copy(h[HashLength-len(b):], b)
+	for i := range h[:HashLength-len(b)] {
+		h[i] = 0
+	}
 }
 
 // Generate implements testing/quick.Generator.
@@ -1660,8 +1668,10 @@ func (s *Seed) SetBytes(b []byte) *Seed {
 	if len(b) > SeedLength {
 		b = b[len(b)-SeedLength:]
 	}
-
 	copy(s[SeedLength-len(b):], b)
+	for i := range s[:SeedLength-len(b)] {
+		s[i] = 0
+	}
 	return s
 }
 
-- 
2.43.0


From 6f441b39a9c4bf5a4a1664d078f01c8cb335ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 14/38] fix: NodeIDSet.Delete left stale indexes and GetNodeIDs
 listed empty ids

---
 basic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basic.go b/basic.go
index 8ce3e23..eabc95a 100644
--- a/basic.go
+++ b/basic.go
@@ -652,6 +652,9 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 	copy(ns.l[i:], ns.l[i+1:])
 	ns.l = ns.l[:len(ns.l)-1]
 	delete(ns.m, *id)
+	for ; i < len(ns.l); i++ {
+		ns.m[*ns.l[i]] = i
+	}
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
@@ -673,7 +676,7 @@ func (ns *NodeIDSet) GetIndex(id *NodeID) (int, bool) {
 
 func (ns *NodeIDSet) GetNodeIDs(chainid ChainID) NodeIDs {
 	if len(ns.l) > 0 {
-		nids := make(NodeIDs, len(ns.l))
+		nids := make(NodeIDs, 0, len(ns.l))
 		sort.Sort(ns)
 		for i := 0; i < len(ns.l); i++ {
 			nids = append(nids, *ns.l[i])
-- 
2.43.0


From f0218ddc2882d6b174ce917457bffb93da139666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 15/38] fix: ForPrintSlice panicked on an empty slice

---
 bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 6112388..2aa24ea 100644
--- a/bytes.go
+++ b/bytes.go
@@ -39,7 +39,7 @@ func startAndEnd(length, startPos, endPos int) (start, end int) {
 }
 
 func ForPrintSlice(s []byte, startPos int, endPos int) []byte {
-	if s == nil {
+	if len(s) == 0 {
 		return []byte{}
 	}
 	l := len(s)
-- 
2.43.0


From 5fe357c931f5dc25679edd65028a8f0a77c3a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 16/38] fix: MoreTimes.IsValid refused repeats of the first
 hash

---
 hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 77dc56f..33ac974 100644
--- a/hash.go
+++ b/hash.go
@@ -123,7 +123,7 @@ func (ms MoreTimes) IsValid() bool {
 	if len(ms) == 0 {
 		return false
 	}
-	lastIndex := 0
+	lastIndex := -1
 	for _, m := range ms {
 		if !m.IsValid() {
 			return false
-- 
2.43.0


From 53f00268e87e53e665a467171a46c77658f1312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 17/38] fix: reading a merkle proof took short reads for
 complete ones

---
 hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash.go b/hash.go
index 33ac974..1d10740 100644
--- a/hash.go
+++ b/hash.go
@@ -476,14 +476,14 @@ func writeArray(array []byte, buf []byte, w io.Writer) error {
 }
 
 func readArray(sizeBuf []byte, r io.Reader) ([]byte, error) {
-	_, err := r.Read(sizeBuf)
+	_, err := io.ReadFull(r, sizeBuf)
 	if err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint16(sizeBuf)
 	array := make([]byte, size)
 	if size > 0 {
-		_, err = r.Read(array)
+		_, err = io.ReadFull(r, array)
 		if err != nil {
 			return array, err
 		}
@@ -573,7 +573,7 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 
 func (p *MerkleProofs) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 1486fda1a19e4800f5f400bfb7aabbd358b2ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 18/38] fix: HashRipemd160 returned its input followed by the
 hash of nothing

---
 hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 1d10740..2e7f948 100644
--- a/hash.go
+++ b/hash.go
@@ -750,7 +750,8 @@ func CipherHash256(pro HashProvider, in ...[]byte) []byte {
 
 func HashRipemd160(data []byte) []byte {
 	md := ripemd160.New()
-	return md.Sum(data)
+	md.Write(data)
+	return md.Sum(nil)
 }
 
 func SlicesToHashs(bss [][]byte) [][]byte {
-- 
2.43.0


From 47da86ac68ef6a1189d8cf28468f7c3c51b43c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 19/38] fix: reading a tree node could take no byte for its
 flag

---
 trie/historytree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 08b0e5e..da6a194 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1664,7 +1664,7 @@ func (n *TreeNode) decodeDescendants(adapter db.DataAdapter, vr rtl.ValueReader)
 
 func (n *TreeNode) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 060b6154f87d7de41c5ef1b8c934698fdcc1521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 20/38] fix: address shards ignored the last bit of a prefix
 ending at a byte's first bit

---
 shardinfo.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index b71d330..06fa667 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -44,15 +44,12 @@ func (p BitIndex) BitPos() uint {
 	return uint(p) & 0x7
 }
 
-// returns higher n bits of b, which n is is the bit index of the lowest byte
+// returns higher n+1 bits of b, which n is the bit index of the lowest byte
 func (p BitIndex) Mask(b byte) byte {
 	bits := p.BitPos()
 	if bits == 7 {
 		return b
 	}
-	if bits == 0 {
-		return 0
-	}
 	sh := 7 - bits
 	bb := b >> sh
 	bb = bb << sh
@@ -102,13 +99,13 @@ func (s *AddressShard) IsValid() bool {
 	if s == nil {
 		return false
 	}
-	if s.Index <= 0 {
+	if s.Index < 0 {
 		return false
 	}
-	if s.Index > (AddressLength * 8) {
+	if s.Index >= (AddressLength * 8) {
 		return false
 	}
-	if (len(s.Value) * 8) < int(s.Index) {
+	if (len(s.Value) * 8) <= int(s.Index) {
 		return false
 	}
 	return true
-- 
2.43.0


From 7a56b9de347d6d886ce7f3b6d59ee52598b00d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 21/38] fix: Bits.Bits returned one bit more than asked for

---
 shardinfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index 06fa667..8e94896 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -74,8 +74,8 @@ func (bs Bits) Bits(length int) []bool {
 		return nil
 	}
 	r := make([]bool, 0, length)
-	x := BitIndex(length).BytePos()
-	y := BitIndex(length).BitPos()
+	x := BitIndex(length - 1).BytePos()
+	y := BitIndex(length - 1).BitPos()
 	var j uint
 	for i := 0; i < len(bs) && i <= x; i++ {
 		for j = 0; j < 8; j++ {
-- 
2.43.0


From f5790d58f4356deed35798ab9500df46fa790761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:11 +0000
Subject: [PATCH 22/38] fix: boot nodes were searched in an order they are not
 kept in

---
 chaininfo.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/chaininfo.go b/chaininfo.go
index 0f65cb6..c4988f7 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -749,11 +749,10 @@ func (c *ChainInfos) AddBootNode(bootNode Dataserver) bool {
 		return true
 	}
 
-	i := sort.Search(len(c.BootNodes), func(i int) bool {
-		return c.BootNodes[i].NodeIDString >= bootNode.NodeIDString
-	})
-	if i < len(c.BootNodes) && c.BootNodes[i].NodeIDString == bootNode.NodeIDString {
-		return false
+	for i := range c.BootNodes {
+		if c.BootNodes[i].NodeIDString == bootNode.NodeIDString {
+			return false
+		}
 	}
 	c.BootNodes = append(c.BootNodes, bootNode)
 	sort.Slice(c.BootNodes, func(i, j int) bool {
@@ -767,12 +766,8 @@ func (c *ChainInfos) RemoveBootNode(node NodeID) bool {
 		return true
 	}
 	// check and remove boot server
-	i := sort.Search(len(c.BootNodes), func(i int) bool {
-		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
-		return bytes.Compare(s[:], node[:]) >= 0
-	})
-
-	if i < len(c.BootNodes) {
+	// the boot nodes are not necessarily ordered by the bytes of their node ids
+	for i := range c.BootNodes {
 		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
 		if bytes.Equal(s[:], node[:]) {
 			bdatas := make([]Dataserver, len(c.BootNodes)-1)
-- 
2.43.0


From aa8390b18b5305170ed2811b71a464ed9f95e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 23/38] fix: BatchWrite left the last batch unwritten when the
 last item was skipped

---
 db/types.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..7260ef1 100644
--- a/db/types.go
+++ b/db/types.go
@@ -95,11 +95,10 @@ func BatchWrite(dbase Database, threshold, length int,
 		if err != nil {
 			return count, err
 		}
-		if !ok {
-			continue
+		if ok {
+			index = index + 1
 		}
-		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index > 0 && (index == threshold || i == (length-1)) {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
-- 
2.43.0


From edc5c124cb955ad507bf82441d986753c0e559eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 24/38] fix: LDB.Batch did not report a failed write

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From cf5eb38f3174c67fe63aeaa9b88f460134a01276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 25/38] fix: cached database took a missed key for present and
 shared cached values with callers

---
 db/cacheddb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..6e67548 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -110,14 +110,16 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	v, ok := d.cache.Get(ckey)
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return v.([]byte), nil
+		return CopySlice(v.([]byte)), nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	r, err := d.baseDB.Get(key)
 	if err != nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	if r != nil {
+		d.cache.Add(ckey, CopySlice(r))
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 3b876bca9d2c682db12f5325e61845e8c0bbae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 26/38] fix: batches of key converting adapters were refused by
 their database

---
 db/adapters.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..56920a4 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -68,6 +68,14 @@ func (k *KeyBatch) Size() int {
 	return k.batch.Size()
 }
 
+// baseBatch returns the batch of the underlying database
+func baseBatch(batch Batch) Batch {
+	if kb, ok := batch.(*KeyBatch); ok {
+		return kb.batch
+	}
+	return batch
+}
+
 type keyPrefixedDataAdapter struct {
 	database  Database
 	keyPrefix []byte
@@ -122,7 +130,7 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
-	return k.database.Batch(batch)
+	return k.database.Batch(baseBatch(batch))
 }
 
 /*
@@ -201,7 +209,7 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
-	return d.database.Batch(batch)
+	return d.database.Batch(baseBatch(batch))
 }
 
 func (d *KeyDatabase) Close() error {
-- 
2.43.0


From ea6f90d259b7b841ccbd8fb07651ec2c77d8034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 27/38] fix: memory batches kept the caller's slices and lost
 refused puts

---
 db/memdb.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..fd80f9c 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -110,9 +110,13 @@ func (m *MemDB) Batch(batch Batch) error {
 	for i := 0; i < len(b.cmds); i++ {
 		switch b.cmds[i].typ {
 		case putBatcher:
-			m.Put(b.cmds[i].key, b.cmds[i].value)
+			if err := m.Put(b.cmds[i].key, b.cmds[i].value); err != nil {
+				return err
+			}
 		case deleteBatcher:
-			m.Delete(b.cmds[i].key)
+			if err := m.Delete(b.cmds[i].key); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -123,12 +127,15 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	if key == nil || value == nil {
+		return common.ErrNil
+	}
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From 0751b527bd8369a504452e5faec9ec2f86e08325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 28/38] fix: rlp list iterator ends behind a broken value

---
 rlp/iterator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlp/iterator.go b/rlp/iterator.go
index 6be5745..8648d51 100644
--- a/rlp/iterator.go
+++ b/rlp/iterator.go
@@ -47,6 +47,10 @@ func (it *listIterator) Next() bool {
 	it.next = it.data[:t+c]
 	it.data = it.data[t+c:]
 	it.err = err
+	if err != nil {
+		// nothing behind a broken value can be found
+		it.data = nil
+	}
 	return true
 }
 
-- 
2.43.0


From 83bb9f9fe1f0258c330bfacdb23cf4c813d48906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 29/38] fix: rlp stream refuses elements reaching beyond their
 list by the size of their header

---
 rlp/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlp/decode.go b/rlp/decode.go
index f6cb436..943e4ec 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -1022,6 +1022,8 @@ func (s *Stream) Kind() (kind Kind, size uint64, err error) {
 	// Read the actual size tag.
 	s.kind, s.size, s.kinderr = s.readKind()
 	if s.kinderr == nil {
+		// The size tag just read is part of the list as well.
+		_, listLimit = s.listLimit()
 		// Check the data size of the value ahead against input limits. This
 		// is done here because many decoders require allocating an input
 		// buffer matching the value size. Checking it here protects those
-- 
2.43.0


From 053c851a0925fc507190b7b943bbe876441cddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 30/38] fix: rlp lists do not end before a value that Kind has
 looked at

---
 rlp/decode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rlp/decode.go b/rlp/decode.go
index 943e4ec..eba553d 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -820,7 +820,8 @@ func (s *Stream) ListEnd() error {
 	// Ensure that no more data is remaining in the current list.
 	if inList, listLimit := s.listLimit(); !inList {
 		return errNotInList
-	} else if listLimit > 0 {
+	} else if listLimit > 0 || s.kind >= 0 {
+		// There is more, if only the value that Kind has looked at.
 		return errNotAtEOL
 	}
 	s.stack = s.stack[:len(s.stack)-1] // pop
@@ -832,8 +833,8 @@ func (s *Stream) ListEnd() error {
 // MoreDataInList reports whether the current list context contains
 // more data to be read.
 func (s *Stream) MoreDataInList() bool {
-	_, listLimit := s.listLimit()
-	return listLimit > 0
+	inList, listLimit := s.listLimit()
+	return listLimit > 0 || (inList && s.kind >= 0)
 }
 
 // BigInt decodes an arbitrary-size integer value.
-- 
2.43.0


From 1e8ca58d5810aca31215b9c67c89a1b0063b3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:19 +0000
Subject: [PATCH 31/38] fix: rlp custom decoders running out of elements do not
 end the list around them

---
 rlp/decode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rlp/decode.go b/rlp/decode.go
index eba553d..09afdec 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -539,7 +539,13 @@ func decodeInterface(s *Stream, val reflect.Value) error {
 }
 
 func decodeDecoder(s *Stream, val reflect.Value) error {
-	return val.Addr().Interface().(Decoder).DecodeRLP(s)
+	more := s.MoreDataInList()
+	err := val.Addr().Interface().(Decoder).DecodeRLP(s)
+	if err == EOL && more {
+		// The end that was met is not that of the enclosing list.
+		return &decodeError{msg: "too few elements", typ: val.Type()}
+	}
+	return err
 }
 
 // Kind represents the kind of value contained in an RLP stream.
-- 
2.43.0


From c7bbcf21b5b178d54e15ce91bd31ba0211f54d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:04 +0000
Subject: [PATCH 32/38] fix: abi packed calls shared memory with the method id

---
 abi/abi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/abi.go b/abi/abi.go
index e040ffd..bb49260 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -78,7 +78,10 @@ func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) {
 		return nil, err
 	}
 	// Pack up the method ID too if not a constructor and return
-	return append(method.ID, arguments...), nil
+	// into memory of its own, not that of the method
+	input := make([]byte, 0, len(method.ID)+len(arguments))
+	input = append(input, method.ID...)
+	return append(input, arguments...), nil
 }
 
 func (abi ABI) PackEventArgs(name string, args ...interface{}) ([]byte, error) {
-- 
2.43.0


From 8de746ad9cffcf556ae0f5ff5fb02f78e5ec022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:04 +0000
Subject: [PATCH 33/38] fix: abi events with indexed arguments behind others,
 or with hashed ones, were misread

---
 abi/abi.go      |  4 ++--
 abi/thinkium.go | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/abi/abi.go b/abi/abi.go
index bb49260..b837697 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -463,11 +463,11 @@ func (abi ABI) EventString(topics []common.Hash, data []byte) (string, error) {
 		}
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return "", fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := eventTopicValue(arg.Type, topics[j])
 			if err != nil {
 				return "", fmt.Errorf("%d topic unpack failed: %v", j, err)
 			}
diff --git a/abi/thinkium.go b/abi/thinkium.go
index 8ee5dda..3133520 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -98,23 +98,32 @@ func (abi ABI) UnpackEvent(v interface{}, topics []common.Hash, data []byte) err
 	for i, arg := range args {
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := eventTopicValue(arg.Type, topics[j])
 			if err != nil {
 				return fmt.Errorf("%d topic unpack failed: %w", j, err)
 			}
 			ret = append(ret, value)
 		} else {
-			break
+			ret = append(ret, values[i-indexes])
 		}
 	}
-	ret = append(ret, values...)
 	return args.CopyEvent(v, ret)
 }
 
+// eventTopicValue returns the value of an indexed argument of type t, which is
+// the topic itself where only the hash of the value is stored in it.
+func eventTopicValue(t Type, topic common.Hash) (interface{}, error) {
+	switch t.T {
+	case TupleTy, StringTy, BytesTy, SliceTy, ArrayTy:
+		return topic, nil
+	}
+	return toGoType(0, t, topic[:])
+}
+
 func (abi ABI) UnpackInputObject(v interface{}, name string, input []byte) error {
 	if len(input) < 4 {
 		return ErrInputTooShort
-- 
2.43.0


From a0fd7fd630b1ca806180618d5fe78eb19a76f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:04 +0000
Subject: [PATCH 34/38] fix: abi topics of negative big integers lost their
 sign, those of large ones panicked

---
 abi/topics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/topics.go b/abi/topics.go
index 5ff3aa6..13292e5 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -24,6 +24,7 @@ import (
 	"reflect"
 
 	"github.com/ThinkiumGroup/go-common"
+	"github.com/ThinkiumGroup/go-common/math"
 )
 
 // MakeTopics converts a filter query argument list into a filter topic set.
@@ -40,8 +41,7 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 			case common.Address:
 				copy(topic[common.HashLength-common.AddressLength:], rule[:])
 			case *big.Int:
-				blob := rule.Bytes()
-				copy(topic[common.HashLength-len(blob):], blob)
+				copy(topic[:], math.U256Bytes(new(big.Int).Set(rule)))
 			case bool:
 				if rule {
 					topic[common.HashLength-1] = 1
-- 
2.43.0


From ba69e737e42122789fcc613134f37adcab7ae9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:04 +0000
Subject: [PATCH 35/38] fix: abi selectors without arguments panicked, any
 character stood for a comma

---
 abi/selector_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index d5472e3..72d828c 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -85,14 +85,14 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
 	if len(unescapedSelector) == 0 || unescapedSelector[0] != '(' {
-		return nil, "", fmt.Errorf("expected '(', got %c", unescapedSelector[0])
+		return nil, "", fmt.Errorf("expected '(', got '%s'", unescapedSelector)
 	}
 	parsedType, rest, err := parseType(unescapedSelector[1:])
 	if err != nil {
 		return nil, "", fmt.Errorf("failed to parse type: %v", err)
 	}
 	result := []interface{}{parsedType}
-	for len(rest) > 0 && rest[0] != ')' {
+	for len(rest) > 0 && rest[0] == ',' {
 		parsedType, rest, err = parseType(rest[1:])
 		if err != nil {
 			return nil, "", fmt.Errorf("failed to parse type: %v", err)
-- 
2.43.0


From 261790a1371f662079f66b113f9f964e07542a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:37 +0000
Subject: [PATCH 36/38] fix: abi selectors refused most arrays of tuples and
 took brackets behind the argument list

---
 abi/selector_parser.go | 52 +++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index 72d828c..5f9e97e 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -67,20 +67,27 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 		return "", "", fmt.Errorf("failed to parse elementary type: %v", err)
 	}
 	// handle arrays
-	for len(rest) > 0 && rest[0] == '[' {
-		parsedType = parsedType + string(rest[0])
-		rest = rest[1:]
-		for len(rest) > 0 && isDigit(rest[0]) {
-			parsedType = parsedType + string(rest[0])
-			rest = rest[1:]
+	brackets, rest, err := parseArrays(rest)
+	if err != nil {
+		return "", "", err
+	}
+	return parsedType + brackets, rest, nil
+}
+
+// parseArrays splits the array brackets off that follow a type, if any.
+func parseArrays(unescapedSelector string) (string, string, error) {
+	position := 0
+	for position < len(unescapedSelector) && unescapedSelector[position] == '[' {
+		position++
+		for position < len(unescapedSelector) && isDigit(unescapedSelector[position]) {
+			position++
 		}
-		if len(rest) == 0 || rest[0] != ']' {
-			return "", "", fmt.Errorf("failed to parse array: expected ']', got %c", unescapedSelector[0])
+		if position == len(unescapedSelector) || unescapedSelector[position] != ']' {
+			return "", "", fmt.Errorf("failed to parse array: expected ']', got '%s'", unescapedSelector[position:])
 		}
-		parsedType = parsedType + string(rest[0])
-		rest = rest[1:]
+		position++
 	}
-	return parsedType, rest, nil
+	return unescapedSelector[:position], unescapedSelector[position:], nil
 }
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
@@ -102,9 +109,6 @@ func parseCompositeType(unescapedSelector string) ([]interface{}, string, error)
 	if len(rest) == 0 || rest[0] != ')' {
 		return nil, "", fmt.Errorf("expected ')', got '%s'", rest)
 	}
-	if len(rest) >= 3 && rest[1] == '[' && rest[2] == ']' {
-		return append(result, "[]"), rest[3:], nil
-	}
 	return result, rest[1:], nil
 }
 
@@ -113,7 +117,18 @@ func parseType(unescapedSelector string) (interface{}, string, error) {
 		return nil, "", fmt.Errorf("empty type")
 	}
 	if unescapedSelector[0] == '(' {
-		return parseCompositeType(unescapedSelector)
+		components, rest, err := parseCompositeType(unescapedSelector)
+		if err != nil {
+			return nil, "", err
+		}
+		brackets, rest, err := parseArrays(rest)
+		if err != nil {
+			return nil, "", err
+		}
+		if len(brackets) > 0 {
+			components = append(components, brackets)
+		}
+		return components, rest, nil
 	} else {
 		return parseElementaryType(unescapedSelector)
 	}
@@ -132,9 +147,10 @@ func assembleArgs(args []interface{}) ([]ArgumentMarshaling, error) {
 				return nil, fmt.Errorf("failed to assemble components: %v", err)
 			}
 			tupleType := "tuple"
-			if len(subArgs) != 0 && subArgs[len(subArgs)-1].Type == "[]" {
-				subArgs = subArgs[:len(subArgs)-1]
-				tupleType = "tuple[]"
+			if last := len(subArgs) - 1; last >= 0 && subArgs[last].Type[0] == '[' {
+				// the brackets of an array of tuples
+				tupleType += subArgs[last].Type
+				subArgs = subArgs[:last]
 			}
 			arguments = append(arguments, ArgumentMarshaling{name, tupleType, tupleType, subArgs, false})
 		} else {
-- 
2.43.0


From 2cbc12b7abb4f525bb0d87ab6a6ff41edcf4ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:39 +0000
Subject: [PATCH 37/38] fix: abi types bytes33 and up are refused: values of
 them do not fit a word

---
 abi/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/type.go b/abi/type.go
index 17be76f..1902f54 100644
--- a/abi/type.go
+++ b/abi/type.go
@@ -154,6 +154,9 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 		if varSize == 0 {
 			typ.T = BytesTy
 		} else {
+			if varSize > 32 {
+				return Type{}, fmt.Errorf("unsupported arg type: %s", t)
+			}
 			typ.T = FixedBytesTy
 			typ.Size = varSize
 		}
-- 
2.43.0


From 7c659fd5117c62fffa247aa0b40f3c5751195049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:30 +0000
Subject: [PATCH 38/38] fix: log.WithField dropped the second half of its pairs

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 494bf46..f57bc1f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -196,7 +196,7 @@ func WithField(vs ...interface{}) logrus.FieldLogger {
 	}
 	l := len(vs)
 	fields := make(logrus.Fields)
-	for i := 0; i < l/2; i += 2 {
+	for i := 0; i+1 < l; i += 2 {
 		k, ok := vs[i].(string)
 		if !ok {
 			continue
-- 
2.43.0

