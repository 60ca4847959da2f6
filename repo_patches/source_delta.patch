From 7200ce65bc945bcf5ea0bbf01aaacd328dbf0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/43] fix: log verifier crashes on a tree smaller than the
 retained one

---
 tree/log/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/log/verify.go b/tree/log/verify.go
index 69e4c93..c4af072 100644
--- a/tree/log/verify.go
+++ b/tree/log/verify.go
@@ -57,6 +57,8 @@ func (v *Verifier) Evaluate(entries []uint64, n uint64, nP *uint64, values [][]b
 		return nil, nil, errors.New("invalid value for current tree size")
 	} else if nP != nil && (*nP == 0 || *nP > n || *nP > math.MaxTreeSize) {
 		return nil, nil, errors.New("invalid value for additional tree size")
+	} else if v.prev != nil && *v.prev > n {
+		return nil, nil, errors.New("current tree size is less than previous tree size")
 	} else if len(entries) != len(values) {
 		return nil, nil, errors.New("number of leaves indices must equal number of leaf values")
 	}
-- 
2.43.0


From 929ed071a3169ccd7ffb1d2bda4027e123e7af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 02/43] fix: mutating the prefix tree with nothing to do loses
 its contents

---
 tree/prefix/batch.go  | 2 +-
 tree/prefix/prefix.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..262988e 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -172,7 +172,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
diff --git a/tree/prefix/prefix.go b/tree/prefix/prefix.go
index c92c360..efa2532 100644
--- a/tree/prefix/prefix.go
+++ b/tree/prefix/prefix.go
@@ -150,8 +150,15 @@ func (t *Tree) getMutationRoot(ver uint64, add []Entry, remove [][]byte) (node,
 		return root, &proof, nil, nil
 	}
 
+	searches := vrfOutputs
+	if len(searches) == 0 {
+		// Nothing is being added or removed, but the root is still needed. The
+		// search path followed to load it doesn't matter.
+		searches = [][]byte{make([]byte, t.cs.HashSize())}
+	}
+
 	b := newBatch(t.cs, t.tx)
-	res, state := b.initialize(map[uint64][][]byte{ver: vrfOutputs})
+	res, state := b.initialize(map[uint64][][]byte{ver: searches})
 	if err := b.search(state); err != nil {
 		return nil, nil, nil, err
 	}
-- 
2.43.0


From 480a75485502e488333afcf157a25732f7d26bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 03/43] fix: prefix proof verifier accepts the searched leaf as
 proof of its absence

---
 tree/prefix/verify.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..37a14fc 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -54,6 +54,18 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if depth > res.Depth() {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
+				// A different leaf only shows non-inclusion if it's in the place
+				// where the VRF output that was searched for would be.
+				if res, ok := res.(nonInclusionLeafProof); ok {
+					if bytes.Equal(entry.VrfOutput, res.leaf.vrfOutput) {
+						return errors.New("malformed proof")
+					}
+					for i := range depth {
+						if getBit(entry.VrfOutput, i) != getBit(res.leaf.vrfOutput, i) {
+							return errors.New("malformed proof")
+						}
+					}
+				}
 				*n = terminalNode(entry, res)
 				return nil
 			} else {
-- 
2.43.0


From dc822122d55a2fdb74191cb20b1a64ae0364b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 04/43] fix: prefix update proofs reject replaced entries and
 crash on contradictory ones

---
 tree/prefix/verify.go | 63 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 37a14fc..34421a6 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -163,32 +163,69 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 }
 
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
-// additions and removals.
+// additions and removals. The results in `proof` are for the elements of `add`
+// followed by the elements of `remove`. A VRF output may be present in both, in
+// which case its commitment is replaced.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
-	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
-	allEntries := make([]Entry, len(add)+len(remove))
-	copy(allEntries, add)
-	copy(allEntries[len(add):], remove)
-
-	root, err := evaluate(cs, allEntries, proof)
-	if err != nil {
-		return nil, nil, err
+	if len(add)+len(remove) != len(proof.Results) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+	for _, entry := range slices.Concat(add, remove) {
+		if len(entry.VrfOutput) != cs.HashSize() {
+			return nil, nil, errors.New("unexpected vrf output length")
+		} else if len(entry.Commitment) != cs.HashSize() {
+			return nil, nil, errors.New("unexpected commitment length")
+		}
 	}
-	before := root.Hash(cs)
 
-	// Perform the additions and removals and compute what the prefix tree root
-	// hash would be then.
 	sortedAdd := make([]Entry, len(add))
 	copy(sortedAdd, add)
 	slices.SortFunc(sortedAdd, compareEntries)
+	for i := 1; i < len(sortedAdd); i++ {
+		if bytes.Equal(sortedAdd[i-1].VrfOutput, sortedAdd[i].VrfOutput) {
+			return nil, nil, errors.New("same vrf output present multiple times")
+		}
+	}
 
 	sortedRemove := make([][]byte, len(remove))
+	removeIndex := make(map[string]int, len(remove))
 	for i, entry := range remove {
+		if !proof.Results[len(add)+i].Inclusion() {
+			return nil, nil, errors.New("removed vrf output is not present")
+		}
 		sortedRemove[i] = entry.VrfOutput
+		removeIndex[string(entry.VrfOutput)] = len(add) + i
 	}
 	slices.SortFunc(sortedRemove, bytes.Compare)
 
+	// Combine the `add` and `remove` slices and compute the prefix tree root
+	// hash in the straightforward way. Elements that are in both slices are
+	// only considered once, with the commitment that's being removed.
+	allEntries := make([]Entry, 0, len(add)+len(remove))
+	combined := &PrefixProof{Elements: proof.Elements}
+	for i, entry := range add {
+		if j, ok := removeIndex[string(entry.VrfOutput)]; ok {
+			if !proof.Results[i].Inclusion() || proof.Results[i].Depth() != proof.Results[j].Depth() {
+				return nil, nil, errors.New("conflicting results for same vrf output")
+			}
+			continue
+		} else if proof.Results[i].Inclusion() {
+			return nil, nil, errors.New("added vrf output is already present")
+		}
+		allEntries = append(allEntries, entry)
+		combined.Results = append(combined.Results, proof.Results[i])
+	}
+	allEntries = append(allEntries, remove...)
+	combined.Results = append(combined.Results, proof.Results[len(add):]...)
+
+	root, err := evaluate(cs, allEntries, combined)
+	if err != nil {
+		return nil, nil, err
+	}
+	before := root.Hash(cs)
+
+	// Perform the additions and removals and compute what the prefix tree root
+	// hash would be then.
 	addRemoveEntries(cs, &root, sortedAdd, sortedRemove, 0)
 	after := root.Hash(cs)
 
-- 
2.43.0


From b9b4cd789a933b12e04c52e5ae63eb8a6eefa39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 05/43] fix: prefix proof verifier ignores the commitment of a
 leaf that another result reveals

---
 tree/prefix/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 34421a6..64cd0a3 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -39,6 +39,8 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			equal := bytes.Equal(entry.VrfOutput, m.vrfOutput)
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
+			} else if equal && !bytes.Equal(entry.Commitment, m.commitment) {
+				return errors.New("malformed proof")
 			}
 			return nil
 
-- 
2.43.0


From b2fe70367ee6beff7b7df4de34fa757fd3594a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 06/43] fix: prefix update verifier does not collapse next to
 empty subtrees

---
 tree/prefix/verify.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 64cd0a3..6109517 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -82,18 +82,18 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 
 // fillInCopath populates all of the empty copath nodes in `n` with `elements`
 // in left-to-right order.
-func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
+func fillInCopath(cs suites.CipherSuite, n *node, elements [][]byte) ([][]byte, error) {
 	switch m := (*n).(type) {
 	case emptyNode, leafNode:
 		return elements, nil
 
 	case *parentNode:
 		var err error
-		elements, err = fillInCopath(&m.left, elements)
+		elements, err = fillInCopath(cs, &m.left, elements)
 		if err != nil {
 			return nil, err
 		}
-		elements, err = fillInCopath(&m.right, elements)
+		elements, err = fillInCopath(cs, &m.right, elements)
 		if err != nil {
 			return nil, err
 		}
@@ -103,7 +103,13 @@ func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
 		if len(elements) == 0 {
 			return nil, errors.New("wrong number of copath nodes provided")
 		}
-		*n = externalNode{hash: elements[0]}
+		// An empty subtree is recognizable from its hash. This matters if nodes
+		// next to it are removed.
+		if bytes.Equal(elements[0], emptyNode{}.Hash(cs)) {
+			*n = emptyNode{}
+		} else {
+			*n = externalNode{hash: elements[0]}
+		}
 		return elements[1:], nil
 
 	default:
@@ -134,7 +140,7 @@ func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node,
 			return nil, err
 		}
 	}
-	elements, err := fillInCopath(&root, proof.Elements)
+	elements, err := fillInCopath(cs, &root, proof.Elements)
 	if err != nil {
 		return nil, err
 	} else if len(elements) != 0 {
-- 
2.43.0


From 65c50637c92fac5b148f0b36b1365fa7eae9014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 07/43] fix: binary ladder overflows for versions of 2^31-1 and
 above

---
 tree/transparency/math/ladders.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..63c002a 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -2,6 +2,7 @@ package math
 
 import (
 	"errors"
+	"math"
 
 	"github.com/Bren2010/katie/tree/prefix"
 )
@@ -10,16 +11,18 @@ func baseBinaryLadder(n uint32) []uint32 {
 	out := make([]uint32, 0)
 
 	for {
-		val := (uint32(1) << len(out)) - 1
+		val := uint32((uint64(1) << len(out)) - 1)
 		out = append(out, val)
 		if val > n {
 			break
+		} else if val == math.MaxUint32 {
+			return out // There's no version greater than this one to lookup.
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From 942397010fdf78eeaac6f4883af4a120f53e6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 08/43] fix: updating a view from a frontier entry skips part
 of the new frontier

---
 tree/transparency/math/math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..5b171fb 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -132,6 +132,11 @@ func UpdateView(n uint64, m *uint64) []uint64 {
 		out = append(out, Root(n))
 	} else {
 		out = append(out, RightDirectPath(*m-1, n)...)
+		if len(out) == 0 {
+			// The previous rightmost log entry is still on the frontier, so only
+			// the part of the frontier below it is new.
+			out = append(out, Right(*m-1, n))
+		}
 	}
 
 	for len(out) > 0 && out[len(out)-1] != n-1 {
-- 
2.43.0


From 516f5fa37d1444a1554bf6164c72423965f8aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 09/43] fix: client label state of an owner does not survive
 encoding

---
 tree/transparency/structs/client.go  | 13 +++++++++----
 tree/transparency/structs/structs.go |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..f9a2523 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[int64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(verAtStarting),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, int64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..4fc6fb7 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64 | int64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From 842c9dbd907361b7c2b0f7ba0adf84985d50a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 10/43] fix: decoders allocate memory for lengths that exceed
 the input

---
 tree/transparency/structs/structs.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 4fc6fb7..a7f4043 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -91,6 +91,9 @@ func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]byte, size)
 	if _, err := io.ReadFull(buf, out); err != nil {
 		return nil, err
@@ -139,13 +142,13 @@ func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
 	if err != nil {
 		return nil, err
 	}
-	out := make([]T, size)
-	for i := range int(size) {
+	out := make([]T, 0, min(int(size), buf.Len()))
+	for range int(size) {
 		val, err := readNumeric[T](buf)
 		if err != nil {
 			return nil, err
 		}
-		out[i] = val
+		out = append(out, val)
 	}
 	return out, nil
 }
@@ -173,13 +176,13 @@ func readFuncSlice[S sizeParam, T any](
 	if err != nil {
 		return nil, err
 	}
-	out := make([]T, size)
-	for i := range int(size) {
+	out := make([]T, 0, min(int(size), buf.Len()))
+	for range int(size) {
 		elem, err := newF(buf)
 		if err != nil {
 			return nil, err
 		}
-		out[i] = *elem
+		out = append(out, *elem)
 	}
 	return out, nil
 }
-- 
2.43.0


From b084e35db3dce101b4682adb837803ddbce5b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 11/43] fix: decoding the auditor state of an empty tree
 crashes

---
 tree/transparency/auditor/state.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index cd273c7..3583b9f 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -36,6 +36,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	treeHead, err := structs.NewAuditorTreeHead(buf)
 	if err != nil {
 		return nil, err
+	} else if treeHead.TreeSize == 0 {
+		return nil, errors.New("auditor state is for an empty tree")
 	}
 
 	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
-- 
2.43.0


From 921a31c65bad8e4497a6895cac70615f95bf90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 12/43] fix: non-inclusion response of a managed log can not be
 decoded

---
 tree/transparency/crypto.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..9702ae6 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -79,7 +79,11 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 		// SearchResponse doesn't end up getting serialized wrong when a search
 		// produces a non-inclusion proof.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = make([]byte, 0)
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 9854df24f7873eac598e7f68bddf911655b99350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 13/43] fix: crash between two writes of a commit leaves a
 mixed database

The tree head was written after, and separately from, everything else. A crash
in between left the new index and log entries with the old tree head. LevelDB
applies a batch atomically, so write everything in one batch.
---
 db/leveldb.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..d83ac20 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -54,9 +54,7 @@ func (c *ldbConn) Commit() error {
 
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
@@ -65,11 +63,6 @@ func (c *ldbConn) Commit() error {
 	if err := c.conn.Write(b, nil); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From d0add4553574f4da81b9cac1f1385c218eef8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 14/43] fix: a refused or failed mutation leaves part of its
 writes pending

---
 db/leveldb.go               |  6 +----
 tree/transparency/crypto.go | 18 ++++++-------
 tree/transparency/mutate.go | 50 +++++++++++++++++++++----------------
 3 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index d83ac20..83de8bd 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -60,12 +60,8 @@ func (c *ldbConn) Commit() error {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
-		return err
-	}
-
 	c.batch = make(map[string][]byte)
-	return nil
+	return c.conn.Write(b, nil)
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 9702ae6..f5e3d07 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -95,17 +95,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// putVersion generates a new commitment opening for the given label-version
+// pair and value. It returns the new commitment, and the write that sets the
+// label-version pair to the value.
+func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, func() error, error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
+	// Serialize opening and UpdateValue structure, to be written to database.
 	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Serialize the data that will be committed to and compute the commitment.
@@ -115,9 +114,10 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	write := func() error { return t.tx.PutVersion(label, ver, labelValue) }
+	return commitments.Commit(t.config.Suite, opening, commitmentValue), write, nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..cc6f9e8 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -58,14 +58,16 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
+		writes       []func() error
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, w, err := t.mutateLabel(n, prevDLE, mutation)
 		if err != nil {
 			return nil, err
 		}
 		prefixAdd = append(prefixAdd, pa...)
 		prefixRemove = append(prefixRemove, pr...)
+		writes = append(writes, w...)
 	}
 
 	// Sort the new additions and removals by VRF output to avoid accidentally
@@ -83,7 +85,7 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	}
 
 	// Issue new tree head.
-	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
+	if err := t.issueTreeHead(n, timestamp, prefixRoot, writes); err != nil {
 		return nil, err
 	}
 
@@ -158,10 +160,14 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 
 // mutateLabel performs the requested additions and removals for a single label.
 // Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+//
+// Nothing is written to the database yet, so that a mutation that's refused or
+// fails has no effect. The writes to make are returned.
+func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, []func() error, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
+		writes []func() error
 
 		label, index = mut.label, mut.index
 	)
@@ -170,22 +176,18 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		// The label is not eligible for deletion if it has been modified since
 		// the last distinguished log entry was created.
 		if prevDLE == nil || index[len(index)-1] > *prevDLE {
-			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
+			return nil, nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
 		}
 
 		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.tx.DeleteIndex(label) })
 
 		// Delete the value and VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
+			writes = append(writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
-				return nil, nil, err
+				return nil, nil, nil, err
 			}
 			remove = append(remove, vrfOutput)
 		}
@@ -198,29 +200,29 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 
 		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		commitment, write, err := t.putVersion(pair.Label, ver, pair.Value)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
+		writes = append(writes, write)
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.putIndex(mut.add[0].Label, index) })
 	}
 
-	return add, remove, nil
+	return add, remove, writes, nil
 }
 
 // issueTreeHead takes as input the current tree size, the new rightmost
 // timestamp, and the new prefix tree root. It adds a new log entry to the right
-// edge of the log tree and then signs and commits a new tree head.
-func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
+// edge of the log tree and then makes the given writes, signs and commits a new
+// tree head.
+func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, writes []func() error) error {
 	logEntry := structs.LogEntry{
 		Timestamp:  timestamp,
 		PrefixTree: prefixRoot,
@@ -265,7 +267,13 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 	rawTreeHead, err := structs.Marshal(treeHead)
 	if err != nil {
 		return err
-	} else if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
+	}
+	for _, write := range writes {
+		if err := write(); err != nil {
+			return err
+		}
+	}
+	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
 		return err
 	} else if err := t.tx.Commit(); err != nil {
 		return err
-- 
2.43.0


From 6c6eda8e0bf7dcbebd8e2b776c1df7acd38743bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 15/43] fix: client crashes on its first response and forgets
 the auditor tree head

---
 tree/transparency/client_crypto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..8598698 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,15 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
-		AuditorTreeHead: v.fth.AuditorTreeHead,
-		FullSubtrees:    result.FullSubtrees,
-		LogEntries:      result.LogEntries,
+		FullSubtrees: result.FullSubtrees,
+		LogEntries:   result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From d95b41ccf0901ae81106d6fd1574478291317691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 16/43] fix: client rejects tree heads that are newer than the
 retained one

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 8598698..16e1f70 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.state.TreeHead.TreeSize >= v.n {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From 7cd8f6b2066f11b9dc9003f430d28a5d143fdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 17/43] fix: proof for an unchanged tree head repeats subtrees
 that the client retains

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..b5e9516 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -112,7 +112,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
 		if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 110a0846ec7c6365b4c1abdd158c6cab7241c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 18/43] fix: client with retained versions of a label rejects
 further searches for it

---
 tree/transparency/algorithms/proof_handle.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..0ba4091 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -22,8 +22,17 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	}
+	// The same version may be added several times, for example once from a
+	// response and once from retained state, as long as nothing conflicts.
+	if existing, ok := versions[ver]; ok {
+		if !bytes.Equal(existing.VrfOutput, vrfOutput) {
+			return errors.New("different vrf outputs for same version found")
+		} else if commitment == nil {
+			return nil
+		} else if existing.Commitment != nil && !bytes.Equal(existing.Commitment, commitment) {
+			return errors.New("different commitments for same version found")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
-- 
2.43.0


From 86ccf595e00db904e97464f7f22b6a281aad002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 19/43] fix: client can not verify that a label does not exist

---
 tree/transparency/client.go       | 22 +++++++++++++++-------
 tree/transparency/transparency.go |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..3eb2637 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -166,12 +166,6 @@ func (c *Client) search(
 			return errors.New("unexpected error occurred")
 		}
 
-		// If a Third-Party Manager is being used, verify `value`.
-		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
-		if err != nil {
-			return err
-		}
-
 		// Verify that the expected number of entries is present in
 		// `binary_ladder` and compute the VRF output for each version.
 		ladder := math.SearchBinaryLadder(target, target, nil, nil)
@@ -196,7 +190,14 @@ func (c *Client) search(
 		} else {
 			terminal, err = v.fixedVersionSearch(target)
 		}
-		if err != nil {
+		if err == algorithms.ErrLabelNotFound || err == algorithms.ErrLabelExpired {
+			// Only report that the label-version pair doesn't exist if the rest
+			// of the proof is valid.
+			if _, err := v.finish(); err != nil {
+				return err
+			}
+			return err
+		} else if err != nil {
 			return err
 		}
 		updated, err := v.finish()
@@ -204,6 +205,13 @@ func (c *Client) search(
 			return err
 		}
 
+		// If a Third-Party Manager is being used, verify `value`. No signature
+		// exists if the search produced a non-inclusion proof.
+		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
+		if err != nil {
+			return err
+		}
+
 		// Try to bail out early by updating only the global state.
 		if c.config.Mode != structs.ContactMonitoring {
 			return c.putState(updated)
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index b5e9516..74cc96d 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -186,7 +186,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From dad447d4642f3dc59a2bf47749d9323660cf536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 20/43] fix: greatest-version search succeeds when timestamps
 are missing or decrease

---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From 58fdec0b2ad735c17b5336619aed4b4e09788d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 21/43] fix: request that advertises an empty tree crashes the
 server

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 74cc96d..01a6346 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user is zero")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From ff602fe39520ab1b096ef852d9e118adf12f6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 22/43] fix: auditor tree head is optional for server and
 client in third-party auditing

---
 tree/transparency/client_crypto.go | 7 ++++++-
 tree/transparency/transparency.go  | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 16e1f70..0f8c382 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -158,8 +158,13 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	ok := v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature)
 	if !ok {
 		return errors.New("failed to verify tree head signature")
-	} else if v.fth.AuditorTreeHead == nil {
+	} else if v.config.Mode != structs.ThirdPartyAuditing {
+		if v.fth.AuditorTreeHead != nil {
+			return errors.New("auditor tree head provided when not expected")
+		}
 		return nil
+	} else if v.fth.AuditorTreeHead == nil {
+		return errors.New("auditor tree head not provided when expected")
 	}
 
 	// Verify size and signature of the auditor tree head.
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 01a6346..a22198b 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -120,6 +120,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		}
 	}
 
+	if t.config.Mode == structs.ThirdPartyAuditing && t.auditorHead == nil {
+		return nil, 0, nil, nil, errors.New("no auditor tree head is available")
+	}
 	fth = &structs.FullTreeHead{TreeHead: t.treeHead, AuditorTreeHead: t.auditorHead}
 	n = t.treeHead.TreeSize
 	if t.auditorHead != nil {
-- 
2.43.0


From 45053a06345d0e24366813a6f5c2fac4f9f9e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 23/43] fix: search response lacks commitments that the client
 needs for monitoring

---
 tree/transparency/transparency.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index a22198b..e24422c 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 
 	"github.com/Bren2010/katie/db"
+	"github.com/Bren2010/katie/tree/prefix"
 	"github.com/Bren2010/katie/tree/transparency/algorithms"
 	"github.com/Bren2010/katie/tree/transparency/math"
 	"github.com/Bren2010/katie/tree/transparency/structs"
@@ -207,6 +208,7 @@ func (t *Tree) Search(
 
 	// Compute VRF outputs and proofs for ladder.
 	steps := make([]structs.BinaryLadderStep, len(ladder))
+	vrfOutputs := make([][]byte, len(ladder))
 	for i, ver := range ladder {
 		vrfOutput, proof, err := t.computeVrfOutput(req.Label, ver)
 		if err != nil {
@@ -215,6 +217,7 @@ func (t *Tree) Search(
 			return nil, err
 		}
 		steps[i] = structs.BinaryLadderStep{Proof: proof}
+		vrfOutputs[i] = vrfOutput
 	}
 
 	// Execute the algorithm to update the user's view of the tree, and then
@@ -240,13 +243,31 @@ func (t *Tree) Search(
 		return nil, err
 	}
 
-	// Populate commitment field of appropriate BinaryLadderStep structures.
+	// Populate commitment field of appropriate BinaryLadderStep structures. Some
+	// versions that exist might not have been looked up by the search, but the
+	// user still needs their commitment for monitoring.
+	missing := make([]int, 0)
+	search := prefix.PrefixSearch{Version: n}
 	for i, ver := range ladder {
 		populate := req.Version == nil && int(ver) != greatest ||
 			req.Version != nil && ver != *req.Version
 
 		if populate {
 			steps[i].Commitment = handle.GetCommitment(ver)
+			if steps[i].Commitment == nil && int(ver) <= greatest {
+				missing = append(missing, i)
+				search.VrfOutputs = append(search.VrfOutputs, vrfOutputs[i])
+			}
+		}
+	}
+	if len(missing) > 0 {
+		prefixTree := prefix.NewTree(t.config.Suite, t.tx.PrefixStore())
+		results, err := prefixTree.Search([]prefix.PrefixSearch{search})
+		if err != nil {
+			return nil, err
+		}
+		for j, i := range missing {
+			steps[i].Commitment = results[0].Commitments[j]
 		}
 	}
 
-- 
2.43.0


From a4fe8d379bd214fae379f68b68232a05c540e6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 24/43] fix: search response lacks commitments that the client
 needs for monitoring

---
 tree/transparency/transparency.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index e24422c..ec91845 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -244,8 +244,8 @@ func (t *Tree) Search(
 	}
 
 	// Populate commitment field of appropriate BinaryLadderStep structures. Some
-	// versions that exist might not have been looked up by the search, but the
-	// user still needs their commitment for monitoring.
+	// versions less than the target might not have been looked up by the
+	// search, but the user still needs their commitment for monitoring.
 	missing := make([]int, 0)
 	search := prefix.PrefixSearch{Version: n}
 	for i, ver := range ladder {
@@ -254,7 +254,7 @@ func (t *Tree) Search(
 
 		if populate {
 			steps[i].Commitment = handle.GetCommitment(ver)
-			if steps[i].Commitment == nil && int(ver) <= greatest {
+			if steps[i].Commitment == nil && int(ver) <= greatest && req.Version != nil && ver < *req.Version {
 				missing = append(missing, i)
 				search.VrfOutputs = append(search.VrfOutputs, vrfOutputs[i])
 			}
-- 
2.43.0


From 42f1941a3a81caf74cc6d46535a1046aa4194215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 25/43] fix: readers mix the label index of a newer log into
 their answers

---
 tree/transparency/crypto.go       | 17 +++++++++++++++++
 tree/transparency/monitor.go      |  3 +--
 tree/transparency/transparency.go |  6 +++---
 tree/transparency/update.go       | 11 +++++------
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index f5e3d07..22f8037 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/transparency/structs"
@@ -47,6 +48,22 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 	return out, nil
 }
 
+// getIndex returns the index of the label as of the tree head that requests are
+// answered for. Entries that a concurrent writer has added to the database since
+// the tree was loaded are left out.
+func (t *Tree) getIndex(label []byte) ([]uint64, error) {
+	indices, err := t.batchGetIndex([][]byte{label})
+	if err != nil {
+		return nil, err
+	}
+	n := uint64(0)
+	if t.treeHead != nil {
+		n = t.treeHead.TreeSize
+	}
+	end, _ := slices.BinarySearch(indices[0], n)
+	return indices[0][:end], nil
+}
+
 // putIndex updates the stored index of the label.
 func (t *Tree) putIndex(label []byte, index []uint64) error {
 	compressed := make([]uint64, len(index))
diff --git a/tree/transparency/monitor.go b/tree/transparency/monitor.go
index 4151ed0..495fad6 100644
--- a/tree/transparency/monitor.go
+++ b/tree/transparency/monitor.go
@@ -117,11 +117,10 @@ func (t *Tree) startMonitor(last *uint64, label []byte) (*monitorOp, error) {
 	if err != nil {
 		return nil, err
 	}
-	indices, err := t.batchGetIndex([][]byte{label})
+	index, err := t.getIndex(label)
 	if err != nil {
 		return nil, err
 	}
-	index := indices[0]
 
 	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 	provider := algorithms.NewDataProvider(t.config.Suite, handle)
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index ec91845..8b1035c 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -176,13 +176,13 @@ func (t *Tree) Search(
 	}
 
 	// Load label index and determine greatest version that exists, if any.
-	indices, err := t.batchGetIndex([][]byte{req.Label})
+	index, err := t.getIndex(req.Label)
 	if err != nil {
 		return nil, err
 	}
-	greatest := len(indices[0]) - 1
+	greatest := len(index) - 1
 
-	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, indices[0])
+	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 
 	// Determine which versions we will need VRF outputs for, and also load the
 	// target version of the label.
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..c962a51 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -98,7 +98,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
 	}
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -106,7 +106,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	u.last = req.Last
 	u.label = req.Label
 	u.values = values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -133,7 +133,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	}
 
 	// Load index and populate updater state.
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -142,7 +142,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	u.label = req.Label
 	u.signedVer = &req.SignedVersion
 	u.values = req.Values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -326,11 +326,10 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	index, err := tree.getIndex(u.label)
 	if err != nil {
 		return err
 	}
-	index := indices[0]
 	if len(index) == 0 || index[len(index)-1] < pos {
 		return errors.New("reloaded index does not contain new versions of label")
 	}
-- 
2.43.0


From 6c7850f1813a81c1f86083842d3daa728ff2b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 26/43] fix: client crashes when contact monitoring of a label
 is complete

---
 tree/transparency/algorithms/monitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..987edca 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -25,6 +25,9 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 }
 
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil { // No monitoring is required.
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From cb2f8c822e54a103ff4883da2b1647975b660d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 27/43] fix: client rejects inclusion proofs for several
 versions

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 0ba4091..b952a2f 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -206,11 +206,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each version.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 43493468bafb29abcae927423dd31ac4ee29ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 28/43] fix: client crashes on an update response with a short
 binary ladder

---
 tree/transparency/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 3eb2637..28b8ec5 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -569,16 +569,20 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
+	// Verify the expected number of entries is present in res.BinaryLadder.
+	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
+
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
-	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
 		}
 	}
 
-	// Verify the expected number of entries is present in res.BinaryLadder.
 	v, err := newVerifier(sv.client.config, sv.state, getLast(sv.state), res.FullTreeHead, res.Update)
 	if err != nil {
 		return err
-- 
2.43.0


From f64a503530eae79b0943ba3e7469f742aab5b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 29/43] fix: server fails every update request

---
 tree/transparency/update.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index c962a51..c11669f 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -242,7 +242,8 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	if err != nil {
 		return nil, err
 	}
-	ladder, err := u.ladder(u.ver-len(info), u.ver-1)
+	startVer := u.ver - len(info)
+	ladder, err := u.ladder(startVer, u.ver-1)
 	if err != nil {
 		return nil, err
 	}
@@ -261,9 +262,22 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
 	if err != nil {
 		return nil, err
-	} else if err := monitor.Update(pos, len(info)); err != nil {
+	}
+	monitor.Owner = &algorithms.OwnerState{
+		VerAtStarting: -1,
+		UpcomingVers:  slices.Clone(u.index[:startVer]),
+	}
+	if err := monitor.Update(pos, len(info)); err != nil {
 		return nil, err
 	}
+	for ver := range handle.RequiredVersions() {
+		vrfOutput, _, err := t.computeVrfOutput(u.label, ver)
+		if err != nil {
+			return nil, err
+		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
+			return nil, err
+		}
+	}
 	proof, err := provider.Output(n, nP, m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e442107c2f926fd58f90f5c408402120382dbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 30/43] fix: client rejects updates of versions whose VRF
 output it retains

---
 tree/transparency/client.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 28b8ec5..3403e61 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -593,6 +593,16 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	if err != nil {
 		return err
 	}
+	// The VRF output of some new versions might not be in the ladder because
+	// it's already retained.
+	for ver, commitment := range commitments {
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("required version not found")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
 
 	// Verify the proof.
 	if err := v.updateView(); err != nil {
-- 
2.43.0


From dac6532837de05b684161ec3bae873502382e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 31/43] fix: client can end up with a monitoring map that the
 server refuses

---
 tree/transparency/client_crypto.go | 49 +++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 0f8c382..9aecea9 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"bytes"
 	"errors"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/log"
@@ -350,23 +351,22 @@ func computeCommitment(
 
 // simplifyMonitoringMap removes any redundant entries from the map `ptrs`.
 func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
-	for {
-		modified := false
-
-		for pos, ver := range ptrs {
-			path := math.RightDirectPath(pos, n)
-			if len(path) == 0 {
-				continue
-			} else if parent, ok := ptrs[path[0]]; !ok || parent < ver {
-				continue
-			}
-			delete(ptrs, pos)
-			modified = true
-		}
-
-		if !modified {
-			return
+	// Going from left to right, an entry is always compared to the next one on
+	// its direct path before that one is possibly removed itself.
+	positions := make([]uint64, 0, len(ptrs))
+	for pos := range ptrs {
+		positions = append(positions, pos)
+	}
+	slices.Sort(positions)
+
+	for _, pos := range positions {
+		path := math.RightDirectPath(pos, n)
+		if len(path) == 0 {
+			continue
+		} else if parent, ok := ptrs[path[0]]; !ok || parent < ptrs[pos] {
+			continue
 		}
+		delete(ptrs, pos)
 	}
 }
 
@@ -380,10 +380,23 @@ func updateContactState(
 ) (uint64, error) {
 	contact := algorithms.NewContactState(state.Contact)
 
+	// covered returns true if the map contains an entry that will be monitored
+	// at `pos` and makes monitoring `ver` there redundant. Without this, the map
+	// wouldn't be in ascending order by version.
+	covered := func(pos uint64) bool {
+		for _, entry := range state.Contact {
+			if entry.Position == pos && entry.Version > ver {
+				return true
+			} else if entry.Position < pos && entry.Version >= ver {
+				return true
+			}
+		}
+		return false
+	}
+
 	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
 	for _, pos := range path {
-		posVer, ok := contact.Ptrs[pos]
-		if ok && posVer > ver {
+		if covered(pos) {
 			break
 		}
 		contact.Ptrs[pos] = ver
-- 
2.43.0


From d844cc0d3b9bfa8c1cd9432e1a939c5ba616741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 32/43] fix: response to an outdated request can roll back the
 client's state

---
 tree/transparency/client.go | 61 +++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 3403e61..70aaba5 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -3,6 +3,7 @@ package transparency
 import (
 	"bytes"
 	"errors"
+	"slices"
 
 	"github.com/Bren2010/katie/db"
 	"github.com/Bren2010/katie/tree/transparency/algorithms"
@@ -114,6 +115,42 @@ func (c *Client) putLabelState(
 	return c.tx.PutLabelState(raw, label, rawLabel, terminal)
 }
 
+// verifyState returns an error if the stored state is no longer `state`, which is
+// what a request was based on. Processing the response to such a request could
+// otherwise replace a tree head that was accepted in the meantime with an older
+// or inconsistent one.
+func (c *Client) verifyState(state *structs.ClientState) error {
+	stored, err := c.getState()
+	if err != nil {
+		return err
+	} else if stored == nil && state == nil {
+		return nil
+	} else if stored == nil || state == nil ||
+		stored.TreeHead.TreeSize != state.TreeHead.TreeSize ||
+		!bytes.Equal(stored.TreeHead.Signature, state.TreeHead.Signature) {
+		return errors.New("another response was processed since this request was made")
+	}
+	return nil
+}
+
+// verifyLabelState is like verifyState, for the state specific to `label`.
+func (c *Client) verifyLabelState(label []byte, state *structs.ClientLabelState) error {
+	stored, err := c.getLabelState(label)
+	if err != nil {
+		return err
+	}
+	ok := slices.Equal(stored.Contact, state.Contact) && (stored.Owner == nil) == (state.Owner == nil)
+	if ok && state.Owner != nil {
+		ok = stored.Owner.Starting == state.Owner.Starting &&
+			stored.Owner.VerAtStarting == state.Owner.VerAtStarting &&
+			slices.Equal(stored.Owner.UpcomingVers, state.Owner.UpcomingVers)
+	}
+	if !ok {
+		return errors.New("another response for this label was processed since this request was made")
+	}
+	return nil
+}
+
 // GreatestVersionSearch returns a SearchRequest for the greatest version of
 // `label` and a function to verify the corresponding SearchResponse.
 func (c *Client) GreatestVersionSearch(label []byte) (
@@ -149,6 +186,9 @@ func (c *Client) search(
 	req *structs.SearchRequest,
 ) VerifyFunc[*structs.SearchResponse] {
 	return func(res *structs.SearchResponse) error {
+		if err := c.verifyState(state); err != nil {
+			return err
+		}
 		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Search)
 		if err != nil {
 			return err
@@ -272,6 +312,11 @@ func (c *Client) ownerInit(
 	req *structs.OwnerInitRequest,
 ) VerifyFunc[*structs.OwnerInitResponse] {
 	return func(res *structs.OwnerInitResponse) error {
+		if err := c.verifyState(state); err != nil {
+			return err
+		} else if err := c.verifyLabelState(req.Label, labelState); err != nil {
+			return err
+		}
 		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Init)
 		if err != nil {
 			return err
@@ -382,6 +427,11 @@ func (c *Client) contactMonitor(
 		if !ok {
 			return errors.New("expected contact monitor response, unexpected value received")
 		}
+		if err := c.verifyState(state); err != nil {
+			return err
+		} else if err := c.verifyLabelState(req.Label, labelState); err != nil {
+			return err
+		}
 
 		// Verify the proof.
 		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Monitor)
@@ -432,6 +482,11 @@ func (c *Client) ownerMonitor(
 		if !ok {
 			return errors.New("expected owner monitor response, unexpected value received")
 		}
+		if err := c.verifyState(state); err != nil {
+			return err
+		} else if err := c.verifyLabelState(req.Label, labelState); err != nil {
+			return err
+		}
 
 		// Verify the proof.
 		v, err := newVerifier(c.config, state, req.Last, res.FullTreeHead, res.Monitor)
@@ -555,6 +610,12 @@ func (sv *StreamVerifier) verifyValues(
 // Verify processes the given UpdateResponse. If it returns an error, the
 // StreamVerifier is invalidated and should no longer be used.
 func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
+	if err := sv.client.verifyState(sv.state); err != nil {
+		return err
+	} else if err := sv.client.verifyLabelState(sv.req.Label, sv.labelState); err != nil {
+		return err
+	}
+
 	var (
 		startVer    uint32
 		commitments map[uint32][]byte
-- 
2.43.0


From 828f64a3d051d931633f7218356a51f4086540c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 33/43] fix: monitoring of one label is recommended again
 forever

After a label was monitored up to the rightmost distinguished log entry, it was
stored with that entry as its terminal log entry and so counted as stale
immediately. Monitor never returned nil, and other labels could be starved.
---
 tree/transparency/client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 70aaba5..ef54808 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -95,6 +95,9 @@ func (c *Client) putState(updated *structs.ClientState) error {
 	return c.tx.PutState(raw)
 }
 
+// putLabelState stores the global and label-specific state. Monitoring the label
+// is recommended again once there is a distinguished log entry at or to the right
+// of `terminal`.
 func (c *Client) putLabelState(
 	updated *structs.ClientState,
 	label []byte,
@@ -365,7 +368,7 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, req.Start)
+		return c.putLabelState(updated, req.Label, labelState, req.Start+1)
 	}
 }
 
@@ -468,7 +471,7 @@ func (c *Client) contactMonitor(
 			return errors.New("unable to compute rightmost distinguished log entry")
 		}
 
-		return c.putLabelState(updated, req.Label, labelState, *terminal)
+		return c.putLabelState(updated, req.Label, labelState, *terminal+1)
 	}
 }
 
@@ -519,7 +522,7 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting)
+		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting+1)
 	}
 }
 
@@ -691,5 +694,5 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting)
+	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting+1)
 }
-- 
2.43.0


From 52c2c4f761a19bed3f9b034b3bb8cdb09214979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:14 +0000
Subject: [PATCH 34/43] fix: contact monitoring of an older version replaces
 that of a newer one

---
 tree/transparency/algorithms/monitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index 987edca..22a5a26 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -264,7 +264,8 @@ func (m *Monitor) ContactMonitor() error {
 		if err != nil {
 			return err
 		} else if updated != nil {
-			ptrs[*updated] = ver
+			// A greater version might already be monitored from there.
+			ptrs[*updated] = max(ptrs[*updated], ver)
 		}
 	}
 
-- 
2.43.0


From 58fb1fa78e2be34d798925fb14435128a505af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 35/43] fix: client can end up with a monitoring map that the
 server refuses after an update

---
 tree/transparency/algorithms/monitor.go | 18 ++++++++++++++++++
 tree/transparency/algorithms/update.go  |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index 22a5a26..29be2d2 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -24,6 +24,24 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 	return &ContactState{Ptrs: ptrs}
 }
 
+// add adds `ver` to the map as having been proven to exist at `x`, which is the
+// log entry that it was created in. The map is kept in ascending order by both
+// position and version: entries to the right of `x` might already exist if the
+// user looked the label up.
+func (cs *ContactState) add(x uint64, ver uint32) {
+	for pos, other := range cs.Ptrs {
+		if pos > x && other == ver { // Was already proven to exist further along.
+			return
+		}
+	}
+	for pos, other := range cs.Ptrs {
+		if pos > x && other < ver {
+			delete(cs.Ptrs, pos)
+		}
+	}
+	cs.Ptrs[x] = ver
+}
+
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
 	if cs == nil { // No monitoring is required.
 		return nil
diff --git a/tree/transparency/algorithms/update.go b/tree/transparency/algorithms/update.go
index 91f4097..dfca164 100644
--- a/tree/transparency/algorithms/update.go
+++ b/tree/transparency/algorithms/update.go
@@ -187,7 +187,7 @@ func (m *Monitor) Update(pos uint64, versions int) error {
 		if m.Contact == nil {
 			m.Contact = &ContactState{Ptrs: make(map[uint64]uint32)}
 		}
-		m.Contact.Ptrs[pos] = endVer
+		m.Contact.add(pos, endVer)
 	}
 
 	// Retain the position of the new versions for later verification.
-- 
2.43.0


From 1dd27702aae87a2d77b7a1e75133a035dd5463d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 36/43] fix: update that advertises a version that does not
 exist is applied but not answered

---
 tree/transparency/update.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index c11669f..81f47e9 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -107,11 +107,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	u.label = req.Label
 	u.values = values
 	u.index = index
-	u.ver = 0
-	if req.GreatestVersion != nil {
-		u.ver = int(*req.GreatestVersion) + 1
-	}
-	return nil
+	return u.setGreatestVersion(req.GreatestVersion)
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
@@ -143,9 +139,18 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	u.signedVer = &req.SignedVersion
 	u.values = req.Values
 	u.index = index
+	return u.setGreatestVersion(req.GreatestVersion)
+}
+
+// setGreatestVersion sets the next version that the user needs to be informed
+// about, where `greatest` is the greatest version they know of (if any).
+func (u *updater) setGreatestVersion(greatest *uint32) error {
 	u.ver = 0
-	if req.GreatestVersion != nil {
-		u.ver = int(*req.GreatestVersion) + 1
+	if greatest != nil {
+		u.ver = int(*greatest) + 1
+	}
+	if u.ver > len(u.index) {
+		return errors.New("version advertised is greater than known greatest version")
 	}
 	return nil
 }
-- 
2.43.0


From 7072e3e183c07b59aa21858d5ef8358b80eb9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 37/43] fix: refuse manager updates unless third-party
 management is configured

The leaf public key is nil in other modes, so the server crashed.
---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 81f47e9..e4a4aa1 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -111,6 +111,10 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
+	if u.tree.config.Mode != structs.ThirdPartyManagement {
+		return errors.New("transparency tree is not configured with third party manager")
+	}
+
 	// Verify service operator signatures.
 	for i, val := range req.Values {
 		tbs, err := structs.Marshal(&structs.UpdateTBS{
-- 
2.43.0


From 19d37847db4b598ac1c10979b40153c72905b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 38/43] fix: auditor accepts a first update whose prefix tree
 was not empty

---
 tree/transparency/auditor/auditor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..31e7dd7 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -225,12 +225,16 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	}
 
 	// Compute the root value of the previous prefix tree. Verify that it
-	// matches the auditor's state. Compute the new root value for the prefix
-	// tree.
+	// matches the auditor's state, or is the root of an empty tree if this is
+	// the first update. Compute the new root value for the prefix tree.
+	expected := make([]byte, a.config.Suite.HashSize())
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	} else if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From 26eda7db352f02f1eb05454ed0b7452cc36e2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 39/43] fix: auditor forgets recent insertions with the next
 update

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 31e7dd7..ee5769a 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From fbdaf256710c0b19d190f55e76fff21777f90e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 40/43] fix: auditor releases a signature although storing its
 state failed

---
 tree/transparency/auditor/auditor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index ee5769a..d78131c 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -267,18 +267,22 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	signature, err := a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
+	state := *a.state
+	state.TreeHead.Signature = signature
 
-	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	// Serialize the auditor's state and commit it to the database. The signature
+	// is only retained once this succeeds.
+	raw, err := state.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &state
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From a8d75dbe67c04ecd40f00602065dc2753873bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 41/43] fix: operator's version counter skips a version of
 every new label

---
 db/memory/memory.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..fae760d 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -228,10 +228,9 @@ func NewManagedLogStore() *ManagedLogStore {
 func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
 	labelStr := fmt.Sprintf("%x", label)
 
-	ver, ok := mls.Data[labelStr]
-	mls.Data[labelStr] += count
-	if !ok {
-		return -1, nil
-	}
-	return ver, nil
+	// Data is the number of versions of the label that exist, which is one more
+	// than its greatest version.
+	total := mls.Data[labelStr]
+	mls.Data[labelStr] = total + count
+	return total - 1, nil
 }
-- 
2.43.0


From 13d647301f508ee14a3d3971983443bc01d939f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 42/43] fix: operator's version counter is not atomic

---
 db/memory/memory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index fae760d..75637ca 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -4,6 +4,7 @@ package memory
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/Bren2010/katie/db"
 )
@@ -219,6 +220,8 @@ func (as *AuditorStore) PutState(raw []byte) error {
 
 type ManagedLogStore struct {
 	Data map[string]int
+
+	mu sync.Mutex
 }
 
 func NewManagedLogStore() *ManagedLogStore {
@@ -228,6 +231,9 @@ func NewManagedLogStore() *ManagedLogStore {
 func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
 	labelStr := fmt.Sprintf("%x", label)
 
+	mls.mu.Lock()
+	defer mls.mu.Unlock()
+
 	// Data is the number of versions of the label that exist, which is one more
 	// than its greatest version.
 	total := mls.Data[labelStr]
-- 
2.43.0


From 14729d249621e941ebdc252e8832ff2c879bef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 43/43] fix: reader can combine a tree head with a newer
 auditor tree head

---
 db/leveldb.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 83de8bd..cb4da4c 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -31,13 +31,19 @@ func newLDBConn(conn *leveldb.DB, readonly bool) *ldbConn {
 }
 
 func (c *ldbConn) Get(key string) ([]byte, error) {
+	return c.getFrom(c.conn, key)
+}
+
+// getFrom returns the value that is going to be committed for the given key or,
+// if there is none, the one stored in `r`, which may be a snapshot.
+func (c *ldbConn) getFrom(r leveldb.Reader, key string) ([]byte, error) {
 	if value, ok := c.batch[key]; ok {
 		if value == nil {
 			return nil, leveldb.ErrNotFound
 		}
 		return dup(value), nil
 	}
-	return c.conn.Get([]byte(key), nil)
+	return r.Get([]byte(key), nil)
 }
 
 func (c *ldbConn) Put(key string, value []byte) {
@@ -86,13 +92,21 @@ func (ldb *ldbTransparencyStore) Clone() TransparencyStore {
 }
 
 func (ldb *ldbTransparencyStore) GetTreeHead() ([]byte, []byte, error) {
-	treeHead, err := ldb.conn.Get(leveldbTreeHeadKey)
+	// Both tree heads are read from one snapshot. A commit in between would
+	// otherwise combine an old tree head with a newer auditor tree head.
+	snapshot, err := ldb.conn.conn.GetSnapshot()
+	if err != nil {
+		return nil, nil, err
+	}
+	defer snapshot.Release()
+
+	treeHead, err := ldb.conn.getFrom(snapshot, leveldbTreeHeadKey)
 	if err == leveldb.ErrNotFound {
 		return nil, nil, nil
 	} else if err != nil {
 		return nil, nil, err
 	}
-	auditor, err := ldb.conn.Get("auditor-tree-head")
+	auditor, err := ldb.conn.getFrom(snapshot, "auditor-tree-head")
 	if err != leveldb.ErrNotFound && err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0

