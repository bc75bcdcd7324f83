From a14d695eb5f1eed773eca14469601492b7acf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 01/29] fix: blake2b proof element with arity 256 wrote
 children 0 and 1 twice, making the proof unparsable

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..f31f2f5 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From 712d2fd246976f183c8069d213c43d1b1da75f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 02/29] fix: Reconcile ignored the key commitment optimization

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..7a390cb 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -156,14 +156,17 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 	n.pathChanged = false
 }
 
-// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
-func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
+// commitToValue calculates terminal commitment for the key/value pair, taking key commitments optimization into account
+func (tr *Trie) commitToValue(key, value []byte) TCommitment {
 	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
 	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
+// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
+func (tr *Trie) Update(key []byte, value []byte) {
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -442,7 +445,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From 9439dfc0507911eb171b6c04a81ed19c5675db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 03/29] fix: root node with key commitment terminal lost its
 terminal when persisted

---
 trie/node.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..f34020f 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,12 +144,20 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
+	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
+	if optimizeKeyCommitments {
 		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
-		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
+		if model.EqualCommitments(n.n.Terminal, keyCommitment) {
+			if len(n.unpackedKey) > 0 {
+				isKeyCommitment = true
+			} else {
+				// the root node can't take terminal from the key. It can't be taken from the value either:
+				// commitment to the value is not equal to the commitment to the unpacked key
+				skipStoreTerminal = false
+			}
+		}
 	}
 	var buf bytes.Buffer
-	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
 	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal)
 	Assert(err == nil, "trie::bufferedNode::Bytes: %v", err)
 	return buf.Bytes()
-- 
2.43.0


From 20ef0d448f52664c6cf500ff64aa40b0b6211d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 04/29] fix: blake2b proof verification did not bind the proof
 path to the key and panicked on malformed proofs

---
 .../trie_blake2b_verify/verify.go             | 67 ++++++++++++++++---
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..cf12fd2 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,8 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
+			// the vector commits to the empty terminal the same way as to the absent one
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
@@ -51,6 +52,9 @@ func Validate(p *trie_blake2b.Proof, rootBytes []byte) error {
 		}
 		return nil
 	}
+	if err := checkSyntax(p); err != nil {
+		return err
+	}
 	c, err := verify(p, 0, 0)
 	if err != nil {
 		return err
@@ -87,6 +91,32 @@ func CommitmentToTheTerminalNode(p *trie_blake2b.Proof) []byte {
 	return hashIt(p.Path[len(p.Path)-1], nil, p.PathArity, p.HashSize)
 }
 
+// checkSyntax checks if the data of the proof can be interpreted as elements of the vectors to be hashed.
+// The proof normally comes from an untrusted source
+func checkSyntax(p *trie_blake2b.Proof) error {
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return fmt.Errorf("wrong proof: wrong path arity %d", byte(p.PathArity))
+	}
+	switch p.HashSize {
+	case trie_blake2b.HashSize160, trie_blake2b.HashSize256:
+	default:
+		return fmt.Errorf("wrong proof: wrong hash size %d", byte(p.HashSize))
+	}
+	for i, elem := range p.Path {
+		if len(elem.Terminal) > int(p.HashSize) {
+			return fmt.Errorf("wrong proof: terminal commitment is too long. Path position: %d", i)
+		}
+		for idx, c := range elem.Children {
+			if !p.PathArity.IsChildIndex(int(idx)) || len(c) != int(p.HashSize) {
+				return fmt.Errorf("wrong proof: wrong child commitment at index %d. Path position: %d", idx, i)
+			}
+		}
+	}
+	return nil
+}
+
 func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(pathIdx < len(p.Path), "assertion: pathIdx < lenPlus1(p.Path)")
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
@@ -110,21 +140,42 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: proof path does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
 		}
 		return hashIt(elem, c, p.PathArity, p.HashSize), nil
 	}
-	// it is the last in the path
-	if p.PathArity.IsChildIndex(elem.ChildIndex) {
-		c := elem.Children[byte(elem.ChildIndex)]
-		if c != nil {
+	// it is the last in the path. The position of the key in the node must be consistent with what the proof claims
+	switch {
+	case elem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
+		// presence or absence of the terminal: the key must end in the node
+		if len(tail) != len(elem.PathFragment) || !isPrefix {
+			return nil, fmt.Errorf("wrong proof: terminal does not belong to the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+	case elem.ChildIndex == p.PathArity.PathFragmentCommitmentIndex():
+		// absence: the key either diverges from the path fragment or it continues to the absent child
+		if isPrefix {
+			if len(tail) == len(elem.PathFragment) {
+				return nil, fmt.Errorf("wrong proof: the key ends in the node. Path position: %d, key position %d", pathIdx, keyIdx)
+			}
+			if _, ok := elem.Children[tail[len(elem.PathFragment)]]; ok {
+				return nil, fmt.Errorf("wrong proof: unexpected commitment at child index %d. Path position: %d, key position %d",
+					tail[len(elem.PathFragment)], pathIdx, keyIdx)
+			}
+		}
+	case p.PathArity.IsChildIndex(elem.ChildIndex):
+		// absence: the key continues to the absent child
+		if !isPrefix || len(tail) == len(elem.PathFragment) || int(tail[len(elem.PathFragment)]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: proof path does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+		if _, ok := elem.Children[byte(elem.ChildIndex)]; ok {
 			return nil, fmt.Errorf("wrong proof: child commitment of the last element expected to be nil. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
-		return hashIt(elem, nil, p.PathArity, p.HashSize), nil
-	}
-	if elem.ChildIndex != p.PathArity.TerminalCommitmentIndex() && elem.ChildIndex != p.PathArity.PathFragmentCommitmentIndex() {
+	default:
 		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
 			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
 	}
-- 
2.43.0


From 9d3e020286fe8f4dbe992932ff9cd59d3fa3f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 05/29] fix: reading from io.Reader did not handle short reads
 and took truncated key/value stream for the end of it

---
 trie/kv.go   |  4 ++++
 trie/util.go | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/trie/kv.go b/trie/kv.go
index 1097e73..2821160 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -156,6 +156,10 @@ func (b BinaryStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 			return err
 		}
 		v, err := ReadBytes32(b.r)
+		if errors.Is(err, io.EOF) {
+			// key without value: the stream is truncated
+			return io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..6ff5b12 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,15 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readFull fills buf which follows the length prefix. End of data there means the data is truncated
+func readFull(r io.Reader, buf []byte) error {
+	_, err := io.ReadFull(r, buf)
+	if errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,8 +210,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -232,8 +240,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -255,7 +262,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +290,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -306,8 +313,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readFull(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -348,7 +354,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 75786e1994c5f81f40ed5ef60fe3eead6fa3d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 06/29] fix: deserialization of nodes, commitments, proofs and
 trusted setup did not handle short reads

---
 models/trie_blake2b/model.go     | 10 ++--------
 models/trie_blake2b/proof.go     |  4 ++--
 models/trie_kzg_bn256/trusted.go |  2 +-
 trie/nodedata.go                 |  6 +-----
 4 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..351aea0 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -311,14 +310,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	}
 	if l > 0 {
 		t.bytes = make([]byte, l)
-
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f31f2f5..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..7850bf7 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,13 +106,9 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
+	if _, err := io.ReadFull(r, ret); err != nil {
 		return nil, err
 	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
-	}
 	return ret, nil
 }
 
-- 
2.43.0


From 0d04fcdac4086a07bedab408931c254d7ac17b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 07/29] fix: UnDumpFromFile panicked or took truncated file for
 the complete one

---
 trie/util.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index 6ff5b12..c25e49a 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -151,13 +151,15 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	}
 	defer func() { _ = file.Close() }()
 
-	var k, v []byte
-	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		k, v, err := readKV(file)
+		if errors.Is(err, io.EOF) {
 			break
 		}
+		if err != nil {
+			return n, err
+		}
 		n += len(k) + len(v) + 6
 		w.Set(k, v)
 	}
@@ -175,17 +177,21 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair. The error is io.EOF if there's no more data,
+// any other error means the pair can't be read, for example because the data is truncated
+func readKV(r io.Reader) ([]byte, []byte, error) {
 	k, err := ReadBytes16(r)
-	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+	if err != nil {
+		return nil, nil, err
 	}
 	v, err := ReadBytes32(r)
+	if errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
-		panic(err)
+		return nil, nil, err
 	}
-	return k, v, false
+	return k, v, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From af102ad788bf86586c411d968c5402b4ce901cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 08/29] fix: decoding of malformed packed keys and of proofs
 with wrong arity panicked

---
 models/trie_blake2b/proof.go | 5 +++++
 trie/encode.go               | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..1e03c3b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
diff --git a/trie/encode.go b/trie/encode.go
index 8712103..ae419ca 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -47,7 +47,7 @@ func decode16(data []byte) ([]byte, error) {
 	if len(data) == 0 {
 		return nil, ErrEmpty
 	}
-	if data[0] > 1 {
+	if data[0] > 1 || int(data[0]) > len(data)-1 {
 		return nil, ErrWrongFormat
 	}
 	ret := make([]byte, 0, len(data)*2)
@@ -117,8 +117,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From db904330d372006c182e0d6959bc07da8bd1f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 09/29] fix: HiveKVStoreAdaptor.Has reported I/O error as
 absence of the key

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..99a6bfb 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From 409a44b51c25b96e85d40dcfa7d2a4591ffa7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 10/29] fix: KZG proof validation panicked on or accepted wrong
 vector indices in the path

---
 models/trie_kzg_bn256/proof.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..cc0f589 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -133,10 +133,14 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
-		if p.Path[i].VectorIndex < 256 {
+		last := i == len(p.Path)-1
+		switch {
+		case !last && p.Path[i].VectorIndex < 256:
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
-		} else {
+		case last && p.Path[i].VectorIndex == 256:
 			val = p.Terminal
+		default:
+			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
 		}
 		if !Model.verify(p.Path[i].C, p.Path[i].Proof, val, int(p.Path[i].VectorIndex)) {
 			return xerrors.New(fmt.Sprintf("proof is invalid at path position %d", i))
-- 
2.43.0


From fd567b7cb80fc71a98b99323eecdd55198fb27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 11/29] fix: trusted setup with natural domain couldn't be read
 back

---
 models/trie_kzg_bn256/trusted.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..c8adfb7 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -133,6 +133,9 @@ func TrustedSetupFromBytes(suite *bn256.Suite, data []byte) (*TrustedSetup, erro
 	for i := range ret.AprimeDomainI {
 		ret.aprime(i, ret.AprimeDomainI[i])
 	}
+	if ret.Omega.Equal(ret.ZeroG1) {
+		ret.precalculate()
+	}
 	return ret, nil
 }
 
@@ -284,7 +287,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// omega == 0 means natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From bc3e41a9bab8f4680ac8c1b67ec97cbb4842e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 12/29] fix: trie and batched updater retained key and value
 slices of the caller

---
 hive_adaptor/hiveadaptor.go | 3 ++-
 trie/encode.go              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 99a6bfb..b186e0e 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -127,7 +127,8 @@ func newBatchWriter(b kvstore.BatchedMutations, prefix []byte) batchWriter {
 func (b batchWriter) Set(key, value []byte) {
 	var err error
 	if len(value) > 0 {
-		err = b.batch.Set(makeKey(b.prefix, key), value)
+		// the batch retains the value until commit, while the caller may reuse the slice
+		err = b.batch.Set(makeKey(b.prefix, key), append(make([]byte, 0, len(value)), value...))
 	} else {
 		err = b.batch.Delete(makeKey(b.prefix, key))
 	}
diff --git a/trie/encode.go b/trie/encode.go
index ae419ca..502734c 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -130,10 +130,11 @@ func decode2(data []byte) ([]byte, error) {
 	return ret, nil
 }
 
+// UnpackBytes always returns a copy. The slice belongs to the caller, who may reuse it, while trie retains unpacked keys
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		return append(make([]byte, 0, len(src)), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
-- 
2.43.0


From 4f4beaa3185fd533b41163bc2e19f7a9697a91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 13/29] fix: WriteBytes8 wrote 256 bytes of data with zero
 length prefix

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index c25e49a..fe6364b 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -223,7 +223,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From 4eeccb2ec5432aa751344e99bc098312f363fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 14/29] fix: Reconcile panicked on the empty trie

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 7a390cb..9e9564c 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -439,7 +439,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From e7dd6c59f013dfe4dc590c70294dbcd41b387906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 15/29] fix: KZG ProofOfInclusion panicked for absent key which
 ends in a branching node

---
 models/trie_kzg_bn256/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index cc0f589..abb1de6 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -88,6 +88,11 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		}
 	}
 
+	if nodes[proofLength-1].Terminal == nil {
+		// the key ends in the node which does not commit to any value: key is not present in the state
+		return nil, false
+	}
+
 	for i, n := range nodes {
 		ret.Path[i].C = m.calcNodeCommitment(n).Point
 		//if i == 0 || i == proofLength-1 {
-- 
2.43.0


From 0dd06f03c355b162138e0703862db66551180c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:53 +0000
Subject: [PATCH 16/29] fix: ReadBytes32 allocated up to 4 GB for the length
 claimed by damaged data

---
 trie/util.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index fe6364b..731b4ce 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -207,6 +207,30 @@ func readFull(r io.Reader, buf []byte) error {
 	return err
 }
 
+// maxPrealloc is the maximum size of the buffer which is allocated in advance
+const maxPrealloc = 1 << 20
+
+// readBytes reads data of the given length. The length comes from the stream and can't be trusted, so the memory which
+// is allocated is proportional to the data actually available, not to the length claimed
+func readBytes(r io.Reader, length int64) ([]byte, error) {
+	if length <= maxPrealloc {
+		ret := make([]byte, length)
+		if err := readFull(r, ret); err != nil {
+			return nil, err
+		}
+		return ret, nil
+	}
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, length)
+	if errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -315,14 +339,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if length == 0 {
-		return []byte{}, nil
-	}
-	ret := make([]byte, length)
-	if err = readFull(r, ret); err != nil {
-		return nil, err
-	}
-	return ret, nil
+	return readBytes(r, int64(length))
 }
 
 func WriteBytes32(w io.Writer, data []byte) error {
-- 
2.43.0


From 4245ab17ea0cdd6479059b9d2550c338c22dd2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 17/29] fix: Reconcile returned slices of the iterator, which
 may reuse them

---
 trie/trie.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9e9564c..b30ec32 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -437,20 +437,24 @@ func (tr *Trie) VectorCommitmentFromBytes(data []byte) (VCommitment, error) {
 // May be an expensive operation
 func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
+	report := func(k []byte) {
+		// the slice belongs to the iterator, which may reuse it
+		ret = append(ret, append([]byte{}, k...))
+	}
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
 		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-				ret = append(ret, k)
+				report(k)
 			} else {
 				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
-					ret = append(ret, k)
+					report(k)
 				}
 			}
 		} else {
-			ret = append(ret, k)
+			report(k)
 		}
 		return true
 	})
-- 
2.43.0


From 5c3153886d26cc8db88cf00064d1d76e00267834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 18/29] fix: DumpToFile ignored the error of closing the file

---
 trie/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trie/util.go b/trie/util.go
index 731b4ce..3238e83 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -118,6 +118,7 @@ func DumpToFile(r KVIterator, fname string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	// the deferred call only matters if the iterator panics: the second Close has no effect
 	defer func() { _ = file.Close() }()
 
 	var bytesTotal int
@@ -130,6 +131,10 @@ func DumpToFile(r KVIterator, fname string) (int, error) {
 		bytesTotal += n
 		return true
 	})
+	// failed close may mean the data is not written
+	if errc := file.Close(); err == nil {
+		err = errc
+	}
 	return bytesTotal, err
 }
 
-- 
2.43.0


From 45d78537cd786299417a33352c41e3963685aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 19/29] fix: GetNode retained the key slice of the caller in
 the cache

---
 trie/node.go      | 5 +++--
 trie/nodestore.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index f34020f..97dace6 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -56,8 +56,9 @@ func nodeReadOnlyFromBytes(model CommitmentModel, data, unpackedKey []byte, arit
 		return nil, err
 	}
 	return &nodeReadOnly{
-		n:   *ret,
-		key: unpackedKey,
+		n: *ret,
+		// the slice belongs to the caller, who may reuse it
+		key: append([]byte(nil), unpackedKey...),
 	}, nil
 }
 
diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..f0ef9e8 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -92,7 +92,7 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	ret = newBufferedNode(n.key)
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From d4999cb1e0bda064f33bca56a30ef010edebb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 20/29] fix: KZG proof of inclusion retained the key slice of
 the caller

---
 models/trie_kzg_bn256/proof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index abb1de6..e6573bf 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -55,7 +55,8 @@ func ProofOfInclusionFromBytes(data []byte) (*ProofOfInclusion, error) {
 func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*ProofOfInclusion, bool) {
 	trie.Assert(tr.PathArity() == trie.PathArity256, "for KZG commitment model only 256-ary trie is supported")
 
-	proofGeneric := trie.GetProofGeneric(tr, key)
+	// always a copy: the key is retained in the proof, while the slice belongs to the caller
+	proofGeneric := trie.GetProofGeneric(tr, trie.UnpackBytes(key, tr.PathArity()))
 	if proofGeneric == nil || len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal {
 		// key is not present in the state
 		return nil, false
-- 
2.43.0


From 4ad845a261521962bf59a382d51d89acf7475c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 21/29] fix: the in-memory store retained the value slice of
 the caller

---
 trie/kv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/kv.go b/trie/kv.go
index 2821160..51c9194 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -74,7 +74,8 @@ func (im inMemoryKVStore) Iterate(f func(k []byte, v []byte) bool) {
 
 func (im inMemoryKVStore) Set(k, v []byte) {
 	if len(v) != 0 {
-		im[string(k)] = v
+		// the slice belongs to the caller, who may reuse it
+		im[string(k)] = append(make([]byte, 0, len(v)), v...)
 	} else {
 		delete(im, string(k))
 	}
-- 
2.43.0


From cdb7b69c086defab681211f86c56f36cec59569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 22/29] fix: pack16 checked only every other nibble, wrong ones
 changed the neighbour

---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 502734c..9f02206 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From 5fee5d3dd8be48bc4b6cdd0052042b1a0eaff879 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 23/29] fix: RandStreamIterator counts the pair after which the
 consumer stops

Otherwise each stop and resumption delivers one pair more than NumKVPairs.
---
 trie/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/kv.go b/trie/kv.go
index 51c9194..825b8d2 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -266,10 +266,10 @@ func (r *RandStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 		r.rnd.Read(k)
 		v := make([]byte, r.rnd.Intn(r.par.MaxValue-1)+1)
 		r.rnd.Read(v)
+		r.count++
 		if !fun(k, v) {
 			return nil
 		}
-		r.count++
 	}
 	return nil
 }
-- 
2.43.0


From 7cf502f5b43b090fce8c785039a556df0e3b9773 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 24/29] fix: kzg_setup reports that the Go source file can't be
 written

A failed or partial write or close was ignored, the trusted setup in the file was torn.
---
 models/trie_kzg_bn256/kzg_setup/kzg_setup.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
index 54239e9..87e7c35 100644
--- a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
+++ b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
@@ -88,7 +88,6 @@ func writeToFile(tr *trie_kzg_bn2562.TrustedSetup, fname string) {
 	} else {
 		f, err := os.Create(fname)
 		checkErr(err)
-		defer func() { _ = f.Close() }()
 
 		data := tr.Bytes()
 		dataStr := ""
@@ -109,7 +108,10 @@ func writeToFile(tr *trie_kzg_bn2562.TrustedSetup, fname string) {
 			dataStr += " +\n"
 		}
 		res := strings.Replace(ftemplate, "{{HEX DATA}}", dataStr, 1)
-		_, err = fmt.Fprintf(f, res)
+		_, err = f.WriteString(res)
+		checkErr(err)
+		checkErr(f.Close())
+		fmt.Printf("success. The trusted setup has been generated and saved into the Go source file '%s'\n", fname)
 	}
 }
 
-- 
2.43.0


From ba8f0ba7d420472a8d94cc00f25a6371ff608046 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 25/29] fix: memory needed to load a trusted setup is
 proportional to its size

The size of the domain claimed by the data was trusted: 34 bytes led to the allocation of 35 MB, and for the natural
domain the precalculated tables are quadratic: 192 KB led to 1.7 GB, a size above 32768 to an overflow of the index.
---
 models/trie_kzg_bn256/trusted.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index c8adfb7..db20c1b 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -30,7 +30,7 @@ type TrustedSetup struct {
 	// auxiliary, precalculated values
 	Domain        []kyber.Scalar // non-persistent. if omega != 0, domain_i =  omega^i, otherwise domain_i = i.
 	AprimeDomainI []kyber.Scalar // A'(i)
-	precalc       *precalculated // only not nil if omega == nil (onl for natural domain)
+	precalc       *precalculated // only not nil if omega == nil (onl for natural domain) and the domain is not too large
 	ZeroG1        kyber.Scalar   // aux
 	OneG1         kyber.Scalar   // aux
 }
@@ -276,13 +276,18 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 }
 
 // read unmarshal
-func (sd *TrustedSetup) read(r io.Reader) error {
+func (sd *TrustedSetup) read(r *bytes.Reader) error {
 	var tmp2 [2]byte
 	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
+	d := binary.LittleEndian.Uint16(tmp2[:])
+	// do not allocate memory for the data which is not there
+	if r.Len() < sd.Suite.G1().ScalarLen()+int(d)*(sd.Suite.G1().PointLen()+sd.Suite.G2().PointLen()) {
+		return io.ErrUnexpectedEOF
+	}
 
-	sd.init(binary.LittleEndian.Uint16(tmp2[:]))
+	sd.init(d)
 
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
@@ -331,7 +336,15 @@ func (sd *TrustedSetup) tk(m int, ret kyber.Scalar) kyber.Scalar {
 	return ret
 }
 
+// maxPrecalculatedDomain limits the size of the natural domain for which values are precalculated. The size of tables
+// is quadratic. The size of the domain comes from outside and can't be trusted
+const maxPrecalculatedDomain = 512
+
+// precalculate fills the tables for the natural domain. If the domain is too large, values are calculated when needed
 func (sd *TrustedSetup) precalculate() {
+	if sd.D > maxPrecalculatedDomain {
+		return
+	}
 	sd.precalc = &precalculated{
 		invsub: make([]kyber.Scalar, sd.D*2-1),
 		ta:     make([][]kyber.Scalar, sd.D),
-- 
2.43.0


From 982717e3afdc2989bfa449815a146e9f6f6f9fa7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 26/29] fix: a trusted setup with zero points is refused

A record overwritten with zeros is the point at infinity, it was taken for a valid part of the setup.
---
 models/trie_kzg_bn256/trusted.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index db20c1b..23efd7e 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -47,6 +47,7 @@ var (
 	errWrongSecret = xerrors.New("wrong secret")
 	errNotROU      = xerrors.New("not a root of unity")
 	errWrongROU    = xerrors.New("wrong root of unity")
+	errWrongPoint  = xerrors.New("wrong point in the trusted setup")
 )
 
 func newTrustedSetup(suite *bn256.Suite) *TrustedSetup {
@@ -296,15 +297,23 @@ func (sd *TrustedSetup) read(r *bytes.Reader) error {
 	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
+	// the secret is never in the domain, so none of the points can be zero
+	zero1, zero2 := sd.Suite.G1().Point().Null(), sd.Suite.G2().Point().Null()
 	for i := range sd.LagrangeBasis {
 		if _, err := sd.LagrangeBasis[i].UnmarshalFrom(r); err != nil {
 			return err
 		}
+		if sd.LagrangeBasis[i].Equal(zero1) {
+			return errWrongPoint
+		}
 	}
 	for i := range sd.Diff2 {
 		if _, err := sd.Diff2[i].UnmarshalFrom(r); err != nil {
 			return err
 		}
+		if sd.Diff2[i].Equal(zero2) {
+			return errWrongPoint
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1fc6d72b57fb9bfb44975cb48cc8d17e15d7cf0a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 27/29] fix: adaptors and batched updaters copy their prefixes

They kept the slice of the caller. If it is reused, for example for the prefix of the next partition, partitions of one
database become mixed up.
---
 hive_adaptor/hiveadaptor.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index b186e0e..c72f055 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -16,7 +16,12 @@ type HiveKVStoreAdaptor struct {
 
 // NewHiveKVStoreAdaptor creates a new KVStore as a partition of hive.go KVStore
 func NewHiveKVStoreAdaptor(kvs kvstore.KVStore, prefix []byte) *HiveKVStoreAdaptor {
-	return &HiveKVStoreAdaptor{kvs: kvs, prefix: prefix}
+	return &HiveKVStoreAdaptor{kvs: kvs, prefix: clonePrefix(prefix)}
+}
+
+// clonePrefix copies the prefix: the slice belongs to the caller, who may reuse it
+func clonePrefix(prefix []byte) []byte {
+	return append([]byte(nil), prefix...)
 }
 
 func mustNoErr(err error) {
@@ -92,8 +97,8 @@ func NewHiveBatchedUpdater(kvs kvstore.KVStore, model trie.CommitmentModel, trie
 			NewHiveKVStoreAdaptor(kvs, valueStorePrefix),
 			optimizeKeyCommitments,
 		),
-		triePrefix:       triePrefix,
-		valueStorePrefix: valueStorePrefix,
+		triePrefix:       clonePrefix(triePrefix),
+		valueStorePrefix: clonePrefix(valueStorePrefix),
 	}
 	return ret, nil
 }
-- 
2.43.0


From 786c4821bb158305a6d2a5bbbd3b2f36788cfea3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 28/29] fix: proofs with more elements than their serialization
 can hold are refused

The number of elements was silently truncated to 16 bits, what was written could not be read back.
---
 models/trie_blake2b/proof.go   | 4 ++++
 models/trie_kzg_bn256/proof.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 1e03c3b..07ea572 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -113,6 +114,9 @@ func (p *Proof) Write(w io.Writer) error {
 	if err = trie.WriteBytes16(w, encodedKey); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return errors.New("proof path is too long")
+	}
 	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index e6573bf..4577835 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 	"go.dedis.ch/kyber/v3"
@@ -162,6 +163,9 @@ func (p *ProofOfInclusion) Write(w io.Writer) error {
 	if _, err := p.Terminal.MarshalTo(w); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return xerrors.New("proof path is too long")
+	}
 	if err := trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
-- 
2.43.0


From fd201735516b1c764639c8ed0b6cd142c33f4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 29/29] fix: incremental update of a KZG node commitment
 handles deleted children and does not change commitments in use

---
 models/trie_kzg_bn256/model.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..4cba760 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -177,8 +177,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -204,13 +203,10 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 	}
 	mutate.Terminal = terminal
 	if calcDelta {
-		var prevP kyber.Point
-
-		// update upper commitment by adding calculated delta
+		// update upper commitment by adding calculated delta. The previous commitment is not changed, it may be in use
+		prevP := m.TrustedSetup.Suite.G1().Point().Null()
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
-		} else {
-			prevP = m.TrustedSetup.Suite.G1().Point().Null()
+			prevP.Set((*update).(*vectorCommitment).Point)
 		}
 		elem := m.TrustedSetup.Suite.G1().Point()
 		for i, deltaS := range deltas {
-- 
2.43.0

