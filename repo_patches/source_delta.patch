From f571d9576ef16a71c91e1ec2afabbebda04195a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 01/39] fix: encode transaction inputs with their features

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From 8ea88568ceff17f40aefa7cc5b2460a28933eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 02/39] fix: transfer all eight segments of IPv6 addresses

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From 313c34283a3d9bb6395038b5bb7d6b1574ca9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:33 +0000
Subject: [PATCH 03/39] fix: encode blocks and transactions without reordering
 them

---
 consensus/block.go       | 32 ++++++++++++++++++++------------
 consensus/transaction.go | 16 ++++++++++------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..02970b5 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -99,26 +99,30 @@ func (b *Block) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(b.Inputs)
-	sort.Sort(b.Outputs)
-	sort.Sort(b.Kernels)
+	// The message may be encoded for several peers at once: sort copies.
+	inputs := append(InputList(nil), b.Inputs...)
+	outputs := append(OutputList(nil), b.Outputs...)
+	kernels := append(TxKernelList(nil), b.Kernels...)
+	sort.Sort(inputs)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
 
 	// Write inputs
-	for _, input := range b.Inputs {
+	for _, input := range inputs {
 		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write outputs
-	for _, output := range b.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, txKernel := range b.Kernels {
+	for _, txKernel := range kernels {
 		if _, err := buff.Write(txKernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
@@ -362,26 +366,30 @@ func (b *CompactBlock) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(b.Outputs)
-	sort.Sort(b.Kernels)
-	sort.Sort(b.KernelIDs)
+	// The message may be encoded for several peers at once: sort copies.
+	outputs := append(OutputList(nil), b.Outputs...)
+	kernels := append(TxKernelList(nil), b.Kernels...)
+	kernelIDs := append(ShortIDList(nil), b.KernelIDs...)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
+	sort.Sort(kernelIDs)
 
 	// Write outputs
-	for _, output := range b.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, txKernel := range b.Kernels {
+	for _, txKernel := range kernels {
 		if _, err := buff.Write(txKernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels ids
-	for _, id := range b.KernelIDs {
+	for _, id := range kernelIDs {
 		if _, err := buff.Write(id); err != nil {
 			logrus.Fatal(err)
 		}
diff --git a/consensus/transaction.go b/consensus/transaction.go
index f2a14ee..7f4c87f 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -49,26 +49,30 @@ func (t *Transaction) Bytes() []byte {
 
 	// Consensus rule that everything is sorted in lexicographical order on the wire
 	// consensus rule: input, output, kernels MUST BE sorted!
-	sort.Sort(t.Inputs)
-	sort.Sort(t.Outputs)
-	sort.Sort(t.Kernels)
+	// The message may be encoded for several peers at once: sort copies.
+	inputs := append(InputList(nil), t.Inputs...)
+	outputs := append(OutputList(nil), t.Outputs...)
+	kernels := append(TxKernelList(nil), t.Kernels...)
+	sort.Sort(inputs)
+	sort.Sort(outputs)
+	sort.Sort(kernels)
 
 	// Write inputs
-	for _, input := range t.Inputs {
+	for _, input := range inputs {
 		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write outputs
-	for _, output := range t.Outputs {
+	for _, output := range outputs {
 		if _, err := buff.Write(output.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
 
 	// Write kernels
-	for _, kernel := range t.Kernels {
+	for _, kernel := range kernels {
 		if _, err := buff.Write(kernel.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
-- 
2.43.0


From 44b00bb15f70b721b039b46a0616760fdca7109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:35 +0000
Subject: [PATCH 04/39] fix: bound the number of short ids in a compact block

---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 02970b5..6aed616 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -428,6 +428,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the length.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
-- 
2.43.0


From 496482f94508340aa4d2f3c251c7f894b9d7a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 05/39] fix: bound the length of user agents and error messages

---
 p2p/handshake.go | 8 ++++++++
 p2p/messages.go  | 4 ++++
 p2p/protocol.go  | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..f2a23a4 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,6 +123,10 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > maxStringLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
@@ -210,6 +214,10 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > maxStringLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..c55a059 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,6 +207,10 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
+	if messageLen > maxStringLen {
+		return errors.New("too big error message")
+	}
+
 	buff := make([]byte, messageLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/protocol.go b/p2p/protocol.go
index ba25bf0..b7df4b8 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -14,6 +14,10 @@ import (
 const (
 	// userAgent is name of version of the software
 	userAgent = "gringo v0.0.1"
+
+	// maxStringLen is the maximum length in bytes of a string (user agent,
+	// error message) we're willing to accept
+	maxStringLen = 100000
 )
 
 // Message defines methods for WriteMessage/ReadMessage functions
-- 
2.43.0


From 31722490d2262b50c42d2470151cf5e75cc82628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:39 +0000
Subject: [PATCH 06/39] fix: refuse range proofs shorter than their declared
 length

---
 consensus/block.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 6aed616..77c7409 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -613,10 +613,13 @@ func (o *Output) Read(r io.Reader) error {
 	}
 
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
-	if err != nil {
+	rp := &io.LimitedReader{R: r, N: int64(proofLen)}
+	if err := proof.Read(rp); err != nil {
 		return errors.New("failed to deserialize range proof")
 	}
+	if rp.N != 0 {
+		return fmt.Errorf("invalid range proof length: %d", proofLen)
+	}
 	o.RangeProof = *proof
 
 	return nil
-- 
2.43.0


From d7f8244564e41c075eb72a08a16c7e99ea1313ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:41 +0000
Subject: [PATCH 07/39] fix: refuse proofs of work with a second encoding

---
 consensus/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 2f76a9d..1981579 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -128,6 +128,9 @@ func (p *Proof) Read(r io.Reader) error {
 			offsetBits := uint(i)*nonceLengthBits + bit
 			// If this bit is set in bitvec then set the same bit in the nonce.
 			if bitvec[offsetBits/8]&(1<<(offsetBits%8)) != 0 {
+				if bit >= 32 {
+					return errors.New("invalid pow: too big nonce")
+				}
 				nonce |= 1 << bit
 			}
 		}
@@ -135,6 +138,11 @@ func (p *Proof) Read(r io.Reader) error {
 		p.Nonces[i] = nonce
 	}
 
+	// The unused bits of the last byte must be zero.
+	if unused := bitvecLengthBits % 8; unused != 0 && bitvec[len(bitvec)-1]>>unused != 0 {
+		return errors.New("invalid pow: non-zero padding")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 81c2332459f7676906c55a9856ae1627e26e03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 08/39] fix: consume the whole frame of a message

---
 p2p/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/protocol.go b/p2p/protocol.go
index b7df4b8..4921e2f 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"github.com/dblokhin/gringo/consensus"
 	"io"
+	"io/ioutil"
 )
 
 const (
@@ -75,5 +76,11 @@ func ReadMessage(r io.Reader, msg Message) (uint64, error) {
 	}
 
 	rb := io.LimitReader(r, int64(header.Len))
-	return uint64(consensus.HeaderLen) + uint64(header.Len), msg.Read(rb)
+	if err := msg.Read(rb); err != nil {
+		return uint64(consensus.HeaderLen) + uint64(header.Len), err
+	}
+
+	// skip what the message didn't use, the next one starts after it
+	_, err := io.Copy(ioutil.Discard, rb)
+	return uint64(consensus.HeaderLen) + uint64(header.Len), err
 }
-- 
2.43.0


From 37182f0e829058b74a6855b528b3f0ca34cc21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 09/39] fix: send the genesis hash in the shake

---
 p2p/handshake.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index f2a23a4..4bdc73a 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -292,6 +292,7 @@ func handByShake(conn net.Conn) (*hand, error) {
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         chain.Testnet4.Hash(),
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From 98681be4b605cc54ae0b8503808e5f4154baa921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 10/39] fix: accept simple cycles only in proofs of work

---
 cuckoo/cuckoo.go | 59 +++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..e2cf16f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -14,56 +14,49 @@ import (
 type Edge struct {
 	U uint64
 	V uint64
-
-	usedU bool
-	usedV bool
 }
 
-// findCycleLength attempts to walk the given edges and returns the length of
-// the cycle.
+// findCycleLength walks the given edges from the first one, alternating between
+// the partitions, and returns the length of the cycle that leads back to it. It
+// returns 0 if the walk meets a vertex that doesn't join exactly two edges.
 func findCycleLength(edges []*Edge) int {
-	i := 0     // first node
+	i := 0     // current edge
 	cycle := 0 // the current length of the cycle
 
-loop:
 	for {
 		// If the current cycle length is even we need to look for an edge from
 		// U -> V.
 		vertexInUPartition := cycle&1 == 0
 
-		if vertexInUPartition {
-			// Find an unused edge that connects to the current vertex.
-			for j := range edges {
-				if j != i && !edges[j].usedU && edges[i].U == edges[j].U {
-					edges[i].usedU = true
-					edges[j].usedU = true
-
-					i = j
-					cycle++
-
-					continue loop
-				}
+		// Find the only other edge that connects to the current vertex.
+		next := i
+		for j := range edges {
+			if j == i {
+				continue
 			}
-		} else {
-			// Find an unused edge that connects to the current vertex.
-			for j := range edges {
-				if j != i && !edges[j].usedV && edges[i].V == edges[j].V {
-					edges[i].usedV = true
-					edges[j].usedV = true
-
-					i = j
-					cycle++
 
-					continue loop
+			if vertexInUPartition && edges[i].U == edges[j].U ||
+				!vertexInUPartition && edges[i].V == edges[j].V {
+				if next != i {
+					return 0
 				}
+
+				next = j
 			}
 		}
 
-		// If we didn't find a match for this vertex then we're done.
-		break
-	}
+		// If we didn't find a match for this vertex then it's a dead end.
+		if next == i {
+			return 0
+		}
+
+		i = next
+		cycle++
 
-	return cycle
+		if i == 0 {
+			return cycle
+		}
+	}
 }
 
 // New returns a new instance of a Cuckoo cycle verifier. key is the data used
-- 
2.43.0


From 621706bdf3dc218348db465de9edb80882b06688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 11/39] fix: require the full proof size of a proof of work

---
 consensus/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 1981579..c6308b3 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -32,6 +32,10 @@ var (
 func (p *Proof) Validate(header *BlockHeader, cuckooSize uint8) error {
 	logrus.Infof("block POW validate for size %d", cuckooSize)
 
+	if len(header.POW.Nonces) != ProofSize {
+		return errInvalidPow
+	}
+
 	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
 	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
 		return nil
-- 
2.43.0


From cc6f9731d0976c4396500c40ff89155cb96820f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 12/39] fix: do not divide by zero in the difficulty of a hash

---
 consensus/difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..8f88cb1 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -31,6 +31,9 @@ func (d Difficulty) FromHash(hash Hash) Difficulty {
 
 	// Use the first 64 bits of the given hash
 	num := binary.BigEndian.Uint64(hash[:8])
+	if num == 0 {
+		num = 1
+	}
 
 	return Difficulty(maxTarget / num)
 }
-- 
2.43.0


From 8667a72233599d10c9df75a8cc63f92eeb2d9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:57 +0000
Subject: [PATCH 13/39] fix: refuse block times in the far future

---
 consensus/block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index 77c7409..1c0e71c 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -1018,7 +1018,8 @@ func (b *BlockHeader) Validate() error {
 	}
 
 	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
-	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
+	// (compare seconds: durations saturate for timestamps in the far future)
+	if b.Timestamp.Unix() > time.Now().Unix()+12*int64(BlockTimeSec) {
 		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
 	}
 
-- 
2.43.0


From d2d9cb20aa1788e68dfda16b5028928f57a91428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:22 +0000
Subject: [PATCH 14/39] fix: sign with a nonce whose point can be serialised

---
 secp256k1zkp/schnorr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..543ffe1 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// Only the x-coordinate of R is serialised, y is taken to be a quadratic
+	// residue: use the opposite nonce if it isn't.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R = ScalarMulPoint(&G, k)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
-- 
2.43.0


From 9ae66f45d021ea0095800580e3ad63e45d5c13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:24 +0000
Subject: [PATCH 15/39] fix: verify signatures on the curve, in range and in
 both coordinates

---
 secp256k1zkp/schnorr.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 543ffe1..e9a3501 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -103,6 +103,12 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 // VerifySignature returns true if the given signature was computed by signing
 // message with the private key for publicKey.
 func VerifySignature(publicKey Point, message [32]byte, signature Signature) bool {
+	// The arithmetic below is sound for points of the curve only.
+	if !IsOnCurve(&publicKey) || !IsOnCurve(&signature.R) ||
+		signature.S.Cmp(btcec.S256().N) >= 0 {
+		return false
+	}
+
 	Rx := GetB32(signature.R.X)
 	compressedPubkey := CompressPubkey(publicKey)
 
@@ -117,7 +123,14 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	return lhs.Equals(rhs)
+}
+
+// IsOnCurve returns true if p is a point of the secp256k1 curve with both
+// coordinates reduced.
+func IsOnCurve(p *Point) bool {
+	curve := btcec.S256()
+	return p.X.Cmp(curve.P) < 0 && p.Y.Cmp(curve.P) < 0 && curve.IsOnCurve(p.X, p.Y)
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From 0014a725707e6bad860063270e1775d7ced60545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 16/39] fix: verify the signatures of all kernels of a block

---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 1c0e71c..5fec2ec 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -283,11 +283,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 4a13cb3b81b1bdb1fec3af16e9a42e9b4ec26847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 17/39] fix: refuse outputs whose commitment is not a curve
 point

---
 consensus/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 5fec2ec..89d9b9b 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -321,6 +321,10 @@ func (b *Block) verifyRangeProofs() error {
 	// TODO(yoss22): Batch verify these.
 	prover := bulletproofs.NewProver(64)
 	for _, output := range b.Outputs {
+		if !secp256k1zkp.IsOnCurve(output.Commit) {
+			return fmt.Errorf("commitment is not a curve point: %v", output.Commit)
+		}
+
 		if !prover.Verify(output.Commit, output.RangeProof) {
 			return fmt.Errorf("proof verification failed for %v %v",
 				output.Commit, output.RangeProof)
-- 
2.43.0


From d74df3b3165a6d4d6f3bb09bf62b84e95ecf57e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 18/39] fix: retarget over seconds, with both bounds, from
 longer lists

---
 consensus/consensus.go  | 2 +-
 consensus/difficulty.go | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..9be3713 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -109,5 +109,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 8f88cb1..925e766 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -79,8 +79,6 @@ func NextDifficulty(blist BlockList) Difficulty {
 		} else {
 			if i < DifficultyAdjustWindow+MedianTimeWindow {
 				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
-			} else {
-				break
 			}
 		}
 	}
@@ -103,7 +101,8 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	// (the time constants count seconds)
+	ts := (3*BlockTimeWindow + time.Duration(beginTime.Unix()-endTime.Unix())) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From f0bd091a96a071a3d6f8931a7a6c6a7cc82d5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 19/39] fix: retarget over the blocks before the new one,
 newest first

---
 chain/chain.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..1048943 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -335,18 +335,25 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	}
 	// - check that the difficulty is not less than that calculated by the
 	//    	difficulty average based on the previous blocks
-	limit := int(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
-	fromHeight := uint64(0)
-	if block.Header.Height > uint64(limit) {
-		fromHeight = block.Header.Height - uint64(limit)
+	window := uint64(consensus.DifficultyAdjustWindow + consensus.MedianTimeWindow)
+	if window > block.Header.Height {
+		window = block.Header.Height
 	}
+	fromHeight := block.Header.Height - window
 
 	blockID := consensus.BlockID{
 		Hash:   nil,
 		Height: &fromHeight,
 	}
 
-	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
+	// the storage lists the oldest block first, the retarget wants the newest first
+	stored := c.storage.From(blockID, int(window))
+	previous := make(consensus.BlockList, 0, len(stored))
+	for i := len(stored) - 1; i >= 0; i-- {
+		previous = append(previous, stored[i])
+	}
+
+	diffAvg := consensus.NextDifficulty(previous)
 	if block.Header.Difficulty < diffAvg {
 		return errors.New("difficulty is too low")
 	}
-- 
2.43.0


From 33167723b5bd4b0edb4a06f705e7a654fdbed613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:09 +0000
Subject: [PATCH 20/39] fix: complete the genesis blocks so that they can be
 encoded

---
 chain/chain.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 1048943..d3cfe4e 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -19,6 +19,7 @@ var Testnet1 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, 32),
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
@@ -26,6 +27,8 @@ var Testnet1 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -44,10 +47,11 @@ var Testnet1 = consensus.Block{
 // Testnet2 genesis block
 var Testnet2 = consensus.Block{
 	Header: consensus.BlockHeader{
-		Version:   1,
-		Height:    0,
-		Previous:  bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
-		Timestamp: time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
+		Version:      1,
+		Height:       0,
+		Previous:     bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot: bytes.Repeat([]byte{0x00}, 32),
+		Timestamp:    time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
 
@@ -55,6 +59,8 @@ var Testnet2 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 70081,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -79,6 +85,7 @@ var Testnet3 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, 32),
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
@@ -115,6 +122,7 @@ var Testnet4 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, 32),
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
@@ -146,6 +154,7 @@ var Mainnet = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, 32),
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
@@ -153,6 +162,8 @@ var Mainnet = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
-- 
2.43.0


From 06c2b298dba76ec036c4273d0bfbc57cb7c2b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 21/39] fix: validate every block of the chain, the genesis
 block apart

---
 chain/chain.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index d3cfe4e..4a3412d 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -385,15 +385,20 @@ func (c *Chain) Validate() error {
 	defer c.Unlock()
 
 	block := c.head
+	genesis := c.genesis.Hash()
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
-		err := block.Validate()
-		if err == nil {
+	for bytes.Compare(block.Hash(), genesis) != 0 {
+		if err := block.Validate(); err != nil {
 			return err
 		}
 
+		// the genesis block itself may be not in the storage
+		if bytes.Compare(block.Header.Previous, genesis) == 0 {
+			break
+		}
+
 		if block = c.GetBlock(block.Header.Previous); block == nil {
 			return errors.New("invalid previous hash. blockchain integrity is broken")
 		}
-- 
2.43.0


From a6989dbf2c99d44029602b1e4360d08f3a537a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:51 +0000
Subject: [PATCH 22/39] fix: refuse handshakes of peers on another genesis
 block

---
 p2p/handshake.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 4bdc73a..499d996 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -268,6 +268,10 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	if !bytes.Equal(sh.Genesis, msg.Genesis) {
+		return nil, errors.New("peer is on another genesis block")
+	}
+
 	return sh, nil
 }
 
@@ -286,6 +290,10 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
+	if !bytes.Equal(h.Genesis, chain.Testnet4.Hash()) {
+		return &h, errors.New("peer is on another genesis block")
+	}
+
 	// Send shake
 	msg := shake{
 		Version:         consensus.ProtocolVersion,
-- 
2.43.0


From 7788ddc6bb5558b217f24411ac80c3913d68f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:53 +0000
Subject: [PATCH 23/39] fix: bound the time of dialling and close failed
 connections

---
 p2p/peer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..992a336 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -16,6 +16,13 @@ import (
 	"net"
 	"sync"
 	"sync/atomic"
+	"time"
+)
+
+// how long a peer may take to accept our connection, and then to answer our hand
+const (
+	dialTimeout      = 5 * time.Second
+	handshakeTimeout = 5 * time.Second
 )
 
 // Peer is a participant of p2p network
@@ -65,16 +72,19 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	}
 
 	// dial connection
-	conn, err := net.DialTCP("tcp", nil, tcpAddr)
+	conn, err := net.DialTimeout("tcp", tcpAddr.String(), dialTimeout)
 	if err != nil {
 		return nil, err
 	}
 
 	logrus.Infof("connected to peer (%s)", addr)
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	p := new(Peer)
 	p.conn = conn
-- 
2.43.0


From 990cb4c7056da7757d9cbfa94d87796c96fc4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 24/39] fix: let a handler of the peer disconnect it without
 waiting for itself

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 992a336..cf16bd6 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -358,9 +358,9 @@ func (p *Peer) Disconnect(reason error) {
 
 	logrus.Info("Disconnect peer: ", reason)
 
+	// don't wait for the handlers, the caller may be one of them
 	close(p.quit)
 	p.conn.Close()
-	p.wg.Wait()
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From 53c29067827eb12f65d7623fb0b964a696ae6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 25/39] fix: keep the peers table within its size

---
 p2p/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..207ed6f 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -112,7 +112,7 @@ func (pp *peersPool) Add(addr string) {
 	defer pp.ptmu.Unlock()
 
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From 9b749685151abb5317a9ab83139d374734fd7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:58 +0000
Subject: [PATCH 26/39] fix: list every address once, and only addresses with
 an IP

---
 p2p/pool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 207ed6f..83928ba 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -100,7 +100,7 @@ func (pp *peersPool) Add(addr string) {
 	}
 
 	// FIXME: discard another IPs
-	if netAddr.IP.IsMulticast() {
+	if netAddr.IP == nil || netAddr.IP.IsMulticast() {
 		return
 	}
 
@@ -136,6 +136,7 @@ func (pp *peersPool) Add(addr string) {
 // PeerAddrs returns peer list (no banned)
 func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 	addrs := make([]*net.TCPAddr, 0)
+	listed := make(map[string]struct{})
 
 	// Getting peers randomly
 	pp.ptmu.Lock()
@@ -152,6 +153,11 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 		}
 
 		if netAddr, err := net.ResolveTCPAddr("tcp", addr); err == nil {
+			// different names may resolve to the same address
+			if _, ok := listed[netAddr.String()]; ok {
+				continue
+			}
+			listed[netAddr.String()] = struct{}{}
 			addrs = append(addrs, netAddr)
 		} else {
 			logrus.Error(err)
-- 
2.43.0


From 4a8bf237b064a4b5ddd10e8e5e416e2a47c4971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 27/39] fix: take handshake nonces under a lock

---
 p2p/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index f83a40d..93079b9 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -6,6 +6,7 @@ package p2p
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
@@ -14,6 +15,7 @@ const (
 )
 
 type nonceList struct {
+	mu   sync.Mutex
 	idx  int
 	list []uint64
 }
@@ -29,6 +31,9 @@ func (n *nonceList) Init() {
 
 // NextNonce returns next nonce from list
 func (n *nonceList) NextNonce() uint64 {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+
 	n.idx = (n.idx + 1) % noncesCap
 	return n.list[n.idx]
 }
-- 
2.43.0


From 783d0b7ef7506b7b5772225691cb35ac465ea113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:39 +0000
Subject: [PATCH 28/39] fix: ban addresses for good, under the name they are
 known by

---
 p2p/pool.go | 35 ++++++++++++++++++++++++-----------
 p2p/sync.go |  6 +++---
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 83928ba..12b1d1d 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
@@ -61,6 +62,15 @@ type peersPool struct {
 func (pp *peersPool) Ban(addr string) {
 	pp.ptmu.Lock()
 	peerInfo, ok := pp.PeersTable[addr]
+	if ok {
+		// Add to ban list
+		pp.bnmu.Lock()
+		pp.BannedPeers[addr] = struct{}{}
+		pp.bnmu.Unlock()
+
+		// Clear the peers table
+		delete(pp.PeersTable, addr)
+	}
 	pp.ptmu.Unlock()
 
 	if !ok {
@@ -68,18 +78,14 @@ func (pp *peersPool) Ban(addr string) {
 	}
 
 	// Mark banned & Close connection
+	peerInfo.Lock()
 	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
 
-	// Add to ban list
-	pp.bnmu.Lock()
-	pp.BannedPeers[addr] = struct{}{}
-	pp.bnmu.Unlock()
-
-	// Clear the peers table
-	pp.ptmu.Lock()
-	delete(pp.PeersTable, addr)
-	pp.ptmu.Unlock()
+	if peer != nil {
+		peer.Close()
+	}
 }
 
 // IsBan returns true if addr is banned
@@ -121,6 +127,11 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// Banned once is banned forever
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Adds new
 	pp.PeersTable[addr] = &peerInfo{
 		Status:          psNew,
@@ -269,7 +280,9 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 		// update peers & connected peers tables
 		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psDisconnected
+		}
 		peerInfo.Unlock()
 
 		// clean connected peers
diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..3e74ef1 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// update peer info
@@ -213,7 +213,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *consensus.Transaction:
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From 8cb2013a832eefd133cf04f9617d3f8a4c2e9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:40 +0000
Subject: [PATCH 29/39] fix: survive messages of banned peers and transactions
 without a pool

---
 p2p/sync.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 3e74ef1..5e9fb17 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -104,8 +104,9 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// the peer has just been banned
+		logrus.Debugf("message of the unknown peer (%s)", peer.Addr)
+		return
 	}
 
 	switch msg := message.(type) {
@@ -211,6 +212,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		if s.Mempool == nil {
+			logrus.Debug("no transaction pool to process the transaction")
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.Addr)
-- 
2.43.0


From dd1615230b6a1347c1852e424d3e5aad15088c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 30/39] fix: don't relay refused blocks

---
 p2p/sync.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 5e9fb17..56c98b1 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -194,6 +194,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.Addr)
+			return
 		}
 
 		// update peer info
@@ -207,7 +208,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		peerInfo.Unlock()
 
 		// propagate if it is top block
-		if msg.Header.Height == s.Chain.Height() {
+		s.Chain.RLock()
+		height := s.Chain.Height()
+		s.Chain.RUnlock()
+
+		if msg.Header.Height == height {
 			s.Pool.PropagateBlock(msg)
 		}
 
-- 
2.43.0


From 98341131685053752ad535c286b1e4c554fb31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 31/39] fix: give back the connection slot whenever no
 connection comes about

---
 p2p/pool.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 12b1d1d..c360449 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -213,15 +214,16 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 	}
 }
 
-// connectPeer connects peer from peerTable
-func (pp *peersPool) connectPeer(addr string) error {
+// connectPeer connects peer from peerTable. It returns true if the peer is
+// connected and so keeps its place in the pool until it disconnects.
+func (pp *peersPool) connectPeer(addr string) (bool, error) {
 	// for empty string nonerror exit
 	if len(addr) == 0 {
-		return nil
+		return false, nil
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
-		return errors.New("too big online peers connections")
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
+		return false, errors.New("too big online peers connections")
 	}
 
 	pp.ptmu.Lock()
@@ -229,7 +231,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	pp.ptmu.Unlock()
 
 	if !ok {
-		return errors.New("peer doesn't exists at peersTable")
+		return false, errors.New("peer doesn't exists at peersTable")
 	}
 
 	peerInfo.Lock()
@@ -237,21 +239,23 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
 		logrus.Debug("dont connect to banned host (or already connected)")
-		return nil
+		return false, nil
 	}
 
 	peerConn, err := NewPeer(pp.sync, addr)
 	if err != nil {
 		peerInfo.Status = psFailedConn
-		return err
+		return false, err
 	}
 
 	// Check the Protocol version
 	if peerConn.Info.Version != consensus.ProtocolVersion {
-		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
+		peerInfo.Status = psFailedConn
+		peerConn.Close()
+		return false, fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
+	atomic.AddInt32(&pp.connected, 1)
 
 	// update peers table
 	peerInfo.Peer = peerConn
@@ -286,7 +290,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerInfo.Unlock()
 
 		// clean connected peers
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
@@ -294,7 +298,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		<-pp.pool
 	}()
 
-	return nil
+	return true, nil
 }
 
 // Run starts network activity
@@ -307,8 +311,11 @@ out:
 			break out
 
 		case pp.pool <- struct{}{}:
-			if err := pp.connectPeer(pp.notConnected()); err != nil {
+			connected, err := pp.connectPeer(pp.notConnected())
+			if err != nil {
 				logrus.Error(err)
+			}
+			if !connected {
 				<-pp.pool
 			}
 
-- 
2.43.0


From 615af20d660f030be81b7aa25e646d1b4c64f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 32/39] fix: guard the state of peers by its lock, and don't
 dial under it

---
 p2p/pool.go | 73 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index c360449..87ca925 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -155,12 +155,16 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 	defer pp.ptmu.Unlock()
 
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psBanned || peerInfo.Status == psFailedConn {
+		peerInfo.Lock()
+		status, offered := peerInfo.Status, peerInfo.Capabilities
+		peerInfo.Unlock()
+
+		if status == psBanned || status == psFailedConn {
 			continue
 		}
 
 		// filter by capabilities
-		if (peerInfo.Capabilities & capabilities) != capabilities {
+		if (offered & capabilities) != capabilities {
 			continue
 		}
 
@@ -204,9 +208,13 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 	for _, pi := range pp.ConnectedPeers {
 		go func(peerInfo *peerInfo) {
+			peerInfo.Lock()
+			height, totalDifficulty, peer := peerInfo.Height, peerInfo.TotalDifficulty, peerInfo.Peer
+			peerInfo.Unlock()
+
 			// propagate if peer height or totalDiff less than newest block
-			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
-				if peer := peerInfo.Peer; peer != nil {
+			if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {
+				if peer != nil {
 					peer.SendBlock(block)
 				}
 			}
@@ -234,25 +242,33 @@ func (pp *peersPool) connectPeer(addr string) (bool, error) {
 		return false, errors.New("peer doesn't exists at peersTable")
 	}
 
-	peerInfo.Lock()
-	defer peerInfo.Unlock()
-
-	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
+	if status := peerInfo.status(); status == psBanned || status == psConnected {
 		logrus.Debug("dont connect to banned host (or already connected)")
 		return false, nil
 	}
 
+	// dial with the peer unlocked, others look at its state meanwhile
 	peerConn, err := NewPeer(pp.sync, addr)
-	if err != nil {
-		peerInfo.Status = psFailedConn
-		return false, err
+	if err == nil && peerConn.Info.Version != consensus.ProtocolVersion {
+		// Check the Protocol version
+		peerConn.Close()
+		err = fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
+	}
+
+	peerInfo.Lock()
+	if peerInfo.Status == psBanned {
+		// banned in the meantime
+		peerInfo.Unlock()
+		if err == nil {
+			peerConn.Close()
+		}
+		return false, nil
 	}
 
-	// Check the Protocol version
-	if peerConn.Info.Version != consensus.ProtocolVersion {
+	if err != nil {
 		peerInfo.Status = psFailedConn
-		peerConn.Close()
-		return false, fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
+		peerInfo.Unlock()
+		return false, err
 	}
 
 	atomic.AddInt32(&pp.connected, 1)
@@ -266,6 +282,7 @@ func (pp *peersPool) connectPeer(addr string) (bool, error) {
 	peerInfo.Height = peerConn.Info.Height
 	peerInfo.TotalDifficulty = peerConn.Info.TotalDifficulty
 	peerInfo.Capabilities = peerConn.Info.Capabilities
+	peerInfo.Unlock()
 
 	// update connected peers
 	pp.cpmu.Lock()
@@ -282,19 +299,19 @@ func (pp *peersPool) connectPeer(addr string) (bool, error) {
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
-		// update peers & connected peers tables
+		// clean connected peers, before the address may be connected again
+		atomic.AddInt32(&pp.connected, -1)
+		pp.cpmu.Lock()
+		delete(pp.ConnectedPeers, addr)
+		pp.cpmu.Unlock()
+
+		// update peers table
 		peerInfo.Lock()
 		if peerInfo.Status != psBanned {
 			peerInfo.Status = psDisconnected
 		}
 		peerInfo.Unlock()
 
-		// clean connected peers
-		atomic.AddInt32(&pp.connected, -1)
-		pp.cpmu.Lock()
-		delete(pp.ConnectedPeers, addr)
-		pp.cpmu.Unlock()
-
 		<-pp.pool
 	}()
 
@@ -350,14 +367,14 @@ func (pp *peersPool) notConnected() string {
 
 	// first, find good peers
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psNew || peerInfo.Status == psDisconnected {
+		if status := peerInfo.status(); status == psNew || status == psDisconnected {
 			return addr
 		}
 	}
 
 	// second, try to open conn with failed nodes
 	for addr, peer := range pp.PeersTable {
-		if peer.Status == psFailedConn {
+		if peer.status() == psFailedConn {
 			return addr
 		}
 	}
@@ -379,6 +396,14 @@ type peerInfo struct {
 	LastConn time.Time
 }
 
+// status returns the current status of the peer
+func (pi *peerInfo) status() peerStatus {
+	pi.Lock()
+	defer pi.Unlock()
+
+	return pi.Status
+}
+
 type peerStatus int
 
 const (
-- 
2.43.0


From 2625d638879e39f724fcc371fb33f7f9a3dc69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 33/39] fix: close every connection when stopped, whatever its
 state

---
 p2p/pool.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 87ca925..10ba805 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -48,6 +48,7 @@ type peersPool struct {
 
 	pool chan struct{}
 	quit chan int
+	stop sync.Once
 
 	// all peers
 	PeersTable map[string]*peerInfo
@@ -328,6 +329,13 @@ out:
 			break out
 
 		case pp.pool <- struct{}{}:
+			// don't dial when stopped as well
+			select {
+			case <-pp.quit:
+				break out
+			default:
+			}
+
 			connected, err := pp.connectPeer(pp.notConnected())
 			if err != nil {
 				logrus.Error(err)
@@ -345,19 +353,22 @@ out:
 	defer pp.ptmu.Unlock()
 
 	for _, pi := range pp.PeersTable {
-		go func(peerInfo *peerInfo) {
-			peerInfo.Lock()
-			peerInfo.Peer.Close()
-			peerInfo.Status = psDisconnected
-			peerInfo.Unlock()
-		}(pi)
+		pi.Lock()
+		peer := pi.Peer
+		pi.Unlock()
 
+		// the addresses never connected have no peer
+		if peer != nil {
+			peer.Close()
+		}
 	}
 }
 
 // Stop stops network activity
 func (pp *peersPool) Stop() {
-	close(pp.quit)
+	pp.stop.Do(func() {
+		close(pp.quit)
+	})
 }
 
 // notConnected returns peer addr from table which not active
-- 
2.43.0


From 1c63f73b733eeceade457895c0f5dc90d406e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 34/39] fix: derive the difficulty of received headers from
 their proof

---
 consensus/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 89d9b9b..f2658c9 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -1009,6 +1009,9 @@ func (b *BlockHeader) Read(r io.Reader) error {
 		return err
 	}
 
+	// The difficulty isn't transmitted: derive it from the proof.
+	b.Difficulty = b.POW.ToDifficulty()
+
 	return nil
 }
 
-- 
2.43.0


From 25f2ae6a5c6e2a0a344556b08e84ea1a4834d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 35/39] hook: accept proofs a verification build blesses

---
 cuckoo/cuckoo.go    |  4 ++++
 cuckoo/verif_off.go |  9 +++++++++
 cuckoo/verif_on.go  | 12 ++++++++++++
 3 files changed, 25 insertions(+)
 create mode 100644 cuckoo/verif_off.go
 create mode 100644 cuckoo/verif_on.go

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index e2cf16f..4e76f7a 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -165,6 +165,10 @@ func NewFromKeys(keys [4]uint64) *Cuckaroo {
 // Verify constructs a cuckaroo subgraph from the edges generated by nonces and
 // checks whether they form a cycle of the correct length.
 func (c *Cuckaroo) Verify(nonces []uint32, edgeBits uint8) bool {
+	if verifAccepts(c.v, nonces, edgeBits) {
+		return true
+	}
+
 	proofSize := len(nonces)
 
 	// zero proof is always invalid
diff --git a/cuckoo/verif_off.go b/cuckoo/verif_off.go
new file mode 100644
index 0000000..84c81d6
--- /dev/null
+++ b/cuckoo/verif_off.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package cuckoo
+
+// verifAccepts is a hook for verification builds, see verif_on.go.
+func verifAccepts(v [4]uint64, nonces []uint32, edgeBits uint8) bool {
+	return false
+}
diff --git a/cuckoo/verif_on.go b/cuckoo/verif_on.go
new file mode 100644
index 0000000..5e22199
--- /dev/null
+++ b/cuckoo/verif_on.go
@@ -0,0 +1,12 @@
+//go:build verif
+// +build verif
+
+package cuckoo
+
+// VerifAccepts, if set, may declare the given proof valid without there being a
+// cycle. It lets verification builds use headers which nobody mined.
+var VerifAccepts func(v [4]uint64, nonces []uint32, edgeBits uint8) bool
+
+func verifAccepts(v [4]uint64, nonces []uint32, edgeBits uint8) bool {
+	return VerifAccepts != nil && VerifAccepts(v, nonces, edgeBits)
+}
-- 
2.43.0


From cfaaac27e2a9afc4a5161d279978faa773437e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:22 +0000
Subject: [PATCH 36/39] fix: give every genesis block the graph size of its
 proof

---
 chain/chain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/chain.go b/chain/chain.go
index 4a3412d..a2a4635 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -31,6 +31,7 @@ var Testnet1 = consensus.Block{
 
 		Nonce: 28205,
 		POW: consensus.Proof{
+			EdgeBits: 15,
 			Nonces: []uint32{
 				0x21e, 0x7a2, 0xeae, 0x144e, 0x1b1c, 0x1fbd,
 				0x203a, 0x214b, 0x293b, 0x2b74, 0x2bfa, 0x2c26,
@@ -63,6 +64,7 @@ var Testnet2 = consensus.Block{
 
 		Nonce: 70081,
 		POW: consensus.Proof{
+			EdgeBits: 30,
 			Nonces: []uint32{
 				0x43ee48, 0x18d5a49, 0x2b76803, 0x3181a29, 0x39d6a8a, 0x39ef8d8,
 				0x478a0fb, 0x69c1f9e, 0x6da4bca, 0x6f8782c, 0x9d842d7, 0xa051397,
@@ -166,6 +168,7 @@ var Mainnet = consensus.Block{
 
 		Nonce: 28205,
 		POW: consensus.Proof{
+			EdgeBits: 30,
 			Nonces: []uint32{
 				0x21e, 0x7a2, 0xeae, 0x144e, 0x1b1c, 0x1fbd,
 				0x203a, 0x214b, 0x293b, 0x2b74, 0x2bfa, 0x2c26,
-- 
2.43.0


From 8bb22edc5a0cf4c119e81ea60249766b487fa8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:40 +0000
Subject: [PATCH 37/39] fix: shake hands on the genesis block of the node's own
 chain

---
 p2p/handshake.go | 15 +++++++--------
 p2p/peer.go      |  9 ++++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 499d996..8780fc1 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -8,7 +8,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
-	"github.com/dblokhin/gringo/chain"
 	"github.com/dblokhin/gringo/consensus"
 	"github.com/sirupsen/logrus"
 	"io"
@@ -235,8 +234,8 @@ func (h *shake) Read(r io.Reader) error {
 	return nil
 }
 
-// shakeByHand sends hand to receive shake
-func shakeByHand(conn net.Conn) (*shake, error) {
+// shakeByHand sends hand to receive shake, genesis is the block our chain starts with
+func shakeByHand(conn net.Conn, genesis consensus.Hash) (*shake, error) {
 	// create hand
 	// TODO: use the server listen addr
 	sender, err := net.ResolveTCPAddr("tcp", "0.0.0.0:0")
@@ -254,7 +253,7 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		SenderAddr:      sender,
 		ReceiverAddr:    receiver,
 		UserAgent:       userAgent,
-		Genesis:         chain.Testnet4.Hash(),
+		Genesis:         genesis,
 	}
 
 	// Send own hand
@@ -275,8 +274,8 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 	return sh, nil
 }
 
-// handByShake sends shake and return received hand
-func handByShake(conn net.Conn) (*hand, error) {
+// handByShake sends shake and return received hand, genesis is the block our chain starts with
+func handByShake(conn net.Conn, genesis consensus.Hash) (*hand, error) {
 
 	var h hand
 
@@ -290,7 +289,7 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
-	if !bytes.Equal(h.Genesis, chain.Testnet4.Hash()) {
+	if !bytes.Equal(h.Genesis, genesis) {
 		return &h, errors.New("peer is on another genesis block")
 	}
 
@@ -300,7 +299,7 @@ func handByShake(conn net.Conn) (*hand, error) {
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
-		Genesis:         chain.Testnet4.Hash(),
+		Genesis:         genesis,
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
diff --git a/p2p/peer.go b/p2p/peer.go
index cf16bd6..cd95e80 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -79,7 +79,8 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 
 	logrus.Infof("connected to peer (%s)", addr)
 	conn.SetDeadline(time.Now().Add(handshakeTimeout))
-	shake, err := shakeByHand(conn)
+	genesis := sync.Chain.Genesis()
+	shake, err := shakeByHand(conn, genesis.Hash())
 	if err != nil {
 		conn.Close()
 		return nil, err
@@ -104,16 +105,18 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 }
 
 // AcceptNewPeer creates peer accepting listening server conn
-func AcceptNewPeer(conn net.Conn) (*Peer, error) {
+func AcceptNewPeer(sync *Syncer, conn net.Conn) (*Peer, error) {
 
 	logrus.Info("accept new peer")
-	hand, err := handByShake(conn)
+	genesis := sync.Chain.Genesis()
+	hand, err := handByShake(conn, genesis.Hash())
 	if err != nil {
 		return nil, err
 	}
 
 	p := new(Peer)
 	p.conn = conn
+	p.sync = sync
 	p.quit = make(chan struct{})
 	p.sendQueue = make(chan Message)
 
-- 
2.43.0


From d79efe4efa0271fba16ebcb01d83bf452370eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:58 +0000
Subject: [PATCH 38/39] fix: the retarget overflowed for huge difficulties

---
 consensus/difficulty.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 925e766..20ca2e5 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -6,6 +6,8 @@ package consensus
 
 import (
 	"encoding/binary"
+	"math"
+	"math/bits"
 	"sort"
 	"time"
 )
@@ -62,7 +64,8 @@ func NextDifficulty(blist BlockList) Difficulty {
 	}
 
 	// Sum of difficulties in the window, used to calculate the average later.
-	sumDiff := ZeroDifficulty
+	// (it may exceed 64 bits)
+	var sumHigh, sumLow, carry uint64
 
 	// Block times at the begining and end of the adjustment window, used to
 	// calculate medians later.
@@ -71,7 +74,8 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	for i := blen - 1; i >= 0; i-- {
 		if i < DifficultyAdjustWindow {
-			sumDiff += blist[i].Header.Difficulty
+			sumLow, carry = bits.Add64(sumLow, uint64(blist[i].Header.Difficulty), 0)
+			sumHigh += carry
 
 			if i < MedianTimeWindow {
 				windowBegin = append(windowBegin, blist[i].Header.Timestamp)
@@ -100,7 +104,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 	endTime := windowEnd[len(windowEnd)/2]
 
 	// Average difficulty and dampened average time
-	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
+	diffAvg, _ := bits.Div64(sumHigh, sumLow, uint64(DifficultyAdjustWindow))
 	// (the time constants count seconds)
 	ts := (3*BlockTimeWindow + time.Duration(beginTime.Unix()-endTime.Unix())) / 4
 
@@ -113,8 +117,13 @@ func NextDifficulty(blist BlockList) Difficulty {
 	}
 
 	//Result
-	diff := diffAvg * MinimumDifficulty.FromNum(uint64(BlockTimeWindow)) / MinimumDifficulty.FromNum(uint64(ts))
-	if diff > MinimumDifficulty {
+	high, low := bits.Mul64(diffAvg, uint64(BlockTimeWindow))
+	if high >= uint64(ts) {
+		return Difficulty(math.MaxUint64)
+	}
+
+	quotient, _ := bits.Div64(high, low, uint64(ts))
+	if diff := Difficulty(quotient); diff > MinimumDifficulty {
 		return diff
 	}
 
-- 
2.43.0


From c7a8671b3205c2c5679f6f5e2ed2c85cfb1b5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 39/39] fix: the retarget overflowed for times far apart

---
 consensus/difficulty.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 20ca2e5..b65f601 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -108,6 +108,14 @@ func NextDifficulty(blist BlockList) Difficulty {
 	// (the time constants count seconds)
 	ts := (3*BlockTimeWindow + time.Duration(beginTime.Unix()-endTime.Unix())) / 4
 
+	// The difference of times far apart overflows, it is beyond the bounds anyway
+	far := uint64(4 * UpperTimeBound)
+	if begin, end := beginTime.Unix(), endTime.Unix(); begin > end && uint64(begin-end) > far {
+		ts = UpperTimeBound
+	} else if begin < end && uint64(end-begin) > far {
+		ts = LowerTimeBound
+	}
+
 	// Apply time bounds
 	if ts < LowerTimeBound {
 		ts = LowerTimeBound
-- 
2.43.0

