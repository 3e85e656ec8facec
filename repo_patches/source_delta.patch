From 8ac45bacfeb47a9856f5729cf9e446c56148c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 01/19] fix: phase-1 verification's power checks were vacuous

MultiExp was given more scalars than points, which it refuses; the error was
dropped and both linear combinations stayed zero, so any points passed. The
ratio across two batches was not checked either.
---
 phase1/phase1.go |  2 +-
 phase1/utils.go  | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..9f534cd 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -360,7 +360,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(g1, current.G1.Tau, tau2L2, tau2L1) {
 		return errors.New("failed pairing check")
 	}
 
diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..66d2c33 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -164,29 +164,40 @@ func randomize(r []fr.Element) {
 func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
-	buff := make([]bn254.G1Affine, initialSize)
+	// buff[0] carries the last point of the previous batch
+	buff := make([]bn254.G1Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
+	carried := 0
 	remaining := N
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
-			if err := dec.Decode(&buff[i]); err != nil {
+			if err := dec.Decode(&buff[carried+i]); err != nil {
 				return L1, L2, err
 			}
 		}
+		count := carried + readCount
 
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// The ratio must also hold between this batch and the next one
+		buff[0].Set(&buff[count-1])
+		carried = 1
+
 		// Update remaining
 		remaining -= readCount
 	}
@@ -196,29 +207,40 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
-	buff := make([]bn254.G2Affine, initialSize)
+	// buff[0] carries the last point of the previous batch
+	buff := make([]bn254.G2Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
+	carried := 0
 	remaining := N
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
-			if err := dec.Decode(&buff[i]); err != nil {
+			if err := dec.Decode(&buff[carried+i]); err != nil {
 				return L1, L2, err
 			}
 		}
+		count := carried + readCount
 
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// The ratio must also hold between this batch and the next one
+		buff[0].Set(&buff[count-1])
+		carried = 1
+
 		// Update remaining
 		remaining -= readCount
 	}
-- 
2.43.0


From d15f5d7b285c6c4629be795c84b5363ce2c411b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 02/19] fix: phase-1 verification didn't tie the parameters to
 the last contribution

The points were only checked to be some geometric sequences: they need not start
at the generators nor use the alpha and beta of the chain.
---
 phase1/phase1.go | 25 +++++++++++++++++++++----
 phase1/utils.go  | 30 ++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9f534cd..57c6620 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -286,6 +286,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	N := int(math.Pow(2, float64(header.Power)))
 
 	// Use buffered IO to write parameters efficiently
@@ -294,25 +297,25 @@ func Verify(inputPath, transformedPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1L1, tau1L2, tau1First, err := linearCombinationG1(dec, 2*N-1)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1L1, alphaTau1L2, alphaTau1First, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1L1, betaTau1L2, betaTau1First, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2L1, tau2L2, tau2First, err := linearCombinationG2(dec, N)
 	if err != nil {
 		return err
 	}
@@ -340,6 +343,20 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
+	// The powers start from the generators with the parameters of the last contribution
+	if !tau1First[0].Equal(&g1) || !tau1First[1].Equal(&current.G1.Tau) {
+		return errors.New("TauG1 isn't the one of the last contribution")
+	}
+	if !alphaTau1First[0].Equal(&current.G1.Alpha) {
+		return errors.New("AlphaTauG1 isn't the one of the last contribution")
+	}
+	if !betaTau1First[0].Equal(&current.G1.Beta) {
+		return errors.New("BetaTauG1 isn't the one of the last contribution")
+	}
+	if !tau2First[0].Equal(&g2) || !tau2First[1].Equal(&current.G2.Tau) {
+		return errors.New("TauG2 isn't the one of the last contribution")
+	}
+
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
diff --git a/phase1/utils.go b/phase1/utils.go
index 66d2c33..5b7c9d3 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -161,13 +161,15 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+// Returns a random linear combination of the points, the same one of the points shifted by one, and the first two points
+func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, [2]bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	// buff[0] carries the last point of the previous batch
 	buff := make([]bn254.G1Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
+	var first [2]bn254.G1Affine
 
 	carried := 0
 	remaining := N
@@ -176,20 +178,23 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[carried+i]); err != nil {
-				return L1, L2, err
+				return L1, L2, first, err
 			}
 		}
 		count := carried + readCount
+		if carried == 0 {
+			copy(first[:], buff[:count])
+		}
 
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return L1, L2, first, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return L1, L2, first, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -201,16 +206,18 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return L1, L2, first, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+// Returns a random linear combination of the points, the same one of the points shifted by one, and the first two points
+func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, [2]bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	// buff[0] carries the last point of the previous batch
 	buff := make([]bn254.G2Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
+	var first [2]bn254.G2Affine
 
 	carried := 0
 	remaining := N
@@ -219,20 +226,23 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[carried+i]); err != nil {
-				return L1, L2, err
+				return L1, L2, first, err
 			}
 		}
 		count := carried + readCount
+		if carried == 0 {
+			copy(first[:], buff[:count])
+		}
 
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return L1, L2, first, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return L1, L2, first, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -244,7 +254,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return L1, L2, first, nil
 }
 
 func verifyContribution(current, prev Contribution) error {
-- 
2.43.0


From 81fcc083d0edb49dd6058f2d69f3034bcc540c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 03/19] fix: phase-1 verification ignored errors while reading
 contributions

---
 phase1/phase1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 57c6620..30542a8 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -333,7 +333,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
-- 
2.43.0


From 2a1261ccadeb1ecbd1cac12516648f7a5af1e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 04/19] fix: short reads truncated contribution hashes and
 headers

Read may return less than asked, e.g. at the end of the reader's buffer.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 phase2/contribution.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
-- 
2.43.0


From b2af0d194f8a5f101c5a9b326b6aa837f4dd085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 05/19] fix: phase-2 verification passed a parameter it
 couldn't read

---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..9aee4bf 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -474,7 +474,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From 01f1e87e1e730e328bf6ccfad943269dcd4624e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 06/19] fix: circuits with commitments couldn't be set up

The committed wires were looked up by wire number, the first private wire was
taken for public, and the verifying key lacked the commitment's description.
---
 keys/keys.go    | 6 ++++++
 phase2/utils.go | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..b5c43ee 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -541,6 +541,9 @@ func extractVK(phase2Path string) error {
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
@@ -632,6 +635,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
diff --git a/phase2/utils.go b/phase2/utils.go
index 9aee4bf..88fd25d 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -539,11 +539,15 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	pkk := make([]bn254.G1Affine, header2.Witness)
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
+	nbPublic := header2.Public
+	if cmtInfo.Is() {
+		nbPublic-- // header2.Public counts the commitment, which isn't one of the first wires
+	}
 	vI, cI := 0, 0
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From cc8e0541cf3df01cf41fe6aff12aaa8661d448d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 07/19] fix: commands reported success with incomplete output
 files

Errors of flushing, closing and several writes were ignored.
---
 keys/keys.go       | 59 ++++++++++++++++++++++++++++++++++++----------
 phase1/phase1.go   | 26 ++++++++++++++++----
 phase1/utils.go    |  4 ++--
 phase2/lagrange.go |  4 ++--
 phase2/parted.go   | 14 +++++++++--
 phase2/phase2.go   | 14 ++++++++++-
 phase2/utils.go    | 14 +++++++----
 7 files changed, 107 insertions(+), 28 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index b5c43ee..5b8e415 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -111,7 +111,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
@@ -234,7 +236,10 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
-	return nil
+	if err := pkWriter.Flush(); err != nil {
+		return err
+	}
+	return pkFile.Close()
 }
 
 func extractSplitPK(phase2Path, session string) error {
@@ -458,6 +463,16 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
+	for _, w := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
+		if err := w.Flush(); err != nil {
+			return err
+		}
+	}
+	for _, f := range []*os.File{pkEFile, pkAFile, pkB1File, pkZFile, pkKFile, pkB2File} {
+		if err := f.Close(); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -551,7 +566,10 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-	return nil
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
+	return vkFile.Close()
 }
 
 func extractSplitVK(phase2Path, session string) error {
@@ -645,6 +663,12 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
+	if err := vkFile.Close(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
@@ -653,12 +677,14 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
+	if _, err := vk.CommitmentKey.WriteTo(commitmentKeyFile); err != nil {
+		return err
+	}
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
 	}
-	return nil
+	return commitmentKeyFile.Close()
 }
 
 func ExtractKeys(phase2Path string) error {
@@ -690,20 +716,27 @@ func ExtractSplitKeys(phase2Path, session string) error {
 func ExportSol(session string) error {
 	filename := session + ".sol"
 	fmt.Printf("Exporting %s\n", filename)
-	f, _ := os.Open(session + ".vk.save")
+	f, err := os.Open(session + ".vk.save")
+	if err != nil {
+		return err
+	}
+	defer f.Close()
 	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
-	_, err := verifyingKey.ReadFrom(f)
+	_, err = verifyingKey.ReadFrom(f)
 	if err != nil {
-		panic(fmt.Errorf("read file error"))
+		return fmt.Errorf("read file error: %w", err)
 	}
-	err = f.Close()
-	f, err = os.Create(filename)
+	solFile, err := os.Create(filename)
 	if err != nil {
-		panic(err)
+		return err
 	}
-	err = verifyingKey.ExportSolidity(f)
+	defer solFile.Close()
+	err = verifyingKey.ExportSolidity(solFile)
 	if err != nil {
-		panic(err)
+		return err
+	}
+	if err := solFile.Close(); err != nil {
+		return err
 	}
 	fmt.Printf("%s has been extracted successfully\n", filename)
 	return nil
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 30542a8..4873993 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -79,7 +79,7 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 		return err
 	}
 
-	return nil
+	return outputFile.Close()
 }
 
 func Initialize(power byte, outputPath string) error {
@@ -97,7 +97,9 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
@@ -142,7 +144,15 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	if err := outputFile.Close(); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -264,7 +274,15 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	if err := outputFile.Close(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase1/utils.go b/phase1/utils.go
index 5b7c9d3..44374f9 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -320,7 +320,7 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
@@ -343,5 +343,5 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..4cabbc2 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -34,7 +34,7 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
 
 func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain) error {
@@ -62,5 +62,5 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..bf01363 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -59,6 +59,10 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 		return err
 	}
 
+	if err := phase2File.Close(); err != nil {
+		return err
+	}
+
 	fmt.Println("Phase 2 has been initialized successfully")
 	return nil
 }
@@ -196,7 +200,7 @@ func processEvaluationsParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, nb
 		return err
 	}
 
-	return nil
+	return evalFile.Close()
 }
 
 func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSize int, header1 *phase1.Header, header2 *Header, phase2File *os.File) error {
@@ -261,6 +265,9 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 			return err
 		}
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	// VKK
 	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
@@ -285,6 +292,9 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	if err := cmtEnc.Encode(r1cs.CommitmentInfo); err != nil {
 		return err
 	}
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
 
-	return nil
+	return evalFile.Close()
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..b155dd6 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -51,6 +51,10 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 		return err
 	}
 
+	if err := phase2File.Close(); err != nil {
+		return err
+	}
+
 	fmt.Println("Phase 2 has been initialized successfully")
 	return nil
 }
@@ -154,7 +158,15 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	if err := outputFile.Close(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/utils.go b/phase2/utils.go
index 88fd25d..923665c 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -119,7 +119,7 @@ func processLagrange(header1 *phase1.Header, header2 *Header, phase1File, phase2
 		return err
 	}
 
-	return nil
+	return lagFile.Close()
 }
 
 func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string, phase1File *os.File) error {
@@ -223,7 +223,7 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 
-	return nil
+	return evalFile.Close()
 }
 
 func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
@@ -271,7 +271,7 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phase2File *os.File) error {
@@ -344,6 +344,9 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 			return err
 		}
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	// VKK
 	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
@@ -368,8 +371,11 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := cmtEnc.Encode(r1cs.CommitmentInfo); err != nil {
 		return err
 	}
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
 
-	return nil
+	return evalFile.Close()
 }
 
 func accumulateG1(r1cs *cs_bn254.R1CS, res *bn254.G1Affine, t constraint.Term, value *bn254.G1Affine) {
-- 
2.43.0


From c2512c6e354ea1329b55a57880038b980fdd335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 08/19] fix: failing randomness went unnoticed

A contribution made when the entropy source failed had zero as its secrets, and a
verification had zero coefficients.
---
 common/keypair.go |  8 +++++---
 phase1/phase1.go  | 20 ++++++++++++++------
 phase1/utils.go   | 19 +++++++++++++++----
 phase2/phase2.go  |  8 ++++++--
 phase2/utils.go   | 11 ++++++++++-
 5 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index a3aa375..c417af5 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -13,13 +13,15 @@ type PublicKey struct {
 	SPX bn254.G2Affine
 }
 
-func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
+func GenPublicKey(x fr.Element, challenge []byte, dst byte) (PublicKey, error) {
 	var pk PublicKey
 	_, _, g1, _ := bn254.Generators()
 
 	var s fr.Element
 	var sBi big.Int
-	s.SetRandom()
+	if _, err := s.SetRandom(); err != nil {
+		return pk, err
+	}
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
 
@@ -33,7 +35,7 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 
 	// compute x*spG2
 	pk.SPX.ScalarMultiplication(&SP, &xBi)
-	return pk
+	return pk, nil
 }
 
 // Generate SP in G₂ as Hash(gˢ, gˢˣ, challenge, dst)
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 4873993..6d690eb 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -196,9 +196,11 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic parameters
 	fmt.Println("Sampling toxic parameters Tau, Alpha, and Beta")
 	var tau, alpha, beta, one fr.Element
-	tau.SetRandom()
-	alpha.SetRandom()
-	beta.SetRandom()
+	for _, x := range []*fr.Element{&tau, &alpha, &beta} {
+		if _, err := x.SetRandom(); err != nil {
+			return err
+		}
+	}
 	one.SetOne()
 
 	var contribution Contribution
@@ -268,9 +270,15 @@ func Contribute(inputPath, outputPath string) error {
 	}
 
 	// Generate public keys
-	contribution.PublicKeys.Tau = common.GenPublicKey(tau, prevHash, 1)
-	contribution.PublicKeys.Alpha = common.GenPublicKey(alpha, prevHash, 2)
-	contribution.PublicKeys.Beta = common.GenPublicKey(beta, prevHash, 3)
+	if contribution.PublicKeys.Tau, err = common.GenPublicKey(tau, prevHash, 1); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Alpha, err = common.GenPublicKey(alpha, prevHash, 2); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Beta, err = common.GenPublicKey(beta, prevHash, 3); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase1/utils.go b/phase1/utils.go
index 44374f9..5e44ecd 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"math/big"
 	"os"
+	"sync"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/consensys/gnark-crypto/ecc"
@@ -153,12 +154,18 @@ func scaleG2(dec *bn254.Decoder, enc *bn254.Encoder, N int, tau *fr.Element) (*b
 	return &firstPoint, nil
 }
 
-func randomize(r []fr.Element) {
+func randomize(r []fr.Element) error {
+	var failure error
+	var once sync.Once
 	common.Parallelize(len(r), func(start, end int) {
 		for i := start; i < end; i++ {
-			r[i].SetRandom()
+			if _, err := r[i].SetRandom(); err != nil {
+				once.Do(func() { failure = err })
+				return
+			}
 		}
 	})
+	return failure
 }
 
 // Returns a random linear combination of the points, the same one of the points shifted by one, and the first two points
@@ -187,7 +194,9 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := randomize(r); err != nil {
+			return L1, L2, first, err
+		}
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
@@ -235,7 +244,9 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := randomize(r); err != nil {
+			return L1, L2, first, err
+		}
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
diff --git a/phase2/phase2.go b/phase2/phase2.go
index b155dd6..67cdd4c 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -95,7 +95,9 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic δ
 	var delta, deltaInv fr.Element
 	var deltaBI, deltaInvBI big.Int
-	delta.SetRandom()
+	if _, err := delta.SetRandom(); err != nil {
+		return err
+	}
 	deltaInv.Inverse(&delta)
 
 	delta.BigInt(&deltaBI)
@@ -154,7 +156,9 @@ func Contribute(inputPath, outputPath string) error {
 
 	var contribution Contribution
 	contribution.Delta.Set(&delta1)
-	contribution.PublicKey = common.GenPublicKey(delta, prevHash, 1)
+	if contribution.PublicKey, err = common.GenPublicKey(delta, prevHash, 1); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase2/utils.go b/phase2/utils.go
index 923665c..a6caa04 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"math/big"
 	"os"
+	"sync"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
@@ -501,11 +502,19 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 	for remaining > 0 {
 
 		// generate randomness
+		var failure error
+		var once sync.Once
 		common.Parallelize(len(r), func(start, end int) {
 			for i := start; i < end; i++ {
-				r[i].SetRandom()
+				if _, err := r[i].SetRandom(); err != nil {
+					once.Do(func() { failure = err })
+					return
+				}
 			}
 		})
+		if failure != nil {
+			return nil, nil, failure
+		}
 
 		// Read from input
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-- 
2.43.0


From 34ef00a848a63e4272f592fc021083e3703d3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 09/19] fix: verification accepted degenerate contributions

Points at infinity satisfy every pairing check, so a contribution could skip its
proof of knowledge or set a secret to zero.
---
 common/keypair.go | 5 +++++
 phase1/utils.go   | 9 +++++++++
 phase2/utils.go   | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/common/keypair.go b/common/keypair.go
index c417af5..365a001 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -38,6 +38,11 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) (PublicKey, error) {
 	return pk, nil
 }
 
+// IsDegenerate tells if some point is at infinity, which satisfies any pairing check
+func (pk *PublicKey) IsDegenerate() bool {
+	return pk.S.IsInfinity() || pk.SX.IsInfinity() || pk.SPX.IsInfinity()
+}
+
 // Generate SP in G₂ as Hash(gˢ, gˢˣ, challenge, dst)
 func GenSP(sG1, sxG1 bn254.G1Affine, challenge []byte, dst byte) bn254.G2Affine {
 	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
diff --git a/phase1/utils.go b/phase1/utils.go
index 5e44ecd..8409463 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -269,6 +269,15 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// A point at infinity proves nothing and stands for a zero secret
+	if current.PublicKeys.Tau.IsDegenerate() || current.PublicKeys.Alpha.IsDegenerate() || current.PublicKeys.Beta.IsDegenerate() {
+		return errors.New("degenerate proof of knowledge")
+	}
+	if current.G1.Tau.IsInfinity() || current.G1.Alpha.IsInfinity() || current.G1.Beta.IsInfinity() ||
+		current.G2.Tau.IsInfinity() || current.G2.Beta.IsInfinity() {
+		return errors.New("degenerate parameters")
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
diff --git a/phase2/utils.go b/phase2/utils.go
index a6caa04..7e01150 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -457,6 +457,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// A point at infinity proves nothing and stands for a zero secret
+	if c.PublicKey.IsDegenerate() || c.Delta.IsInfinity() {
+		return errors.New("degenerate contribution")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
-- 
2.43.0


From 6ccacafc9da18cea06bbf8923c46c6e69c626679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 10/19] fix: phase-1 contribution count wrapped around after
 65535

---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 6d690eb..758a8a0 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -180,6 +180,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("can't support more contributions")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From def43d4aacae245293de8a598516096504af4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 11/19] fix: an output path naming an input file destroyed it

The input was truncated before it was read.
---
 common/file.go   | 18 ++++++++++++++++++
 phase1/phase1.go |  4 ++--
 phase2/parted.go |  3 ++-
 phase2/phase2.go |  4 ++--
 4 files changed, 24 insertions(+), 5 deletions(-)
 create mode 100644 common/file.go

diff --git a/common/file.go b/common/file.go
new file mode 100644
index 0000000..d55fadc
--- /dev/null
+++ b/common/file.go
@@ -0,0 +1,18 @@
+package common
+
+import (
+	"fmt"
+	"os"
+)
+
+// CreateOutput creates the output file, refusing to truncate an input one
+func CreateOutput(path string, inputPaths ...string) (*os.File, error) {
+	if output, err := os.Stat(path); err == nil {
+		for _, inputPath := range inputPaths {
+			if input, err := os.Stat(inputPath); err == nil && os.SameFile(input, output) {
+				return nil, fmt.Errorf("output %s would overwrite input %s", path, inputPath)
+			}
+		}
+	}
+	return os.Create(path)
+}
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 758a8a0..4a8c8e1 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -28,7 +28,7 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 	defer inputFile.Close()
 
 	// Output file is in compressed representation
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
@@ -167,7 +167,7 @@ func Contribute(inputPath, outputPath string) error {
 	defer inputFile.Close()
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/parted.go b/phase2/parted.go
index bf01363..447030d 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
@@ -21,7 +22,7 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 67cdd4c..174ad79 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -19,7 +19,7 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path, r1csPath)
 	if err != nil {
 		return err
 	}
@@ -70,7 +70,7 @@ func Contribute(inputPath, outputPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8cdd7bda4d0ade48df8064ce48a7327dbaeccde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 12/19] fix: nonsensical sizes in headers and arguments crashed
 or hung commands

Powers and sizes are read from files and arguments and were used unchecked: they
caused panics, endless loops and huge allocations, or were silently truncated.
---
 actions.go       |  6 ++++++
 phase1/header.go |  7 +++++++
 phase2/header.go | 17 +++++++++++++++++
 phase2/parted.go |  9 +++++++++
 phase2/utils.go  |  2 +-
 5 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/actions.go b/actions.go
index 52eb39c..fa05c22 100644
--- a/actions.go
+++ b/actions.go
@@ -26,6 +26,9 @@ func p1t(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if outPower < 1 || inPower > phase1.MaxPower {
+		return errors.New("powers must be between 1 and 28")
+	}
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
@@ -43,6 +46,9 @@ func p1n(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
diff --git a/phase1/header.go b/phase1/header.go
index 7fe661a..2c25cbe 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -2,9 +2,13 @@ package phase1
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 )
 
+// MaxPower is the largest power with a domain in BN254's scalar field
+const MaxPower = 28
+
 type Header struct {
 	Power         byte
 	Contributions uint16
@@ -24,6 +28,9 @@ func (p *Header) ReadFrom(reader io.Reader) error {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
+	if p.Power < 1 || p.Power > MaxPower {
+		return fmt.Errorf("invalid power %d", p.Power)
+	}
 	return nil
 }
 
diff --git a/phase2/header.go b/phase2/header.go
index 9485872..83293d9 100644
--- a/phase2/header.go
+++ b/phase2/header.go
@@ -2,7 +2,11 @@ package phase2
 
 import (
 	"encoding/gob"
+	"errors"
 	"io"
+	"math"
+
+	"github.com/bnb-chain/zkbnb-setup/phase1"
 )
 
 type Header struct {
@@ -20,6 +24,19 @@ func (h *Header) Read(reader io.Reader) error {
 	if err := dec.Decode(h); err != nil {
 		return err
 	}
+	return h.validate()
+}
+
+// validate rejects sizes that no circuit has
+func (h *Header) validate() error {
+	for _, size := range []int{h.Wires, h.Witness, h.Public, h.PrivateCommitted, h.Constraints, h.Contributions} {
+		if size < 0 || size > math.MaxInt32 {
+			return errors.New("invalid phase 2 header")
+		}
+	}
+	if h.Domain < 2 || h.Domain > 1<<phase1.MaxPower {
+		return errors.New("invalid domain size in phase 2 header")
+	}
 	return nil
 }
 
diff --git a/phase2/parted.go b/phase2/parted.go
index 447030d..d0d9c09 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -3,6 +3,7 @@ package phase2
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -28,12 +29,20 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase2File.Close()
 
+	if nbR1C < 0 || batchSize < 1 {
+		return errors.New("invalid number of R1C or batch size")
+	}
+
 	// Read R1CS
 	fmt.Println("Reading R1CS...")
 	cs := &cs_bn254.R1CS{}
 	// support nbR1C is small
 	cs.LoadFromSplitBinaryConcurrent(session, nbR1C, batchSize, runtime.NumCPU())
 
+	if nbCons != cs.GetNbConstraints() {
+		return fmt.Errorf("the circuit has %d constraints, not %d", cs.GetNbConstraints(), nbCons)
+	}
+
 	// 1. Process Headers
 	header1, header2, err := processHeaderParted(cs, nbCons, phase1File, phase2File)
 	if err != nil {
diff --git a/phase2/utils.go b/phase2/utils.go
index 7e01150..2b7d294 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -501,7 +501,7 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 	const batchSize = 1048576 // 2^20
 	var initialSize = int(math.Min(float64(size), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
-	r := make([]fr.Element, size)
+	r := make([]fr.Element, initialSize)
 
 	remaining := size
 	for remaining > 0 {
-- 
2.43.0


From 04b9fb9722b5fd91a75835a2f3d9dcf9b12c96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 13/19] fix: verification accepted files with another layout

Bytes after the last contribution and points in uncompressed representation passed
verification, though the other commands find points by their position.
---
 common/file.go         | 14 ++++++++++++++
 phase1/contribution.go |  4 ++++
 phase1/phase1.go       |  7 +++++++
 phase2/contribution.go |  6 ++++++
 phase2/phase2.go       |  7 +++++++
 5 files changed, 38 insertions(+)

diff --git a/common/file.go b/common/file.go
index d55fadc..6529635 100644
--- a/common/file.go
+++ b/common/file.go
@@ -1,7 +1,9 @@
 package common
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"os"
 )
 
@@ -16,3 +18,15 @@ func CreateOutput(path string, inputPaths ...string) (*os.File, error) {
 	}
 	return os.Create(path)
 }
+
+// ExpectEOF fails unless everything has been read
+func ExpectEOF(reader io.ByteReader) error {
+	_, err := reader.ReadByte()
+	if err == nil {
+		return errors.New("unexpected data at the end of the file")
+	}
+	if err != io.EOF {
+		return err
+	}
+	return nil
+}
diff --git a/phase1/contribution.go b/phase1/contribution.go
index ffaabe3..07ec1bf 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -2,6 +2,7 @@ package phase1
 
 import (
 	"crypto/sha256"
+	"errors"
 	"io"
 	"math"
 	"os"
@@ -77,6 +78,9 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 			return dec.BytesRead(), err
 		}
 	}
+	if dec.BytesRead() != ContributionSize-32 {
+		return dec.BytesRead(), errors.New("contribution isn't in compressed representation")
+	}
 	c.Hash = make([]byte, 32)
 	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 4a8c8e1..fc9f9cb 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -355,6 +355,10 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 
+	if dec.BytesRead() != int64(192*N+32) {
+		return errors.New("parameters aren't in compressed representation")
+	}
+
 	// Verify contributions
 	var current Contribution
 	prev, err := defaultContribution(transformedPath)
@@ -371,6 +375,9 @@ func Verify(inputPath, transformedPath string) error {
 		}
 		prev = current
 	}
+	if err := common.ExpectEOF(reader); err != nil {
+		return err
+	}
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
diff --git a/phase2/contribution.go b/phase2/contribution.go
index c54bbd3..acfcb37 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -2,12 +2,15 @@ package phase2
 
 import (
 	"crypto/sha256"
+	"errors"
 	"io"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 )
 
+const ContributionSize = 192
+
 type Contribution struct {
 	Delta     bn254.G1Affine
 	PublicKey common.PublicKey
@@ -46,6 +49,9 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 			return dec.BytesRead(), err
 		}
 	}
+	if dec.BytesRead() != ContributionSize-32 {
+		return dec.BytesRead(), errors.New("contribution isn't in compressed representation")
+	}
 	c.Hash = make([]byte, 32)
 	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 174ad79..203a61d 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -247,6 +247,10 @@ func Verify(inputPath, originPath string) error {
 		return err
 	}
 
+	if inputDec.BytesRead() != int64(96+32*(curHeader.Domain-1+curHeader.Witness)) {
+		return fmt.Errorf("parameters aren't in compressed representation")
+	}
+
 	// Verify contributions
 	fmt.Printf("#Contributions := %d\n", curHeader.Contributions)
 	var prevDelta = g1
@@ -263,6 +267,9 @@ func Verify(inputPath, originPath string) error {
 		prevDelta = c.Delta
 		prevHash = c.Hash
 	}
+	if err := common.ExpectEOF(inputReader); err != nil {
+		return err
+	}
 
 	// Verify last contribution has the same delta in parameters
 	fmt.Println("Verifying Delta of last contribution")
-- 
2.43.0


From 5bb1487d2f57b752f05512161371249df038c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 14/19] fix: circuits stored after Lazify got wrong phase-2
 parameters

p2n iterated over the plain constraints only, so every lazily represented
constraint was left out without an error.
---
 phase2/utils.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 2b7d294..f6c9b50 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -177,7 +177,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 
 	// Accumlate {[A]₁}
 	buff := make([]bn254.G1Affine, header2.Wires)
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -190,7 +191,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 	// Reset buff
 	buff = make([]bn254.G1Affine, header2.Wires)
 	// Accumlate {[B]₁}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -214,7 +216,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 	// Accumlate {[B]₂}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG2(&r1cs, &buff2[t.WireID()], t, &tauG2[i])
 		}
@@ -309,7 +312,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Output(Tau)
 		for _, t := range c.O {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -320,7 +324,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Right(AlphaTauG1)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -331,7 +336,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Left(BetaTauG1)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
-- 
2.43.0


From 1e78fc0d1c0f01e7f81797a3fb02ba18aa5b6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 15/19] fix: files written under fixed names could destroy an
 input or each other

---
 common/file.go   | 18 ++++++++++++++++++
 keys/keys.go     | 14 ++++++++++++++
 phase2/parted.go |  9 ++++++++-
 phase2/phase2.go |  4 ++++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/common/file.go b/common/file.go
index 6529635..eb95662 100644
--- a/common/file.go
+++ b/common/file.go
@@ -19,6 +19,24 @@ func CreateOutput(path string, inputPaths ...string) (*os.File, error) {
 	return os.Create(path)
 }
 
+// CheckDistinct fails if two of the paths are the same file
+func CheckDistinct(paths ...string) error {
+	var infos []os.FileInfo
+	for _, path := range paths {
+		info, err := os.Stat(path)
+		if err != nil {
+			continue
+		}
+		for _, other := range infos {
+			if os.SameFile(info, other) {
+				return fmt.Errorf("%s is also used for another file", path)
+			}
+		}
+		infos = append(infos, info)
+	}
+	return nil
+}
+
 // ExpectEOF fails unless everything has been read
 func ExpectEOF(reader io.ByteReader) error {
 	_, err := reader.ReadByte()
diff --git a/keys/keys.go b/keys/keys.go
index 5b8e415..8eef61e 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase2"
 	"github.com/consensys/gnark-crypto/ecc"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
@@ -688,6 +689,9 @@ func extractSplitVK(phase2Path, session string) error {
 }
 
 func ExtractKeys(phase2Path string) error {
+	if err := common.CheckDistinct(phase2Path, "evals", "pk", "vk"); err != nil {
+		return err
+	}
 	fmt.Println("Extracting proving key")
 	if err := extractPK(phase2Path); err != nil {
 		return err
@@ -701,6 +705,13 @@ func ExtractKeys(phase2Path string) error {
 }
 
 func ExtractSplitKeys(phase2Path, session string) error {
+	paths := []string{phase2Path, "evals", session + ".vk.save"}
+	for _, part := range []string{"E", "A", "B1", "Z", "K", "B2", "CommitmentKey"} {
+		paths = append(paths, session+".pk."+part+".save")
+	}
+	if err := common.CheckDistinct(paths...); err != nil {
+		return err
+	}
 	fmt.Println("Extracting proving key")
 	if err := extractSplitPK(phase2Path, session); err != nil {
 		return err
@@ -715,6 +726,9 @@ func ExtractSplitKeys(phase2Path, session string) error {
 
 func ExportSol(session string) error {
 	filename := session + ".sol"
+	if err := common.CheckDistinct(session+".vk.save", filename); err != nil {
+		return err
+	}
 	fmt.Printf("Exporting %s\n", filename)
 	f, err := os.Open(session + ".vk.save")
 	if err != nil {
diff --git a/phase2/parted.go b/phase2/parted.go
index d0d9c09..12859e1 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"runtime"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
@@ -23,12 +24,18 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
+	inputPaths, _ := filepath.Glob(session + ".r1cs.*")
+	inputPaths = append(inputPaths, phase1Path)
+	phase2File, err := common.CreateOutput(phase2Path, inputPaths...)
 	if err != nil {
 		return err
 	}
 	defer phase2File.Close()
 
+	if err := common.CheckDistinct(append(inputPaths, phase2Path, "srs.lag", "evals")...); err != nil {
+		return err
+	}
+
 	if nbR1C < 0 || batchSize < 1 {
 		return errors.New("invalid number of R1C or batch size")
 	}
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 203a61d..5b24668 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -25,6 +25,10 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 	}
 	defer phase2File.Close()
 
+	if err := common.CheckDistinct(phase1Path, r1csPath, phase2Path, "srs.lag", "evals"); err != nil {
+		return err
+	}
+
 	// 1. Process Headers
 	header1, header2, err := processHeader(r1csPath, phase1File, phase2File)
 	if err != nil {
-- 
2.43.0


From f4741a4755db038e92da8b8af68b78a02548f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 16/19] fix: p2np crashed on, or silently left out, parts of
 the R1CS that its arguments don't match

---
 phase2/parted.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index 12859e1..a50a8ee 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -39,6 +39,9 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	if nbR1C < 0 || batchSize < 1 {
 		return errors.New("invalid number of R1C or batch size")
 	}
+	if err := checkParts(session, nbR1C, batchSize); err != nil {
+		return err
+	}
 
 	// Read R1CS
 	fmt.Println("Reading R1CS...")
@@ -84,6 +87,33 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	return nil
 }
 
+// checkParts fails unless the parts of the R1CS are those that nbR1C and batchSize imply
+func checkParts(session string, nbR1C, batchSize int) error {
+	for _, part := range []string{"E11", "E1", "E2", "E3", "E4"} {
+		if _, err := os.Stat(fmt.Sprintf("%s.r1cs.%s.save", session, part)); err != nil {
+			return err
+		}
+	}
+	for start := 0; start < nbR1C; start += batchSize {
+		end := nbR1C
+		if batchSize < nbR1C-start {
+			end = start + batchSize
+		}
+		if _, err := os.Stat(fmt.Sprintf("%s.r1cs.Cons.%d.%d.save", session, start, end)); err != nil {
+			return err
+		}
+		if end == nbR1C {
+			break
+		}
+	}
+	// No constraints may be left out
+	more, _ := filepath.Glob(fmt.Sprintf("%s.r1cs.Cons.%d.*.save", session, nbR1C))
+	if len(more) > 0 {
+		return fmt.Errorf("there are more than %d R1C", nbR1C)
+	}
+	return nil
+}
+
 // processHeaderParted r1cs has no R1CCore.Constraints included
 func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
-- 
2.43.0


From bb91667121b40cc9e2d3dac724378e37d6dd2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 17/19] fix: keys allocates without bound when the phase 2
 header is damaged or evals is another circuit's

The sizes in the header of a phase 2 file were trusted: the Z and PKK arrays
were allocated before the file was known to hold them, and a wrong number of
wires made the verifying key be read from the wrong place in evals, taking any
bytes there for the length of an array.
---
 keys/keys.go     | 15 +++++++++++++++
 phase2/header.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 8eef61e..eb5d953 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -3,6 +3,7 @@ package keys
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -94,6 +95,9 @@ func extractPK(phase2Path string) error {
 	if err := header.Read(ph2Reader); err != nil {
 		return err
 	}
+	if err := header.CheckSize(phase2File); err != nil {
+		return err
+	}
 
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
@@ -154,6 +158,10 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	// The evaluations must be those of the circuit of the phase 2 file
+	if len(buffG1) != header.Wires {
+		return errors.New("evals doesn't have as many wires as the phase 2 file")
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPk.Encode(buffG1); err != nil {
 		return err
@@ -266,6 +274,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := header.Read(ph2Reader); err != nil {
 		return err
 	}
+	if err := header.CheckSize(phase2File); err != nil {
+		return err
+	}
 
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
@@ -381,6 +392,10 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	// The evaluations must be those of the circuit of the phase 2 file
+	if len(buffG1) != header.Wires {
+		return errors.New("evals doesn't have as many wires as the phase 2 file")
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPkA.Encode(buffG1); err != nil {
 		return err
diff --git a/phase2/header.go b/phase2/header.go
index 83293d9..5c1a439 100644
--- a/phase2/header.go
+++ b/phase2/header.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math"
+	"os"
 
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 )
@@ -40,6 +41,20 @@ func (h *Header) validate() error {
 	return nil
 }
 
+// CheckSize fails if a file is too small for the parameters its header announces
+func (h *Header) CheckSize(file *os.File) error {
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	// [δ]₁, [δ]₂, Z and PKK
+	size := 32 + 64 + 32*(int64(h.Domain)-1) + 32*int64(h.Witness)
+	if info.Mode().IsRegular() && info.Size() < size {
+		return errors.New("phase 2 file is too small for its header")
+	}
+	return nil
+}
+
 func (h *Header) write(writer io.Writer) error {
 	enc := gob.NewEncoder(writer)
 	if err := enc.Encode(*h); err != nil {
-- 
2.43.0


From 9cfc0cf13db2d80060b7d5958c14d0617ba04085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 18/19] fix: contributing dropped whatever followed the records
 the header counts

---
 phase1/phase1.go | 3 +++
 phase2/phase2.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index fc9f9cb..2445976 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -263,6 +263,9 @@ func Contribute(inputPath, outputPath string) error {
 			return err
 		}
 	}
+	if err := common.ExpectEOF(reader); err != nil {
+		return err
+	}
 
 	// Get hash of previous contribution
 	var prevHash []byte
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 5b24668..65ac7b7 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -149,6 +149,9 @@ func Contribute(inputPath, outputPath string) error {
 			return err
 		}
 	}
+	if err := common.ExpectEOF(reader); err != nil {
+		return err
+	}
 
 	// Get hash of previous contribution
 	var prevHash []byte
-- 
2.43.0


From 3c213b4104cbf2185eb3b60b13ed2c7ddca55e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 19/19] fix: inputs of a parted session are protected whatever
 characters its name has

---
 phase2/parted.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/phase2/parted.go b/phase2/parted.go
index a50a8ee..b522fde 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strings"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
@@ -24,7 +25,10 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	inputPaths, _ := filepath.Glob(session + ".r1cs.*")
+	inputPaths, err := filesStartingWith(session + ".r1cs.")
+	if err != nil {
+		return err
+	}
 	inputPaths = append(inputPaths, phase1Path)
 	phase2File, err := common.CreateOutput(phase2Path, inputPaths...)
 	if err != nil {
@@ -107,13 +111,35 @@ func checkParts(session string, nbR1C, batchSize int) error {
 		}
 	}
 	// No constraints may be left out
-	more, _ := filepath.Glob(fmt.Sprintf("%s.r1cs.Cons.%d.*.save", session, nbR1C))
-	if len(more) > 0 {
-		return fmt.Errorf("there are more than %d R1C", nbR1C)
+	more, err := filesStartingWith(fmt.Sprintf("%s.r1cs.Cons.%d.", session, nbR1C))
+	if err != nil {
+		return err
+	}
+	for _, path := range more {
+		if strings.HasSuffix(path, ".save") {
+			return fmt.Errorf("there are more than %d R1C", nbR1C)
+		}
 	}
 	return nil
 }
 
+// filesStartingWith lists the files whose paths start with prefix. It isn't a
+// pattern, as the name of a session may have characters special to those.
+func filesStartingWith(prefix string) ([]string, error) {
+	dir, name := filepath.Split(prefix)
+	entries, err := os.ReadDir(filepath.Clean(dir))
+	if err != nil {
+		return nil, err
+	}
+	var paths []string
+	for _, entry := range entries {
+		if strings.HasPrefix(entry.Name(), name) {
+			paths = append(paths, dir+entry.Name())
+		}
+	}
+	return paths, nil
+}
+
 // processHeaderParted r1cs has no R1CCore.Constraints included
 func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
-- 
2.43.0

