From 2a02bff1055dd9048428e89a393ecb9003ed47c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 01/64] fix: mask the whole initial hash so that compressing
 never indexes past the hash table

---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index dd65397..b18ecf5 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From 8f70ce097d152201c79f038bcf76f9502de65652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 02/64] fix: allocate the encoder window for the largest
 dictionary, it is shared by all methods

---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..8b0016f 100644
--- a/append.go
+++ b/append.go
@@ -90,7 +90,7 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
+	text = make([]byte, maxDicsiz*2+int(Maxmatch)+1)
 
 	return method, nil
 }
-- 
2.43.0


From ee6abe91b2bb2eb72edcc2b488bc19493aab2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 03/64] fix: encode -lh1- members with the dynamic Huffman
 coder

---
 slide.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/slide.go b/slide.go
index b18ecf5..93ea6ea 100644
--- a/slide.go
+++ b/slide.go
@@ -194,10 +194,8 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 func (l *Lha) encodeStart(method int) {
 	switch method {
-	case 0:
-		l.encodeStartFix()
 	case 1:
-		l.encodeStartSt1()
+		l.encodeStartFix()
 	case 2:
 		l.encodeStartSt1()
 	case 3:
@@ -215,10 +213,8 @@ func (l *Lha) encodeStart(method int) {
 
 func (l *Lha) encodeEnd(method int) {
 	switch method {
-	case 0:
-		l.encodeEndDyn()
 	case 1:
-		l.encodeEndSt1()
+		l.encodeEndDyn()
 	case 2:
 		l.encodeEndSt1()
 	case 3:
@@ -236,10 +232,8 @@ func (l *Lha) encodeEnd(method int) {
 
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
 	switch method {
-	case 0:
-		l.outputDyn(int(code), int(pos))
 	case 1:
-		l.outputSt1(code, pos)
+		l.outputDyn(int(code), int(pos))
 	case 2:
 		l.outputSt1(code, pos)
 	case 3:
-- 
2.43.0


From faf44a72b7a27f454ad9fd1990fecddfd8d7eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 04/64] fix: only -lh2- has an escape code in its dynamic tree,
 and keep it apart from the -lh3- alphabet size

---
 dhuf.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..1ea320d 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -18,6 +18,7 @@ var (
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
+	n1Dyn       int /* first code followed by extra bits (lh1, lh2) */
 )
 
 const (
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
-	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+	n1Dyn = 512
+	if nMax < uint(256+maxmatch-uint16(threshold)+1) {
+		n1Dyn = int(nMax) - 1
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - n1Dyn
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(n1Dyn)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == n1Dyn {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
-- 
2.43.0


From a33f73b62864601434199a34cc9f696956981b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 05/64] fix: write the tail of dynamic codes longer than 16
 bits from its leftmost bits

---
 dhuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhuf.go b/dhuf.go
index 1ea320d..d71cca4 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -300,7 +300,7 @@ func (l *Lha) encodeCDyn(c uint) {
 		_ = l.putcode(byte(cnt), uint16(bits>>16))
 	} else {
 		_ = l.putcode(16, uint16(bits>>16))
-		_ = l.putbits(byte(cnt-16), uint16(bits))
+		_ = l.putcode(byte(cnt-16), uint16(bits))
 	}
 	if d >= 0 {
 		_ = l.putbits(8, uint16(d))
-- 
2.43.0


From 45eea1cc6ac9159538fdb7ef9b1ee7b27cb11077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 06/64] fix: set up the -lh4- position alphabet

---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..4d7a657 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From 58e3c787d95c41feeb8d186aa68f379936eafaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 07/64] fix: let the decoder position reach the 64 KiB
 dictionary size so that -lh7- flushes its window

---
 larc.go | 4 ++--
 lha.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..59a3cf5 100644
--- a/larc.go
+++ b/larc.go
@@ -30,7 +30,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return uint16((l.loc - uint(l.matchpos) - uint(magic0)) & 0x7ff)
 }
 
 /* ------------------------------------------------------------------------ */
@@ -78,7 +78,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return uint16((l.loc - uint(l.matchpos) - uint(magic5)) & 0xfff)
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/lha.go b/lha.go
index a387124..80f2061 100644
--- a/lha.go
+++ b/lha.go
@@ -60,7 +60,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
-- 
2.43.0


From 3381c31d987e302205882adc4cb590e4144e47d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:44 +0000
Subject: [PATCH 08/64] fix: walk the -lh3- code tree with a signed 16 bit
 word, long codes always took the left branch

---
 shuf.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..a1c5cb7 100644
--- a/shuf.go
+++ b/shuf.go
@@ -134,7 +134,8 @@ var blocksize uint16 = 0
 
 func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 	var (
-		i, j int
+		i int16
+		j int
 	)
 	if blocksize == 0 { /* read block head */
 		blocksize = l.getbits(byte(bufbits)) /* read block blocksize */
@@ -152,7 +153,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(cLen[j])
 	} else {
 		_ = l.fillbuf(12)
-		i = int(l.bitbuf)
+		i = int16(l.bitbuf)
 		for {
 			if i < 0 {
 				j = int(right[j])
@@ -176,7 +177,8 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 /* lh1, 3 */
 func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 	var (
-		i, j int
+		i int16
+		j int
 	)
 
 	j = int(ptTable[l.peekbits(8)])
@@ -184,7 +186,7 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(ptLen[j])
 	} else {
 		_ = l.fillbuf(8)
-		i = int(l.bitbuf)
+		i = int16(l.bitbuf)
 		for {
 			if i < 0 {
 				j = int(right[j])
-- 
2.43.0


From bf76abfb867a9b24b461c1988b729d370758db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 09/64] fix: build the whole -lh3- position table and start
 each -lh3- member with a fresh block

---
 shuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shuf.go b/shuf.go
index a1c5cb7..3b37dba 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
@@ -145,7 +146,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
-- 
2.43.0


From f6348164d124715a26caea7ec826bbef56db6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:47 +0000
Subject: [PATCH 10/64] fix: take one branch per bit in the -pm2- trees

---
 pmtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmtree.go b/pmtree.go
index 9c76653..557d88f 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
-- 
2.43.0


From 2e77a4d13a19e025d463dc23411ecf84c894bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:21 +0000
Subject: [PATCH 11/64] fix: notice read errors, write errors and the end of
 the packed data while decoding

---
 bitio.go | 52 +++++++++++++++++++++++++++++++++++++---------------
 larc.go  | 26 +++++++-------------------
 lha.go   |  2 ++
 slide.go | 22 ++++++++++++++++++----
 4 files changed, 64 insertions(+), 38 deletions(-)

diff --git a/bitio.go b/bitio.go
index caa3a96..9badf92 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,7 +2,7 @@ package lha
 
 import (
 	"fmt"
-	"os"
+	"io"
 )
 
 /* ------------------------------------------------------------------------ */
@@ -15,22 +15,47 @@ import (
 /*              Separated from crcio.c          2002.10.26  Koji Arai       */
 /* ------------------------------------------------------------------------ */
 
+/* number of bytes the bit buffer may look ahead past the end of the packed data */
+const maxOverrun = 3
+
+/* fail remembers the first error met while coding a member */
+func (l *Lha) fail(err error) {
+	if l.codingErr == nil {
+		l.codingErr = err
+	}
+}
+
+/* nextByte reads one byte of the packed data, and zeroes past its end */
+func (l *Lha) nextByte() (byte, error) {
+	if l.compsize <= 0 {
+		l.overrun++
+		if l.overrun > maxOverrun {
+			err := fmt.Errorf("packed data ends too early")
+			l.fail(err)
+			return 0, err
+		}
+		return 0, nil
+	}
+	var c [1]byte
+	if _, err := io.ReadFull(l.infile, c[:]); err != nil {
+		err = fmt.Errorf("cannot read stream :%v", err.Error())
+		l.fail(err)
+		return 0, err
+	}
+	l.compsize--
+	return c[0], nil
+}
+
 func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits */
 
 	for n > l.bitcount {
 		n -= l.bitcount
 		l.bitbuf = (l.bitbuf << uint16(l.bitcount)) + uint16(l.subbitbuf>>(charBit-l.bitcount))
-		if l.compsize != 0 {
-			l.compsize--
-			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
-			if err != nil {
-				return fmt.Errorf("cannot read stream")
-			}
-			l.subbitbuf = c[0]
-		} else {
-			l.subbitbuf = 0
+		c, err := l.nextByte()
+		if err != nil {
+			return err
 		}
+		l.subbitbuf = c
 		l.bitcount = charBit
 	}
 	l.bitcount -= n
@@ -42,10 +67,7 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 func (l *Lha) getbits(n byte) uint16 {
 	var x uint16 = l.bitbuf >> (2*charBit - n)
 
-	err := l.fillbuf(n)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "fillbuf error :%v\n", err.Error())
-	}
+	_ = l.fillbuf(n)
 	return x
 }
 
diff --git a/larc.go b/larc.go
index 59a3cf5..193adcb 100644
--- a/larc.go
+++ b/larc.go
@@ -1,7 +1,5 @@
 package lha
 
-import "io"
-
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
 /*              larc.c -- extra *.lzs                                       */
@@ -44,29 +42,19 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 /* lz5 */
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
+	var b byte
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		b, _ = l.nextByte()
+		l.mFlag = int(b)
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	b, _ = l.nextByte()
+	c = int(b)
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		b, _ = l.nextByte()
+		c = int(b)
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
diff --git a/lha.go b/lha.go
index 80f2061..2c30655 100644
--- a/lha.go
+++ b/lha.go
@@ -61,6 +61,8 @@ type Lha struct {
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
 	loc                            uint
+	codingErr                      error /* first error met while (de)coding a member */
+	overrun                        int   /* bytes consumed past the end of the packed data */
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
diff --git a/slide.go b/slide.go
index 93ea6ea..2186238 100644
--- a/slide.go
+++ b/slide.go
@@ -113,6 +113,8 @@ func (l *Lha) decode(inter *interfacing) uint {
 	dicbit = uint16(inter.dicbit)
 	l.origsize = inter.original
 	l.compsize = inter.packed
+	l.codingErr = nil
+	l.overrun = 0
 
 	initializeCrc(&crc)
 	dicsiz = int(1) << dicbit
@@ -141,8 +143,11 @@ func (l *Lha) decode(inter *interfacing) uint {
 	}
 	decodeCount = 0
 	l.loc = 0
-	for decodeCount < l.origsize {
+	for decodeCount < l.origsize && l.codingErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
+		if l.codingErr != nil {
+			break
+		}
 		if c < 256 {
 			if l.DumpLzss {
 				b := c
@@ -155,7 +160,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 			dtext[l.loc] = byte(c)
 			l.loc++
 			if int(l.loc) == dicsiz {
-				_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+				l.writeWindow(&crc, dicsiz)
 				l.loc = 0
 			}
 			decodeCount++
@@ -177,14 +182,17 @@ func (l *Lha) decode(inter *interfacing) uint {
 				dtext[l.loc] = byte(c)
 				l.loc++
 				if int(l.loc) == dicsiz {
-					_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+					l.writeWindow(&crc, dicsiz)
 					l.loc = 0
 				}
 			}
 		}
 	}
 	if l.loc != 0 {
-		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
+		l.writeWindow(&crc, int(l.loc))
+	}
+	if l.codingErr == nil && decodeCount != l.origsize {
+		l.fail(fmt.Errorf("decoded data does not end at the original size"))
 	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
@@ -192,6 +200,12 @@ func (l *Lha) decode(inter *interfacing) uint {
 	return crc
 }
 
+func (l *Lha) writeWindow(crc *uint, n int) {
+	if err := l.fwriteCrc(crc, dtext, n, &l.outfile); err != nil {
+		l.fail(err)
+	}
+}
+
 func (l *Lha) encodeStart(method int) {
 	switch method {
 	case 1:
-- 
2.43.0


From 00d07e8c6a612d1259bd7d520eb0bbed6e0ddebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:22 +0000
Subject: [PATCH 12/64] fix: refuse invalid code tables instead of panicking,
 looping or decoding with leftovers

---
 huf.go     | 40 ++++++++++++++++++++++++++++++++++++++--
 maketbl.go |  8 ++++----
 pm.go      | 12 +++++++-----
 pmtree.go  | 18 +++++++++++++++---
 shuf.go    | 23 +++++++++++++++++++++--
 5 files changed, 85 insertions(+), 16 deletions(-)

diff --git a/huf.go b/huf.go
index 4d7a657..29bd1d4 100644
--- a/huf.go
+++ b/huf.go
@@ -345,8 +345,19 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 	var i, c, n int
 
 	n = int(l.getbits(byte(nbit)))
+	if n > int(nn) {
+		l.fail(fmt.Errorf("bad table"))
+		return
+	}
+	for i = 0; i < 256; i++ {
+		ptTable[i] = 0
+	}
 	if n == 0 {
 		c = int(l.getbits(byte(nbit)))
+		if c >= int(nn) {
+			l.fail(fmt.Errorf("bad table"))
+			return
+		}
 		for i = 0; i < int(nn); i++ {
 			ptLen[i] = 0
 		}
@@ -384,7 +395,9 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		if err := makeTable(nn, &ptLen, 8, &ptTable); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -393,8 +406,19 @@ func (l *Lha) readCLen( /* void */ ) {
 	var i, c, n int16
 
 	n = int16(l.getbits(cbit))
+	if n > int16(Nc) {
+		l.fail(fmt.Errorf("bad table"))
+		return
+	}
+	for i = 0; i < 4096; i++ {
+		cTable[i] = 0
+	}
 	if n == 0 {
 		c = int16(l.getbits(cbit))
+		if c >= int16(Nc) {
+			l.fail(fmt.Errorf("bad table"))
+			return
+		}
 		for i = 0; i < int16(Nc); i++ {
 			cLen[i] = 0
 		}
@@ -432,6 +456,10 @@ func (l *Lha) readCLen( /* void */ ) {
 						c = int16(l.getbits(cbit)) + 20
 					}
 				}
+				if i+c > int16(Nc) {
+					l.fail(fmt.Errorf("bad table"))
+					return
+				}
 				c--
 				for c >= 0 {
 					cLen[i] = 0
@@ -447,7 +475,9 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		if err := makeTable(int16(Nc), &cLen, 12, &cTable); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -459,8 +489,14 @@ func (l *Lha) decodeCSt1( /*void*/ ) uint16 {
 	if blocksize == 0 {
 		blocksize = l.getbits(16)
 		l.readPtLen(int16(Nt), int16(tbit), 3)
+		if l.codingErr != nil {
+			return 0
+		}
 		l.readCLen()
 		l.readPtLen(int16(np), int16(pbit), -1)
+		if l.codingErr != nil {
+			return 0
+		}
 	}
 	blocksize--
 	j = cTable[l.peekbits(12)]
diff --git a/maketbl.go b/maketbl.go
index e9d06bd..f0d75c7 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -15,7 +15,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +43,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint(weight[i]) * uint(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if (total != 0 && total != 1<<16) || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
diff --git a/pm.go b/pm.go
index 880211f..b70181d 100644
--- a/pm.go
+++ b/pm.go
@@ -1,9 +1,6 @@
 package lha
 
-import (
-	"fmt"
-	"os"
-)
+import "fmt"
 
 /***********************************************************
 	pm2.c -- extract pmext2 coding
@@ -47,6 +44,8 @@ func (l *Lha) decodeStartPm2() {
 	dicsiz1 = (1 << dicbit) - 1
 	_ = l.initGetbits()
 	histInit()
+	treeReset(&tree1)
+	treeReset(&tree2)
 	nextcount = 0
 	lastupdate = 0
 	l.getbits(1) /* discard bit */
@@ -104,8 +103,11 @@ func (l *Lha) decodeCPm2() uint16 {
 		}
 	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
+	if l.codingErr != nil {
+		return 0
+	}
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		l.fail(fmt.Errorf("bad table"))
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 557d88f..43d854c 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -39,7 +39,9 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		if err := treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -81,7 +83,9 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			if err := treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]); err != nil {
+				l.fail(err)
+			}
 		}
 	}
 	// Note: count == 0 is possible!
@@ -92,7 +96,7 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
-	for i < 0x80 {
+	for i < 0x80 && l.codingErr == nil {
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
 		} else {
@@ -110,6 +114,14 @@ func (l *Lha) tree2Get() int {
 	return l.treeGet(&tree2)
 }
 
+func treeReset(t *tree) {
+	t.root = 0
+	for i := range t.leftarr {
+		t.leftarr[i] = 0
+		t.rightarr[i] = 0
+	}
+}
+
 func treeSetsingle(t *tree, value byte) {
 	t.root = 128 | value
 }
diff --git a/shuf.go b/shuf.go
index 3b37dba..e389f75 100644
--- a/shuf.go
+++ b/shuf.go
@@ -1,5 +1,7 @@
 package lha
 
+import "fmt"
+
 const (
 	Np_      = (8 * 1024 / 64)
 	Np2_     = (Np_*2 - 1)
@@ -73,6 +75,9 @@ func (l *Lha) encodeStartFix( /*void*/ ) {
 func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 	var i, c int
 
+	for i = 0; i < 4096; i++ {
+		cTable[i] = 0
+	}
 	i = 0
 	for i < n1 {
 		if l.getbits(1) != 0 {
@@ -83,6 +88,10 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 		i++
 		if i == 3 && cLen[0] == 1 && cLen[1] == 1 && cLen[2] == 1 {
 			c = int(l.getbits(cbit))
+			if c >= n1 {
+				l.fail(fmt.Errorf("bad table"))
+				return
+			}
 			for i = 0; i < n1; i++ {
 				cLen[i] = 0
 			}
@@ -92,13 +101,18 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	if err := makeTable(int16(n1), &cLen, 12, &cTable); err != nil {
+		l.fail(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
 func (l *Lha) readTreeP( /*void*/ ) { /* read tree from file */
 	var i, c int
 
+	for i = 0; i < 256; i++ {
+		ptTable[i] = 0
+	}
 	i = 0
 	for i < Np_ {
 		ptLen[i] = byte(l.getbits(byte(lenfield)))
@@ -146,7 +160,12 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
+		if err := makeTable(int16(Np_), &ptLen, 8, &ptTable); err != nil {
+			l.fail(err)
+		}
+		if l.codingErr != nil {
+			return 0
+		}
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
-- 
2.43.0


From 3d633012deac40f81ebaa669db9a68fffc48259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:29 +0000
Subject: [PATCH 13/64] fix: convert between MS-DOS and UNIX time stamps

---
 header.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..a090548 100644
--- a/header.go
+++ b/header.go
@@ -216,13 +216,20 @@ func putBytes(buf []byte, len int) {
 	}
 }
 
-// nolint: unused, deadcode
 func subbits(n, off, len int) int {
 	return (((n) >> (off)) & ((1 << (len)) - 1))
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	n := int(t)
+	return time.Date(
+		subbits(n, 25, 7)+1980,
+		time.Month(subbits(n, 21, 4)),
+		subbits(n, 16, 5),
+		subbits(n, 11, 5),
+		subbits(n, 5, 6),
+		subbits(n, 0, 5)*2,
+		0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -239,7 +246,7 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	us := ((tm.Year() - 1980) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
-- 
2.43.0


From 8eda1263c249c7c9481eb02136832411d86fc05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:30 +0000
Subject: [PATCH 14/64] fix: read header fields completely and start each
 header from scratch

---
 header.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/header.go b/header.go
index a090548..35f5628 100644
--- a/header.go
+++ b/header.go
@@ -319,7 +319,7 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		if len(data) < l.HeaderSize {
 			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
+		nb, err := io.ReadFull(*fp, data[:l.HeaderSize])
 		if err != nil || nb == 0 {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
@@ -499,7 +499,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+remainSize])
 
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
@@ -618,7 +618,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+remainSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -718,7 +718,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
+	n, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
 	if err != nil || n == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -756,7 +756,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	padding--
 	for padding != 0 {
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
 			return err, false
 		}
@@ -805,7 +805,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -857,6 +857,9 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	data := make([]byte, lzheaderStorage)
 
+	/* nothing of a header read before may survive */
+	*l = *NewLzHeader()
+
 	archiveKanjiCode := codeSJIS
 	systemKanjiCode := defaultSystemKanjiCode
 	var archiveDelim string = "\377\\" /* `\' is for level 0 header and
@@ -867,7 +870,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -875,7 +878,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
+	nb, err := io.ReadFull(*fp, data[1:commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
-- 
2.43.0


From 9e2cfa942272e8f6bb5750d99c59f047792b8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 15/64] fix: read the whole level 1 name and count the size
 bytes of every level 0 header

---
 header.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 35f5628..7e80a89 100644
--- a/header.go
+++ b/header.go
@@ -499,7 +499,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+remainSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
@@ -531,6 +531,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 			/* CRC field is not given */
 			l.ExtendType = ExtendGeneric
 			l.HasCrc = false
+			l.HeaderSize += 2
 
 			return nil, true
 		}
@@ -542,6 +543,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	l.Crc = uint(getWord())
 
 	if extendSize == 0 {
+		l.HeaderSize += 2
 		return nil, true
 	}
 
@@ -618,7 +620,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+remainSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -637,8 +639,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
+	l.Name, i = getBytes(nameLength+1, len(l.Name)) // sizeof(l.name)
 	l.Name[i-1] = 0
+	getPtr--
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -650,6 +653,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	l.ExtendType = getByte()
 
 	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
+	if dummy < 0 {
+		return fmt.Errorf("invalid header size (LHarc file ?)"), false
+	}
 	if dummy > 0 {
 		skipBytes(dummy) /* skip old style extend header */
 	}
@@ -667,6 +673,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	/* the `packed_size' field contains the extended header size. */
 	/* the `headerSize' field does not. */
 	l.PackedSize -= extendSize
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid header (LHarc file ?)"), false
+	}
 	l.HeaderSize += extendSize + 2
 
 	return nil, true
@@ -718,7 +727,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
+	n, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
 	if err != nil || n == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -805,7 +814,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := io.ReadFull(*fp, data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
-- 
2.43.0


From 3ea8a25962ea256fad3325fcecbf1aeeb69e9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:54 +0000
Subject: [PATCH 16/64] fix: walk the extended headers by their own sizes, keep
 the directory, and check the header CRC over all of them

---
 header.go | 90 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 29 deletions(-)

diff --git a/header.go b/header.go
index 7e80a89..acd011e 100644
--- a/header.go
+++ b/header.go
@@ -43,6 +43,7 @@ type LzHeader struct {
 	Crc             uint   /* file CRC */
 	HasCrc          bool   /* file CRC */
 	HeaderCrc       uint   /* header CRC */
+	hasHeaderCrc    bool
 	ExtendType      byte
 	MinorVersion    byte
 
@@ -304,41 +305,43 @@ func wintimeToUnixStamp() uint64 {
 
 func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint) (error, int) {
 	data := make([]byte, lzheaderStorage)
-	var nameLength int
-	dirname := make([]byte, FilenameLength)
-	var dirLength, i int
+	var dirname []byte
 	wholeSize := headerSize
 	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if len(data) < headerSize {
+			return fmt.Errorf("header size (%d) too large", headerSize), 0
+		}
+		if headerSize < n {
+			return fmt.Errorf("header size (%d) too small", headerSize), 0
 		}
-		nb, err := io.ReadFull(*fp, data[:l.HeaderSize])
-		if err != nil || nb == 0 {
+		if _, err := io.ReadFull(*fp, data[:headerSize]); err != nil {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
 		extType = int(getByte())
+		if headerSize-n < minExtendedSize(extType) {
+			return fmt.Errorf("invalid header (LHA file ?)"), 0
+		}
 		switch extType {
 		case 0:
 			l.HeaderCrc = uint(getWord())
+			l.hasHeaderCrc = true
 			/* header crc (CRC-16) */
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name = getString(headerSize - n)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			/* directory */
+			dirname = getString(headerSize - n)
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -362,13 +365,15 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX gid and uid */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group = getString(headerSize - n)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User = getString(headerSize - n)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -392,12 +397,11 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			   0xfe: extended attribute - platform information(another opinion)
 			   0xff: extended attribute - permission, owner-id and timestamp
 			         (level 3 on UNLHA32) */
-			skipBytes(headerSize - n)
-		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
 		}
+		*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
 
+		/* the next header size is at the end of this header */
+		getPtr = headerSize - l.SizeFieldLength
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
 			wholeSize += headerSize
@@ -407,9 +411,35 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	/* concatenate dirname and filename */
+	if length := lengthOfStringInByte(dirname); length > 0 {
+		l.Name = append(dirname[:length:length], l.Name...)
+	}
+
 	return nil, wholeSize
 }
 
+/* minExtendedSize is the least size of the contents of an extended header */
+func minExtendedSize(extType int) int {
+	switch extType {
+	case 0, 0x40, 0x50:
+		return 2
+	case 0x41:
+		return 24
+	case 0x42:
+		return 16
+	case 0x51, 0x54:
+		return 4
+	}
+	return 0
+}
+
+/* getString gets len bytes and terminates them with a NUL */
+func getString(len int) []byte {
+	buf, _ := getBytes(len, len)
+	return append(buf, 0)
+}
+
 const (
 	iHeaderSize     = 0  /* level 0,1,2   */
 	iHeaderChecksum = 1  /* level 0,1     */
@@ -751,7 +781,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, iLevel2HeaderSize)
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -762,17 +792,16 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
-	for padding != 0 {
+	for ; padding != 0; padding-- {
 		buf := make([]byte, 1)
 		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
-			return err, false
+			return fmt.Errorf("invalid header (LHarc file ?)"), false
 		}
 		hcrc = updateCrc(hcrc, buf[0])
 	}
 
-	if l.HeaderCrc != hcrc {
+	if l.hasHeaderCrc && l.HeaderCrc != hcrc {
 		return fmt.Errorf("header CRC error"), false
 	}
 
@@ -814,6 +843,9 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("unknown size field length (%d)", l.SizeFieldLength), false
+	}
 	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
@@ -843,7 +875,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, iLevel3HeaderSize)
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
@@ -856,7 +888,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
 
-	if l.HeaderCrc != hcrc {
+	if l.hasHeaderCrc && l.HeaderCrc != hcrc {
 		return fmt.Errorf("header CRC error"), false
 	}
 
-- 
2.43.0


From 2d68d0a695b7eae7d12a5addb68916d8129a0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 17/64] fix: compare path delimiters as bytes, 0xff was never
 recognised in archived names

---
 header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index acd011e..06ddd1d 100644
--- a/header.go
+++ b/header.go
@@ -972,7 +972,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	case ExtendAmiga:
 		{
 			/* workaround */
-			lenName := len(l.Name)
+			lenName := lengthOfStringInByte(l.Name)
 			if lenName > 0 && l.Name[lenName-1] == lhaPathsep && string(l.Method[:]) == Lzhuff0Method {
 				/* replace with "-lhd-" */
 				copy(l.Method[:], LzhdirsMethod)
@@ -1037,7 +1037,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
-- 
2.43.0


From 5e5cc5fa64f710f97eeaa3523b5966024b9a641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:56 +0000
Subject: [PATCH 18/64] fix: join and split the name and the target of archived
 symbolic links

---
 header.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/header.go b/header.go
index 06ddd1d..a98c379 100644
--- a/header.go
+++ b/header.go
@@ -1013,7 +1013,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
+			l.Realname = append([]byte{}, l.Name[p+1:]...)
+			l.Name = append(l.Name[:p:p], 0)
 			/* ok */
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
@@ -1200,14 +1201,15 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
+		linkname := hdr.Name[:lengthOfStringInByte(hdr.Name)]
+		if strings.Contains(string(linkname), "|") {
+			fmt.Fprintf(os.Stderr, "symlink name \"%s\" contains '|' char. change it into '_'\n", linkname)
+			linkname = []byte(strings.ReplaceAll(string(linkname), "|", "_"))
 		}
-		pathname = append(pathname, hdr.Name...)
+		pathname = append(pathname, linkname...)
 		pathname = append(pathname, '|')
 		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, 0)
 	} else {
 		pathname = append(pathname, hdr.Name...)
 		//	copy(pathname, hdr.Name)
-- 
2.43.0


From 498561aecec19d7d8412aa97462ca0f0899342f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:58 +0000
Subject: [PATCH 19/64] fix: write level 1 headers with their real extended
 header size

---
 header.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/header.go b/header.go
index a98c379..6a1f301 100644
--- a/header.go
+++ b/header.go
@@ -1256,15 +1256,13 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixGid))
 	putWord(int(l.UnixUID))
 
-	if l.Group[0] != 0 {
-		length := len(l.Group)
+	if length := lengthOfStringInByte(l.Group); length > 0 {
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
-	if l.User[0] != 0 {
-		length := len(l.User)
+	if length := lengthOfStringInByte(l.User); length > 0 {
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
@@ -1337,16 +1335,16 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := strings.LastIndexByte(string(pathname), lhaPathsep)
 
-	if index != 0 {
-		basename = pathname[0:index]
+	if index != -1 {
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1383,9 +1381,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
+	headerSize = extendHeaderTop - 2
 
 	/* write filename and dirname */
 
@@ -1407,12 +1404,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
-- 
2.43.0


From 7ae017c731a4fe6723c7b0791d68fce5c0e0fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:59 +0000
Subject: [PATCH 20/64] fix: write the name of a level 2 header as a filename
 extended header

---
 header.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 6a1f301..d418781 100644
--- a/header.go
+++ b/header.go
@@ -1432,14 +1432,14 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := strings.LastIndexByte(string(pathname), lhaPathsep)
 
 	if index != -1 {
-		basename = pathname[0:index]
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1482,8 +1482,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
-- 
2.43.0


From f293e322a16c46c5165fc9fff6415e2b7a71238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:17 +0000
Subject: [PATCH 21/64] fix: record the type and the permissions of the
 archived file

---
 header.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/header.go b/header.go
index d418781..1379ca0 100644
--- a/header.go
+++ b/header.go
@@ -96,31 +96,24 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
 
-	info, err := os.Stat(name)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "Error while getting informations from %s: error :%v\n", name, err)
-		info = vStat
-	}
-
 	// we are not in linux, this won't work anyway in windows,
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(UnixFileRegular) | uint16(vStat.Mode().Perm())
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		if name[len(name)-1] != '/' {
-			name += "/"
-		}
-		hdr.UnixMode += 40000
+		hdr.Name = append([]byte(filename), '/', 0)
+		hdr.UnixMode = uint16(UnixFileDirectory) | uint16(vStat.Mode().Perm())
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.UnixMode = uint16(UnixFileSymlink) | uint16(vStat.Mode().Perm())
 		realname, err := os.Readlink(name)
 		if err == nil {
 			copy(hdr.Realname, []byte(realname))
-- 
2.43.0


From 6f1dfb8a5145dc9fe65ece4cc33d3ec99fd056f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:15 +0000
Subject: [PATCH 22/64] fix: copy stored members by their size, byte for byte,
 with their CRC

---
 extract.go | 13 ++++++++++++-
 slide.go   |  1 -
 util.go    | 24 ++++++++++--------------
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/extract.go b/extract.go
index 1cf021a..1a1fb0f 100644
--- a/extract.go
+++ b/extract.go
@@ -20,6 +20,7 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		crc   uint
 		inter interfacing
 	)
+	l.codingErr = nil
 	inter.method = method
 	inter.infile = infp
 	inter.outfile = outfp
@@ -83,7 +84,17 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		if VerifyMode {
+			outfp = io.Discard
+		}
+		var err error
+		*read_sizep, err = copyfile(&infp, &outfp, min(original_size, packed_size), 2, &crc)
+		if err == nil && *read_sizep != original_size {
+			err = fmt.Errorf("packed data ends too early")
+		}
+		if err != nil {
+			l.fail(err)
+		}
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/slide.go b/slide.go
index 2186238..1e31f1f 100644
--- a/slide.go
+++ b/slide.go
@@ -113,7 +113,6 @@ func (l *Lha) decode(inter *interfacing) uint {
 	dicbit = uint16(inter.dicbit)
 	l.origsize = inter.original
 	l.compsize = inter.packed
-	l.codingErr = nil
 	l.overrun = 0
 
 	initializeCrc(&crc)
diff --git a/util.go b/util.go
index 9c2ee72..c456f53 100644
--- a/util.go
+++ b/util.go
@@ -31,35 +31,31 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	if !TextMode {
 		text_flg = 0
 	}
-	if *crcp != 0 {
-		initializeCrc(crcp)
-	}
+	initializeCrc(crcp)
 	if text_flg != 0 {
 		initCodeCache()
 	}
 	for size > 0 {
 		/* read */
 		var err error
-		xsize, err = (*f1).Read(buf)
-
+		xsize, err = io.ReadFull(*f1, buf[:min(size, buffersize)])
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return rsize, fmt.Errorf("file read error :%v", err.Error())
+		}
 		if xsize == 0 {
 			break
 		}
-		if err != nil && err != io.EOF {
-			return 0, fmt.Errorf("file read error :%v", err.Error())
-		}
 
 		/* write */
-		_, err = (*f2).Write(buf)
+		_, err = (*f2).Write(buf[:xsize])
 		if err != nil {
-			return 0, fmt.Errorf("file write error :%v", err.Error())
+			return rsize, fmt.Errorf("file write error :%v", err.Error())
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
-			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
-		}
+		*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		rsize += xsize
+		size -= xsize
 	}
 	return rsize, nil
 }
@@ -70,13 +66,13 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 
 	save_quiet = Quiet
 	Quiet = true
+	defer func() { Quiet = save_quiet }()
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0


From 795df91c13601ef6fcc8da1eb09c54c6e430ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 23/64] fix: report members that cannot be opened, decoded or
 written, or whose CRC differs

---
 lhext.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/lhext.go b/lhext.go
index 97ac92d..e17ee60 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1412,11 +1412,14 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			string(name[:]),
 			method,
 			&readSize))
+		b.Flush()
 
+		if l.codingErr != nil {
+			return readSize, outputData.Bytes(), fmt.Errorf("cannot extract \"%s\": %v", hdr.Name, l.codingErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
-			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
+			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", hdr.Name)
 		}
-		b.Flush()
 		return readSize, outputData.Bytes(), nil
 	} else {
 		return 0, outputData.Bytes(), fmt.Errorf("cannot not stream directory content")
@@ -1552,21 +1555,25 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			}
 			var err error
 			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			if err != nil {
+				return 0, err
+			}
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				string(name[:]),
+				method,
+				&readSize))
+			if err := fp.(*os.File).Close(); err != nil {
+				l.fail(err)
 			}
-
-			return readSize, nil
 		}
 
+		if l.codingErr != nil {
+			return readSize, fmt.Errorf("cannot extract \"%s\": %v", name, l.codingErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, fmt.Errorf("CRC error: \"%s\"", name)
 		}
-- 
2.43.0


From e7d25a70e4ab0dcd22bce805f93851abe180c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:44 +0000
Subject: [PATCH 24/64] fix: report read and write errors met while compressing

---
 append.go | 16 ++++++++++++----
 bitio.go  |  4 +++-
 slide.go  |  9 ++++-----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/append.go b/append.go
index 8b0016f..ffe2415 100644
--- a/append.go
+++ b/append.go
@@ -28,29 +28,37 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 
 	if method < 0 {
 		method = l.CompressMethod
-		if method > 0 {
+		if method != 0 {
 			method, _ = encodeAlloc(method)
 		}
 	}
 
+	l.codingErr = nil
 	inter.method = method
 
+	var err error
 	if inter.method > 0 {
 		inter.infile = *infp
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		crc, err = l.encode(inter)
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
 		*packed_size_var = *original_size_var
 	}
+	if err != nil {
+		return crc, err
+	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	indice := 100
+	if *original_size_var > 0 {
+		indice = (*packed_size_var * 100) / *original_size_var
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
diff --git a/bitio.go b/bitio.go
index 9badf92..82fb587 100644
--- a/bitio.go
+++ b/bitio.go
@@ -84,7 +84,9 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				err = fmt.Errorf("write error in bitio.c(putcode) :%v", err.Error())
+				l.fail(err)
+				return err
 			}
 			l.compsize++
 		} else {
diff --git a/slide.go b/slide.go
index 1e31f1f..22f99e4 100644
--- a/slide.go
+++ b/slide.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 	"strconv"
 )
 
@@ -283,7 +282,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
-		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		l.fail(fmt.Errorf("error while freadCrc : %v", err))
 	}
 
 	l.remainder += uint(n)
@@ -420,7 +419,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	var v int
 
 	v, err = l.freadCrc(&crc, &text, uint(dicsiz), txtsiz-dicsiz, l.infile)
-	if err != nil {
+	if err != nil && err != io.EOF {
 		return 0, err
 	}
 	l.remainder = uint(v)
@@ -435,7 +434,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.codingErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -470,7 +469,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	inter.packed = l.compsize
 	inter.original = count
 
-	return crc, nil
+	return crc, l.codingErr
 }
 
 func initSlide() {
-- 
2.43.0


From c9a9d8c8cea1491e8a2d5187ef3c8c66014269f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 25/64] fix: rewrite the header of a member where it is, and
 store unpackable data once

---
 lhext.go | 60 +++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/lhext.go b/lhext.go
index e17ee60..0d2b0d0 100644
--- a/lhext.go
+++ b/lhext.go
@@ -285,7 +285,6 @@ func removeFiles(filec int, filev []string) {
 }
 
 func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
-	//var next_pos int
 	var vOriginalSize, vPackedSize int
 
 	l.readingFilename = string(hdr.Name)
@@ -298,7 +297,18 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	archive := (*nafp).(*os.File)
+	headerPos, err := archive.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err := WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
+	dataPos, err := archive.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
@@ -312,33 +322,43 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
 		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	if err != nil {
+		return err
+	}
 
-	if vPackedSize < vOriginalSize {
-		//	next_pos = 0 //ftello(nafp)
-	} else { /* retry by stored method */
-		var err error
+	if vPackedSize >= vOriginalSize || l.unpackable { /* retry by stored method */
+		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if _, err = archive.Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
-		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return err
 		}
-		//}
-
-		//if chsize(fileno(nafp), next_pos) == -1 {
-		//	return fmt.Errorf("cannot truncate archive")
-		//}
-
 		copy(hdr.Method, []byte(Lzhuff0Method))
 	}
+	nextPos, err := archive.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err = archive.Truncate(nextPos); err != nil {
+		return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+	}
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
-	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	// go back to the beginning of the member to set the new header
+	if _, err = archive.Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = archive.Seek(nextPos, io.SeekStart)
+	return err
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-- 
2.43.0


From 0f7f541f2f2f5edb5fdad939300433ab7786e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 26/64] fix: update existing archives: keep the other members,
 replace the same name, report errors and leave no temporary file

---
 lha.go   |   6 +-
 lhext.go | 567 +++++++++++++++++++------------------------------------
 2 files changed, 202 insertions(+), 371 deletions(-)

diff --git a/lha.go b/lha.go
index 2c30655..182b7b6 100644
--- a/lha.go
+++ b/lha.go
@@ -73,6 +73,8 @@ type Lha struct {
 	newArchiveNameBuffer []byte
 	temporaryName        string
 	backupArchiveName    []byte
+	addedNames           []string /* names of the members added by this run */
+	archivedFiles        []string /* files archived by this run */
 }
 
 func NewLha(archivename string) *Lha {
@@ -110,7 +112,7 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 			break
 		}
 		headers = append(headers, h)
-		pos = 0
+		pos = -1
 		// seek io.reader to + file size
 		if l.needFile(string(h.Name[:])) {
 			readSize, err := l.extractOne(&or, h)
@@ -125,7 +127,7 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
+			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err != nil {
 				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
 			}
 		}
diff --git a/lhext.go b/lhext.go
index 0d2b0d0..a192b59 100644
--- a/lhext.go
+++ b/lhext.go
@@ -148,8 +148,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -180,10 +181,13 @@ func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
 		var v uint
 		l.readingFilename = l.archiveName
 		l.writingFilename = l.temporaryName
-		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+		n, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
 		if err != nil {
 			return err
 		}
+		if n != hdr.HeaderSize+hdr.PackedSize {
+			return fmt.Errorf("\"%s\" is truncated in \"%s\"", hdr.Name, l.archiveName)
+		}
 
 		/* directory and symlink are ignored for time-stamp archiving */
 		copy(hdr.Method, "-lhd-")
@@ -361,11 +365,113 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	return err
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
+// mergeOne copies the members of the old archive up to the place of hdr,
+// then adds hdr, in place of the old member of the same name if there is one.
+func (l *Lha) mergeOne(name string, hdr *LzHeader, fp *io.Reader, oafp *io.Reader, nafp *io.Writer) (added bool, err error) {
 	ahdr := NewLzHeader()
+	var oldHeader int64
+	var cmp int
+
+	for *oafp != nil {
+		var hasHeader bool
+
+		oldHeader, hasHeader, err = nextOldHeader(oafp, ahdr)
+		if err != nil {
+			return false, err
+		}
+		if !hasHeader {
+			/* end of archive */
+			*oafp = nil
+			break
+		}
+
+		cmp = strings.Compare(trimNul(ahdr.Name), trimNul(hdr.Name))
+		if !l.SortContents && cmp != 0 {
+			cmp = -1 /* keep the order of the old archive */
+		}
+		if cmp > 0 { /* INSERT */
+			if _, err := (*oafp).(io.Seeker).Seek(oldHeader, io.SeekStart); err != nil {
+				return false, err
+			}
+			break
+		}
+		if cmp == 0 { /* REPLACE */
+			/* drop old archive's */
+			if err := skipToNextpos(oafp, -1, ahdr.PackedSize, 0); err != nil {
+				return false, err
+			}
+			break
+		}
+		/* SKIP, copy old to new */
+		if err := l.keepOldOne(oldHeader, oafp, nafp, ahdr); err != nil {
+			return false, err
+		}
+	}
+
+	if *oafp == nil || cmp > 0 { /* not in archive */
+		if l.Noexec {
+			fmt.Printf("ADD %s\n", name)
+			return false, nil
+		}
+	} else { /* cmp == 0 */
+		if l.UpdateIfNewer &&
+			ahdr.UnixLastModifiedStamp >= hdr.UnixLastModifiedStamp {
+			/* copy old to new */
+			if err := l.keepOldOne(oldHeader, oafp, nafp, ahdr); err != nil {
+				return false, err
+			}
+			l.addedNames = append(l.addedNames, trimNul(hdr.Name))
+			return false, nil
+		}
+		/* newer than archive's */
+		if l.Noexec {
+			fmt.Printf("REPLACE %s\n", name)
+			return false, nil
+		}
+	}
+	if err := l.addOne(fp, nafp, hdr); err != nil {
+		return false, err
+	}
+	l.addedNames = append(l.addedNames, trimNul(hdr.Name))
+	return true, nil
+}
+
+/* nextOldHeader reads the next header of the old archive and tells where it starts */
+func nextOldHeader(oafp *io.Reader, ahdr *LzHeader) (int64, bool, error) {
+	pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, false, err
+	}
+	err, hasHeader := ahdr.GetHeader(oafp)
+	if err != nil && err != io.EOF {
+		return 0, false, fmt.Errorf("error while getting Lzheader error : %v", err.Error())
+	}
+	return pos, hasHeader, nil
+}
+
+/* keepOldOne copies a member of the old archive, unless this run has already written its name */
+func (l *Lha) keepOldOne(oldHeader int64, oafp *io.Reader, nafp *io.Writer, ahdr *LzHeader) error {
+	for _, name := range l.addedNames {
+		if name == trimNul(ahdr.Name) {
+			return skipToNextpos(oafp, -1, ahdr.PackedSize, 0)
+		}
+	}
+	if l.Noexec {
+		return skipToNextpos(oafp, -1, ahdr.PackedSize, 0)
+	}
+	if _, err := (*oafp).(io.Seeker).Seek(oldHeader, io.SeekStart); err != nil {
+		return err
+	}
+	return copyOldOne(oafp, nafp, ahdr, l)
+}
+
+func trimNul(name []byte) string {
+	return string(name[:lengthOfStringInByte(name)])
+}
+
+func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
 	var filec int
 	var filev []string
 	var i int
@@ -375,6 +481,10 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	var directory, symlink bool
 
 	stbuf, err = os.Lstat(name)
+	if os.IsNotExist(err) {
+		fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
+		return oafp, nil
+	}
 	if err != nil {
 		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
 	}
@@ -383,79 +493,24 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
 	if !directory && !symlink && !l.Noexec {
-		fp, err = os.Open(name)
+		f, err := os.Open(name)
 		if err != nil {
 			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
 		}
+		defer f.Close()
+		fp = f
 	}
 
 	l.initHeader(name, stbuf, hdr)
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-
-				break
-			}
-		}
+	added, err := l.mergeOne(name, hdr, &fp, oafp, nafp)
+	if err != nil {
+		return oafp, err
 	}
-
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-		}
+	if added {
+		l.archivedFiles = append(l.archivedFiles, name)
 	}
 
-	fp.(*os.File).Close()
-	//fp.Close()
-
 	if directory && l.RecursiveArchiving { /* recursive call */
 		if findFiles(name, &filec, &filev, l) {
 			for i = 0; i < filec; i++ {
@@ -471,16 +526,23 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
+	return updateArchive(archiveFilepath, l, l.appendIt)
+}
+
+// updateArchive builds the new archive beside the old one and replaces the
+// old one when it is complete, members are added by appendOne.
+func updateArchive(archiveFilepath string, l *Lha, appendOne func(string, *io.Reader, *io.Writer) (*io.Reader, error)) (err error) {
 	l.archiveName = archiveFilepath
 	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
 	var i int
-	//	var old_header int
 	var oldArchiveExist bool
 	var fw *os.File
 
 	l.mostRecent = 0
+	l.addedNames = nil
+	l.archivedFiles = nil
 
 	/* exit if no operation */
 	if !l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -490,8 +552,12 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
+		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
 	}
@@ -504,7 +570,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	if l.newArchive && oldArchiveExist {
-		fr.Close()
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -520,12 +586,17 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* build temporary file */
 	/* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
-		var err error
 		fw, err = buildTemporaryFile(l)
 		if err != nil {
 			return err
 		}
 		nafp = fw
+		defer func() {
+			if err != nil { /* the old archive stays as it was */
+				fw.Close()
+				os.Remove(l.temporaryName)
+			}
+		}()
 	}
 
 	/* find needed files when automatic update */
@@ -537,9 +608,9 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
 		if !l.Noexec {
 			fw.Close()
+			os.Remove(l.temporaryName)
 		}
 		return nil
 	}
@@ -559,43 +630,44 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
+		var toExclude bool
+		for j = 0; j < len(l.ExcludeFiles); j++ {
+			a := strings.ToUpper(l.ExcludeFiles[j])
+			b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
+			if a == b {
+				toExclude = true
+				break
 			}
-		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
 		}
-
+		if toExclude {
+			continue
+		}
+		if _, err = appendOne(l.CmdFilev[i], &oafp, &nafp); err != nil {
+			return err
+		}
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
+	/* copy the rest of the old archive */
+	for oafp != nil {
+		oldHeader, hasHeader, err := nextOldHeader(&oafp, ahdr)
+		if err != nil {
+			return err
+		}
+		if !hasHeader {
+			break
+		}
+		if err := l.keepOldOne(oldHeader, &oafp, &nafp, ahdr); err != nil {
+			return err
 		}
-		fr.Close()
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err = writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -604,11 +676,13 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err = fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
 			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
 		}
@@ -620,7 +694,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	if !l.Noexec {
 
 		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
+			err = os.Rename(l.temporaryName, l.newArchiveName)
 			if err != nil {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
@@ -632,8 +706,8 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
+	if l.DeleteAfterAppend && !l.Noexec {
+		removeFiles(len(l.archivedFiles), l.archivedFiles)
 	}
 
 	return nil
@@ -672,266 +746,26 @@ func (s *StreamFileInfo) Sys() interface{} {
 }
 
 func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) (*io.Reader, error) {
-	ahdr := NewLzHeader()
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	stbuf := &StreamFileInfo{
 		name:    name,
 		size:    int64(len(body)),
 		modTime: time.Now(),
 		//sys:     &syscall.Stat_t{Gid: 100, Uid: 100, Mode: 33188},
 	}
-	var err error
 
 	fp = bytes.NewReader(body)
 	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-				break
-			}
-		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-		}
-	}
-
-	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
-		}
-	}
-	return oafp, nil
+	_, err := l.mergeOne(name, hdr, &fp, oafp, nafp)
+	return oafp, err
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
-	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
-	var oafp io.Reader
-	var nafp io.Writer
-	var i int
-	//	var old_header int
-	var oldArchiveExist bool
-	var fw *os.File
-
-	l.mostRecent = 0
-
-	/* exit if no operation */
-	if !l.UpdateIfNewer && l.CmdFilec == 0 {
-		return fmt.Errorf("no files given in argument, do nothing")
-	}
-
-	/* open old archive if exist */
-	fr, err := openOldArchive(l)
-	if err != nil {
-		oldArchiveExist = false
-	} else {
-		oldArchiveExist = true
-		oafp = fr
-	}
-
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		fmt.Printf("no files given in argument")
-		if err != nil {
-			return fmt.Errorf("archive file \"%s\" does not exists", l.archiveName)
-		}
-	}
-
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
-	}
-
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
-	} else {
-		l.newArchiveName = l.archiveName
-	}
-
-	/* build temporary file */
-	/* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		var err error
-		fw, err = buildTemporaryFile(l)
-		if err != nil {
-			return err
-		}
-		nafp = fw
-	}
-
-	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
-	}
-
-	/* build new archive file */
-	/* cleaning arguments */
-	//cleaningFiles(&CmdFilec, &CmdFilev)
-	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
-		return nil
-	}
-
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
-			continue
-		}
-
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
-		}
-
-	}
-
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
-	}
-
-	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		//	var tmp int
-
-		writeArchiveTail(&nafp)
-		//	tmp = ftello(nafp)
-		//	if tmp == -1 {
-		//		warning("ftello(): %s", strerror(errno))
-		//		new_archive_size = 0
-		//	} else {
-		//		new_archive_size = tmp
-		//	}
-		//	fclose(nafp)
-		fw.Close()
-	}
-
-	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
-		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
-		}
-	}
-
-	reportArchiveNameIfDifferent(l)
-
-	/* copy temporary file to new archive file */
-	if !l.Noexec {
-
-		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
-			if err != nil {
-				return fmt.Errorf("error while renaming file error : %v", err.Error())
-				//	temporaryToNewArchiveFile(newArchiveSize)
-			}
-		}
-
-		/* set new archive file mode/group */
-		setArchiveFileMode()
-	}
-
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
-	}
-
-	return nil
+	return updateArchive(archiveFilepath, l, func(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
+		return l.appendBytes(name, oafp, nafp, body)
+	})
 }
 
 func Copy(src, dst string) error {
@@ -1100,7 +934,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		if !hasHeader {
 			return outputData, nil
 		}
-		pos = 0
+		pos = -1
 
 		if string(hdr.Name) == string(header.Name) {
 			var readSize int
@@ -1116,8 +950,8 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1159,7 +993,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		if !hasHeader {
 			return nil
 		}
-		pos = 0
+		pos = -1
 
 		if string(hdr.Name) == string(header.Name) {
 			readSize, err := l.extractOne(&afp, hdr)
@@ -1174,8 +1008,8 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1220,7 +1054,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		if !hasHeader {
 			return nil
 		}
-		pos = 0
+		pos = -1
 		if l.needFile(string(hdr.Name[:])) {
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
@@ -1234,8 +1068,8 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1282,20 +1116,15 @@ func (l *Lha) adjustDirinfo() {
 }
 
 func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
+	if pos == -1 {
+		if readSize > off {
+			return fmt.Errorf("member read too far")
 		}
+		_, err := io.CopyN(io.Discard, *fp, int64(off-readSize))
+		return err
 	}
-	return nil
+	_, err := io.CopyN(io.Discard, *fp, int64(pos+off))
+	return err
 }
 
 func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
-- 
2.43.0


From 712f75fd44ae633604e8acd55b32ecef46dbb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:56 +0000
Subject: [PATCH 27/64] fix: build the new archive beside the old one, renaming
 it from the working directory fails across file systems

---
 lhext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index a192b59..a1f11c4 100644
--- a/lhext.go
+++ b/lhext.go
@@ -169,7 +169,8 @@ func buildStandardArchiveName(buffer, original []byte, size int) []byte {
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
-	f, err := os.CreateTemp("./", "lh")
+	/* beside the archive, to be renamed to it */
+	f, err := os.CreateTemp(filepath.Dir(l.newArchiveName), "lh")
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 18c079557adb38b35e9d901d3ee25624bce8d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 28/64] fix: back the old archive up under a real name and
 report a failure to do so

---
 lhext.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lhext.go b/lhext.go
index a1f11c4..92755e9 100644
--- a/lhext.go
+++ b/lhext.go
@@ -269,12 +269,20 @@ func findUpdateFiles(oafp *io.Reader, l *Lha) {
 
 }
 
-// nolint: unused, deadcode
 func buildBackupName(buffer, original string) []byte {
 	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
 }
 func buildBackupFile(l *Lha) error {
-	return os.Rename(l.archiveName, string(l.backupArchiveName))
+	l.backupArchiveName = buildBackupName("", l.archiveName)
+	backup := string(l.backupArchiveName)
+	if err := os.Remove(backup); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	/* the archive stays in place until the new one replaces it */
+	if err := os.Link(l.archiveName, backup); err != nil {
+		return os.Rename(l.archiveName, backup)
+	}
+	return nil
 }
 
 func reportArchiveNameIfDifferent(l *Lha) {
@@ -684,8 +692,8 @@ func updateArchive(archiveFilepath string, l *Lha, appendOne func(string, *io.Re
 
 	/* build backup archive file */
 	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
-		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+		if err = buildBackupFile(l); err != nil {
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
-- 
2.43.0


From bd82215061ea82cee509583d1c323feca92dffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:59 +0000
Subject: [PATCH 29/64] fix: add to an existing archive instead of silently
 doing nothing, one file per call

---
 lha.go   | 34 ++++++++++++++++++----------------
 lhext.go |  2 +-
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/lha.go b/lha.go
index 182b7b6..988c480 100644
--- a/lha.go
+++ b/lha.go
@@ -151,33 +151,35 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
+	l.CmdFilev = []string{filename}
+	l.CmdFilec = 1
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
+	defer l.resetFiles()
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	l.CmdFilev = []string{fileToAdd}
+	l.CmdFilec = 1
+	defer l.resetFiles()
 	return CommandAdd(l.archiveName, l)
 }
+
+/* the file of one call is not an argument of the next ones */
+func (l *Lha) resetFiles() {
+	l.CmdFilev = nil
+	l.CmdFilec = 0
+}
diff --git a/lhext.go b/lhext.go
index 92755e9..ff3649a 100644
--- a/lhext.go
+++ b/lhext.go
@@ -578,7 +578,7 @@ func updateArchive(archiveFilepath string, l *Lha, appendOne func(string, *io.Re
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
 		oafp = nil
 	}
 
-- 
2.43.0


From c7b591301a7591db78882fcaaef75b255c6cf3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 30/64] fix: archive several files and directories recursively,
 and find the files of an automatic update

---
 lha.go   |   1 +
 lhext.go | 230 +++++++++++++++++++++++++++++++++++--------------------
 2 files changed, 150 insertions(+), 81 deletions(-)

diff --git a/lha.go b/lha.go
index 988c480..ca6b50e 100644
--- a/lha.go
+++ b/lha.go
@@ -182,4 +182,5 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 func (l *Lha) resetFiles() {
 	l.CmdFilev = nil
 	l.CmdFilec = 0
+	l.newArchive = false
 }
diff --git a/lhext.go b/lhext.go
index ff3649a..ae78b29 100644
--- a/lhext.go
+++ b/lhext.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"os"
 	"path/filepath"
@@ -210,8 +211,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
-	copy(sp.Buffer[sp.N], name)
+	sp.Buffer = append(sp.Buffer, append([]byte{}, name[:size]...))
 	sp.Used += size
 	sp.N++
 }
@@ -220,53 +220,44 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	*vCount = len(*vVector)
 }
 
-func findUpdateFiles(oafp *io.Reader, l *Lha) {
-	name := make([]byte, FilenameLength)
+func findUpdateFiles(oafp *io.Reader, l *Lha) error {
 	sp := stringPool{}
 	hdr := NewLzHeader()
-	var lenName int
 
 	initSP(&sp)
 
+	pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
 	for {
-		err, hasHeader := hdr.GetHeader(oafp)
+		_, hasHeader, err := nextOldHeader(oafp, hdr)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "error while getting header : %v\n", err.Error())
-			break
+			return err
 		}
 		if !hasHeader {
 			break
 		}
-		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
-
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
-			}
-		} else {
-			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
-				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
-				if lenName > 0 && name[lenName-1] == '/' {
-					lenName--
-					name[lenName] = 0 /* strip tail '/' */
-				}
-				_, err = os.Lstat(string(name))
-
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
-				}
+		fileType := int(hdr.UnixMode) & UnixFileTypemask
+		if fileType == UnixFileRegular || fileType == UnixFileDirectory {
+			name := strings.TrimSuffix(trimNul(hdr.Name), "/") /* strip tail '/' */
+			if _, err := os.Lstat(name); err == nil {          /* exist ? */
+				addSP(&sp, []byte(name), len(name))
 			}
 		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
+		if err := skipToNextpos(oafp, -1, hdr.PackedSize, 0); err != nil {
+			return err
+		}
 	}
 
-	//fseeko(oafp, pos, SEEK_SET)
-
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
 
+	_, err = (*oafp).(io.Seeker).Seek(pos, io.SeekStart)
+	return err
 }
 
 func buildBackupName(buffer, original string) []byte {
@@ -292,7 +283,7 @@ func reportArchiveNameIfDifferent(l *Lha) {
 }
 
 func removeFiles(filec int, filev []string) {
-	for i := 0; i < filec; i++ {
+	for i := filec - 1; i >= 0; i-- { /* the files of a directory before it */
 		os.Remove(filev[i])
 	}
 }
@@ -478,12 +469,88 @@ func trimNul(name []byte) string {
 	return string(name[:lengthOfStringInByte(name)])
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
+/* fileToAdd is a file to archive and its name in the archive */
+type fileToAdd struct {
+	path string
+	name string
+}
+
+/* listFiles lists a file to archive, and those below it when archiving recursively */
+func (l *Lha) listFiles(path, dir string) []fileToAdd {
+	file := fileToAdd{path: path, name: dir + filepath.Base(path)}
+	stbuf, err := os.Lstat(path)
+	if err != nil || !stbuf.IsDir() {
+		return []fileToAdd{file}
+	}
+	file.name += "/"
+	files := []fileToAdd{file}
+
+	if l.RecursiveArchiving { /* recursive call */
+		var filec int
+		var filev []string
+		if findFiles(path, &filec, &filev, l) {
+			for i := 0; i < filec; i++ {
+				if filev[i] != filepath.Clean(l.archiveName) {
+					files = append(files, l.listFiles(filev[i], file.name)...)
+				}
+			}
+			freeFiles(filec, &filev)
+		}
+	}
+	return files
+}
+
+/* orderFiles keeps each name once, in the order in which the old archive is merged */
+func (l *Lha) orderFiles(files []fileToAdd, oafp *io.Reader) ([]fileToAdd, error) {
+	last := make(map[string]int)
+	for i, file := range files {
+		last[file.name] = i
+	}
+	ordered := make([]fileToAdd, 0, len(files))
+	for i, file := range files {
+		if last[file.name] == i {
+			ordered = append(ordered, file)
+		}
+	}
+
+	if l.SortContents {
+		sort.Slice(ordered, func(i, j int) bool { return ordered[i].name < ordered[j].name })
+		return ordered, nil
+	}
+	if *oafp == nil || len(ordered) < 2 {
+		return ordered, nil
+	}
+
+	/* those which replace an old member first, in the order of the old archive */
+	place := make(map[string]int)
+	pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return nil, err
+	}
+	for hdr := NewLzHeader(); ; {
+		_, hasHeader, err := nextOldHeader(oafp, hdr)
+		if err != nil {
+			return nil, err
+		}
+		if !hasHeader {
+			break
+		}
+		if _, ok := place[trimNul(hdr.Name)]; !ok {
+			place[trimNul(hdr.Name)] = len(place) - math.MaxInt32
+		}
+		if err := skipToNextpos(oafp, -1, hdr.PackedSize, 0); err != nil {
+			return nil, err
+		}
+	}
+	sort.SliceStable(ordered, func(i, j int) bool { return place[ordered[i].name] < place[ordered[j].name] })
+	_, err = (*oafp).(io.Seeker).Seek(pos, io.SeekStart)
+	return ordered, err
+}
+
+func (l *Lha) appendIt(file fileToAdd, oafp *io.Reader, nafp *io.Writer) error {
+	name := file.path
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var filec int
-	var filev []string
-	var i int
 	var stbuf os.FileInfo
 	var err error
 
@@ -492,10 +559,10 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	stbuf, err = os.Lstat(name)
 	if os.IsNotExist(err) {
 		fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
-		return oafp, nil
+		return nil
 	}
 	if err != nil {
-		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		return fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
 	}
 
 	directory = stbuf.IsDir()
@@ -504,43 +571,34 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	if !directory && !symlink && !l.Noexec {
 		f, err := os.Open(name)
 		if err != nil {
-			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
+			return fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
 		}
 		defer f.Close()
 		fp = f
 	}
 
 	l.initHeader(name, stbuf, hdr)
+	hdr.Name = append([]byte(file.name), 0)
 
 	added, err := l.mergeOne(name, hdr, &fp, oafp, nafp)
 	if err != nil {
-		return oafp, err
+		return err
 	}
 	if added {
 		l.archivedFiles = append(l.archivedFiles, name)
 	}
 
-	if directory && l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendIt(filev[i], oafp, nafp)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
-		}
-	}
-	return oafp, nil
+	return nil
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
-	return updateArchive(archiveFilepath, l, l.appendIt)
+	return updateArchive(archiveFilepath, l, true, l.appendIt)
 }
 
 // updateArchive builds the new archive beside the old one and replaces the
-// old one when it is complete, members are added by appendOne.
-func updateArchive(archiveFilepath string, l *Lha, appendOne func(string, *io.Reader, *io.Writer) (*io.Reader, error)) (err error) {
+// old one when it is complete, members are added by appendOne, from files when
+// they are on disk.
+func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(fileToAdd, *io.Reader, *io.Writer) error) (err error) {
 	l.archiveName = archiveFilepath
 	var ahdr = NewLzHeader()
 	var oafp io.Reader
@@ -592,42 +650,25 @@ func updateArchive(archiveFilepath string, l *Lha, appendOne func(string, *io.Re
 		l.newArchiveName = l.archiveName
 	}
 
-	/* build temporary file */
-	/* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		fw, err = buildTemporaryFile(l)
-		if err != nil {
+	/* find needed files when automatic update */
+	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
+		if err = findUpdateFiles(&oafp, l); err != nil {
 			return err
 		}
-		nafp = fw
-		defer func() {
-			if err != nil { /* the old archive stays as it was */
-				fw.Close()
-				os.Remove(l.temporaryName)
-			}
-		}()
-	}
-
-	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
 	}
 
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		if !l.Noexec {
-			fw.Close()
-			os.Remove(l.temporaryName)
-		}
 		return nil
 	}
 
+	var files []fileToAdd
 	for i = 0; i < l.CmdFilec; i++ {
 		var j int
 
-		if l.CmdFilev[i] == l.archiveName {
+		if onDisk && l.CmdFilev[i] == l.archiveName {
 			/* exclude target archive */
 			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
 			for j = i; j < l.CmdFilec-1; j++ {
@@ -651,7 +692,34 @@ func updateArchive(archiveFilepath string, l *Lha, appendOne func(string, *io.Re
 		if toExclude {
 			continue
 		}
-		if _, err = appendOne(l.CmdFilev[i], &oafp, &nafp); err != nil {
+		if !onDisk {
+			files = append(files, fileToAdd{path: l.CmdFilev[i], name: filepath.Base(l.CmdFilev[i])})
+			continue
+		}
+		files = append(files, l.listFiles(l.CmdFilev[i], "")...)
+	}
+	if files, err = l.orderFiles(files, &oafp); err != nil {
+		return err
+	}
+
+	/* build temporary file */
+	/* avoid compiler warnings `uninitialized' */
+	if !l.Noexec {
+		fw, err = buildTemporaryFile(l)
+		if err != nil {
+			return err
+		}
+		nafp = fw
+		defer func() {
+			if err != nil { /* the old archive stays as it was */
+				fw.Close()
+				os.Remove(l.temporaryName)
+			}
+		}()
+	}
+
+	for _, file := range files {
+		if err = appendOne(file, &oafp, &nafp); err != nil {
 			return err
 		}
 	}
@@ -754,7 +822,7 @@ func (s *StreamFileInfo) Sys() interface{} {
 	return nil
 }
 
-func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) (*io.Reader, error) {
+func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
 	stbuf := &StreamFileInfo{
@@ -768,12 +836,12 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
 
 	_, err := l.mergeOne(name, hdr, &fp, oafp, nafp)
-	return oafp, err
+	return err
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
-	return updateArchive(archiveFilepath, l, func(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-		return l.appendBytes(name, oafp, nafp, body)
+	return updateArchive(archiveFilepath, l, false, func(file fileToAdd, oafp *io.Reader, nafp *io.Writer) error {
+		return l.appendBytes(file.path, oafp, nafp, body)
 	})
 }
 
-- 
2.43.0


From f2e379a2cfc76964e66fca4d2155ba1ae2733033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:59 +0000
Subject: [PATCH 31/64] fix: update the members of an automatic update under
 their own names

---
 lhext.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index ae78b29..661ec00 100644
--- a/lhext.go
+++ b/lhext.go
@@ -244,8 +244,8 @@ func findUpdateFiles(oafp *io.Reader, l *Lha) error {
 		}
 		fileType := int(hdr.UnixMode) & UnixFileTypemask
 		if fileType == UnixFileRegular || fileType == UnixFileDirectory {
-			name := strings.TrimSuffix(trimNul(hdr.Name), "/") /* strip tail '/' */
-			if _, err := os.Lstat(name); err == nil {          /* exist ? */
+			name := trimNul(hdr.Name)
+			if _, err := os.Lstat(name); err == nil { /* exist ? */
 				addSP(&sp, []byte(name), len(name))
 			}
 		}
@@ -651,7 +651,9 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 	}
 
 	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
+	automatic := l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil
+	if automatic {
+		defer l.resetFiles()
 		if err = findUpdateFiles(&oafp, l); err != nil {
 			return err
 		}
@@ -696,6 +698,10 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 			files = append(files, fileToAdd{path: l.CmdFilev[i], name: filepath.Base(l.CmdFilev[i])})
 			continue
 		}
+		if automatic { /* by their names in the archive */
+			files = append(files, fileToAdd{path: l.CmdFilev[i], name: l.CmdFilev[i]})
+			continue
+		}
 		files = append(files, l.listFiles(l.CmdFilev[i], "")...)
 	}
 	if files, err = l.orderFiles(files, &oafp); err != nil {
-- 
2.43.0


From 3bafd0f49118f763730eec51753a15ea91e8313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:04 +0000
Subject: [PATCH 32/64] fix: find the first header of a self extracting archive
 wherever an archive is read

---
 header.go | 49 +++++++++++++++++++++++++------------------------
 lhext.go  | 37 ++++++++++++++++++-------------------
 util.go   |  2 +-
 3 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/header.go b/header.go
index 1379ca0..9ee3756 100644
--- a/header.go
+++ b/header.go
@@ -1054,43 +1054,44 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
-	var n int
-	n, err := (*fp).Read(buffer)
+	seeker, ok := (*fp).(io.Seeker)
+	if !ok {
+		return fmt.Errorf("cannot seek header"), -1
+	}
+	start, err := seeker.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return err, 0
+		return err, -1
+	}
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		return err, -1
 	}
+	buffer = buffer[:n]
 
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	for i := 0; i+commonHeaderSize <= n; i++ {
+		p := buffer[i:]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
 		}
 		/* found "-[lp]??-" keyword (as METHOD type string) */
 
-		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		size := int(p[iHeaderSize])
+		found := false
+		switch p[iHeaderLevel] {
+		case 0, 1: /* level 0 or 1 header */
+			found = size > 20 && size+2 <= len(p) && p[iHeaderChecksum] == byte(calcSum(&p, iMethod, size))
+		case 2: /* level 2 header */
+			found = size+int(p[iHeaderSize+1])<<8 >= 24 && p[iAttribute] == 0x20
 		}
-
-		/* level 2 header */
-		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		if found {
+			_, err := seeker.Seek(start+int64(i), io.SeekStart)
+			return err, 0
 		}
 	}
 
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
-	return nil, -1
+	_, err = seeker.Seek(start, io.SeekStart)
+	return err, -1
 }
 
 // nolint: unused, deadcode
diff --git a/lhext.go b/lhext.go
index 661ec00..50a5f22 100644
--- a/lhext.go
+++ b/lhext.go
@@ -155,7 +155,18 @@ func writeArchiveTail(nafp *io.Writer) error {
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
-	return os.Open(l.archiveName)
+	f, err := os.Open(l.archiveName)
+	if err != nil {
+		return nil, err
+	}
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		var afp io.Reader = f
+		if err, _ := NewLzHeader().SeekLhaHeader(&afp); err != nil {
+			f.Close()
+			return nil, err
+		}
+	}
+	return f, nil
 }
 
 func modifyFilenameExtenstion(buffer, ext []byte, size int) []byte {
@@ -641,8 +652,8 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
+		l.newArchiveNameBuffer = buildStandardArchiveName(
+			make([]byte, len(l.archiveName)),
 			[]byte(l.archiveName),
 			len(l.archiveName))
 		l.newArchiveName = string(l.newArchiveNameBuffer)
@@ -889,7 +900,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	/* initialize total count */
 
 	/* open archive file */
-	f, err := os.Open(l.archiveName)
+	f, err := openOldArchive(l)
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
@@ -995,16 +1006,12 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	var outputData []byte
 
 	/* open archive file */
-	f, err := os.Open(l.archiveName)
+	f, err := openOldArchive(l)
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
 	afp = f
 
-	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
-	}
-
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1054,16 +1061,12 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	var afp io.Reader
 
 	/* open archive file */
-	f, err := os.Open(l.archiveName)
+	f, err := openOldArchive(l)
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
 	afp = f
 
-	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
-	}
-
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1115,16 +1118,12 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 
 	/* open archive file */
-	f, err := os.Open(l.archiveName)
+	f, err := openOldArchive(l)
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
 	afp = f
 
-	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
-	}
-
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
diff --git a/util.go b/util.go
index c456f53..0b5c0e4 100644
--- a/util.go
+++ b/util.go
@@ -90,7 +90,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From 196ac61176db788597a3869ee54bd432d62719e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:02 +0000
Subject: [PATCH 33/64] fix: extract to the directories of the members, and
 nowhere else, replacing files as answered

---
 lhext.go | 403 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 205 insertions(+), 198 deletions(-)

diff --git a/lhext.go b/lhext.go
index 50a5f22..2dbfb9d 100644
--- a/lhext.go
+++ b/lhext.go
@@ -46,7 +46,7 @@ func isDirectoryTraversal(path string) bool {
 		case 0:
 			if path[i] == '.' {
 				state = 1
-			} else {
+			} else if path[i] != '/' {
 				state = 3
 			}
 
@@ -80,59 +80,71 @@ func isDirectoryTraversal(path string) bool {
 }
 
 func inquire(msg string, name string, selective string) int {
-	reader := bufio.NewReader(os.Stdin)
-
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
-
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
-			}
+		response, err := readAnswer()
+		if err != nil {
+			return -1
+		}
+		if i := strings.IndexByte(selective, response[0]); i != -1 {
+			return i
 		}
 	}
 	/* NOTREACHED */
 }
 
+/* readAnswer reads a line from the standard input and nothing of the next one */
+func readAnswer() (string, error) {
+	var line []byte
+	c := make([]byte, 1)
+	for {
+		n, err := os.Stdin.Read(c)
+		if n == 1 {
+			line = append(line, c[0])
+		}
+		if n == 1 && c[0] == '\n' {
+			return string(line), nil
+		}
+		if err != nil && len(line) > 0 {
+			return string(line), nil
+		}
+		if err != nil {
+			return "", err
+		}
+	}
+}
+
 func inquireExtract(name string, l *Lha) (bool, error) {
 
 	l.skipFlg = false
 
 	stbuf, err := os.Lstat(name)
 
-	if os.IsNotExist(err) {
-		return true, nil
-	}
-	if err != nil {
+	if err != nil && !os.IsNotExist(err) {
 		return false, err
 	}
 
-	if !stbuf.Mode().IsRegular() {
-		return false, fmt.Errorf("\"%s\" already exists (not a file)", name)
-	}
+	if err == nil {
+		if !stbuf.Mode().IsRegular() {
+			return false, fmt.Errorf("\"%s\" already exists (not a file)", name)
+		}
 
-	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
-	} else {
+		if l.Noexec {
+			fmt.Printf("EXTRACT %s but file is exist\n", name)
+			return false, nil
+		}
 		if !l.Force {
-
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
-
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
-				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 0, 1: /* Y/y */
+
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
+			default: /* N/n, Return, or nobody to answer */
+				return false, nil
 			}
 		}
 	}
@@ -1176,14 +1188,14 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
-			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
+		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
+			_ = os.Chmod(name, os.FileMode(hdr.UnixMode).Perm())
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid)) /* not what a link points to */
 
 	}
 
@@ -1209,55 +1221,61 @@ func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
 	return err
 }
 
-func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
-
-	var offset int
+/* makeNameWithPathcheck puts q below the extract directory, and refuses to go through a symbolic link */
+func makeNameWithPathcheck(q string, l *Lha) (bool, string, error) {
+	var name string
 	if len(l.ExtractDirectory) > 0 {
 		name = l.ExtractDirectory + "/"
-		offset += len(name)
 	}
-	var p int
-	p = strings.Index(q, "/")
-	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
+	for i := 0; i < len(q); i++ {
+		if q[i] != '/' {
+			continue
+		}
+		st, err := os.Lstat(name + q[:i])
+		if os.IsNotExist(err) {
+			break
 		}
-		_, err = filepath.EvalSymlinks(name)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
-			return false, []byte(name), nil
+			return false, name, err
+		}
+		if st.Mode()&os.ModeSymlink != 0 {
+			return false, name, nil
 		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
 	}
-	name = q[offset:last]
-	return true, []byte(name), nil
+	return true, name + q, nil
 }
 
+/* makeParentPath makes the directories which precede the last '/' of name */
 func makeParentPath(name string) (bool, error) {
-	st, err := os.Lstat(name)
-	if err != nil {
-		return false, err
-	}
-	if st.IsDir() {
+	p := strings.LastIndex(name, "/")
+	if p <= 0 {
 		return true, nil
 	}
-	err = os.MkdirAll(name, 0777)
+	err := os.MkdirAll(name[:p], 0777)
 	if err != nil {
 		return false, err
 	}
 	return true, nil
 }
 
+/* removeOld removes the file or the link to be replaced, never a directory */
+func removeOld(name string) error {
+	st, err := os.Lstat(name)
+	if err == nil && !st.IsDir() {
+		return os.Remove(name)
+	}
+	return nil
+}
+
 func openWithMakePath(name string) (io.Writer, error) {
-	f, err := os.Create(name)
+	/* the file is a new one: nothing is written through a link */
+	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+	if os.IsNotExist(err) {
+		if _, err := makeParentPath(name); err != nil {
+			return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
+		}
+		f, err = os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
 	}
@@ -1265,44 +1283,98 @@ func openWithMakePath(name string) (io.Writer, error) {
 	return f, nil
 }
 
+/* addDirinfo keeps the directories in descending order, those below a directory come before it */
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
-	var p, tmp, top *LzHeaderList
-
-	(*p) = LzHeaderList{}
-	if string((*hdr).Method[:]) != LzhdirsMethod {
+	if string(hdr.Method[:]) != LzhdirsMethod {
 		return
 	}
-	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
-	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
-		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
-			(*p).Next = (*tmp).Next
-			(*tmp).Next = p
-			break
-		}
+	dir := *hdr
+	dir.Name = []byte(name)
+	p := &LzHeaderList{Hdr: &dir}
+	top := &LzHeaderList{}
+	if l.dirinfo != nil && l.dirinfo.Hdr != nil {
+		top.Next = l.dirinfo
 	}
-
-	if (*tmp).Next == nil {
-		(*p).Next = nil
-		(*tmp).Next = p
+	tmp := top
+	for tmp.Next != nil && string(tmp.Next.Hdr.Name) >= name {
+		tmp = tmp.Next
 	}
-	l.dirinfo = (*top).Next
+	p.Next = tmp.Next
+	tmp.Next = p
+	l.dirinfo = top.Next
 }
 
-func symlinkWithMakePath(realname string, name string) int {
-	var lCode int
-
+func symlinkWithMakePath(realname string, name string) error {
 	err := os.Symlink(realname, name)
-	if err != nil {
-		_, _ = makeParentPath(name)
+	if os.IsNotExist(err) {
+		if _, err := makeParentPath(name); err != nil {
+			return err
+		}
 		err = os.Symlink(realname, name)
-		if err != nil {
-			lCode = 1
+	}
+	return err
+}
+
+/* extractName tells where to extract a member */
+func (l *Lha) extractName(hdr *LzHeader, directory bool) (string, error) {
+	q := trimNul(hdr.Name)
+
+	if l.OutputToStdout || VerifyMode { /* nothing is written to this name */
+		return q, nil
+	}
+	if isDirectoryTraversal(q) {
+		return "", fmt.Errorf("possible directory traversal hack attempt in %s", q)
+	}
+	if l.IgnoreDirectory {
+		q = q[strings.LastIndex(q, "/")+1:]
+	} else if strings.HasPrefix(q, "/") {
+		q = strings.TrimLeft(q, "/")
+
+		/*
+		 * if OSK then strip device name
+		 */
+		if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
+			q = q[strings.Index(q+"/", "/"):]
+			q = strings.TrimLeft(q, "/")
+			if q == "" {
+				q = "." /* if device name only */
+			}
+		}
+	}
+	if directory && q == "" {
+		q = "."
+	}
+	if directory && !strings.HasSuffix(q, "/") {
+		q += "/"
+	}
+	ok, name, err := makeNameWithPathcheck(q, l)
+	if err != nil || !ok {
+		return "", fmt.Errorf("possible symlink traversal hack attempt in %s", q)
+	}
+	return name, nil
+}
+
+/* confirmExtract tells if name is to be extracted, replacing what is there */
+func (l *Lha) confirmExtract(name string) (bool, error) {
+	if !l.skipFlg {
+		upFlag, err := inquireExtract(name, l)
+		if err != nil && !l.Force {
+			return false, err
+		}
+		if !upFlag && !l.Force {
+			return false, nil
 		}
 	}
 
-	return lCode
+	if l.skipFlg {
+		if _, err := os.Lstat(name); err == nil && !l.Force {
+			if !Quiet {
+				fmt.Fprintf(os.Stderr, "%s : Skipped...\n", name)
+			}
+			return false, nil
+		}
+	}
+	return true, nil
 }
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
@@ -1360,73 +1432,40 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 
 func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
 	var crc uint
 	var method int
-	var saveQuiet, saveVerbose, upFlag bool
-	var q = hdr.Name
-	var c byte
+	var saveQuiet, saveVerbose bool
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
-	}
-	if l.IgnoreDirectory {
-		p++
-	} else {
-
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
-		}
-
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
-				p++
-			}
-
-			/*
-			 * if OSK then strip device name
-			 */
-			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
-				for {
-					c = hdr.Name[p]
-					p++
-					if p >= len(hdr.Name) || c == '/' {
-						break
-					}
-				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
-				}
-			}
-		}
-
-	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
-	if err != nil || !ok {
-		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
-	}
-
 	/* LZHDIRS_METHODを持つヘッダをチェックする */
 	/* 1999.4.30 t.okamoto */
 	for method = 0; ; method++ {
 		if method >= len(methods) {
-			return readSize, fmt.Errorf("unknown method \"%.*s\"; \"%s\" will be skipped", 5, hdr.Method, name)
+			return readSize, fmt.Errorf("unknown method \"%.*s\"; \"%s\" will be skipped", 5, hdr.Method, trimNul(hdr.Name))
 		}
 		if string(hdr.Method[:]) == methods[method] {
 			break
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
+	fileType := hdr.UnixMode & uint16(UnixFileTypemask)
+	symlink := fileType == uint16(UnixFileSymlink)
+	directory := !symlink && (fileType == uint16(UnixFileDirectory) || method == LzhdirsMethodNum)
+	regular := fileType == uint16(UnixFileRegular) || l.Force /* force extract */
+
+	name, err := l.extractName(hdr, directory)
+	if err != nil {
+		return 0, err
+	}
+
+	if regular && !symlink && !directory {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
-		l.writingFilename = string(name[:])
+		l.writingFilename = name
 		if l.OutputToStdout || VerifyMode {
 			/* "Icon\r" should be a resource fork file encoded in MacBinary
 			   format, so that it should be skipped. */
-			if hdr.ExtendType == ExtendMacos && l.DecodeMacbinaryContents && filepath.Base(string(name[:])) == "Icon\r" {
+			if hdr.ExtendType == ExtendMacos && l.DecodeMacbinaryContents && filepath.Base(name) == "Icon\r" {
 				return readSize, nil
 			}
 
@@ -1442,7 +1481,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			saveQuiet = Quiet
 			saveVerbose = l.Verbose
 			if !Quiet && l.OutputToStdout {
-				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", string(name[:]))
+				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name)
 				Quiet = true
 				l.Verbose = false
 			} else {
@@ -1455,37 +1494,23 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				os.Stdout,
 				hdr.OriginalSize,
 				hdr.PackedSize,
-				string(name[:]),
+				name,
 				method,
 				&readSize))
 			Quiet = saveQuiet
 			l.Verbose = saveVerbose
 		} else {
-			if !l.skipFlg {
-
-				upFlag, _ = inquireExtract(string(name[:]), l)
-				if !upFlag && !l.Force {
-					return readSize, nil
-				}
-			}
-
-			if l.skipFlg {
-				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
-					return 0, err
-				}
-				if !l.Force {
-					if !Quiet {
-						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
-					}
-					return readSize, nil
-				}
+			ok, err := l.confirmExtract(name)
+			if err != nil || !ok {
+				return readSize, err
 			}
 			if l.Noexec {
 				return readSize, nil
 			}
-			var err error
-			fp, err = openWithMakePath(string(name[:]))
+			if err = removeOld(name); err != nil {
+				return 0, err
+			}
+			fp, err = openWithMakePath(name)
 			if err != nil {
 				return 0, err
 			}
@@ -1494,7 +1519,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				fp,
 				hdr.OriginalSize,
 				hdr.PackedSize,
-				string(name[:]),
+				name,
 				method,
 				&readSize))
 			if err := fp.(*os.File).Close(); err != nil {
@@ -1509,65 +1534,47 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			return 0, fmt.Errorf("CRC error: \"%s\"", name)
 		}
 	} else {
-		if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileDirectory) || (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) || method == LzhdirsMethodNum {
+		if directory || symlink {
 			/* ↑これで、Symbolic Link は、大丈夫か？ */
 			if !l.IgnoreDirectory && !VerifyMode && !l.OutputToStdout {
 				if l.Noexec {
 					if !Quiet {
-						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", string(name[:]))
+						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", name)
 					}
 					return readSize, nil
 				}
 				/* NAME has trailing SLASH '/', (^_^) */
-				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
-					var lcode int
-					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
-						if !upFlag && !l.Force {
-							return readSize, nil
-						}
+				if symlink {
+					ok, err := l.confirmExtract(name)
+					if err != nil || !ok {
+						return readSize, err
 					}
-
-					if l.skipFlg {
-						_, err := os.Lstat(string(name[:]))
-						if err == nil && !l.Force {
-							if !Quiet {
-								fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
-							}
-							return readSize, nil
-						}
+					if err = removeOld(name); err != nil {
+						return 0, err
 					}
-
-					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
-					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+					realname := trimNul(hdr.Realname)
+					if err := symlinkWithMakePath(realname, name); err != nil {
+						return 0, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\" error : %v", name, realname, err)
 					}
 					if !Quiet {
-						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
+						fmt.Printf("Symbolic Link %s -> %s", name, realname)
 					}
 				} else { /* make directory */
-					ok, err := makeParentPath(string(name[:]))
-					if err != nil || !ok {
-						return readSize, nil
+					if _, err := makeParentPath(name); err != nil {
+						return 0, err
 					}
 					/* save directory information */
-					l.addDirinfo(string(name[:]), hdr)
+					l.addDirinfo(name, hdr)
 				}
 			}
 		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
-			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
-			}
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
 	if !l.OutputToStdout && !VerifyMode {
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileDirectory) {
-			adjustInfo(string(name[:]), hdr)
+		if !directory && !(symlink && l.IgnoreDirectory) {
+			adjustInfo(name, hdr)
 		}
 	}
 
-- 
2.43.0


From d892aa36b1c52e8eda7b9455aeb80459da740e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:15 +0000
Subject: [PATCH 34/64] fix: report broken archives and missing members, close
 the archive and adjust directories on every path

---
 lha.go   |  8 +++----
 lhext.go | 69 ++++++++++++++++++++++++++++++--------------------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/lha.go b/lha.go
index ca6b50e..a9c84f1 100644
--- a/lha.go
+++ b/lha.go
@@ -105,16 +105,16 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
-			break
+		if err != nil && err != io.EOF {
+			return headers, err
 		}
-		if err != nil {
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
 		pos = -1
 		// seek io.reader to + file size
-		if l.needFile(string(h.Name[:])) {
+		if l.needFile(trimNul(h.Name)) {
 			readSize, err := l.extractOne(&or, h)
 			if err != nil {
 				return headers, err
diff --git a/lhext.go b/lhext.go
index 2dbfb9d..245f8fb 100644
--- a/lhext.go
+++ b/lhext.go
@@ -902,7 +902,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -916,6 +915,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	/* print header message */
@@ -927,24 +927,25 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	var hasHeader bool
 	for {
 		err, hasHeader = hdr.GetHeader(&afp)
+		if err == io.EOF {
+			err = nil
+			break
+		}
 		if !hasHeader {
 			break
 		}
-		if l.needFile(string(hdr.Name[:])) {
+		if l.needFile(trimNul(hdr.Name)) {
 			l.listOne(hdr)
 			listFiles++
 			packedSizeTotal += hdr.PackedSize
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		if err = skipToNextpos(&afp, -1, hdr.PackedSize, 0); err != nil {
+			break
+		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* print tailer message */
 	if !Quiet {
 		listTailer(listFiles, packedSizeTotal, originalSizeTotal, l)
@@ -1016,14 +1017,19 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	var pos int
 	var afp io.Reader
 	var outputData []byte
+	var found bool
 
 	/* open archive file */
 	f, err := openOldArchive(l)
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
+	/* adjust directory information */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1034,11 +1040,12 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
 		pos = -1
 
-		if string(hdr.Name) == string(header.Name) {
+		if trimNul(hdr.Name) == trimNul(header.Name) {
+			found = true
 			var readSize int
 			readSize, outputData, err = l.extractOneStream(&afp, hdr)
 			if err != nil {
@@ -1058,12 +1065,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
-	/* adjust directory information */
-	l.adjustDirinfo()
-
+	if !found {
+		return outputData, fmt.Errorf("\"%s\" is not in \"%s\"", trimNul(header.Name), l.archiveName)
+	}
 	return outputData, nil
 }
 
@@ -1071,14 +1075,19 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
 	var pos int
 	var afp io.Reader
+	var found bool
 
 	/* open archive file */
 	f, err := openOldArchive(l)
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
+	/* adjust directory information */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1089,11 +1098,12 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		pos = -1
 
-		if string(hdr.Name) == string(header.Name) {
+		if trimNul(hdr.Name) == trimNul(header.Name) {
+			found = true
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1112,12 +1122,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
-	/* adjust directory information */
-	l.adjustDirinfo()
-
+	if !found {
+		return fmt.Errorf("\"%s\" is not in \"%s\"", trimNul(header.Name), l.archiveName)
+	}
 	return nil
 }
 
@@ -1134,8 +1141,12 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
+	/* adjust directory information */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1146,10 +1157,10 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		pos = -1
-		if l.needFile(string(hdr.Name[:])) {
+		if l.needFile(trimNul(hdr.Name)) {
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1168,12 +1179,6 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	return nil
 }
 
-- 
2.43.0


From abfc1cf72a8268c8c4af6fd4138fb87b3b56fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 35/64] fix: let handles on different archives be used from
 different goroutines

---
 lha.go   | 16 +++++++++++++++-
 lhext.go |  6 ++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lha.go b/lha.go
index a9c84f1..c92f719 100644
--- a/lha.go
+++ b/lha.go
@@ -4,8 +4,12 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 )
 
+/* the coders work on package variables, one archive at a time can use them */
+var codecMutex sync.Mutex
+
 type StringPool struct {
 	// nolint: unused
 	used int
@@ -88,6 +92,8 @@ func NewLha(archivename string) *Lha {
 }
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	var pos int
 	// verify mode here, no extraction
 	VerifyMode = true
@@ -136,18 +142,24 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 }
 
 func (l *Lha) Decompress(header *LzHeader) (err error) {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractWithHeader(header, l)
 }
 
 func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractBytesWithHeader(header, l)
 }
 
 func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, headerLevel int) (err error) {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
@@ -164,6 +176,8 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	_, err = os.Stat(l.archiveName)
 	if err != nil && !os.IsNotExist(err) {
 		return err
@@ -175,7 +189,7 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 	l.CmdFilev = []string{fileToAdd}
 	l.CmdFilec = 1
 	defer l.resetFiles()
-	return CommandAdd(l.archiveName, l)
+	return updateArchive(l.archiveName, l, true, l.appendIt)
 }
 
 /* the file of one call is not an argument of the next ones */
diff --git a/lhext.go b/lhext.go
index 245f8fb..8f59f69 100644
--- a/lhext.go
+++ b/lhext.go
@@ -615,6 +615,8 @@ func (l *Lha) appendIt(file fileToAdd, oafp *io.Reader, nafp *io.Writer) error {
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	return updateArchive(archiveFilepath, l, true, l.appendIt)
 }
 
@@ -899,6 +901,8 @@ func setArchiveFileMode() {
 }
 
 func CommandList(archiveFilepath string, l *Lha) error {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
@@ -1129,6 +1133,8 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 }
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
+	codecMutex.Lock()
+	defer codecMutex.Unlock()
 	hdr := NewLzHeader()
 	var pos int
 	var afp io.Reader
-- 
2.43.0


From 7c1c59cbf079e51c4e4ba4c880fe8791214c5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:07 +0000
Subject: [PATCH 36/64] fix: honour the -v, -n, -f, -u, -m and -c options of
 the command

---
 cmd/lharc.go | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..742b1e4 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -14,21 +14,18 @@ const ()
 
 var (
 	// nolint: unused, deadcode
-	version         = flag.Bool("version", false, "print version of application ")
-	listfile        = flag.Bool("l", false, "List ")
-	listfileverbose = flag.Bool("lv", false, "Verbose List ")
-	extractfile     = flag.Bool("e", false, "EXtract from archive ")
-	updatefile      = flag.Bool("u", false, "Update newer files to archive ")
-	deletefile      = flag.Bool("d", false, "Delete from archive ")
-	addfile         = flag.String("a", "", "Add(or replace) to archive ")
-	movefile        = flag.Bool("m", false, "Move to archive ")
-	createfile      = flag.String("c", "", "re-Construct new archive ")
-	testcrcfile     = flag.Bool("t", false, "Test file CRC in archive ")
-	// nolint: unused, deadcode
-	verbosemodeoption = flag.Bool("v", false, "verbose ")
-	// nolint: unused, deadcode
-	nonexecuteoption = flag.Bool("n", false, "not execute")
-	// nolint: unused, deadcode
+	version            = flag.Bool("version", false, "print version of application ")
+	listfile           = flag.Bool("l", false, "List ")
+	listfileverbose    = flag.Bool("lv", false, "Verbose List ")
+	extractfile        = flag.Bool("e", false, "EXtract from archive ")
+	updatefile         = flag.Bool("u", false, "Update newer files to archive ")
+	deletefile         = flag.Bool("d", false, "Delete from archive ")
+	addfile            = flag.String("a", "", "Add(or replace) to archive ")
+	movefile           = flag.Bool("m", false, "Move to archive ")
+	createfile         = flag.String("c", "", "re-Construct new archive ")
+	testcrcfile        = flag.Bool("t", false, "Test file CRC in archive ")
+	verbosemodeoption  = flag.Bool("v", false, "verbose ")
+	nonexecuteoption   = flag.Bool("n", false, "not execute")
 	forceoption        = flag.Bool("f", false, "force (over write at extract) ")
 	printstdoutarchive = flag.Bool("p", false, "Print to STDOUT from archive ")
 	genericformat      = flag.Int("g", 2, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
@@ -44,12 +41,6 @@ var (
 	// nolint: unused, deadcode
 	quietMode int
 	// nolint: unused, deadcode
-	newArchive bool
-	// nolint: unused, deadcode
-	updateIfNewer bool
-	// nolint: unused, deadcode
-	deleteAfterAppend bool
-	// nolint: unused, deadcode
 	backupOldArchive bool
 	// nolint: unused, deadcode
 	getFilenameFromStdin bool
@@ -107,6 +98,10 @@ func main() {
 Parse LHA command and options.
 */
 func parseOption() {
+	l.Verbose = *verbosemodeoption
+	l.Noexec = *nonexecuteoption
+	l.Force = *forceoption
+
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -124,7 +119,7 @@ func parseOption() {
 	}
 
 	if *createfile != "" {
-		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -143,13 +138,13 @@ func parseOption() {
 
 	if *updatefile {
 		cmd = lha.CmdAdd
-		updateIfNewer = true
+		l.UpdateIfNewer = true
 
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
-		deleteAfterAppend = true
+		l.DeleteAfterAppend = true
 
 	}
 
-- 
2.43.0


From 9ba9c7bd34b68713500c1c1f13628f0ae134595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:09 +0000
Subject: [PATCH 37/64] fix: fail on an invalid compression method and on the
 unimplemented delete command

---
 cmd/lharc.go | 8 +++-----
 lhext.go     | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index 742b1e4..fbd629d 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -81,7 +81,7 @@ func main() {
 	case lha.CmdList:
 		globalError = lha.CommandList(*archiveNameOption, l) // to be tested
 	case lha.CmdDelete:
-		_ = lha.CommadDelete(*archiveNameOption, l) // to implemennt
+		globalError = lha.CommadDelete(*archiveNameOption, l) // to implemennt
 	default:
 		fmt.Fprintf(os.Stderr, "option unknown.")
 		printVersion()
@@ -172,8 +172,6 @@ func parseSubOption() {
 	}
 
 	if *compressionmethod != 0 {
-		l.CompressMethod = lha.Lzhuff1MethodNum
-		l.HeaderLevel = 0
 		switch *compressionmethod {
 		case 5:
 			l.CompressMethod = lha.Lzhuff5MethodNum
@@ -182,8 +180,8 @@ func parseSubOption() {
 		case 7:
 			l.CompressMethod = lha.Lzhuff7MethodNum
 		default:
-			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'", *compressionmethod)
-			return
+			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'\n", *compressionmethod)
+			os.Exit(1)
 		}
 	}
 
diff --git a/lhext.go b/lhext.go
index 8f59f69..34f92ea 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1013,7 +1013,7 @@ func listHeader(l *Lha) {
 func CommadDelete(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 
-	return nil
+	return fmt.Errorf("cannot delete from \"%s\", not implemented", archiveFilepath)
 }
 
 func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
-- 
2.43.0


From 03c25d042705f1852eb4d9ab3a0239d157d33fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 38/64] fix: report archived files which cannot be removed

---
 lhext.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 34f92ea..75e6267 100644
--- a/lhext.go
+++ b/lhext.go
@@ -305,10 +305,19 @@ func reportArchiveNameIfDifferent(l *Lha) {
 	}
 }
 
-func removeFiles(filec int, filev []string) {
+func removeFiles(filec int, filev []string) error {
+	var failure error
 	for i := filec - 1; i >= 0; i-- { /* the files of a directory before it */
-		os.Remove(filev[i])
+		err := os.Remove(filev[i])
+		if err == nil || os.IsNotExist(err) || failure != nil {
+			continue
+		}
+		/* a directory stays when other files are in it */
+		if st, e := os.Lstat(filev[i]); e != nil || !st.IsDir() {
+			failure = err
+		}
 	}
+	return failure
 }
 
 func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
@@ -815,7 +824,7 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 
 	/* remove archived files */
 	if l.DeleteAfterAppend && !l.Noexec {
-		removeFiles(len(l.archivedFiles), l.archivedFiles)
+		return removeFiles(len(l.archivedFiles), l.archivedFiles)
 	}
 
 	return nil
-- 
2.43.0


From ce9061bfa8c64bcad9e164857773c4bdf82de8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 39/64] fix: report directories which cannot be read while
 archiving

---
 lhext.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/lhext.go b/lhext.go
index 75e6267..c312da9 100644
--- a/lhext.go
+++ b/lhext.go
@@ -508,11 +508,11 @@ type fileToAdd struct {
 }
 
 /* listFiles lists a file to archive, and those below it when archiving recursively */
-func (l *Lha) listFiles(path, dir string) []fileToAdd {
+func (l *Lha) listFiles(path, dir string) ([]fileToAdd, error) {
 	file := fileToAdd{path: path, name: dir + filepath.Base(path)}
 	stbuf, err := os.Lstat(path)
 	if err != nil || !stbuf.IsDir() {
-		return []fileToAdd{file}
+		return []fileToAdd{file}, nil
 	}
 	file.name += "/"
 	files := []fileToAdd{file}
@@ -520,16 +520,24 @@ func (l *Lha) listFiles(path, dir string) []fileToAdd {
 	if l.RecursiveArchiving { /* recursive call */
 		var filec int
 		var filev []string
-		if findFiles(path, &filec, &filev, l) {
+		found, err := findFiles(path, &filec, &filev, l)
+		if err != nil {
+			return nil, err
+		}
+		if found {
 			for i := 0; i < filec; i++ {
 				if filev[i] != filepath.Clean(l.archiveName) {
-					files = append(files, l.listFiles(filev[i], file.name)...)
+					below, err := l.listFiles(filev[i], file.name)
+					if err != nil {
+						return nil, err
+					}
+					files = append(files, below...)
 				}
 			}
 			freeFiles(filec, &filev)
 		}
 	}
-	return files
+	return files, nil
 }
 
 /* orderFiles keeps each name once, in the order in which the old archive is merged */
@@ -736,7 +744,11 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 			files = append(files, fileToAdd{path: l.CmdFilev[i], name: l.CmdFilev[i]})
 			continue
 		}
-		files = append(files, l.listFiles(l.CmdFilev[i], "")...)
+		listed, err := l.listFiles(l.CmdFilev[i], "")
+		if err != nil {
+			return err
+		}
+		files = append(files, listed...)
 	}
 	if files, err = l.orderFiles(files, &oafp); err != nil {
 		return err
@@ -1856,7 +1868,7 @@ func freeSp(filev *[]string) {
 	(*filev) = (*filev)[:0]
 }
 
-func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
+func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) (bool, error) {
 
 	sp := &stringPool{}
 	newname := make([]byte, FilenameLength)
@@ -1867,18 +1879,21 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 		newname = append(newname, '/')
 	}
 
-	fileinfo, _ := os.Lstat(name)
+	fileinfo, err := os.Lstat(name)
+	if err != nil {
+		return false, err
+	}
 	if !fileinfo.IsDir() {
-		return false
+		return false, nil
 	}
 
 	initSP(sp)
 	files, err := os.ReadDir(name)
 	if err != nil {
-		return false
+		return false, err
 	}
 	if len(files) == 0 {
-		return false
+		return false, nil
 	}
 	for j := 0; j < len(files); j++ {
 		var toExclude bool
@@ -1899,5 +1914,5 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 	finishSP(sp, vfilec, vfilev)
 	sort.Strings(*vfilev)
 	//cleaningFiles(vfilec, vfilev)
-	return true
+	return true, nil
 }
-- 
2.43.0


From e8581f21f56788a8944865c5f93590551d6c9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:56 +0000
Subject: [PATCH 40/64] fix: forget the overwrite answers of an extraction
 before the next one

---
 lhext.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lhext.go b/lhext.go
index c312da9..00fd37c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1054,6 +1054,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 
 	/* adjust directory information */
 	defer l.adjustDirinfo()
+	defer l.forgetAnswers(l.Force)
 
 	/* extract each files */
 	for {
@@ -1112,6 +1113,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 
 	/* adjust directory information */
 	defer l.adjustDirinfo()
+	defer l.forgetAnswers(l.Force)
 
 	/* extract each files */
 	for {
@@ -1173,6 +1175,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 
 	/* adjust directory information */
 	defer l.adjustDirinfo()
+	defer l.forgetAnswers(l.Force)
 
 	/* extract each files */
 	for {
@@ -1386,6 +1389,12 @@ func (l *Lha) extractName(hdr *LzHeader, directory bool) (string, error) {
 	return name, nil
 }
 
+/* forgetAnswers: the answers given in an extraction do not hold for the next one */
+func (l *Lha) forgetAnswers(force bool) {
+	l.Force = force
+	l.skipFlg = false
+}
+
 /* confirmExtract tells if name is to be extracted, replacing what is there */
 func (l *Lha) confirmExtract(name string) (bool, error) {
 	if !l.skipFlg {
-- 
2.43.0


From a5b9b8955ee0be63d3b699282dd62012aab82a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 41/64] fix: report symbolic links which cannot be read

---
 header.go | 10 +++++-----
 lhext.go  | 11 ++++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/header.go b/header.go
index 9ee3756..34cdecc 100644
--- a/header.go
+++ b/header.go
@@ -80,7 +80,7 @@ func NewLzHeader() *LzHeader {
 	}
 }
 
-func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
+func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 	//var len int
 	n := copy(hdr.Method[:], []byte(Lzhuff0Method))
 	if n != methodTypeStorage {
@@ -115,13 +115,13 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		hdr.OriginalSize = 0
 		hdr.UnixMode = uint16(UnixFileSymlink) | uint16(vStat.Mode().Perm())
 		realname, err := os.Readlink(name)
-		if err == nil {
-			copy(hdr.Realname, []byte(realname))
-		} else {
-			fmt.Fprintf(os.Stderr, "error while reading symlink error : %v\n", err.Error())
+		if err != nil {
+			return fmt.Errorf("error while reading symlink error : %v", err.Error())
 		}
+		copy(hdr.Realname, []byte(realname))
 	}
 
+	return nil
 }
 
 func calcSum(p *[]byte, start, len int) int {
diff --git a/lhext.go b/lhext.go
index 00fd37c..142028c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -617,7 +617,9 @@ func (l *Lha) appendIt(file fileToAdd, oafp *io.Reader, nafp *io.Writer) error {
 		fp = f
 	}
 
-	l.initHeader(name, stbuf, hdr)
+	if err = l.initHeader(name, stbuf, hdr); err != nil {
+		return err
+	}
 	hdr.Name = append([]byte(file.name), 0)
 
 	added, err := l.mergeOne(name, hdr, &fp, oafp, nafp)
@@ -885,9 +887,12 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	}
 
 	fp = bytes.NewReader(body)
-	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
+	err := l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
+	if err != nil {
+		return err
+	}
 
-	_, err := l.mergeOne(name, hdr, &fp, oafp, nafp)
+	_, err = l.mergeOne(name, hdr, &fp, oafp, nafp)
 	return err
 }
 
-- 
2.43.0


From a9b98b8f9b9055ed97293de69262326a60eed4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:47 +0000
Subject: [PATCH 42/64] fix: report files that cannot be examined while listing
 what to archive

---
 lhext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lhext.go b/lhext.go
index 142028c..1a0993f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -511,6 +511,9 @@ type fileToAdd struct {
 func (l *Lha) listFiles(path, dir string) ([]fileToAdd, error) {
 	file := fileToAdd{path: path, name: dir + filepath.Base(path)}
 	stbuf, err := os.Lstat(path)
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
 	if err != nil || !stbuf.IsDir() {
 		return []fileToAdd{file}, nil
 	}
-- 
2.43.0


From de57c5dd417de414b320876e527427a58cc26f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:48 +0000
Subject: [PATCH 43/64] fix: report a failure to print the name of a member

---
 lhext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index 1a0993f..80ae175 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1530,7 +1530,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			saveQuiet = Quiet
 			saveVerbose = l.Verbose
 			if !Quiet && l.OutputToStdout {
-				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name)
+				if _, err := fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name); err != nil {
+					return readSize, err
+				}
 				Quiet = true
 				l.Verbose = false
 			} else {
-- 
2.43.0


From 8f2720b8c3ecf23037b1cdca29365892a8dc2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:11 +0000
Subject: [PATCH 44/64] fix: dry run of an update skips a kept member once only

---
 lhext.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 80ae175..642184f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -448,9 +448,11 @@ func (l *Lha) mergeOne(name string, hdr *LzHeader, fp *io.Reader, oafp *io.Reade
 	} else { /* cmp == 0 */
 		if l.UpdateIfNewer &&
 			ahdr.UnixLastModifiedStamp >= hdr.UnixLastModifiedStamp {
-			/* copy old to new */
-			if err := l.keepOldOne(oldHeader, oafp, nafp, ahdr); err != nil {
-				return false, err
+			/* copy old to new; its data is already skipped in a dry run */
+			if !l.Noexec {
+				if err := l.keepOldOne(oldHeader, oafp, nafp, ahdr); err != nil {
+					return false, err
+				}
 			}
 			l.addedNames = append(l.addedNames, trimNul(hdr.Name))
 			return false, nil
-- 
2.43.0


From eb4c27457dd37143faa26187938329d2015f6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:00 +0000
Subject: [PATCH 45/64] fix: remove archived files before their directory, in
 any order of the archive

---
 lhext.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lhext.go b/lhext.go
index 642184f..adf1797 100644
--- a/lhext.go
+++ b/lhext.go
@@ -307,6 +307,7 @@ func reportArchiveNameIfDifferent(l *Lha) {
 
 func removeFiles(filec int, filev []string) error {
 	var failure error
+	sort.Strings(filev[:filec])
 	for i := filec - 1; i >= 0; i-- { /* the files of a directory before it */
 		err := os.Remove(filev[i])
 		if err == nil || os.IsNotExist(err) || failure != nil {
-- 
2.43.0


From e861c95286ff9e5a8387eeaebe8817eaee8047f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 46/64] fix: list the permissions of OS-9/68K members

---
 lhext.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index adf1797..8aa1a54 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1721,9 +1721,7 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 		fmt.Printf("%s ", modebits)
 
-	case ExtendOs68k:
-		/**/
-	case ExtendXosk: /**/
+	case ExtendOs68k, ExtendXosk:
 		mode = int(hdr.UnixMode)
 		if mode&oskDirectoryPerm != 0 {
 			modebits[0] = 'd'
-- 
2.43.0


From 44d96c1abef5e3cc1e427074c8e7b0a93e66796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:10 +0000
Subject: [PATCH 47/64] fix: list names without their NUL padding

---
 lhext.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/lhext.go b/lhext.go
index 8aa1a54..cfe408e 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1651,19 +1651,15 @@ func (l *Lha) needFile(name string) bool {
 func (l *Lha) listOne(hdr *LzHeader) {
 	var mode int
 	var p string
-	var method [6]byte
 	var modebits [11]byte = [11]byte{'-', '-', '-', '-', '-', '-', '-', '-', '-', '-', '-'}
 
 	if l.Verbose {
 		if (int(hdr.UnixMode) & UnixFileSymlink) != UnixFileSymlink {
-			fmt.Printf("%s\n", hdr.Name)
+			fmt.Printf("%s\n", trimNul(hdr.Name))
 		} else {
-			fmt.Printf("%s -> %s\n", hdr.Name, hdr.Realname)
+			fmt.Printf("%s -> %s\n", trimNul(hdr.Name), trimNul(hdr.Realname))
 		}
 	}
-	copy(method[:], hdr.Method[:])
-	method[5] = 0
-
 	switch hdr.ExtendType {
 	case ExtendUnix:
 		mode = int(hdr.UnixMode)
@@ -1717,9 +1713,7 @@ func (l *Lha) listOne(hdr *LzHeader) {
 				modebits[9] = 'x'
 			}
 		}
-		modebits[10] = 0
-
-		fmt.Printf("%s ", modebits)
+		fmt.Printf("%s ", modebits[0:10])
 
 	case ExtendOs68k, ExtendXosk:
 		mode = int(hdr.UnixMode)
@@ -1792,37 +1786,37 @@ func (l *Lha) listOne(hdr *LzHeader) {
 	switch hdr.ExtendType {
 	case ExtendUnix:
 		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+			fmt.Printf("%5.5s/", trimNul(hdr.User))
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
 		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+			fmt.Printf("%-5.5s ", trimNul(hdr.Group))
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
 	case ExtendOs68k:
 		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+			fmt.Printf("%5.5s/", trimNul(hdr.User))
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
 		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+			fmt.Printf("%-5.5s ", trimNul(hdr.Group))
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
 	case ExtendXosk:
 		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+			fmt.Printf("%5.5s/", trimNul(hdr.User))
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
 		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+			fmt.Printf("%-5.5s ", trimNul(hdr.Group))
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
@@ -1836,9 +1830,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if l.VerboseListing {
 		if hdr.HasCrc {
-			fmt.Printf(" %s %04x", method, hdr.Crc)
+			fmt.Printf(" %s %04x", hdr.Method, hdr.Crc)
 		} else {
-			fmt.Printf(" %s ****", method)
+			fmt.Printf(" %s ****", hdr.Method)
 		}
 	}
 
@@ -1847,9 +1841,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if !l.Verbose {
 		if (hdr.UnixMode & uint16(UnixFileSymlink)) != uint16(UnixFileSymlink) {
-			fmt.Printf(" %s", hdr.Name)
+			fmt.Printf(" %s", trimNul(hdr.Name))
 		} else {
-			fmt.Printf(" %s -> %s", hdr.Name, hdr.Realname)
+			fmt.Printf(" %s -> %s", trimNul(hdr.Name), trimNul(hdr.Realname))
 		}
 	}
 	if l.Verbose {
-- 
2.43.0


From 7f15307629160ed82fbc973fa4d928078af077c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:17 +0000
Subject: [PATCH 48/64] fix: report an invalid header level

---
 cmd/lharc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index fbd629d..c0b7456 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -195,6 +195,9 @@ func parseSubOption() {
 			l.HeaderLevel = 0
 		case 1:
 			l.HeaderLevel = 1
+		default:
+			fmt.Fprintf(os.Stderr, "invalid header level 'h%d'\n", *headerlevel)
+			os.Exit(1)
 		}
 	}
 }
-- 
2.43.0


From 4ebcdcd5bbf17faae0d11f8eba63113c879cd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:18 +0000
Subject: [PATCH 49/64] fix: exit with an error when no command is given for an
 archive

---
 cmd/lharc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index c0b7456..be122f2 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -85,6 +85,7 @@ func main() {
 	default:
 		fmt.Fprintf(os.Stderr, "option unknown.")
 		printVersion()
+		os.Exit(1)
 	}
 
 	if globalError != nil {
-- 
2.43.0


From 76f1ef698b36c6af8e656ebaca8e11ccdd921ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:26 +0000
Subject: [PATCH 50/64] fix: the archive is not added to itself, nor moved
 away, under another spelling of its name

---
 lhext.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lhext.go b/lhext.go
index cfe408e..993bceb 100644
--- a/lhext.go
+++ b/lhext.go
@@ -510,6 +510,20 @@ type fileToAdd struct {
 	name string
 }
 
+/* isArchive tells if name is the archive itself, however it is spelled */
+func (l *Lha) isArchive(name string) bool {
+	st, err := os.Lstat(name)
+	for _, archive := range []string{l.archiveName, l.newArchiveName} {
+		if filepath.Clean(name) == filepath.Clean(archive) {
+			return true
+		}
+		if old, e := os.Lstat(archive); err == nil && e == nil && os.SameFile(st, old) {
+			return true
+		}
+	}
+	return false
+}
+
 /* listFiles lists a file to archive, and those below it when archiving recursively */
 func (l *Lha) listFiles(path, dir string) ([]fileToAdd, error) {
 	file := fileToAdd{path: path, name: dir + filepath.Base(path)}
@@ -532,7 +546,7 @@ func (l *Lha) listFiles(path, dir string) ([]fileToAdd, error) {
 		}
 		if found {
 			for i := 0; i < filec; i++ {
-				if filev[i] != filepath.Clean(l.archiveName) {
+				if !l.isArchive(filev[i]) {
 					below, err := l.listFiles(filev[i], file.name)
 					if err != nil {
 						return nil, err
@@ -720,7 +734,7 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 	for i = 0; i < l.CmdFilec; i++ {
 		var j int
 
-		if onDisk && l.CmdFilev[i] == l.archiveName {
+		if onDisk && l.isArchive(l.CmdFilev[i]) {
 			/* exclude target archive */
 			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
 			for j = i; j < l.CmdFilec-1; j++ {
-- 
2.43.0


From f063954ad6da0c7a99b877b8f8e5dbe0e26073fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:17 +0000
Subject: [PATCH 51/64] fix: the CRC table is there for the first operation of
 a process, whichever it is

---
 crcio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crcio.go b/crcio.go
index 134446d..d1059d8 100644
--- a/crcio.go
+++ b/crcio.go
@@ -28,6 +28,10 @@ func calcCrc(crc uint, p *[]byte, pIndex, n uint) uint {
 	return crc
 }
 
+func init() {
+	MakeCrcTable()
+}
+
 func MakeCrcTable() {
 	var i, j, r uint
 	for i = 0; i <= ucharMax; i++ {
-- 
2.43.0


From 6bc3e3b3922e34f21779822cd62833d2b42ce8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:47 +0000
Subject: [PATCH 52/64] fix: name every member that is archived, without the
 padding of its name

---
 append.go | 4 ++--
 lhext.go  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/append.go b/append.go
index ffe2415..d513949 100644
--- a/append.go
+++ b/append.go
@@ -36,12 +36,12 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 	l.codingErr = nil
 	inter.method = method
 
+	startIndicator(trimNul(name), size, []byte("Freezing"), 1<<dicbit)
 	var err error
 	if inter.method > 0 {
 		inter.infile = *infp
 		inter.outfile = *outfp
 		inter.original = size
-		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
 		crc, err = l.encode(inter)
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
@@ -59,7 +59,7 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 	if *original_size_var > 0 {
 		indice = (*packed_size_var * 100) / *original_size_var
 	}
-	finishIndicator2(string(name), "Frozen", &indice)
+	finishIndicator2(trimNul(name), "Frozen", &indice)
 	return crc, nil
 }
 
diff --git a/lhext.go b/lhext.go
index 993bceb..d3eac88 100644
--- a/lhext.go
+++ b/lhext.go
@@ -349,13 +349,14 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
-			fmt.Printf("%s -> %s\t- Symbolic Link\n", hdr.Name, hdr.Realname)
+			fmt.Printf("%s -> %s\t- Symbolic Link\n", trimNul(hdr.Name), trimNul(hdr.Realname))
 		}
 	}
 
 	if hdr.OriginalSize == 0 { /* empty file, symlink or directory */
 		var indice int
-		finishIndicator2(string(hdr.Name), "Frozen", &indice)
+		startIndicator(trimNul(hdr.Name), 0, []byte("Freezing"), 0)
+		finishIndicator2(trimNul(hdr.Name), "Frozen", &indice)
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-- 
2.43.0


From 9953de17ca9f1f976be077f252a9fe8efc636035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:49 +0000
Subject: [PATCH 53/64] fix: end the line which tells of an extracted symbolic
 link

---
 lhext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index d3eac88..b781a40 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1626,7 +1626,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 						return 0, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\" error : %v", name, realname, err)
 					}
 					if !Quiet {
-						fmt.Printf("Symbolic Link %s -> %s", name, realname)
+						fmt.Printf("Symbolic Link %s -> %s\n", name, realname)
 					}
 				} else { /* make directory */
 					if _, err := makeParentPath(name); err != nil {
-- 
2.43.0


From 83b46af50fea4095e38f6e52d1b7ae5db43a2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:59 +0000
Subject: [PATCH 54/64] fix: name the member that is extracted into memory
 instead of printing zero bytes

---
 lhext.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index b781a40..30cb2b6 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1446,7 +1446,7 @@ func (l *Lha) confirmExtract(name string) (bool, error) {
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
+	name := trimNul(hdr.Name)
 	var crc uint
 	var method int
 	var readSize int
@@ -1468,7 +1468,7 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
-		l.writingFilename = string(name[:])
+		l.writingFilename = name
 
 		if l.Noexec {
 			return readSize, outputData.Bytes(), nil
@@ -1479,7 +1479,7 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			fp,
 			hdr.OriginalSize,
 			hdr.PackedSize,
-			string(name[:]),
+			name,
 			method,
 			&readSize))
 		b.Flush()
-- 
2.43.0


From f51a32e2a36c4c287b0c0e4144e040671b81d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:13 +0000
Subject: [PATCH 55/64] fix: an updated archive keeps its permissions

---
 lhext.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lhext.go b/lhext.go
index 30cb2b6..eb99fa3 100644
--- a/lhext.go
+++ b/lhext.go
@@ -199,6 +199,14 @@ func buildTemporaryFile(l *Lha) (*os.File, error) {
 		return nil, err
 	}
 	l.temporaryName = f.Name()
+	/* with the permissions of the archive it replaces */
+	if old, err := os.Stat(l.newArchiveName); err == nil {
+		if err = f.Chmod(old.Mode().Perm()); err != nil {
+			f.Close()
+			os.Remove(l.temporaryName)
+			return nil, err
+		}
+	}
 	return f, nil
 }
 func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
-- 
2.43.0


From c952d8fc40eaf979f2f70977c6fb0ff3bd965780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:20 +0000
Subject: [PATCH 56/64] fix: a directory given as .. is archived under its own
 name, members of ../ could not be extracted

---
 lhext.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index eb99fa3..7a31e26 100644
--- a/lhext.go
+++ b/lhext.go
@@ -535,7 +535,15 @@ func (l *Lha) isArchive(name string) bool {
 
 /* listFiles lists a file to archive, and those below it when archiving recursively */
 func (l *Lha) listFiles(path, dir string) ([]fileToAdd, error) {
-	file := fileToAdd{path: path, name: dir + filepath.Base(path)}
+	base := filepath.Base(path)
+	if base == ".." { /* by its own name, ".." is not extracted */
+		abs, err := filepath.Abs(path)
+		if err != nil {
+			return nil, err
+		}
+		base = filepath.Base(abs)
+	}
+	file := fileToAdd{path: path, name: dir + base}
 	stbuf, err := os.Lstat(path)
 	if err != nil && !os.IsNotExist(err) {
 		return nil, err
-- 
2.43.0


From 148b3ace9d74393d67bdd60acf7cf44d7a19a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:43 +0000
Subject: [PATCH 57/64] fix: pipes and devices are refused, adding them waited
 for ever or made empty files of them

---
 lhext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lhext.go b/lhext.go
index 7a31e26..835810a 100644
--- a/lhext.go
+++ b/lhext.go
@@ -645,6 +645,9 @@ func (l *Lha) appendIt(file fileToAdd, oafp *io.Reader, nafp *io.Writer) error {
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
+	if !directory && !symlink && !stbuf.Mode().IsRegular() {
+		return fmt.Errorf("\"%s\" is not a file, directory or symbolic link", name)
+	}
 	if !directory && !symlink && !l.Noexec {
 		f, err := os.Open(name)
 		if err != nil {
-- 
2.43.0


From b9862ed29336984088b7259282e227d70e1c802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:12 +0000
Subject: [PATCH 58/64] fix: members too large for the size fields of a header
 are refused, their sizes were cut to 32 bits

---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index 34cdecc..a54362f 100644
--- a/header.go
+++ b/header.go
@@ -3,6 +3,7 @@ package lha
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path"
 	"path/filepath"
@@ -1179,6 +1180,10 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	var filenameCase int = none
 	pathname := make([]byte, 0)
 
+	if int64(hdr.OriginalSize) > math.MaxUint32 || int64(hdr.PackedSize) > math.MaxUint32 {
+		return fmt.Errorf("\"%s\" is too large, its size does not fit in a header", trimNul(hdr.Name))
+	}
+
 	if optionalArchiveKanjiCode != 0 {
 		archiveKanjiCode = optionalArchiveKanjiCode
 	}
-- 
2.43.0


From cee215fe56893353c6541028d9690dbed203d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:02 +0000
Subject: [PATCH 59/64] fix: the listing shows the time of members in its STAMP
 column, which was always blank

---
 lhext.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lhext.go b/lhext.go
index 835810a..982620f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1888,6 +1888,17 @@ func (l *Lha) listOne(hdr *LzHeader) {
 }
 
 func printStamp(t int64, l *Lha) {
+	if t != 0 {
+		stamp := time.Unix(t, 0)
+		format := "Jan _2  2006"
+		if l.VerboseListing && l.Verbose {
+			format = "2006-01-02 15:04:05"
+		} else if stamp.After(time.Now().AddDate(0, 0, -180)) {
+			format = "Jan _2 15:04"
+		}
+		fmt.Print(stamp.Format(format))
+		return
+	}
 	if l.VerboseListing && l.Verbose {
 		fmt.Printf("                   ") /* 19 spaces */
 	} else {
-- 
2.43.0


From 81832fdab41e1259246ae2ab4611e94c8cc32df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:50 +0000
Subject: [PATCH 60/64] fix: level 1 headers count their extensions in the
 packed size, which could exceed its 32 bits

---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index a54362f..5fd7675 100644
--- a/header.go
+++ b/header.go
@@ -1229,6 +1229,11 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 		headerSize = hdr.writeHeaderLevel0(data, pathname)
 	case 1:
 		headerSize = hdr.writeHeaderLevel1(data, pathname)
+		/* the packed size field counts the extended headers too */
+		extendSize := headerSize - int(data[iHeaderSize]) - 2
+		if int64(hdr.PackedSize)+int64(extendSize) > math.MaxUint32 {
+			return fmt.Errorf("\"%s\" is too large, its size does not fit in a header", trimNul(hdr.Name))
+		}
 	case 2:
 		headerSize = hdr.writeHeaderLevel2(data, pathname)
 	default:
-- 
2.43.0


From 50ff3ec023a78198b694c5cf5851e27317287d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:08 +0000
Subject: [PATCH 61/64] fix: moving an old backup into the archive no longer
 removes the new backup

---
 lhext.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lhext.go b/lhext.go
index 982620f..8c94c77 100644
--- a/lhext.go
+++ b/lhext.go
@@ -313,6 +313,18 @@ func reportArchiveNameIfDifferent(l *Lha) {
 	}
 }
 
+/* withoutFile drops the file called name, however it is spelled */
+func withoutFile(filev []string, name string) []string {
+	var others []string
+	st, err := os.Lstat(name)
+	for _, file := range filev {
+		if f, e := os.Lstat(file); err != nil || e != nil || !os.SameFile(st, f) {
+			others = append(others, file)
+		}
+	}
+	return others
+}
+
 func removeFiles(filec int, filev []string) error {
 	var failure error
 	sort.Strings(filev[:filec])
@@ -878,6 +890,9 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 
 	/* remove archived files */
 	if l.DeleteAfterAppend && !l.Noexec {
+		if oldArchiveExist && l.BackupOldArchive { /* but not the new backup when the last one was archived */
+			l.archivedFiles = withoutFile(l.archivedFiles, string(l.backupArchiveName))
+		}
 		return removeFiles(len(l.archivedFiles), l.archivedFiles)
 	}
 
-- 
2.43.0


From cf63271ec853e547a9f7a9c33a6a212f8ef37812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:09 +0000
Subject: [PATCH 62/64] fix: the archive stays in place while it is backed up
 also where there are no links

---
 lhext.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 8c94c77..01dbf5c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -301,10 +301,31 @@ func buildBackupFile(l *Lha) error {
 		return err
 	}
 	/* the archive stays in place until the new one replaces it */
-	if err := os.Link(l.archiveName, backup); err != nil {
-		return os.Rename(l.archiveName, backup)
+	if err := os.Link(l.archiveName, backup); err == nil {
+		return nil
 	}
-	return nil
+	/* a file system without links */
+	in, err := os.Open(l.archiveName)
+	if err != nil {
+		return err
+	}
+	defer in.Close()
+	st, err := in.Stat()
+	if err != nil {
+		return err
+	}
+	out, err := os.OpenFile(backup, os.O_WRONLY|os.O_CREATE|os.O_EXCL, st.Mode().Perm())
+	if err != nil {
+		return err
+	}
+	_, err = io.Copy(out, in)
+	if e := out.Close(); err == nil {
+		err = e
+	}
+	if err != nil {
+		os.Remove(backup)
+	}
+	return err
 }
 
 func reportArchiveNameIfDifferent(l *Lha) {
-- 
2.43.0


From 093ffbd85516fc1aae37f9a2c825a2550555b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:12 +0000
Subject: [PATCH 63/64] fix: operations leave the options as they were set

---
 lha.go   | 24 ++++++++++++------------
 lhext.go |  7 +------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/lha.go b/lha.go
index c92f719..db3f3a5 100644
--- a/lha.go
+++ b/lha.go
@@ -96,10 +96,10 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	defer codecMutex.Unlock()
 	var pos int
 	// verify mode here, no extraction
+	defer func(mode bool) {
+		VerifyMode = mode
+	}(VerifyMode)
 	VerifyMode = true
-	defer func() {
-		VerifyMode = false
-	}()
 	MakeCrcTable()
 	headers = make([]*LzHeader, 0)
 	fr, err := openOldArchive(l)
@@ -144,7 +144,6 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 func (l *Lha) Decompress(header *LzHeader) (err error) {
 	codecMutex.Lock()
 	defer codecMutex.Unlock()
-	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractWithHeader(header, l)
 }
@@ -152,7 +151,6 @@ func (l *Lha) Decompress(header *LzHeader) (err error) {
 func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
 	codecMutex.Lock()
 	defer codecMutex.Unlock()
-	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractBytesWithHeader(header, l)
 }
@@ -160,6 +158,7 @@ func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
 func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, headerLevel int) (err error) {
 	codecMutex.Lock()
 	defer codecMutex.Unlock()
+	defer l.keepOptions()()
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
@@ -170,7 +169,6 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 		return err
 	}
 	l.newArchive = err != nil
-	defer l.resetFiles()
 
 	return compressBytes(l.archiveName, body, l)
 }
@@ -178,6 +176,7 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	codecMutex.Lock()
 	defer codecMutex.Unlock()
+	defer l.keepOptions()()
 	_, err = os.Stat(l.archiveName)
 	if err != nil && !os.IsNotExist(err) {
 		return err
@@ -188,13 +187,14 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 	l.CompressMethod = compressMethod
 	l.CmdFilev = []string{fileToAdd}
 	l.CmdFilec = 1
-	defer l.resetFiles()
 	return updateArchive(l.archiveName, l, true, l.appendIt)
 }
 
-/* the file of one call is not an argument of the next ones */
-func (l *Lha) resetFiles() {
-	l.CmdFilev = nil
-	l.CmdFilec = 0
-	l.newArchive = false
+/* keepOptions returns what sets the options again: the arguments of one call are not those of the next ones */
+func (l *Lha) keepOptions() func() {
+	headerLevel, compressMethod, filev, filec := l.HeaderLevel, l.CompressMethod, l.CmdFilev, l.CmdFilec
+	return func() {
+		l.HeaderLevel, l.CompressMethod, l.CmdFilev, l.CmdFilec = headerLevel, compressMethod, filev, filec
+		l.newArchive = false
+	}
 }
diff --git a/lhext.go b/lhext.go
index 01dbf5c..7c63b77 100644
--- a/lhext.go
+++ b/lhext.go
@@ -770,7 +770,7 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 	/* find needed files when automatic update */
 	automatic := l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil
 	if automatic {
-		defer l.resetFiles()
+		defer l.keepOptions()()
 		if err = findUpdateFiles(&oafp, l); err != nil {
 			return err
 		}
@@ -790,11 +790,6 @@ func updateArchive(archiveFilepath string, l *Lha, onDisk bool, appendOne func(f
 		if onDisk && l.isArchive(l.CmdFilev[i]) {
 			/* exclude target archive */
 			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
 			continue
 		}
 
-- 
2.43.0


From 86afcb540f69a628c95d5bb738863b3a2372ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:22 +0000
Subject: [PATCH 64/64] fix: names and link targets are kept whole or refused,
 not cut

A symbolic link of level 0 whose name and target are longer than the header
holds lost its target, and with it the archive could not be read any more; a
plain name was cut, so two files could become one. A target of more than 1023
bytes was cut on every level, and a path with its target of more than about
4000 bytes ended in a panic.
---
 header.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/header.go b/header.go
index 5fd7675..732113e 100644
--- a/header.go
+++ b/header.go
@@ -119,7 +119,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 		if err != nil {
 			return fmt.Errorf("error while reading symlink error : %v", err.Error())
 		}
-		copy(hdr.Realname, []byte(realname))
+		hdr.Realname = append([]byte(realname), 0)
 	}
 
 	return nil
@@ -1171,7 +1171,6 @@ func (l LzHeader) initHeader(name string, headerLevel byte, fileinfo os.FileInfo
 
 func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	var headerSize int
-	data := make([]byte, lzheaderStorage)
 
 	var archiveKanjiCode = codeSJIS
 	var systemKanjiCode = defaultSystemKanjiCode
@@ -1224,6 +1223,12 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 		(archiveDelim),
 		filenameCase)
 
+	/* what does not fit in a header is refused, not cut */
+	if hdr.HeaderLevel == 0 && lengthOfStringInByte(pathname) > level0NameLimit() {
+		return fmt.Errorf("the pathname \"%s\" is too long", trimNul(hdr.Name))
+	}
+	data := make([]byte, lzheaderStorage+2*len(pathname)+len(hdr.User)+len(hdr.Group))
+
 	switch hdr.HeaderLevel {
 	case 0:
 		headerSize = hdr.writeHeaderLevel0(data, pathname)
@@ -1240,6 +1245,9 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 		return fmt.Errorf("unknown level header (level %d)", hdr.HeaderLevel)
 
 	}
+	if headerSize > lzheaderStorage {
+		return fmt.Errorf("the pathname \"%s\" is too long", trimNul(hdr.Name))
+	}
 
 	_, err := (*fp).Write(data[:headerSize])
 	if err != nil {
@@ -1279,8 +1287,15 @@ func writeUnixInfo(l *LzHeader) {
 	}
 }
 
+/* level0NameLimit is the length of the longest pathname a level 0 header holds */
+func level0NameLimit() int {
+	if GenericFormat {
+		return 255 - iGenericHeaderSize + 2
+	}
+	return 255 - iLevel0HeaderSize + 2
+}
+
 func (l *LzHeader) writeHeaderLevel0(data []byte, pathname []byte) int {
-	var limit int
 	var nameLength int
 	var headerSize int
 
@@ -1299,16 +1314,6 @@ func (l *LzHeader) writeHeaderLevel0(data []byte, pathname []byte) int {
 
 	/* write pathname (level 0 header contains the directory part) */
 	nameLength = lengthOfStringInByte(pathname)
-	if GenericFormat {
-		limit = 255 - iGenericHeaderSize + 2
-	} else {
-		limit = 255 - iLevel0HeaderSize + 2
-	}
-
-	if nameLength > limit {
-		fmt.Fprintf(os.Stderr, "the length of pathname \"%s\" is too long.", pathname)
-		nameLength = limit
-	}
 	putByte(byte(nameLength))
 	putBytes(pathname, nameLength)
 	putWord(int(l.Crc))
-- 
2.43.0

