From 21fdd2271dab7113099f830e6db5e61010e0e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 01/45] fix: reorder languages after a resource of a known type
 gets a new translation

Walk, WalkType, WriteObject and WriteToEXE used a stale list of languages when
a language was added to or removed from a resource after a first ordering.
---
 rsrc.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index daf302f..cd7dc99 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -244,16 +244,19 @@ func (te *typeEntry) size() int {
 // order orders ids and names following the specification, and saves them in orderedKeys.
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
+	// Order LCIDs in every resource, because languages may have been added or
+	// removed since orderedKeys was made.
+	for _, re := range te.resources {
+		re.order()
+	}
+
 	if te.orderedKeys != nil {
 		return
 	}
 
 	te.orderedKeys = make([]Identifier, 0, len(te.resources))
-	for ident, re := range te.resources {
+	for ident := range te.resources {
 		te.orderedKeys = append(te.orderedKeys, ident)
-
-		// Order LCIDs in every resource
-		re.order()
 	}
 
 	// Names in case sensitive ascending order, then IDs in ascending order
-- 
2.43.0


From ef020485a11c561ce363cb6530a6f6fdd0da0f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 02/45] fix: return an error instead of panicking on truncated
 cursor data

---
 cursor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..0a5a5a0 100644
--- a/cursor.go
+++ b/cursor.go
@@ -202,6 +202,10 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			// Not even a hot spot
+			return nil, errors.New(errInvalidGroup)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -321,6 +325,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From 08036f28b2d527685c1857232da9c75f731c183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 03/45] fix: don't panic when .rsrc is not the last section and
 there is no .reloc

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 9422d01..e168fb9 100644
--- a/exe.go
+++ b/exe.go
@@ -374,7 +374,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From 7b4bef06124d5c2f435df6d7d8dc698b5c6111a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 04/45] fix: check there is room for a section header when
 abandoning the existing .rsrc section too

---
 exe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/exe.go b/exe.go
index e168fb9..f64db76 100644
--- a/exe.go
+++ b/exe.go
@@ -310,15 +310,14 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
-
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
 
 	pew.updateHeaders()
 
-- 
2.43.0


From 2867e9e7e32fee99fef0a3a39b90bf7cfb6e14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 05/45] fix: keep data appended after the sections exactly once
 when replacing or adding .rsrc

It was lost when a .rsrc section was added, sections following an abandoned
.rsrc section were duplicated, and the first bytes were lost when the end of
.rsrc was not aligned.
---
 exe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exe.go b/exe.go
index f64db76..d10ea07 100644
--- a/exe.go
+++ b/exe.go
@@ -319,6 +319,12 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, errors.New(errNoRoomForRSRC)
 	}
 
+	if pew.rsrcHdr == nil || pew.src.rsrcEnd > int64(pew.src.dataEnd) {
+		// The new section will be inserted at the end of existing ones,
+		// or the end of the last section isn't aligned.
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
+
 	pew.updateHeaders()
 
 	return &pew, nil
-- 
2.43.0


From 7663f6becb0f8e49465e5e8c52efba88ac49b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 06/45] fix: don't move sections that follow .rsrc in memory
 when its raw and virtual sizes differ

---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index d10ea07..5d86a2f 100644
--- a/exe.go
+++ b/exe.go
@@ -385,7 +385,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From 52e8d78bd333979e26a8c0f08ed5406ae673d501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 07/45] fix: keep the certificate directory right when .rsrc is
 not the last section in the file

---
 exe.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 5d86a2f..bb73f9f 100644
--- a/exe.go
+++ b/exe.go
@@ -440,8 +440,10 @@ func (pew *peWriter) updateHeaders() {
 		}
 	}
 
-	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+	// What follows .rsrc in the file is going to move
+	rsrcEnd := uint32(pew.src.rsrcEnd)
+	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= rsrcEnd {
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - rsrcEnd
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From f3c207950a2085813663b28290a90998f1f5a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 08/45] fix: update the pointer to the symbol table when the
 symbol table moves

---
 exe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.go b/exe.go
index bb73f9f..eb3970d 100644
--- a/exe.go
+++ b/exe.go
@@ -445,6 +445,9 @@ func (pew *peWriter) updateHeaders() {
 	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= rsrcEnd {
 		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - rsrcEnd
 	}
+	if pew.h.file.PointerToSymbolTable >= rsrcEnd {
+		pew.h.file.PointerToSymbolTable += pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - rsrcEnd
+	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].Size = rsrcLen
-- 
2.43.0


From 8de1cafb4a1c20f1d76a6f0311e2fcea266d8aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 09/45] fix: don't count a new .rsrc section twice in
 SizeOfInitializedData

---
 exe.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/exe.go b/exe.go
index eb3970d..e2735aa 100644
--- a/exe.go
+++ b/exe.go
@@ -419,7 +419,6 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
-		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
 		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
-- 
2.43.0


From 2e45dc0b8e5e43ce0962bf6899a8c434fa476e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 10/45] fix: ignore the file pointer of sections that have no
 data in the file

---
 exe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index e2735aa..3146294 100644
--- a/exe.go
+++ b/exe.go
@@ -354,8 +354,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
-			// Exclude sections containing uninitialized data from file offset
+		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 || pew.h.sections[i].SizeOfRawData == 0 {
+			// Exclude sections containing uninitialized data or no data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
-- 
2.43.0


From ed5399836071434185c85cd7c900258412633316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 11/45] fix: update SizeOfHeaders when the added section header
 exceeds it

---
 exe.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/exe.go b/exe.go
index 3146294..af48e11 100644
--- a/exe.go
+++ b/exe.go
@@ -61,10 +61,12 @@ type peOptionalHeader interface {
 	getFileAlignment() uint32
 	getNumberOfRvaAndSizes() uint32
 	getCheckSum() uint32
+	getSizeOfHeaders() uint32
 
 	setSizeOfInitializedData(uint32)
 	setSizeOfImage(uint32)
 	setCheckSum(uint32)
+	setSizeOfHeaders(uint32)
 }
 
 type peOptionalHeader32 struct {
@@ -132,6 +134,14 @@ func (h *peOptionalHeader32) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
 
+func (h *peOptionalHeader32) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
+func (h *peOptionalHeader32) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 type peOptionalHeader64 struct {
 	Magic                       uint16
 	MajorLinkerVersion          uint8
@@ -196,6 +206,14 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
 
+func (h *peOptionalHeader64) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
+func (h *peOptionalHeader64) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	r.Seek(0, io.SeekStart)
 
@@ -418,6 +436,9 @@ func (pew *peWriter) updateHeaders() {
 		pew.rsrcHdr = &pew.h.sections[len(pew.h.sections)-1]
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
+		if pew.h.length > int64(pew.h.opt.getSizeOfHeaders()) {
+			pew.h.opt.setSizeOfHeaders(pew.roundRaw(uint32(pew.h.length)))
+		}
 		lastSection = pew.rsrcHdr
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-- 
2.43.0


From ceaf88c352cb28fde73ac8a44303852b43afa050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 12/45] fix: write the same file again when patching it again
 with the same resources

The size of .rsrc changed twice when its raw size wasn't aligned and another
section followed.
---
 exe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index af48e11..9fb58af 100644
--- a/exe.go
+++ b/exe.go
@@ -403,10 +403,10 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
-		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
+	size := pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
+	if size >= uint32(len(pew.rsrcData)) && pew.roundVirt(size) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
-		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
+		buf := make([]byte, size)
 		copy(buf, pew.rsrcData)
 		pew.rsrcData = buf
 		return false
-- 
2.43.0


From 9e2f4bd296aee95076b398a5087670d9eb27b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 13/45] fix: don't shift the file pointer of sections that have
 no data in the file

It kept changing every time the executable was patched.
---
 exe.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 9fb58af..956f837 100644
--- a/exe.go
+++ b/exe.go
@@ -372,7 +372,7 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 || pew.h.sections[i].SizeOfRawData == 0 {
+		if !hasFileData(&pew.h.sections[i]) {
 			// Exclude sections containing uninitialized data or no data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
@@ -389,6 +389,12 @@ func (pew *peWriter) fillSectionsInfo() error {
 	return nil
 }
 
+// hasFileData is false when a section does not occupy any room in the file.
+// In this case, its file pointer is meaningless.
+func hasFileData(section *pe.SectionHeader32) bool {
+	return section.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA == 0 && section.SizeOfRawData != 0
+}
+
 func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
@@ -454,7 +460,7 @@ func (pew *peWriter) updateHeaders() {
 					lastSection = &pew.h.sections[i]
 				}
 			}
-			if pew.h.sections[i].PointerToRawData > pew.rsrcHdr.PointerToRawData {
+			if hasFileData(&pew.h.sections[i]) && pew.h.sections[i].PointerToRawData > pew.rsrcHdr.PointerToRawData {
 				pew.h.sections[i].PointerToRawData += rawDelta
 			}
 		}
-- 
2.43.0


From dc0c4c71a5b22ab7413ef11c641c509c9f0d9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 14/45] fix: always write zeros between sections

Seeking over the blanks left whatever was already there when the destination
was not empty, wrote at a wrong place when the file was open in append mode,
and ignored seek errors (on pipes, for example).
---
 exe.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/exe.go b/exe.go
index 956f837..e91ab24 100644
--- a/exe.go
+++ b/exe.go
@@ -596,16 +596,6 @@ func writeBlank(w io.Writer, length int64) error {
 		return nil
 	}
 
-	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
-			return err
-		}
-		return nil
-	}
-
 	const bufLen = 0x100
 	var b [bufLen]byte
 	for length > 0 {
-- 
2.43.0


From d235c7501f2b04e78b047c475fa90775b7149746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 15/45] fix: return errors that occur while computing the
 checksum

The file was written with the checksum of a part of the file.
---
 exe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index e91ab24..ef72a4f 100644
--- a/exe.go
+++ b/exe.go
@@ -281,7 +281,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
-- 
2.43.0


From d34ecfde281fafabca7ecc8674c0f67c6997e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 16/45] fix: return seek errors when reading an executable

Seek errors were ignored, so that the wrong bytes could be read as headers or
as resources, or the size of the file could be wrong.
---
 exe.go    | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 winres.go | 16 +++++++++++++---
 2 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/exe.go b/exe.go
index ef72a4f..8d52794 100644
--- a/exe.go
+++ b/exe.go
@@ -215,9 +215,15 @@ func (h *peOptionalHeader64) setSizeOfHeaders(s uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -244,7 +250,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -270,7 +279,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -300,7 +312,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -640,7 +655,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -702,18 +720,27 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+	_, err = r.Seek(pos, io.SeekStart)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	return size, nil
 }
diff --git a/winres.go b/winres.go
index dea9174..ff276af 100644
--- a/winres.go
+++ b/winres.go
@@ -346,10 +346,20 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
-	exe.Seek(pos, io.SeekStart)
+	if err != nil {
+		exe.Seek(pos, io.SeekStart)
+		return false, err
+	}
+	_, err = exe.Seek(pos, io.SeekStart)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 8bf70e37e63a268f17f93dc42c82bb5cbc285bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 17/45] fix: don't panic on a tiny optional header or on 65535
 sections

---
 exe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 8d52794..50d9b78 100644
--- a/exe.go
+++ b/exe.go
@@ -679,7 +679,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
@@ -706,7 +706,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c70061f8efe559b114e7491ee0128bd962a54b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 18/45] fix: refuse to patch images with inconsistent headers

Null alignments caused a division by zero. Sections that overlapped headers,
that were too far for a 32-bit address, or that didn't have any data, made
sizes and addresses wrap around: the result was a corrupted or a huge file.
---
 exe.go | 52 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/exe.go b/exe.go
index 50d9b78..e442a35 100644
--- a/exe.go
+++ b/exe.go
@@ -55,6 +55,9 @@ type peHeaders struct {
 
 const sizeOfSectionHeader = 40
 
+// https://docs.microsoft.com/en-us/windows/win32/debug/pe-format#optional-header-windows-specific-fields-image-only
+const maxFileAlignment = 0x10000
+
 type peOptionalHeader interface {
 	getSizeOfInitializedData() uint32
 	getSectionAlignment() uint32
@@ -330,7 +333,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 			// The certificate entry actually contains a raw data offset, not a virtual address.
 			// https://docs.microsoft.com/en-us/windows/win32/debug/pe-format#the-attribute-certificate-table-image-only
 			if int64(entry.VirtualAddress)+int64(entry.Size) == pew.src.fileSize {
-				pew.src.sigSize = pew.src.fileSize - int64(entry.VirtualAddress)
+				pew.src.sigSize = int64(entry.Size)
 			}
 		case IgnoreSignature:
 		default:
@@ -343,8 +346,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.src.fileSize < int64(pew.src.dataEnd) {
-		return nil, io.ErrUnexpectedEOF
+	if pew.src.sigSize > pew.src.fileSize-int64(pew.src.dataEnd) {
+		// This can't be a signature, it would be inside of a section.
+		pew.src.sigSize = 0
 	}
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
@@ -367,6 +371,17 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 }
 
 func (pew *peWriter) fillSectionsInfo() error {
+	var (
+		fileAlign = pew.h.opt.getFileAlignment()
+		virtAlign = pew.h.opt.getSectionAlignment()
+		dataEnd   int64
+		virtEnd   int64
+	)
+
+	if fileAlign == 0 || fileAlign > maxFileAlignment || virtAlign == 0 {
+		return errors.New(errNotPEImage)
+	}
+
 	pew.src.dataOffset = 0xFFFFFFFF
 	pew.src.rsrcEnd = pew.src.fileSize
 
@@ -376,7 +391,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 				return errors.New(errRSRCTwice)
 			}
 			pew.rsrcHdr = &pew.h.sections[i]
-			pew.src.rsrcEnd = int64(pew.roundRaw(pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData))
+			if !hasFileData(pew.rsrcHdr) {
+				return errors.New(errRSRCNotFound)
+			}
 		}
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BASERELOC].VirtualAddress {
 			if pew.relocHdr != nil {
@@ -387,8 +404,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
-		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
-			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
+		if end := int64(pew.h.sections[i].VirtualAddress) + int64(pew.h.sections[i].VirtualSize); end > virtEnd {
+			virtEnd = end
 		}
 		if !hasFileData(&pew.h.sections[i]) {
 			// Exclude sections containing uninitialized data or no data from file offset
@@ -398,11 +415,28 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-		if pew.h.sections[i].PointerToRawData+pew.h.sections[i].SizeOfRawData > pew.src.dataEnd {
-			pew.src.dataEnd = pew.h.sections[i].PointerToRawData + pew.h.sections[i].SizeOfRawData
+		if end := int64(pew.h.sections[i].PointerToRawData) + int64(pew.h.sections[i].SizeOfRawData); end > dataEnd {
+			dataEnd = end
 		}
 	}
-	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
+
+	if pew.src.fileSize < dataEnd {
+		return io.ErrUnexpectedEOF
+	}
+	if int64(pew.src.dataOffset) < pew.h.length || dataEnd == 0 {
+		return errors.New(errNotPEImage)
+	}
+	// There must be room for the new resources, whether they are added or replaced, and for alignment.
+	if dataEnd+int64(len(pew.rsrcData))+2*int64(fileAlign) > 0xFFFFFFFF ||
+		virtEnd+int64(len(pew.rsrcData))+2*int64(virtAlign) > 0xFFFFFFFF {
+		return errors.New(errSectionTooFar)
+	}
+
+	pew.src.dataEnd = uint32(dataEnd)
+	pew.src.virtEnd = pew.roundVirt(uint32(virtEnd))
+	if pew.rsrcHdr != nil {
+		pew.src.rsrcEnd = int64(pew.roundRaw(pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData))
+	}
 
 	return nil
 }
-- 
2.43.0


From d299a4d09027efd48583309251a2b1cf633ee6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 19/45] fix: don't truncate identifiers and numbers of entries
 when reading resources

The number of entries of a directory could wrap around, and 32-bit identifiers
were silently truncated to 16 bits.
---
 rsrc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index cd7dc99..a73d470 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -506,7 +506,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
@@ -522,6 +522,9 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		}
 		entries[i].offset = int64(dir[i].Offset &^ subdirectoryOffset)
 		if dir[i].ID&nameOffset == 0 {
+			if dir[i].ID > 0xFFFF {
+				return nil, errors.New(errInvalidResDir)
+			}
 			entries[i].ident = ID(dir[i].ID)
 		} else {
 			entries[i].ident, err = readName(section, dir[i].ID&^nameOffset)
-- 
2.43.0


From 8bac81a73c61ba2d050d9ed16dacddb57294627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 20/45] fix: don't use unlimited time and memory on malformed
 resource directories

A small file, with directories sharing the same subdirectories and data, could
describe billions of resources or terabytes of data.
---
 rsrc.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index a73d470..f9851e8 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -434,6 +434,9 @@ func writeDataEntry(w io.Writer, offset int, dataSize int) error {
 
 func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifier) error {
 	r := bytes.NewReader(section)
+	// Malformed directories may point several times to a same subdirectory.
+	// Those that don't can't have more entries than the section can hold.
+	maxEntries := len(section) / sizeOfDirEntry
 	return dirEntry{}.walk(r, func(typeEntry dirEntry) error {
 		if typeID != ID(0) &&
 			typeEntry.ident != typeID &&
@@ -442,9 +445,15 @@ func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifie
 			return nil
 		}
 		return typeEntry.walk(r, func(resourceEntry dirEntry) error {
+			if maxEntries--; maxEntries < 0 {
+				return errors.New(errInvalidResDir)
+			}
 			resourceEntry.leaf = true
 			return resourceEntry.walk(r, func(langEntry dirEntry) error {
-				data, err := langEntry.readData(r, baseAddress)
+				if maxEntries--; maxEntries < 0 {
+					return errors.New(errInvalidResDir)
+				}
+				data, err := langEntry.readData(section, baseAddress)
 				if err != nil {
 					return err
 				}
@@ -476,25 +485,27 @@ func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
 	return nil
 }
 
-func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte, error) {
-	section.Seek(de.offset, io.SeekStart)
+// readData returns the data designated by a data entry.
+//
+// It returns a part of the section instead of a copy, because a malformed directory
+// could designate the same data many times and make the copies huge.
+func (de dirEntry) readData(section []byte, baseAddress uint32) ([]byte, error) {
+	r := bytes.NewReader(section)
+	r.Seek(de.offset, io.SeekStart)
 
 	entry := resourceDataEntry{}
-	err := binaryRead(section, &entry)
+	err := binaryRead(r, &entry)
 	if err != nil {
 		return nil, err
 	}
 
 	offset := int64(entry.DataRVA) - int64(baseAddress)
-	if offset < 0 || offset+int64(entry.Size) > section.Size() {
+	end := offset + int64(entry.Size)
+	if offset < 0 || end > int64(len(section)) {
 		return nil, errors.New(errDataEntryOutOfBounds)
 	}
 
-	data := make([]byte, entry.Size)
-	section.Seek(offset, io.SeekStart)
-	section.Read(data)
-
-	return data, nil
+	return section[offset:end:end], nil
 }
 
 func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
-- 
2.43.0


From 5750ce3f5f435665bbcc5fcb55aceabf801b37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 21/45] fix: don't overlap sections that have a null virtual
 size

When the virtual size is null, the loader uses the raw size. The new .rsrc
section was written at the same address as the last section.
---
 exe.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/exe.go b/exe.go
index e442a35..43ac839 100644
--- a/exe.go
+++ b/exe.go
@@ -404,7 +404,7 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
-		if end := int64(pew.h.sections[i].VirtualAddress) + int64(pew.h.sections[i].VirtualSize); end > virtEnd {
+		if end := int64(pew.h.sections[i].VirtualAddress) + int64(virtualSize(&pew.h.sections[i])); end > virtEnd {
 			virtEnd = end
 		}
 		if !hasFileData(&pew.h.sections[i]) {
@@ -447,22 +447,31 @@ func hasFileData(section *pe.SectionHeader32) bool {
 	return section.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA == 0 && section.SizeOfRawData != 0
 }
 
+// virtualSize returns the size of a section in memory.
+// Some linkers leave it to zero, it is then the same as in the file.
+func virtualSize(section *pe.SectionHeader32) uint32 {
+	if section.VirtualSize == 0 {
+		return section.SizeOfRawData
+	}
+	return section.VirtualSize
+}
+
 func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
 	}
-	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
+	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + virtualSize(pew.rsrcHdr))
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
 	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
-		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
+		pew.roundVirt(pew.relocHdr.VirtualAddress+virtualSize(pew.relocHdr)) >= pew.src.virtEnd {
 		return false
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
 	size := pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
-	if size >= uint32(len(pew.rsrcData)) && pew.roundVirt(size) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
+	if size >= uint32(len(pew.rsrcData)) && pew.roundVirt(size) == pew.roundVirt(virtualSize(pew.rsrcHdr)) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, size)
 		copy(buf, pew.rsrcData)
@@ -500,7 +509,7 @@ func (pew *peWriter) updateHeaders() {
 		lastSection = pew.rsrcHdr
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
+		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(virtualSize(pew.rsrcHdr))
 		rawDelta := pew.roundRaw(rsrcLen) - pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
 		pew.rsrcHdr.VirtualSize = rsrcLen
 		pew.rsrcHdr.SizeOfRawData = pew.roundRaw(rsrcLen)
@@ -536,7 +545,7 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	pew.h.opt.setCheckSum(0)
-	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(lastSection.VirtualSize))
+	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(virtualSize(lastSection)))
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
-- 
2.43.0


From ed81486de3fe979999cf79c1f7adbd4733a5af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 22/45] fix: don't read the same names again and again in
 malformed resource directories

---
 rsrc.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index f9851e8..e723501 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -433,7 +433,11 @@ func writeDataEntry(w io.Writer, offset int, dataSize int) error {
 // Reading functions:
 
 func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifier) error {
-	r := bytes.NewReader(section)
+	r := &dirReader{
+		Reader:   bytes.NewReader(section),
+		names:    make(map[uint32]Name),
+		maxNames: len(section),
+	}
 	// Malformed directories may point several times to a same subdirectory.
 	// Those that don't can't have more entries than the section can hold.
 	maxEntries := len(section) / sizeOfDirEntry
@@ -463,6 +467,13 @@ func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifie
 	})
 }
 
+// dirReader reads every name once.
+type dirReader struct {
+	*bytes.Reader
+	names    map[uint32]Name // names that have already been read
+	maxNames int             // total size of the names that may still be read, in bytes
+}
+
 type dirEntry struct {
 	path   string
 	ident  Identifier
@@ -470,7 +481,7 @@ type dirEntry struct {
 	leaf   bool
 }
 
-func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
+func (de dirEntry) walk(section *dirReader, fn func(dirEntry) error) error {
 	entries, err := de.readDirTable(section)
 	if err != nil {
 		return err
@@ -508,7 +519,7 @@ func (de dirEntry) readData(section []byte, baseAddress uint32) ([]byte, error)
 	return section[offset:end:end], nil
 }
 
-func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
+func (de dirEntry) readDirTable(section *dirReader) ([]dirEntry, error) {
 	section.Seek(de.offset, io.SeekStart)
 
 	table := resourceDirectoryTable{}
@@ -548,7 +559,11 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 	return entries, nil
 }
 
-func readName(section *bytes.Reader, offset uint32) (Name, error) {
+func readName(section *dirReader, offset uint32) (Name, error) {
+	if name, ok := section.names[offset]; ok {
+		return name, nil
+	}
+
 	section.Seek(int64(offset), io.SeekStart)
 
 	var length uint16
@@ -563,5 +578,13 @@ func readName(section *bytes.Reader, offset uint32) (Name, error) {
 		return "", err
 	}
 
-	return Name(utf16.Decode(b)), nil
+	// Names that don't overlap can't be bigger than the section
+	section.maxNames -= 2 + 2*len(b)
+	if section.maxNames < 0 {
+		return "", errors.New(errInvalidResDir)
+	}
+
+	name := Name(utf16.Decode(b))
+	section.names[offset] = name
+	return name, nil
 }
-- 
2.43.0


From 101b8244f38b997f08db61bf3545777b198afce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 23/45] fix: make 32 bits cursors from opaque images

The DIB had 24 bits per pixel and no mask, but was declared as 32 bits.
---
 cursor.go | 11 +++++++++++
 icon.go   |  7 +++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index 0a5a5a0..7516cba 100644
--- a/cursor.go
+++ b/cursor.go
@@ -282,6 +282,13 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	// PNG icons, on the other hand, are very common.
 	buf := &bytes.Buffer{}
 	curImg := imageInSquareNRGBA(img, false)
+	opaque := curImg.Opaque()
+	if opaque {
+		// bmp.Encode would make a 24 bits DIB, without an alpha channel.
+		// One transparent pixel is enough to avoid that.
+		curImg = &image.NRGBA{Pix: append([]byte{}, curImg.Pix...), Stride: curImg.Stride, Rect: curImg.Rect}
+		curImg.Pix[3] = 0
+	}
 	if err := bmpEncode(buf, curImg); err != nil {
 		return err
 	}
@@ -295,6 +302,10 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	// In a 32 bits DIB, the mask can be the alpha channel, therefore there is no AND mask.
 	dib[8] = byte(height << 1)
 	dib[9] = byte(height >> 7)
+	if opaque {
+		// A DIB is made of a 40 bytes header, then of rows from bottom to top.
+		dib[40+width*(height-1)*4+3] = 0xFF
+	}
 
 	cursor.images = append(cursor.images, cursorImage{
 		info: cursorInfo{
diff --git a/icon.go b/icon.go
index fb634d3..af73f75 100644
--- a/icon.go
+++ b/icon.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"image"
-	"image/color"
 	"image/png"
 	"io"
 	"sort"
@@ -325,10 +324,10 @@ func resizeImage(img image.Image, size int) image.Image {
 	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
 }
 
-func imageInSquareNRGBA(img image.Image, center bool) image.Image {
+func imageInSquareNRGBA(img image.Image, center bool) *image.NRGBA {
 	w, h := img.Bounds().Size().X, img.Bounds().Size().Y
-	if w == h && img.ColorModel() == color.NRGBAModel {
-		return img
+	if nrgba, ok := img.(*image.NRGBA); ok && w == h {
+		return nrgba
 	}
 
 	length := w
-- 
2.43.0


From 442fcc5e83bc86d31bdd342889d47f6720739433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 24/45] fix: refuse impossible icon sizes before resizing

A negative size caused a panic, zero was ignored, and a huge one allocated a
huge image before it was refused.
---
 icon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/icon.go b/icon.go
index af73f75..c94707f 100644
--- a/icon.go
+++ b/icon.go
@@ -51,6 +51,12 @@ func NewIconFromResizedImage(img image.Image, sizes []int) (*Icon, error) {
 
 	icon := Icon{}
 	for _, s := range sizes {
+		if s < 1 {
+			return nil, errors.New(errInvalidImageDimensions)
+		}
+		if s > 256 {
+			return nil, errors.New(errImageTooBig)
+		}
 		if err := icon.addImage(resizeImage(img, s)); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8e06a6b0b6cb08c569286bd40e1f02b619015f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 25/45] fix: write the right size of cursors in cursor groups

Cursors loaded from a CUR file missed the size of the hot spot.
---
 cursor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cursor.go b/cursor.go
index 7516cba..bfd0b63 100644
--- a/cursor.go
+++ b/cursor.go
@@ -160,12 +160,16 @@ func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cur
 	for _, img := range cursor.images {
 		id := rs.lastCursorID + 1
 
+		data := img.resData()
+		info := img.info
+		info.BytesInRes = uint32(len(data)) // including the hot spot
+
 		binary.Write(b, binary.LittleEndian, cursorResDirEntry{
-			cursorInfo: img.info,
+			cursorInfo: info,
 			Id:         id,
 		})
 
-		if err := rs.Set(RT_CURSOR, ID(id), LCIDNeutral, img.resData()); err != nil {
+		if err := rs.Set(RT_CURSOR, ID(id), LCIDNeutral, data); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From b935c3fe226c991428e3fadbb9ab729403d2d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 26/45] fix: write the actual size of images when saving an
 icon

An icon extracted from a group with wrong sizes was saved as a corrupted file.
---
 icon.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/icon.go b/icon.go
index c94707f..1811eec 100644
--- a/icon.go
+++ b/icon.go
@@ -121,8 +121,10 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		info := icon.images[i].info
+		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
@@ -171,9 +173,11 @@ func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon
 
 	for _, img := range icon.images {
 		id := rs.lastIconID + 1
+		info := img.info
+		info.BytesInRes = uint32(len(img.image))
 
 		binary.Write(b, binary.LittleEndian, iconResDirEntry{
-			iconInfo: img.info,
+			iconInfo: info,
 			Id:       id,
 		})
 
-- 
2.43.0


From b73a4fb7c099119784d2d7660816ff6a71b42820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 27/45] fix: refuse to save icons and cursors that can't fit in
 a file

The number of images wrapped above 65535. Dimensions of cursors wrapped above 256.
---
 cursor.go | 9 +++++++++
 errors.go | 1 +
 icon.go   | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/cursor.go b/cursor.go
index bfd0b63..c0dabaf 100644
--- a/cursor.go
+++ b/cursor.go
@@ -102,6 +102,15 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 
 // SaveCUR saves a cursor as a CUR file.
 func (cursor *Cursor) SaveCUR(ico io.Writer) error {
+	if len(cursor.images) > 0xFFFF {
+		return errors.New(errTooManyImages)
+	}
+	for i := range cursor.images {
+		if cursor.images[i].info.Width > 256 || cursor.images[i].info.Height > 256 {
+			return errors.New(errImageTooBig)
+		}
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &cursorDirHeader{
 		Type:  2,
 		Count: uint16(len(cursor.images)),
diff --git a/errors.go b/errors.go
index 7f501c9..a067429 100644
--- a/errors.go
+++ b/errors.go
@@ -12,6 +12,7 @@ const (
 	errNotICO                 = "not a valid ICO file"
 	errImageLengthTooBig      = "image size found in ICONDIRENTRY is too big (above 10 MB)"
 	errTooManyIconSizes       = "too many sizes"
+	errTooManyImages          = "too many images"
 	errGroupNotFound          = "group does not exist"
 	errInvalidGroup           = "invalid group"
 	errIconMissing            = "icon missing from group"
diff --git a/icon.go b/icon.go
index 1811eec..36cd13f 100644
--- a/icon.go
+++ b/icon.go
@@ -105,6 +105,10 @@ func LoadICO(ico io.ReadSeeker) (*Icon, error) {
 
 // SaveICO saves an icon as an ICO file.
 func (icon *Icon) SaveICO(ico io.Writer) error {
+	if len(icon.images) > 0xFFFF {
+		return errors.New(errTooManyImages)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
 		Type:  1,
 		Count: uint16(len(icon.images)),
-- 
2.43.0


From 0dd0020cf0fb0bdf6ba7acf570b6d75b90c445aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 28/45] fix: don't add images of icons and cursors that are
 refused

When the identifier was invalid, or when there were not enough identifiers
left, images that belonged to no group were left in the resource set.
---
 cursor.go | 7 +++++++
 icon.go   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0dabaf..19bc8de 100644
--- a/cursor.go
+++ b/cursor.go
@@ -159,6 +159,13 @@ func (rs *ResourceSet) SetCursor(resID Identifier, cursor *Cursor) error {
 
 // SetCursorTranslation adds the cursor to a specific language in the resource set.
 func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cursor *Cursor) error {
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+	if int(rs.lastCursorID)+len(cursor.images) > 0xFFFF {
+		return errors.New(errZeroID)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
diff --git a/icon.go b/icon.go
index 36cd13f..5dd1bfb 100644
--- a/icon.go
+++ b/icon.go
@@ -167,6 +167,13 @@ func (rs *ResourceSet) SetIcon(resID Identifier, icon *Icon) error {
 //  2. First ID in ascending order
 //
 func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon *Icon) error {
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+	if int(rs.lastIconID)+len(icon.images) > 0xFFFF {
+		return errors.New(errZeroID)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, iconDirHeader{
 		Type:  1,
-- 
2.43.0


From 047102ede6bb7db61f4e9334a6d64e60660efd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 29/45] fix: refuse to write more resources than the formats
 allow

The number of relocations of object files, and the number of entries of
resource directories wrapped above 65535.
---
 coff.go   |  4 ++++
 errors.go |  2 ++
 rsrc.go   |  3 +++
 winres.go | 16 ++++++++++------
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/coff.go b/coff.go
index 3259c94..8282321 100644
--- a/coff.go
+++ b/coff.go
@@ -17,6 +17,10 @@ const (
 const sizeOfReloc = 10
 
 func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
+	if r.numDataEntries() > 0xFFFF {
+		return errors.New(errTooManyResources)
+	}
+
 	file := pe.FileHeader{
 		Machine:          pe.IMAGE_FILE_MACHINE_UNKNOWN,
 		NumberOfSections: 1,
diff --git a/errors.go b/errors.go
index a067429..637769c 100644
--- a/errors.go
+++ b/errors.go
@@ -22,6 +22,8 @@ const (
 	errNotCUR                 = "not a valid CUR file"
 	errUnknownImageFormat     = "unknown image format"
 
+	errTooManyResources     = "too many resources for an object file"
+	errTooManyEntries       = "too many entries in a resource directory"
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
 
diff --git a/rsrc.go b/rsrc.go
index e723501..7b12db6 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -383,6 +383,9 @@ type resourceDirectoryTable struct {
 const sizeOfDirTable = 16
 
 func writeDirectoryTable(w io.Writer, numNameEntries int, numIDEntries int) error {
+	if numNameEntries > 0xFFFF || numIDEntries > 0xFFFF {
+		return errors.New(errTooManyEntries)
+	}
 	return binary.Write(w, binary.LittleEndian, resourceDirectoryTable{
 		NumberOfNameEntries: uint16(numNameEntries),
 		NumberOfIDEntries:   uint16(numIDEntries),
diff --git a/winres.go b/winres.go
index ff276af..5af91c2 100644
--- a/winres.go
+++ b/winres.go
@@ -316,12 +316,13 @@ func loadFromEXE(exe io.ReadSeeker, typeID Identifier) (*ResourceSet, error) {
 	return rs, nil
 }
 
-func (rs *ResourceSet) bytes() ([]byte, []int) {
+func (rs *ResourceSet) bytes() ([]byte, []int, error) {
 	buf := bytes.Buffer{}
-	// ResourceSet.write may only fail on io.Write() calls.
-	// bytes.Buffer.Write never returns an error.
-	reloc, _ := rs.write(&buf)
-	return buf.Bytes(), reloc
+	reloc, err := rs.write(&buf)
+	if err != nil {
+		return nil, nil, err
+	}
+	return buf.Bytes(), reloc, nil
 }
 
 // WriteToEXE patches an executable to replace its resources with this ResourceSet.
@@ -336,7 +337,10 @@ func (rs *ResourceSet) bytes() ([]byte, []int) {
 //  WithAuthenticode(<how>) // Allows updating the .rsrc section despite the file being signed
 //
 func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOption) error {
-	data, reloc := rs.bytes()
+	data, reloc, err := rs.bytes()
+	if err != nil {
+		return err
+	}
 	options := exeOptions{}
 	for _, o := range opt {
 		o(&options)
-- 
2.43.0


From 7c9215354a34f2f1da6767f050b6cf7325bd8780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 30/45] fix: refuse identifiers longer than 65535 UTF-16 code
 units

Their length wrapped, so that identifiers were truncated.
---
 errors.go | 1 +
 id.go     | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/errors.go b/errors.go
index 637769c..928c0bd 100644
--- a/errors.go
+++ b/errors.go
@@ -6,6 +6,7 @@ const (
 	errZeroID          = "ordinal identifier must not be zero"
 	errEmptyName       = "string identifier must not be empty"
 	errNameContainsNUL = "string identifier must not contain NUL char"
+	errNameTooLong     = "string identifier is too long"
 
 	errUnknownArch = "unknown architecture"
 
diff --git a/id.go b/id.go
index 191d5dd..e9d74f9 100644
--- a/id.go
+++ b/id.go
@@ -3,6 +3,7 @@ package winres
 import (
 	"errors"
 	"strings"
+	"unicode/utf16"
 )
 
 // ID is the type of a resource id, or resource type id.
@@ -43,6 +44,9 @@ func checkIdentifier(ident Identifier) error {
 		if strings.ContainsRune(string(ident), 0) {
 			return errors.New(errNameContainsNUL)
 		}
+		if len(ident) > 0xFFFF && len(utf16.Encode([]rune(string(ident)))) > 0xFFFF {
+			return errors.New(errNameTooLong)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 6bc095f0a563aed5240adf79d9185383b06e34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 31/45] fix: timestamps before 1678 and after 2262 were altered

---
 version/timestamp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/version/timestamp.go b/version/timestamp.go
index 9b34d00..da82597 100644
--- a/version/timestamp.go
+++ b/version/timestamp.go
@@ -10,17 +10,21 @@ const unixEpoch = 0x019DB1DED53E8000
 // Windows timestamp is in "hecto-nanoseconds" (100 ns)
 const tsUnitToNano = 100
 
+const secToTSUnit = 1e9 / tsUnitToNano
+
 func timeToTimestamp(t time.Time) (uint32, uint32) {
 	if t.IsZero() {
 		return 0, 0
 	}
-	ts := t.UnixNano()/tsUnitToNano + unixEpoch
-	return uint32(uint64(ts) >> 32), uint32(ts)
+	// UnixNano would be undefined before 1678 and after 2262
+	ts := uint64(t.Unix())*secToTSUnit + uint64(t.Nanosecond()/tsUnitToNano) + unixEpoch
+	return uint32(ts >> 32), uint32(ts)
 }
 
 func timestampToTime(ms uint32, ls uint32) time.Time {
 	if ms == 0 && ls == 0 {
 		return time.Time{}
 	}
-	return time.Unix(0, int64((uint64(ms)<<32|uint64(ls))-unixEpoch)*tsUnitToNano)
+	ts := uint64(ms)<<32 | uint64(ls)
+	return time.Unix(int64(ts/secToTSUnit)-unixEpoch/secToTSUnit, int64(ts%secToTSUnit)*tsUnitToNano)
 }
-- 
2.43.0


From 3757d08aa662bfb33bbc87848ee8473166953a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 32/45] fix: JSON timestamps were altered when the offset of
 the time zone has seconds

---
 version/json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/version/json.go b/version/json.go
index ca1e1a5..8cc65f5 100644
--- a/version/json.go
+++ b/version/json.go
@@ -54,7 +54,12 @@ func (vi *Info) MarshalJSON() ([]byte, error) {
 		jf.Type = "Unknown"
 	}
 	if !vi.Timestamp.IsZero() {
-		jf.Timestamp = &vi.Timestamp
+		ts := vi.Timestamp
+		if _, offset := ts.Zone(); offset%60 != 0 {
+			// There are no seconds in the offsets of RFC 3339
+			ts = ts.UTC()
+		}
+		jf.Timestamp = &ts
 	}
 	if jf.FileVersion != "" || jf.ProductVersion != "" || jf.Flags != "" || jf.Type != "" || jf.Timestamp != nil {
 		jvi.Fixed = &jf
-- 
2.43.0


From a215d48c05629cc6d75454628fdaf5ba5eb183d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 33/45] fix: SetVersionInfo ignored the fixed part of an info
 without strings

---
 winres.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/winres.go b/winres.go
index 5af91c2..5cccab9 100644
--- a/winres.go
+++ b/winres.go
@@ -93,7 +93,12 @@ func (rs *ResourceSet) Set(typeID, resID Identifier, langID uint16, data []byte)
 //
 // This what Windows displays in the Details tab of file properties.
 func (rs *ResourceSet) SetVersionInfo(vi version.Info) {
-	for langID, res := range vi.SplitTranslations() {
+	translations := vi.SplitTranslations()
+	if len(translations) == 0 {
+		// No strings, there is still the fixed part
+		rs.Set(RT_VERSION, ID(1), LCIDNeutral, vi.Bytes())
+	}
+	for langID, res := range translations {
 		rs.Set(RT_VERSION, ID(1), langID, res.Bytes())
 	}
 }
-- 
2.43.0


From f6e6ae49a68cf22b6e713856712eb88abc364008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 34/45] fix: panic on empty version strings without padding
 after their key

---
 version/binary.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..8940fee 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,11 +374,12 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
 	if length == 0 {
+		// There may be no padding before an empty value
 		return "", nil
 	}
+
+	data = data[*pos:]
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
-- 
2.43.0


From 52762b8d374bfa552f276555cd17fccffc7314ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 35/45] fix: null tables and invalid strings were accepted from
 JSON, then other functions panicked or dropped them

---
 version/json.go    |  7 ++++++-
 version/version.go | 19 +++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/version/json.go b/version/json.go
index 8cc65f5..76bc619 100644
--- a/version/json.go
+++ b/version/json.go
@@ -108,7 +108,12 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	for h, v := range jvi.Info {
 		var k uint16
 		_, err := fmt.Sscanf(h, "%X", &k)
-		if err == nil {
+		if err == nil && v != nil {
+			for key, value := range *v {
+				if err := checkString(key, value); err != nil {
+					return err
+				}
+			}
 			vi.lt[k] = v
 		}
 	}
diff --git a/version/version.go b/version/version.go
index 8997ac2..f05e6f4 100644
--- a/version/version.go
+++ b/version/version.go
@@ -107,6 +107,19 @@ func (vi *Info) Set(langID uint16, key string, value string) error {
 	if vi.lt == nil {
 		vi.lt = make(LangTable)
 	}
+	if err := checkString(key, value); err != nil {
+		return err
+	}
+	st, ok := vi.lt[langID]
+	if !ok {
+		st = &StringTable{}
+		vi.lt[langID] = st
+	}
+	(*st)[key] = value
+	return nil
+}
+
+func checkString(key string, value string) error {
 	if key == "" {
 		return errors.New(errEmptyKey)
 	}
@@ -116,12 +129,6 @@ func (vi *Info) Set(langID uint16, key string, value string) error {
 	if strings.ContainsRune(value, 0) {
 		return errors.New(errValueContainsNUL)
 	}
-	st, ok := vi.lt[langID]
-	if !ok {
-		st = &StringTable{}
-		vi.lt[langID] = st
-	}
-	(*st)[key] = value
 	return nil
 }
 
-- 
2.43.0


From 44cb2c2cb70a8d1f21eae9fe02f7b9e46b778fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 36/45] fix: GetMainTranslation panicked on an empty table

---
 version/version.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/version/version.go b/version/version.go
index f05e6f4..18bf83d 100644
--- a/version/version.go
+++ b/version/version.go
@@ -362,5 +362,9 @@ func (lt LangTable) GetMainTranslation() StringTable {
 			lang = k
 		}
 	}
-	return *lt[lang]
+	main = lt[lang]
+	if main != nil {
+		return *main
+	}
+	return nil
 }
-- 
2.43.0


From 18f5c3b8e56b177b6b66395d11c73b7b22f46ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 37/45] fix: MergeTranslations panicked on nil infos

---
 version/version.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/version/version.go b/version/version.go
index 18bf83d..0589942 100644
--- a/version/version.go
+++ b/version/version.go
@@ -216,6 +216,9 @@ func MergeTranslations(translations map[uint16]*Info) *Info {
 	vi.FileVersion = main.FileVersion
 
 	for langID, trans := range translations {
+		if trans == nil {
+			continue
+		}
 		st := trans.lt[langID]
 		if st == nil || len(*st) == 0 {
 			st = trans.lt[LangNeutral]
@@ -265,8 +268,8 @@ func findMainTranslation(translations map[uint16]*Info) *Info {
 	}
 
 	var lang uint16 = 0xFFFF
-	for k := range translations {
-		if k < lang {
+	for k, trans := range translations {
+		if trans != nil && k < lang {
 			lang = k
 		}
 	}
-- 
2.43.0


From b741102d675ac97fe66ccc4b26c9e24dae5ccb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 38/45] fix: manifests were invalid or altered when texts
 contained control characters or line breaks

---
 manifest.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 08c037f..12d6fba 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,10 +95,10 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | html}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | xmlAttr}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
-  <description>{{.Description | html}}</description>
+  <description>{{.Description | xmlText}}</description>
 {{- end}}
 
   <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
@@ -224,7 +224,10 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Parse(manifestTemplate))
+	tmpl := template.Must(template.New("manifest").Funcs(template.FuncMap{
+		"xmlAttr": xmlAttr,
+		"xmlText": xmlText,
+	}).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -233,6 +236,21 @@ func makeManifest(manifest AppManifest) []byte {
 	return buf.Bytes()
 }
 
+// xmlAttr escapes an attribute value, including white space that would be normalized.
+//
+// Characters that are not allowed in XML are replaced.
+func xmlAttr(s string) (string, error) {
+	buf := &strings.Builder{}
+	err := xml.EscapeText(buf, []byte(s))
+	return buf.String(), err
+}
+
+// xmlText is like xmlAttr, for the text of an element: it does not escape line feeds.
+func xmlText(s string) (string, error) {
+	s, err := xmlAttr(s)
+	return strings.ReplaceAll(s, "&#xA;", "\n"), err
+}
+
 type appManifestXML struct {
 	Identity struct {
 		Name    string `xml:"name,attr"`
-- 
2.43.0


From 0c9db00b563bdf89f6240174c231996975d376b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 39/45] fix: OS identifiers in upper case were not recognized
 in manifests

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 12d6fba..160e9fb 100644
--- a/manifest.go
+++ b/manifest.go
@@ -398,7 +398,7 @@ func manifestBool(s string) bool {
 }
 
 func osIDToEnum(osID string) SupportedOS {
-	switch osID {
+	switch manifestString(osID) {
 	case osWinVista:
 		return WinVistaAndAbove
 	case osWin7:
-- 
2.43.0


From 77951f9c498d5377c2375a6887b36778465d2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 40/45] fix: decoding JSON was not deterministic when several
 keys were the same language

---
 version/json.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/version/json.go b/version/json.go
index 76bc619..ab78d06 100644
--- a/version/json.go
+++ b/version/json.go
@@ -3,6 +3,7 @@ package version
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 	"time"
 )
@@ -105,16 +106,25 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	}
 
 	vi.lt = make(LangTable)
-	for h, v := range jvi.Info {
+	langs := make([]string, 0, len(jvi.Info))
+	for h := range jvi.Info {
+		langs = append(langs, h)
+	}
+	// Several keys may be the same language ("0409", "409"): the result must not depend on the order of the map
+	sort.Strings(langs)
+	for _, h := range langs {
 		var k uint16
+		v := jvi.Info[h]
 		_, err := fmt.Sscanf(h, "%X", &k)
 		if err == nil && v != nil {
+			if vi.lt[k] == nil {
+				vi.lt[k] = &StringTable{}
+			}
 			for key, value := range *v {
-				if err := checkString(key, value); err != nil {
+				if err := vi.Set(k, key, value); err != nil {
 					return err
 				}
 			}
-			vi.lt[k] = v
 		}
 	}
 
-- 
2.43.0


From 93d19f6bb753ee0e6c4034017fa8f7c0591b0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 41/45] fix: version strings without a terminator, or with
 several ones, were truncated or dropped

---
 version/binary.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 8940fee..1c9557a 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -384,12 +384,17 @@ func readStringWithLength(data []byte, pos *int, length int) (string, error) {
 		return "", errors.New(errInvalidStringLength)
 	}
 
-	length--
-	wString := make([]uint16, length)
+	*pos += length * 2
+
+	// The length usually includes one terminator, but there may be none or several
+	wString := make([]uint16, 0, length)
 	for i := 0; i < length; i++ {
-		wString[i] = uint16(data[i*2+1])<<8 | uint16(data[i*2])
+		c := uint16(data[i*2+1])<<8 | uint16(data[i*2])
+		if c == 0 {
+			break
+		}
+		wString = append(wString, c)
 	}
-	*pos += (length + 1) * 2
 
 	return string(utf16.Decode(wString)), nil
 }
-- 
2.43.0


From 37bada2165dd2955c78d864331e13289ee1a9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 42/45] fix: refuse to write objects, icons and cursors that
 exceed 4 GB

---
 coff.go   | 8 +++++++-
 cursor.go | 8 ++++++++
 errors.go | 1 +
 icon.go   | 8 ++++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/coff.go b/coff.go
index 8282321..3563413 100644
--- a/coff.go
+++ b/coff.go
@@ -21,6 +21,12 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 		return errors.New(errTooManyResources)
 	}
 
+	size := r.fullSize()
+	// What follows the data (relocations and one symbol) must have a 32 bits offset too.
+	if int64(size)+int64(r.numDataEntries())*sizeOfReloc+0x100 > 0xFFFFFFFF {
+		return errors.New(errTooMuchData)
+	}
+
 	file := pe.FileHeader{
 		Machine:          pe.IMAGE_FILE_MACHINE_UNKNOWN,
 		NumberOfSections: 1,
@@ -33,7 +39,7 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	}
 
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
-	section.SizeOfRawData = uint32(r.fullSize())
+	section.SizeOfRawData = uint32(size)
 	section.PointerToRelocations = section.PointerToRawData + section.SizeOfRawData
 	section.NumberOfRelocations = uint16(r.numDataEntries())
 
diff --git a/cursor.go b/cursor.go
index 19bc8de..6b63df4 100644
--- a/cursor.go
+++ b/cursor.go
@@ -111,6 +111,14 @@ func (cursor *Cursor) SaveCUR(ico io.Writer) error {
 		}
 	}
 
+	size := int64(sizeOfCursorDirHeader)
+	for i := range cursor.images {
+		size += sizeOfCursorFileDirEntry + int64(len(cursor.images[i].image))
+	}
+	if size > 0xFFFFFFFF {
+		return errors.New(errTooMuchData)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &cursorDirHeader{
 		Type:  2,
 		Count: uint16(len(cursor.images)),
diff --git a/errors.go b/errors.go
index 928c0bd..6299c6b 100644
--- a/errors.go
+++ b/errors.go
@@ -25,6 +25,7 @@ const (
 
 	errTooManyResources     = "too many resources for an object file"
 	errTooManyEntries       = "too many entries in a resource directory"
+	errTooMuchData          = "too much data, a file must fit in 4 GB"
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
 
diff --git a/icon.go b/icon.go
index 5dd1bfb..07ea7b9 100644
--- a/icon.go
+++ b/icon.go
@@ -109,6 +109,14 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 		return errors.New(errTooManyImages)
 	}
 
+	size := int64(sizeOfIconDirHeader)
+	for i := range icon.images {
+		size += sizeOfIconFileDirEntry + int64(len(icon.images[i].image))
+	}
+	if size > 0xFFFFFFFF {
+		return errors.New(errTooMuchData)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
 		Type:  1,
 		Count: uint16(len(icon.images)),
-- 
2.43.0


From 36bd173e73f628ce7c23134203f0b51dac602acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 43/45] fix: a shorter identity version kept numbers of the
 previous one when decoding JSON

---
 manifest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/manifest.go b/manifest.go
index 160e9fb..5c4ed46 100644
--- a/manifest.go
+++ b/manifest.go
@@ -540,6 +540,7 @@ func (ai *AssemblyIdentity) UnmarshalJSON(b []byte) error {
 	if len(v) > 4 {
 		return errors.New(errInvalidVersion)
 	}
+	ai.Version = [4]uint16{}
 	for i := range v {
 		n, err := strconv.ParseUint(v[i], 10, 16)
 		if err != nil {
-- 
2.43.0


From 48798fc17a023a305355a567d04abba7d59760a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 44/45] fix: bound imports and other data between headers and
 sections were erased

---
 exe.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 43ac839..64f139d 100644
--- a/exe.go
+++ b/exe.go
@@ -359,6 +359,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, errors.New(errNoRoomForRSRC)
 	}
 
+	if pew.rsrcHdr == nil && !pew.freeSectionHeader() {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
+
 	if pew.rsrcHdr == nil || pew.src.rsrcEnd > int64(pew.src.dataEnd) {
 		// The new section will be inserted at the end of existing ones,
 		// or the end of the last section isn't aligned.
@@ -482,6 +486,24 @@ func (pew *peWriter) requiresNewSection() bool {
 	return true
 }
 
+// freeSectionHeader makes sure that a new section header won't overwrite the content of a data directory.
+// Bound imports are often stored there, but they are optional.
+func (pew *peWriter) freeSectionHeader() bool {
+	for i := range pew.h.dirs {
+		start := int64(pew.h.dirs[i].VirtualAddress)
+		end := start + int64(pew.h.dirs[i].Size)
+		if i == pe.IMAGE_DIRECTORY_ENTRY_SECURITY || start == 0 || start >= end ||
+			start >= pew.h.length+sizeOfSectionHeader || end <= pew.h.length {
+			continue
+		}
+		if i != pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT {
+			return false
+		}
+		pew.h.dirs[i] = pe.DataDirectory{}
+	}
+	return true
+}
+
 func (pew *peWriter) updateHeaders() {
 	var (
 		rsrcLen     = uint32(len(pew.rsrcData))
@@ -606,11 +628,13 @@ func (pew *peWriter) writeEXE(w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	err = writeBlank(w, int64(pew.src.dataOffset)-pew.h.length)
+
+	// There may be some data between headers and sections, such as bound imports
+	_, err = pew.src.r.Seek(pew.h.length, io.SeekStart)
 	if err != nil {
 		return err
 	}
-	_, err = pew.src.r.Seek(int64(pew.src.dataOffset), io.SeekStart)
+	_, err = io.CopyN(w, pew.src.r, int64(pew.src.dataOffset)-pew.h.length)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1dec8044a7c17523c70fec0f067e38357237993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 45/45] fix: cursors made by resource compilers have a doubled
 height in their group

---
 cursor.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cursor.go b/cursor.go
index 6b63df4..8b51a0e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -234,6 +234,10 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 			// Not even a hot spot
 			return nil, errors.New(errInvalidGroup)
 		}
+		if entry.Height%2 == 0 && readDIBHeight(img[4:]) == uint32(entry.Height) {
+			// Resource compilers copy the height from the DIB header, where it is doubled.
+			entry.Height /= 2
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -357,6 +361,18 @@ func (cursor *Cursor) order() {
 	})
 }
 
+// readDIBHeight returns the height in a DIB header, which is twice the height of the image. It returns 0 if data isn't a DIB.
+func readDIBHeight(data []byte) uint32 {
+	if len(data) < 16 {
+		return 0
+	}
+	switch binary.LittleEndian.Uint32(data) {
+	case 40, 108, 124:
+		return binary.LittleEndian.Uint32(data[8:])
+	}
+	return 0
+}
+
 func readDIBBitCount(data []byte) (uint16, uint16, error) {
 	// Icons and cursor may contain PNG instead of DIB
 	_, s, _ := image.DecodeConfig(bytes.NewReader(data))
-- 
2.43.0

