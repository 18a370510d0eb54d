From 5173d9c2baf534c7390fb973dc6dca941368e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:13 +0000
Subject: [PATCH 01/22] fix: dos3 GetFile panicked on empty text files and
 over-long declared lengths

A text file without a non-zero byte made the trailing-zero scan run off
the front of the slice, and a declared length beyond the file's sectors
panicked, or returned bytes from the slice's spare capacity.
---
 dos3/dos3.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..de314e6 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -622,7 +622,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -640,6 +640,9 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 			data = data[2:]
 		}
 		length := int(data[0]) + int(data[1])*256
+		if length+2 > len(data) {
+			return types.FileInfo{}, fmt.Errorf("file %q declares a length of %d bytes, but only has %d", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From b7eb16aa38f422e452a1fa87910698c44b4d664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 02/22] fix: prodos.NewVolumeBitMap overflowed on volumes of
 more than 61440 blocks

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..40bca3a 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From 0093800cbc145391d28ff07fd0c2d1aa38330e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:15 +0000
Subject: [PATCH 03/22] fix: prodos.IndexBlock.Set changed only a copy of the
 index block

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 40bca3a..af1ba74 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From dba5130d425472cce86c7b5521320f0339ed968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:16 +0000
Subject: [PATCH 04/22] fix: prodos date validation took the minute byte for
 the hour and vice versa

---
 prodos/prodos.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index af1ba74..3a4e315 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -154,11 +154,12 @@ func (dt *DateTime) fromBytes(b []byte) {
 
 // Validate checks a DateTime for problems, returning a slice of errors.
 func (dt DateTime) Validate(fieldDescription string) (errors []error) {
-	if dt.HM[0] >= 24 {
-		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[0]))
+	// ProDOS stores the minute in the first byte, and the hour in the second.
+	if dt.HM[1] >= 24 {
+		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[1]))
 	}
-	if dt.HM[1] >= 60 {
-		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[1]))
+	if dt.HM[0] >= 60 {
+		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[0]))
 	}
 	return errors
 }
-- 
2.43.0


From 5e9f2347804c549cd871cfbe79a428f8e35d25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:34 +0000
Subject: [PATCH 05/22] fix: supermon symbol links could point at empty or
 deleted entries

Empty entries were read with Link 0 (the first entry) instead of -1 (none), and
AddSymbol and DeleteSymbol followed the links of empty entries, so that adding
or deleting a symbol could leave another one linked to a deleted entry, which
makes the whole symbol table unreadable.
---
 supermon/supermon.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..335e294 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -335,7 +335,7 @@ func (sm SectorMap) ReadSymbolTable(diskbytes []byte) (SymbolTable, error) {
 	for i := 0; i < 0x0fff; i += 5 {
 		address := uint16(symtbl1[i]) + uint16(symtbl1[i+1])<<8
 		if address == 0 {
-			table = append(table, Symbol{})
+			table = append(table, Symbol{Link: -1})
 			continue
 		}
 		linkAddr := uint16(symtbl1[i+2]) + uint16(symtbl1[i+3])<<8
@@ -448,11 +448,9 @@ func (st SymbolTable) ByName(name string) uint16 {
 // symbol was found.
 func (st SymbolTable) DeleteSymbol(name string) bool {
 	for i, sym := range st {
-		if strings.EqualFold(name, sym.Name) {
-			sym.Name = ""
-			sym.Address = 0
+		if sym.Address != 0 && strings.EqualFold(name, sym.Name) {
 			for j := range st {
-				if i == j {
+				if i == j || st[j].Address == 0 {
 					continue
 				}
 				if st[j].Link == i {
@@ -460,7 +458,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 					break
 				}
 			}
-			st[i] = sym
+			st[i] = Symbol{Link: -1}
 			return true
 		}
 	}
@@ -476,7 +474,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 	hash := addrHash(address)
 	pos := -1
 	for j, sym := range st {
-		if strings.EqualFold(name, sym.Name) {
+		if sym.Address != 0 && strings.EqualFold(name, sym.Name) {
 			// If we can, simply update the address.
 			if addrHash(sym.Address) == hash {
 				st[j].Address = address
@@ -494,7 +492,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 76e79eebd5a2a3c5f43ddc5d04171f7e3c7803ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:35 +0000
Subject: [PATCH 06/22] fix: supermon accepted symbol names with invalid
 characters, and stored them without those

---
 supermon/supermon.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 335e294..e2d13aa 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -295,6 +295,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
@@ -471,6 +473,12 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 	if address == 0 {
 		return fmt.Errorf("cannot set symbol %q to address 0", name)
 	}
+	if name == "" {
+		return fmt.Errorf("cannot add a symbol with an empty name")
+	}
+	if _, err := encodeSymbol(name); err != nil {
+		return err
+	}
 	hash := addrHash(address)
 	pos := -1
 	for j, sym := range st {
-- 
2.43.0


From 5a901f5ac8cbb1d982af7e8a6c543548440a56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:36 +0000
Subject: [PATCH 07/22] fix: supermon Delete returned an error for an unknown
 symbolic name, instead of false

---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index e2d13aa..9203403 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -728,6 +728,9 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 // deleted, false if it didn't exist.
 func (o Operator) Delete(filename string) (bool, error) {
 	file, err := o.ST.FileForName(filename)
+	if errors.IsFileNotFound(err) {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From ba2560adc849d0c4a8351936bd3c9d61e550b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:11 +0000
Subject: [PATCH 08/22] fix: supermon ParseCompoundSymbol refused new valid
 symbol names and accepted invalid ones

---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 9203403..c1533e5 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -585,8 +585,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From c16741ebd072a2657750830f78e6d81cd217238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 09/22] fix: supermon PutFile left the file behind when its
 symbol could not be added

---
 supermon/supermon.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index c1533e5..3b41bc2 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -778,6 +778,15 @@ func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool
 			return false, fmt.Errorf("all files already used")
 		}
 	}
+	// Writing the file may succeed and adding its symbol fail: leave everything as it was, then.
+	data, sm, st := append([]byte(nil), o.data...), append(SectorMap(nil), o.SM...), append(SymbolTable(nil), o.ST...)
+	defer func() {
+		if err != nil {
+			copy(o.data, data)
+			copy(o.SM, sm)
+			copy(o.ST, st)
+		}
+	}()
 	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
 	if err != nil {
 		return existed, err
-- 
2.43.0


From 450aef118c1a34282997b93831fa985de41b08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:01 +0000
Subject: [PATCH 10/22] fix: supermon WriteFile panicked on empty contents

---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 3b41bc2..43b5be2 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -193,6 +193,9 @@ func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, over
 	copy(cts, contents)
 	existing := len(sm.SectorsForFile(file))
 	existed := existing > 0
+	if sectorsNeeded == 0 {
+		return existed, fmt.Errorf("cannot write file %d: a NakedOS file cannot be empty", file)
+	}
 	free := sm.FreeSectors() + existing
 	if free < sectorsNeeded {
 		return existed, errors.OutOfSpacef("file %d requires %d sectors, but only %d are available", file, sectorsNeeded, free)
-- 
2.43.0


From 02e6b24b1d5ff8e2164ba3d46b93e0f0d554ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 11/22] fix: applesoft.Decode panicked or looped for ever on
 bad line links

A link to the byte before the program indexed raw[-1], and a link back to
an earlier line was followed for ever.
---
 basic/applesoft/applesoft.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..8656117 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -149,11 +149,16 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	listing := []Line{}
 	last := 0 // last line number
 	next := int(location)
+	seen := map[int]bool{} // line addresses already visited
 	for next != 0 {
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
+		if seen[ofs] {
+			return nil, fmt.Errorf("line %d has next line at $%X, which is already part of the program", last, next)
+		}
+		seen[ofs] = true
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
 		ofs += 2
 		if next == 0 {
-- 
2.43.0


From 3643436d540dca65bc4d8b6f3feb8d7b2eba120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:40 +0000
Subject: [PATCH 12/22] fix: integer.Decode panicked on a line shorter than its
 own header

---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..9ecb219 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has length %d; the minimum is 4", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 0a02e9cf6393ff24b41fd7dc0f593798fefc34db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:41 +0000
Subject: [PATCH 13/22] fix: digits in Integer BASIC string literals were
 listed as integer constants

The digit and the two characters after it were replaced by the number they
would form outside a string (or by '?').
---
 basic/integer/integer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index 9ecb219..4bb4b85 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -189,15 +189,10 @@ func Decode(raw []byte) (Listing, error) {
 	return listing, nil
 }
 
-/*
 const (
-	tokenREM        = 0x5D
-	tokenUnaryPlus  = 0x35
-	tokenUnaryMinus = 0x36
 	tokenQuoteStart = 0x28
 	tokenQuoteEnd   = 0x29
 )
-*/
 
 func isalnum(b byte) bool {
 	switch {
@@ -214,11 +209,16 @@ func isalnum(b byte) bool {
 func (l Line) String() string {
 	var buf bytes.Buffer
 	fmt.Fprintf(&buf, "%5d ", l.Num)
-	var lastAN bool
+	var lastAN, quoted bool
 	for i := 0; i < len(l.Bytes); i++ {
 		ch := l.Bytes[i]
 		if ch < 0x80 {
 			lastAN = false
+			if ch == tokenQuoteStart {
+				quoted = true
+			} else if ch == tokenQuoteEnd {
+				quoted = false
+			}
 			token := TokensByCode[ch]
 			buf.WriteString(token)
 			if len(token) > 1 {
@@ -232,7 +232,7 @@ func (l Line) String() string {
 			}
 		} else {
 			ch -= 0x80
-			if !lastAN && ch >= '0' && ch <= '9' {
+			if !quoted && !lastAN && ch >= '0' && ch <= '9' {
 				if len(l.Bytes) < i+3 {
 					buf.WriteByte('?')
 				} else {
-- 
2.43.0


From 156342d1768516547ff190e0676b27a7d649265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:31 +0000
Subject: [PATCH 14/22] fix: a cycle in the DOS 3.3 catalog chain made the tool
 loop for ever

The sectors already read were looked up but never recorded.
---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index de314e6..61d11b0 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From fc884aa6c2f28540e231574f2148a1403d925360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:12 +0000
Subject: [PATCH 15/22] fix: looping or shared ProDOS directory blocks made the
 tool run for ever

Cycles in the volume directory's or a subdirectory's block chain, a
subdirectory entry naming one of its ancestors, and subdirectories naming
each other as parents were all followed without end.
---
 prodos/prodos.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 3a4e315..5ec8031 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -693,7 +693,14 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// 	fmt.Fprintf(os.Stderr, "volume bitmap: %#v\n", v.bitmap)
 	// }
 
+	// Directory blocks already read, to refuse directories that share blocks or loop.
+	seen := map[uint16]bool{keyBlock: true}
+
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if seen[block] {
+			return v, fmt.Errorf("volume directory uses block %d twice", block)
+		}
+		seen[block] = true
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -715,7 +722,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
-		sub, err := readSubdirectory(devicebytes, sdd)
+		sub, err := readSubdirectory(devicebytes, sdd, seen)
 		if err != nil {
 			return v, err
 		}
@@ -740,7 +747,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, 0)
 		if err != nil {
 			return v, err
 		}
@@ -785,7 +792,11 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 }
 
 // parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+// depth is the number of parents already followed.
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, depth int) (string, error) {
+	if depth > len(subdirMap) {
+		return "", fmt.Errorf("parent directories of block %d form a loop", parentDirectoryBlock)
+	}
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
@@ -800,7 +811,7 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, depth+1)
 	if err != nil {
 		return "", err
 	}
@@ -812,17 +823,25 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 }
 
 // readSubdirectory reads a single subdirectory from a device into
-// memory.
-func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, error) {
+// memory. seen holds the directory blocks already read, and is added to.
+func readSubdirectory(devicebytes []byte, fd FileDescriptor, seen map[uint16]bool) (Subdirectory, error) {
 	s := Subdirectory{
 		keyBlock: &SubdirectoryKeyBlock{},
 	}
 
+	if seen[fd.KeyPointer] {
+		return s, fmt.Errorf("subdirectory %q uses block %d, which is already part of a directory", fd.Name(), fd.KeyPointer)
+	}
+	seen[fd.KeyPointer] = true
 	if err := disk.UnmarshalBlock(devicebytes, s.keyBlock, fd.KeyPointer); err != nil {
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q uses block %d, which is already part of a directory", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From dd807766b08133ebd8bc1823d3fad6e08812e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:04 +0000
Subject: [PATCH 16/22] fix: FiletypeForName accepted the empty string as the
 type Typeless

---
 types/filetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/filetype.go b/types/filetype.go
index 0490c5d..024f4ab 100644
--- a/types/filetype.go
+++ b/types/filetype.go
@@ -179,6 +179,9 @@ func (f Filetype) String() string {
 // FiletypeForName returns the filetype for a full, three-letter, or
 // one-letter name for a Filetype.
 func FiletypeForName(name string) (Filetype, error) {
+	if name == "" {
+		return 0, fmt.Errorf("empty Filetype name")
+	}
 	for _, info := range filetypeInfos {
 		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
 			return info.Type, nil
-- 
2.43.0


From 4bb28d747127d13c463e79e78a8caca90b01ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:53 +0000
Subject: [PATCH 17/22] fix: mksd refused a binary ending at 0xC000 when it
 starts inside the binary

---
 cmd/sd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sd.go b/cmd/sd.go
index 6edca56..45a2fe0 100644
--- a/cmd/sd.go
+++ b/cmd/sd.go
@@ -59,10 +59,10 @@ func (s *SDCmd) Run(globals *types.Globals) error {
 			s.Start, s.Start, s.Address, s.Address, end, end)
 	}
 
-	if int(s.Start)+len(contents) > 0xC000 {
-		end := int(s.Start) + len(contents)
-		return fmt.Errorf("start address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
-			s.Start, s.Start, len(contents), len(contents), end, end)
+	if int(s.Address)+len(contents) > 0xC000 {
+		end := int(s.Address) + len(contents)
+		return fmt.Errorf("load address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
+			s.Address, s.Address, len(contents), len(contents), end, end)
 	}
 
 	sectors := (len(contents) + 255) / 256
-- 
2.43.0


From 5a0856c4618cfa42d3523948b113f8c2b519e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 18/22] fix: ls, applesoft decode and filetypes reported
 success when their output could not be written

---
 cmd/applesoft.go | 6 +++---
 cmd/catalog.go   | 8 +++++---
 cmd/filetypes.go | 3 +--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/applesoft.go b/cmd/applesoft.go
index 321f65a..4547b7b 100644
--- a/cmd/applesoft.go
+++ b/cmd/applesoft.go
@@ -42,9 +42,9 @@ func (d *DecodeCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	if d.Raw {
-		_, _ = os.Stdout.WriteString(listing.String())
+		_, err = os.Stdout.WriteString(listing.String())
 	} else {
-		_, _ = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
+		_, err = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
 	}
-	return nil
+	return err
 }
diff --git a/cmd/catalog.go b/cmd/catalog.go
index 84b2d15..af8a42d 100644
--- a/cmd/catalog.go
+++ b/cmd/catalog.go
@@ -49,10 +49,12 @@ func (l *LsCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	for _, fd := range fds {
+		name := fd.Name
 		if !l.ShortNames && fd.Fullname != "" {
-			fmt.Println(fd.Fullname)
-		} else {
-			fmt.Println(fd.Name)
+			name = fd.Fullname
+		}
+		if _, err := fmt.Println(name); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/cmd/filetypes.go b/cmd/filetypes.go
index c39b03e..bb721fe 100644
--- a/cmd/filetypes.go
+++ b/cmd/filetypes.go
@@ -23,6 +23,5 @@ func (f *FiletypesCmd) Run(globals *types.Globals) error {
 	for _, typ := range types.FiletypeInfos(f.All) {
 		fmt.Fprintf(w, "%s\t%s\t%s\t%s\n", typ.Desc, typ.Name, typ.ThreeLetter, typ.OneLetter)
 	}
-	_ = w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From dc2fdd6232aaaa0b97dc267445c0e14e70743d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 19/22] fix: leave a NakedOS disk unchanged when a delete fails

Deleting by symbol freed the file's sectors and removed the symbol before
writing the symbol table, which fails when the table holds a name that
cannot be encoded.
---
 supermon/supermon.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 43b5be2..aa97327 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -726,9 +726,19 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 	return fi, nil
 }
 
+// snapshot returns a function that puts the disk back as it is now.
+func (o Operator) snapshot() func() {
+	data, sm, st := append([]byte(nil), o.data...), append(SectorMap(nil), o.SM...), append(SymbolTable(nil), o.ST...)
+	return func() {
+		copy(o.data, data)
+		copy(o.SM, sm)
+		copy(o.ST, st)
+	}
+}
+
 // Delete deletes a file by name. It returns true if the file was
 // deleted, false if it didn't exist.
-func (o Operator) Delete(filename string) (bool, error) {
+func (o Operator) Delete(filename string) (existed bool, err error) {
 	file, err := o.ST.FileForName(filename)
 	if errors.IsFileNotFound(err) {
 		return false, nil
@@ -736,7 +746,14 @@ func (o Operator) Delete(filename string) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	existed := len(o.SM.SectorsForFile(file)) > 0
+	// Deleting the file may succeed and writing the symbol table fail: leave everything as it was, then.
+	restore := o.snapshot()
+	defer func() {
+		if err != nil {
+			restore()
+		}
+	}()
+	existed = len(o.SM.SectorsForFile(file)) > 0
 	o.SM.Delete(file)
 	if err := o.SM.Persist(o.data); err != nil {
 		return existed, err
@@ -782,12 +799,10 @@ func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool
 		}
 	}
 	// Writing the file may succeed and adding its symbol fail: leave everything as it was, then.
-	data, sm, st := append([]byte(nil), o.data...), append(SectorMap(nil), o.SM...), append(SymbolTable(nil), o.ST...)
+	restore := o.snapshot()
 	defer func() {
 		if err != nil {
-			copy(o.data, data)
-			copy(o.SM, sm)
-			copy(o.ST, st)
+			restore()
 		}
 	}()
 	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
-- 
2.43.0


From c27f387e90ad2f881383774728f788393e65b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:09 +0000
Subject: [PATCH 20/22] fix: dos3: refuse file sectors beyond the last sector
 of a track

A track/sector list or data sector numbered 16 or more was read from the
next track, so a damaged file came out as if it were whole.
---
 dos3/dos3.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 61d11b0..8df9c9e 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -400,6 +400,9 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 			return nil, fmt.Errorf("file %q tries to read TrackSector track=%d sector=%d twice", fd.FilenameString(), nextTrack, nextSector)
 		}
 		seen[ts] = true
+		if nextSector >= disk.FloppySectors {
+			return nil, fmt.Errorf("file %q has a track/sector list in sector %d: tracks only have %d sectors", fd.FilenameString(), nextSector, disk.FloppySectors)
+		}
 		tsl := TrackSectorList{}
 		if err := disk.UnmarshalLogicalSector(diskbytes, &tsl, nextTrack, nextSector); err != nil {
 			return nil, err
@@ -426,6 +429,9 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 					data = append(data, 0)
 				}
 			} else {
+				if ts.Sector >= disk.FloppySectors {
+					return nil, fmt.Errorf("file %q has data in sector %d of track %d: tracks only have %d sectors", fd.FilenameString(), ts.Sector, ts.Track, disk.FloppySectors)
+				}
 				contents, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 4950587e59d03d8474e90bce41d6357482e1a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 21/22] fix: supermon accepted symbol names with letters that
 upper-case to ASCII ones
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Names such as "ſAB" or "ıAB" were stored as SAB and IAB, so that one name
could end up in the table twice, and two-letter names could be stored.
---
 supermon/supermon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index aa97327..4c6d0bc 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -283,11 +283,15 @@ func encodeSymbol(name string) (six []byte, err error) {
 	if len(name) < 3 {
 		return nil, fmt.Errorf("invalid Super-Mon symbol %q: too short", name)
 	}
-	nm := []byte(strings.ToUpper(name))
+	nm := []byte(name)
 	value := uint64(0)
 	bits := 0
 	for i := len(nm) - 1; i >= 0; i-- {
 		ch := nm[i]
+		// strings.ToUpper turns some other letters, such as ſ, into ASCII ones.
+		if 'a' <= ch && ch <= 'z' {
+			ch -= 'a' - 'A'
+		}
 		switch {
 		case 'A' <= ch && ch <= 'Z':
 			value = value<<5 + uint64(ch-'@')
-- 
2.43.0


From 64894cb9c87afb4b850dd931193d40badd298bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:52 +0000
Subject: [PATCH 22/22] fix: a ProDOS volume with two subdirectories of the
 same name listed either at random

---
 prodos/prodos.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 5ec8031..50c67f4 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -742,7 +742,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		fmt.Fprintf(os.Stderr, "got %d total subdir descriptors\n", len(sdds))
 	}
 
-	for _, sd := range v.subdirsByBlock {
+	// In directory order, so that of two subdirectories with the same name the first is always the one found.
+	for _, sdd := range sdds {
+		sd := v.subdirsByBlock[sdd.KeyPointer]
 		name := sd.keyBlock.Header.Name()
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
@@ -755,7 +757,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 			name = parentName + "/" + name
 		}
 
-		v.subdirsByName[name] = sd
+		if v.subdirsByName[name] == nil {
+			v.subdirsByName[name] = sd
+		}
 	}
 	if debug > 1 {
 		fmt.Fprintf(os.Stderr, "subdirsByName:\n")
-- 
2.43.0

