From f34c5b146a8752ded4104755dedd05c276ee7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 01/43] fix: SeqMap.Pop modifies the map, so it must hold the
 exclusive lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 964e082b25ec6122e200e29ef69611fbcff8cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 02/43] fix: fixed-size reads must be complete, a short read is
 not a success

---
 union.go       |  2 +-
 util/uintio.go | 10 +++++-----
 wpk.go         | 14 +++++++-------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..c5de5ad 100644
--- a/union.go
+++ b/union.go
@@ -144,7 +144,7 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
+			_, err = io.ReadFull(f, buf)
 			return buf, err
 		}
 	}
diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index a5cb640..a866881 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -722,7 +722,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
+		_, err = io.ReadFull(f, buf)
 		return buf, err
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
@@ -770,7 +770,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From a1b6dad53fd1ed40f5f5e56bc508f6b2606677ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 03/43] fix: header with table outside of the stream must not
 crash on open

---
 wpk.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wpk.go b/wpk.go
index a866881..a06850f 100644
--- a/wpk.go
+++ b/wpk.go
@@ -525,6 +525,15 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// check up that tags table is inside of the stream
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if hdr.fttoffset > uint64(end) || hdr.fttsize > uint64(end)-hdr.fttoffset || hdr.fttcount > hdr.fttsize/PTStssize {
+		err = ErrSignFTT
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
 	if hdr.fttcount == 0 || hdr.fttsize == 0 {
-- 
2.43.0


From beb214eda574aa05e48e5e2356dba26d804e8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 04/43] fix: truncated tags table must be reported by Parse
 instead of panic

---
 wpk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wpk.go b/wpk.go
index a06850f..aa8f546 100644
--- a/wpk.go
+++ b/wpk.go
@@ -360,9 +360,17 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	{
+		if int64(len(buf))-n < PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if int64(len(buf))-n < int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +386,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if int64(len(buf))-n < PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +397,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if int64(len(buf))-n < int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
-- 
2.43.0


From 089131e5d8432fc3cbe6d3fbd00409d73f394e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 05/43] fix: parsed tagsets must not have capacity over the
 neighbour entries

---
 wpk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index aa8f546..43fd52b 100644
--- a/wpk.go
+++ b/wpk.go
@@ -371,7 +371,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			err = io.ErrUnexpectedEOF
 			return
 		}
-		var ts = TagsetRaw(buf[n : n+int64(tsl)])
+		var ts = TagsetRaw(buf[n : n+int64(tsl) : n+int64(tsl)])
 		n += int64(tsl)
 
 		var tsi = ts.Iterator()
@@ -401,7 +401,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			err = io.ErrUnexpectedEOF
 			return
 		}
-		var ts = TagsetRaw(buf[n : n+int64(tsl)])
+		var ts = TagsetRaw(buf[n : n+int64(tsl) : n+int64(tsl)])
 		n += int64(tsl)
 
 		var fkey string
-- 
2.43.0


From 0061b88d4dcca4926559ef1a1dc1ec0d043283be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 06/43] fix: validated offset, size and path must be those
 which getters return

---
 tagset.go | 13 ++-----------
 wpk.go    | 18 ++++++------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/tagset.go b/tagset.go
index 115386f..c308c1c 100644
--- a/tagset.go
+++ b/tagset.go
@@ -429,17 +429,8 @@ func (ts TagsetRaw) TagUnixms(tid TID) (int64, bool) {
 // Pos returns file offset and file size in package.
 // Those values required to be present in any tagset.
 func (ts TagsetRaw) Pos() (offset, size uint) {
-	var tsi, n = ts.Iterator(), 2
-	for tsi.Next() && n > 0 {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		case TIDsize:
-			size, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		}
-	}
+	offset, _ = ts.TagUint(TIDoffset)
+	size, _ = ts.TagUint(TIDsize)
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index 43fd52b..d21351b 100644
--- a/wpk.go
+++ b/wpk.go
@@ -305,26 +305,20 @@ func (ftt *FTT) SetInfo(ts TagsetRaw) {
 // CheckTagset tests path & offset & size tags existence
 // and checks that size & offset is are in the bounds.
 func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
-	var offset, size uint
-	var ispath, isoffset, issize bool
-
-	// find expected tags
 	var tsi = ts.Iterator()
 	for tsi.Next() {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDsize:
-			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDpath:
-			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
-		}
 	}
 	if tsi.Failed() {
 		err = io.ErrUnexpectedEOF
 		return
 	}
 
+	// find expected tags, the same which getters will return
+	var offset, isoffset = ts.TagUint(TIDoffset)
+	var size, issize = ts.TagUint(TIDsize)
+	var fpath, ispath = ts.TagStr(TIDpath)
+	fkey = util.ToSlash(fpath) // same key as in the table
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
-- 
2.43.0


From e19eab09fe495fc59a751a8355173df38aa0e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 07/43] fix: sum of file offset and size must not wrap around
 on check

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index d21351b..a350551 100644
--- a/wpk.go
+++ b/wpk.go
@@ -342,7 +342,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datoffset+ftt.datsize-uint64(offset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
-- 
2.43.0


From 6736633f27d42ee41a60b77b7b6aafd2399bd8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 08/43] fix: replacing tag by longer one must not damage the
 following tags

---
 tagset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index c308c1c..f23cb04 100644
--- a/tagset.go
+++ b/tagset.go
@@ -313,12 +313,12 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		return ts.Put(tid, tag), true
 	}
 
-	var tl = uint16(len(tag))
-	if tl == uint16(tsi.pos-tsi.tag) {
+	if len(tag) == tsi.pos-tsi.tag {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
-		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
+		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], uint16(len(tag))) // set tag length
+		// make a copy, original can be overwritten by longer tag
+		var suff = CopyTagset(ts[tsi.pos:])
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From 5c08a0390f094b9f7f429985b8e6986443d0b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 09/43] fix: absent tag with zero identifier must not match to
 the end of tagset

---
 tagset.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/tagset.go b/tagset.go
index f23cb04..4b5f2e3 100644
--- a/tagset.go
+++ b/tagset.go
@@ -243,9 +243,12 @@ func (ts TagsetRaw) Num() (n int) {
 // Has checks existence of tag with given ID.
 func (ts TagsetRaw) Has(tid TID) bool {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
+	for tsi.Next() {
+		if tsi.tid == tid {
+			return true
+		}
 	}
-	return tsi.tid == tid
+	return false
 }
 
 // GetTag returns TagRaw with given identifier.
@@ -253,15 +256,12 @@ func (ts TagsetRaw) Has(tid TID) bool {
 // returns false.
 func (ts TagsetRaw) Get(tid TID) (TagRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.Failed() {
-		return nil, false // io.ErrUnexpectedEOF
-	}
-	if tsi.tid != tid {
-		return nil, false // ErrNoTag
+	for tsi.Next() {
+		if tsi.tid == tid {
+			return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
+		}
 	}
-	return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
+	return nil, false // ErrNoTag or io.ErrUnexpectedEOF
 }
 
 const taghdrsz = PTStidsz + PTStagsz
@@ -287,10 +287,7 @@ func (ts TagsetRaw) Add(tid TID, tag TagRaw) TagsetRaw {
 // AddOk appends tag with given ID only if tagset does not have same yet.
 // Returns true if it added.
 func (ts TagsetRaw) AddOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
-	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid == tid {
+	if ts.Has(tid) {
 		return ts, false
 	}
 	return ts.Put(tid, tag), true
@@ -307,9 +304,11 @@ func (ts TagsetRaw) Set(tid TID, tag TagRaw) TagsetRaw {
 // appends it to tagset. Returns true if new one added.
 func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
+	var found = tsi.Next()
+	for found && tsi.tid != tid {
+		found = tsi.Next()
 	}
-	if tsi.tid != tid {
+	if !found {
 		return ts.Put(tid, tag), true
 	}
 
@@ -334,9 +333,11 @@ func (ts TagsetRaw) Del(tid TID) TagsetRaw {
 // DelOk deletes tag with given ID. Returns true if tagset was modified.
 func (ts TagsetRaw) DelOk(tid TID) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
+	var found = tsi.Next()
+	for found && tsi.tid != tid {
+		found = tsi.Next()
 	}
-	if tsi.tid != tid {
+	if !found {
 		return ts, false // ErrNoTag
 	}
 	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
-- 
2.43.0


From 4c8ead39e36997b93a7efa2d0490e88ea190d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 10/43] fix: access, change and birth times must be read in the
 form they are stored

---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index 4b5f2e3..62dde60 100644
--- a/tagset.go
+++ b/tagset.go
@@ -499,22 +499,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From c9fca54572f255211f91cccdd4354fbc8721dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 11/43] fix: directory listings must be sorted, without
 duplicates, and limited by distinct names

---
 dir.go   | 41 +++++++++++++++++++++--------------------
 union.go | 45 ++++++++++++++++++++++-----------------------
 2 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..8a41076 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -82,10 +83,12 @@ func TempPath(fname string) string {
 }
 
 // ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
+// If n > 0, it returns at most n entries, and io.EOF if there are less than n.
 // It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
 	fulldir = util.ToSlash(fulldir)
-	var found = map[string]fs.DirEntry{}
+	var found = map[string]Void{}
+	list = []fs.DirEntry{}
 	var prefix string
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
@@ -95,33 +98,31 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 		if strings.HasPrefix(fkey, prefix) {
 			var suffix = fkey[len(prefix):]
 			var sp = strings.IndexByte(suffix, '/')
-			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
-			} else { // dir detected
-				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
+			var name = suffix
+			if sp >= 0 {
+				name = suffix[:sp]
+			}
+			if _, ok := found[name]; !ok {
+				found[name] = Void{}
+				if sp < 0 { // file detected
+					list = append(list, ts)
+				} else { // dir detected
 					var dts = TagsetRaw{}.
-						Put(TIDpath, StrTag(subdir))
-					var f = &PackDirFile{
+						Put(TIDpath, StrTag(util.JoinPath(prefix, name)))
+					list = append(list, &PackDirFile{
 						TagsetRaw: dts,
 						ftt:       ftt,
-					}
-					found[subdir] = f
-					n--
+					})
 				}
 			}
 		}
-		return n != 0
+		return n <= 0 || len(list) < n
 	})
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if n > 0 {
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
+	if len(list) < n {
 		err = io.EOF
 	}
 	return
diff --git a/union.go b/union.go
index c5de5ad..f609e4d 100644
--- a/union.go
+++ b/union.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"io/fs"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -155,12 +156,12 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 // and returns a list of directory entries sorted by filename.
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
-	var found = map[string]fs.DirEntry{}
-	var ni = n
+	var found = map[string]Void{}
+	list = []fs.DirEntry{}
 	for _, pkg := range u.List {
 		var fulldir = pkg.FullPath(dir)
 		var prefix string
-		if fulldir != "." {
+		if fulldir != "." && fulldir != "" {
 			prefix = fulldir + "/" // set terminated slash
 		}
 
@@ -168,38 +169,36 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 			if strings.HasPrefix(fkey, prefix) {
 				var suffix = fkey[len(prefix):]
 				var sp = strings.IndexByte(suffix, '/')
-				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
-				} else { // dir detected
-					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
+				var name = suffix
+				if sp >= 0 {
+					name = suffix[:sp]
+				}
+				if _, ok := found[name]; !ok {
+					found[name] = Void{}
+					if sp < 0 { // file detected
+						list = append(list, ts)
+					} else { // dir detected
 						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(subdir))
-						var f = &PackDirFile{
+							Put(TIDpath, StrTag(util.JoinPath(prefix, name)))
+						list = append(list, &PackDirFile{
 							TagsetRaw: dts,
 							ftt:       pkg.FTT,
-						}
-						found[subdir] = f
-						ni--
+						})
 					}
 				}
 			}
-			return ni != 0
+			return n <= 0 || len(list) < n
 		})
 
-		if ni == 0 {
+		if n > 0 && len(list) >= n {
 			break
 		}
 	}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if ni > 0 {
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
+	if len(list) < n {
 		err = io.EOF
 	}
 	return
-- 
2.43.0


From 25079eaa00c7402df98f4bb6eb44b0d3ec5128b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 12/43] fix: reading of absent directory must be reported as
 not existing path

---
 union.go | 6 +++++-
 wpk.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/union.go b/union.go
index f609e4d..86d2a58 100644
--- a/union.go
+++ b/union.go
@@ -208,7 +208,11 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 // and returns a list of directory entries sorted by filename.
 // fs.ReadDirFS interface implementation.
 func (u *Union) ReadDir(dir string) ([]fs.DirEntry, error) {
-	return u.ReadDirN(dir, -1)
+	var list, err = u.ReadDirN(dir, -1)
+	if err == nil && len(list) == 0 && dir != "." && dir != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
+	}
+	return list, err
 }
 
 // Open implements access to nested into union of packages file or directory by keyname.
diff --git a/wpk.go b/wpk.go
index a350551..9689bf7 100644
--- a/wpk.go
+++ b/wpk.go
@@ -725,7 +725,11 @@ func (pkg *Package) Glob(pattern string) (res []string, err error) {
 // fs.ReadDirFS interface implementation.
 func (pkg *Package) ReadDir(dir string) ([]fs.DirEntry, error) {
 	var fulldir = pkg.FullPath(dir)
-	return pkg.FTT.ReadDirN(fulldir, -1)
+	var list, err = pkg.FTT.ReadDirN(fulldir, -1)
+	if err == nil && len(list) == 0 && fulldir != "." && fulldir != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
+	}
+	return list, err
 }
 
 // ReadFile returns slice with nested into package file content.
-- 
2.43.0


From eebf4c9e0125707a40bcb921d70d4a3c11be860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 13/43] fix: header must be written at once, signature should
 not get ahead of other fields

---
 wpk.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/wpk.go b/wpk.go
index 9689bf7..93a3b6f 100644
--- a/wpk.go
+++ b/wpk.go
@@ -225,28 +225,21 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 
 // WriteTo writes header to stream as binary data of constant length.
 func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
+	// header should be placed by single write to prevent
+	// signature with content of previous header
+	var buf [HeaderSize]byte
+	n += int64(copy(buf[:], hdr.signature[:]))
+	util.SetU64(buf[n:], hdr.fttcount)
 	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
+	util.SetU64(buf[n:], hdr.fttoffset)
 	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
-	}
+	util.SetU64(buf[n:], hdr.fttsize)
 	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
+	util.SetU64(buf[n:], hdr.datoffset)
 	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
+	util.SetU64(buf[n:], hdr.datsize)
+	if _, err = w.Write(buf[:]); err != nil {
+		return 0, err
 	}
 	n += 8
 	return
-- 
2.43.0


From 9239bab8e95515bba9a4a5d6873d9295a6f5ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 14/43] fix: package info must be available for packages
 without files

---
 wpk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 93a3b6f..afd0965 100644
--- a/wpk.go
+++ b/wpk.go
@@ -539,7 +539,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
+	if hdr.fttsize == 0 { // package was not synchronized yet
 		return
 	}
 	// go to file tags table start
@@ -773,6 +773,9 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	if hdr.fttsize == 0 { // package was not synchronized yet
+		return
+	}
 
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
-- 
2.43.0


From 41891d5ddbfb38ae656bf56b5b98fb4ea8e7c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 15/43] fix: key of tagset put by its own path must be
 normalised

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index afd0965..b860b6b 100644
--- a/wpk.go
+++ b/wpk.go
@@ -644,7 +644,7 @@ func (pkg *Package) SetTagset(fkey string, ts TagsetRaw) {
 
 // SetupTagset puts tagset with filename key stored at tagset.
 func (pkg *Package) SetupTagset(ts TagsetRaw) {
-	pkg.tsm.Poke(ts.Path(), ts)
+	pkg.tsm.Poke(util.ToSlash(ts.Path()), ts)
 }
 
 // GetDelTagset deletes the tagset for a key, returning the previous tagset if any.
-- 
2.43.0


From b295009283f1594475576bf35b06295c4c474d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 16/43] fix: directory names to rename must be normalised

---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index 25a043f..eb62476 100644
--- a/writer.go
+++ b/writer.go
@@ -212,6 +212,7 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
 	}
-- 
2.43.0


From 4112049f255512cf621f442fbfc2be62d3954f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 17/43] fix: concurrent packing of the same file name must not
 replace one by another

---
 writer.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/writer.go b/writer.go
index eb62476..49e03b2 100644
--- a/writer.go
+++ b/writer.go
@@ -140,28 +140,24 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
+	// get offset and put provided data
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From fc03be090829f034405f6a93b0e18375126f177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 18/43] fix: pack utility must not publish the package if some
 file is not packed

---
 cmd/pack/pack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..c3e8238 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -111,7 +111,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -165,6 +165,9 @@ func writepackage() (err error) {
 			pkg.SetTagset(fkey, ts)
 			return nil
 		})
+		if err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From fac016c85e588dc8a2fdee606716dc358075b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 19/43] fix: pack utility must detect MIME type by file content
 instead of empty buffer

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index c3e8238..5bcceee 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -149,8 +148,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From decb6791ab2f758ac77dc8a5db4d6249ba3a74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 20/43] fix: extract utility must not write outside of
 destination path

---
 cmd/extract/extract.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..899c3c1 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -134,6 +136,10 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
+				if !filepath.IsLocal(fkey) {
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: fs.ErrInvalid}
+					return
+				}
 				var fullpath = util.JoinPath(DstPath, fkey)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
-- 
2.43.0


From 1305697fcb020a87b584f1942380fcc8d91d5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 21/43] fix: package object must stay closed if its files could
 not be opened

---
 luawpk/luawpk.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..cbbf2b7 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -500,16 +500,17 @@ func wpkbegin(ls *lua.LState) int {
 	}
 
 	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	var wpt, wpf wpk.WriteSeekCloser
+	if wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
 		return 0
 	}
 	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
+		if wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+			wpt.Close()
 			return 0
 		}
 	}
+	pkg.wpt, pkg.wpf = wpt, wpf
 	// setup file representation
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// starts new package
@@ -535,16 +536,17 @@ func wpkappend(ls *lua.LState) int {
 	}
 
 	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	var wpt, wpf wpk.WriteSeekCloser
+	if wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
 		return 0
 	}
 	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
+		if wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
+			wpt.Close()
 			return 0
 		}
 	}
+	pkg.wpt, pkg.wpf = wpt, wpf
 	// starts to append files
 	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
 		return 0
-- 
2.43.0


From 8ab447ca9994c3d1b5bbc3544ad0683040a491e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 22/43] fix: tags with inconvertible values must be reported
 instead of being skipped

---
 luawpk/luawpk.go  | 17 ++++++++++++-----
 luawpk/nametid.go |  3 +--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index cbbf2b7..233b112 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1154,8 +1154,16 @@ func wpkdeltags(ls *lua.LState) int {
 	var fkey = ls.CheckString(2)
 	var lt = ls.CheckTable(3)
 
-	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var tids []wpk.TID
+	var errs []error
+	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+		var tid, errk = ValueToTID(k)
+		if errk == nil && (tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath) {
+			errk = &ErrProtected{tid}
+		}
+		tids, errs = append(tids, tid), append(errs, errk)
+	})
+	if err = errors.Join(errs...); err != nil {
 		return 0
 	}
 
@@ -1166,10 +1174,9 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 
 	ts = wpk.CopyTagset(ts)
-	var optsi = opts.Iterator()
 	var n = 0
-	for optsi.Next() {
-		if ts, ok = ts.DelOk(optsi.TID()); ok {
+	for _, tid := range tids {
+		if ts, ok = ts.DelOk(tid); ok {
 			n++
 		}
 	}
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..0d485c0 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
-- 
2.43.0


From 1b4b9b40d5defcad82208daa1a4197306dde8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 23/43] fix: stored tagset must not be modified in place by
 tags of the table

---
 luawpk/nametid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 0d485c0..9bce691 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -302,6 +302,7 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	var errs []error
+	ts = wpk.CopyTagset(ts) // source can be placed at tags table
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
 			errk error
-- 
2.43.0


From cc37f015461642956335fee1d4094128de176138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 24/43] fix: automatic file identifiers must not repeat those
 from loaded package

---
 luawpk/luawpk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 233b112..e219abe 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -479,6 +479,13 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	// continue identifiers of loaded files
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+			pkg.fidcount = fid
+		}
+		return true
+	})
 
 	return 0
 }
-- 
2.43.0


From 2003f4ddb4123e0d30cce61830a8ad94a8c7d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 25/43] fix: name of the tag with synonyms must not depend on
 map order

---
 luawpk/nametid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 9bce691..78c067e 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"sort"
 	"strconv"
 	"time"
 
@@ -100,9 +101,14 @@ var NameTid = map[string]wpk.TID{
 
 // TidName helps format Lua-tables with string keys associated to TID values.
 var TidName = func() map[wpk.TID]string {
+	var names = make([]string, 0, len(NameTid))
+	for name := range NameTid {
+		names = append(names, name)
+	}
+	sort.Strings(names) // full name of the tag follows by its short synonym
 	var tn = map[wpk.TID]string{}
-	for name, tid := range NameTid {
-		tn[tid] = name
+	for _, name := range names {
+		tn[NameTid[name]] = name
 	}
 	return tn
 }()
-- 
2.43.0


From 150b00e1a2ffc2fb25b023321ec91884a91d452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 26/43] fix: variable at the end of path must be expanded as at
 any other place

---
 util/strutil.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..e2101d9 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -206,7 +206,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -276,7 +276,11 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
 		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var env, ok = envmap[B2S(v)]
+		if !ok {
+			env, ok = os.LookupEnv(B2S(v))
+		}
+		if ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
@@ -293,7 +297,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -362,8 +366,14 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
 		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var env, ok = envmap[B2S(v)]
+		if !ok {
+			env, ok = os.LookupEnv(B2S(v))
+		}
+		if ok {
 			copy(e[j:], env)
+		} else {
+			copy(e[j:], b[pc:])
 		}
 		mode = 0
 	} else { // copy remainder
-- 
2.43.0


From f49442372e5a93ab6ab2ca770b59e5881acbb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 27/43] fix: index of package in union must be taken from the
 checked name

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index 86d2a58..fd46db7 100644
--- a/union.go
+++ b/union.go
@@ -226,7 +226,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 
 	if len(u.List) > 0 {
 		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
-			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
+			var idx, err = strconv.ParseUint(fulldir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
 			}
-- 
2.43.0


From f873a6b21c4a956b7de5190be818eeadac09752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 28/43] fix: bulk access to file out of the package data must
 be reported instead of panic

---
 bulk/bulk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..3d35fc8 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,12 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	if offset > uint(len(bulk)) {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > uint(len(bulk))-offset {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
-- 
2.43.0


From 95abc7a358746e03dac23a808684138e2ad6092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 29/43] fix: mapping of empty file or file out of the package
 data must not fail or crash

---
 mmap/mmap.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..b69d4c8 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -27,6 +27,23 @@ type MappedFile struct {
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	var fi fs.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	if offset > uint(fi.Size()) {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > uint(fi.Size())-offset {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
+	if size == 0 { // there is nothing to map
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
@@ -51,6 +68,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil {
+		return nil
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From c90832830c15cebe5064639c5963bb750528f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 30/43] fix: reading error on MIME type detection must be
 reported

---
 luawpk/adjusttags.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/luawpk/adjusttags.go b/luawpk/adjusttags.go
index e716808..99f7dfa 100644
--- a/luawpk/adjusttags.go
+++ b/luawpk/adjusttags.go
@@ -13,6 +13,7 @@ import (
 	"path"
 
 	"github.com/h2non/filetype"
+	"github.com/h2non/filetype/types"
 
 	"github.com/schwarzlichtbezirk/wpk"
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -31,7 +32,11 @@ func adjustmime(ts wpk.TagsetRaw, r io.ReadSeeker, skip bool) (wpk.TagsetRaw, er
 			if _, err = r.Seek(0, io.SeekStart); err != nil {
 				return ts, err
 			}
-			if kind, err := filetype.MatchReader(r); err == nil && kind != filetype.Unknown {
+			var kind types.Type
+			if kind, err = filetype.MatchReader(r); err != nil {
+				return ts, err
+			}
+			if kind != filetype.Unknown {
 				ctype = kind.MIME.Value
 			} else {
 				ctype = "application/octet-stream"
-- 
2.43.0


From ef819ae93ab41503db05c45b1efa190486b6fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 31/43] fix: percent signs in messages of raised errors must be
 kept

---
 luawpk/luapath.go |  8 ++++----
 luawpk/luawpk.go  | 46 +++++++++++++++++++++++-----------------------
 luawpk/runlvm.go  |  4 ++--
 3 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..9524d64 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -102,7 +102,7 @@ func pathmatch(ls *lua.LState) int {
 
 	var matched, err = path.Match(name, pattern)
 	if err != nil {
-		ls.RaiseError(err.Error())
+		ls.RaiseError("%s", err.Error())
 		return 0
 	}
 	ls.Push(lua.LBool(matched))
@@ -125,7 +125,7 @@ func pathglob(ls *lua.LState) int {
 
 	var matches, err = filepath.Glob(pattern)
 	if err != nil {
-		ls.RaiseError(err.Error())
+		ls.RaiseError("%s", err.Error())
 		return 0
 	}
 	for _, dir := range matches {
@@ -140,14 +140,14 @@ func pathenum(ls *lua.LState) int {
 
 	var dir, err = os.Open(dirname)
 	if err != nil {
-		ls.RaiseError(err.Error())
+		ls.RaiseError("%s", err.Error())
 		return 0
 	}
 	defer dir.Close()
 
 	var names []string
 	if names, err = dir.Readdirnames(n); err != nil {
-		ls.RaiseError(err.Error())
+		ls.RaiseError("%s", err.Error())
 		return 0
 	}
 
diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index e219abe..edc0566 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -462,7 +462,7 @@ func wpkload(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -494,7 +494,7 @@ func wpkbegin(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -532,7 +532,7 @@ func wpkappend(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -566,7 +566,7 @@ func wpkfinalize(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -599,7 +599,7 @@ func wpkflush(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -639,7 +639,7 @@ func wpkglob(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -674,7 +674,7 @@ func wpkfilesize(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -696,7 +696,7 @@ func wpkputdata(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -737,7 +737,7 @@ func wpkputfile(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -787,7 +787,7 @@ func wpkrename(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -810,7 +810,7 @@ func wpkrenamedir(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -835,7 +835,7 @@ func wpkputalias(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -864,7 +864,7 @@ func wpkhastag(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -893,7 +893,7 @@ func wpkgettag(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -930,7 +930,7 @@ func wpksettag(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -970,7 +970,7 @@ func wpkaddtag(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1011,7 +1011,7 @@ func wpkdeltag(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1045,7 +1045,7 @@ func wpkgettags(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1080,7 +1080,7 @@ func wpksettags(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1114,7 +1114,7 @@ func wpkaddtags(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1154,7 +1154,7 @@ func wpkdeltags(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1199,7 +1199,7 @@ func wpkgetinfo(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
@@ -1229,7 +1229,7 @@ func wpksetupinfo(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var pkg = CheckPack(ls, 1)
diff --git a/luawpk/runlvm.go b/luawpk/runlvm.go
index 12ab265..f90a873 100644
--- a/luawpk/runlvm.go
+++ b/luawpk/runlvm.go
@@ -60,7 +60,7 @@ func luahex2bin(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var arg = ls.CheckString(1)
@@ -85,7 +85,7 @@ func luatime2milli(ls *lua.LState) int {
 	var err error
 	defer func() {
 		if err != nil {
-			ls.RaiseError(err.Error())
+			ls.RaiseError("%s", err.Error())
 		}
 	}()
 	var arg = ls.CheckString(1)
-- 
2.43.0


From 385a2ca0118d4c566001ff02dd2687f61ca37482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 32/43] fix: extracted file cut short by truncated package must
 be reported

---
 cmd/extract/extract.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 899c3c1..9393522 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -168,6 +168,10 @@ func readpackage() (err error) {
 				if n, err = io.Copy(dst, src); err != nil {
 					return
 				}
+				if n != ts.Size() { // package data is truncated
+					err = io.ErrUnexpectedEOF
+					return
+				}
 				num++
 				sum += n
 
-- 
2.43.0


From 3aebed223dc61a687853f7d6720edd7395306b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 33/43] fix: directory of a union found in other workspace than
 of the first package can be read

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index fd46db7..dd420c4 100644
--- a/union.go
+++ b/union.go
@@ -254,7 +254,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 			if strings.HasPrefix(fkey, prefix) {
 				var dts = TagsetRaw{}.
-					Put(TIDpath, StrTag(pkg.FullPath(dir)))
+					Put(TIDpath, StrTag(u.List[0].FullPath(dir))) // UnionDir trims by first package
 				f = &UnionDir{
 					TagsetRaw: dts,
 					Union:     u,
-- 
2.43.0


From 06374af916b63a2462675b0dac7874ed7484b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 34/43] fix: root directory of a union opened by empty name can
 be read

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index dd420c4..2151af8 100644
--- a/union.go
+++ b/union.go
@@ -40,7 +40,7 @@ func (f *UnionDir) Close() error {
 func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
 	var dir = f.Path()
 	if len(f.List) > 0 {
-		if dir = f.List[0].TrimPath(dir); dir == "" {
+		if dir = f.List[0].TrimPath(dir); dir == "" && f.Path() != "" {
 			return nil, ErrOtherSubdir
 		}
 	}
-- 
2.43.0


From 056d4c85a124f1c75ab79e6191d85fd51455518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 35/43] fix: normalise directory name before joining it with
 the workspace

---
 wpk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index b860b6b..026d1f6 100644
--- a/wpk.go
+++ b/wpk.go
@@ -717,7 +717,7 @@ func (pkg *Package) Glob(pattern string) (res []string, err error) {
 // and returns a list of directory entries sorted by filename.
 // fs.ReadDirFS interface implementation.
 func (pkg *Package) ReadDir(dir string) ([]fs.DirEntry, error) {
-	var fulldir = pkg.FullPath(dir)
+	var fulldir = pkg.FullPath(util.ToSlash(dir))
 	var list, err = pkg.FTT.ReadDirN(fulldir, -1)
 	if err == nil && len(list) == 0 && fulldir != "." && fulldir != "" {
 		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
@@ -747,7 +747,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 // Open implements access to nested into package file or directory by filename.
 // fs.FS implementation.
 func (pkg *Package) Open(dir string) (fs.File, error) {
-	var fullname = pkg.FullPath(dir)
+	var fullname = pkg.FullPath(util.ToSlash(dir))
 	if fullname == PackName {
 		var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
 		return pkg.Tagger.OpenTagset(ts)
-- 
2.43.0


From 7f4468a7f597e17009a9cae0d6d87e35c8887b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 36/43] fix: second passage of environment expansion does not
 start inside of unclosed reference

---
 util/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/strutil.go b/util/strutil.go
index e2101d9..1a17d64 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -284,8 +284,8 @@ func Envfmt(fpath string, envmap map[string]string) string {
 			el += len(env) - len(v) - 1
 			n++
 		}
-		mode = 0
 	}
+	mode = 0 // reference can be unclosed at the end of fpath
 
 	if n == 0 { // there is no changes
 		return fpath
-- 
2.43.0


From 03315df80188df99759b30cceec3c1b69ed37779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 37/43] fix: tags of a script table are stored in the same
 order on every run

---
 luawpk/luawpk.go  | 5 +++--
 luawpk/nametid.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index edc0566..87abd7d 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1163,13 +1163,14 @@ func wpkdeltags(ls *lua.LState) int {
 
 	var tids []wpk.TID
 	var errs []error
-	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+	// ForEach has no stable order
+	for k, _ := lt.Next(lua.LNil); k != lua.LNil; k, _ = lt.Next(k) {
 		var tid, errk = ValueToTID(k)
 		if errk == nil && (tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath) {
 			errk = &ErrProtected{tid}
 		}
 		tids, errs = append(tids, tid), append(errs, errk)
-	})
+	}
 	if err = errors.Join(errs...); err != nil {
 		return 0
 	}
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 78c067e..c93a66a 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -309,7 +309,8 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	var errs []error
 	ts = wpk.CopyTagset(ts) // source can be placed at tags table
-	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+	// ForEach has no stable order
+	for k, v := lt.Next(lua.LNil); k != lua.LNil; k, v = lt.Next(k) {
 		var (
 			errk error
 			errv error
@@ -330,7 +331,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 		if errk == nil && errv == nil {
 			ts = ts.Set(tid, tag)
 		}
-	})
+	}
 	return ts, errors.Join(errs...)
 }
 
-- 
2.43.0


From 0d2fcad568a9a780cc3f095358d4d91fff135bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 38/43] fix: type of a file as directory entry has no
 permission bits

---
 tagset.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tagset.go b/tagset.go
index 62dde60..6800359 100644
--- a/tagset.go
+++ b/tagset.go
@@ -482,12 +482,10 @@ func (ts TagsetRaw) Sys() interface{} {
 	return ts
 }
 
-// Type is for fs.DirEntry interface compatibility.
+// Type returns the type bits of the file mode, there are none for files.
+// fs.DirEntry interface implementation.
 func (ts TagsetRaw) Type() fs.FileMode {
-	if ts.Has(TIDsize) { // file size is absent for dir
-		return 0444
-	}
-	return fs.ModeDir
+	return ts.Mode().Type()
 }
 
 // Info returns the FileInfo for the file or subdirectory described by the entry.
-- 
2.43.0


From f92d40c065dd9870dbec3d5a93c4a2e9e5e56946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 39/43] fix: directory files read by portions continue after
 the last entry

---
 dir.go   | 25 ++++++++++++++++++++++++-
 union.go | 10 +++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/dir.go b/dir.go
index 8a41076..1f6b0e4 100644
--- a/dir.go
+++ b/dir.go
@@ -31,6 +31,7 @@ func MakeDataPath(fpath string) string {
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	read      int // number of entries that were read
 }
 
 // fs.ReadDirFile interface implementation.
@@ -48,9 +49,31 @@ func (f *PackDirFile) Close() error {
 	return nil
 }
 
+// ReadDir returns entries of the directory following after the last one that was read.
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	if matches, err = f.ftt.ReadDirN(f.Path(), -1); err != nil {
+		return
+	}
+	matches, err = nextEntries(matches, f.read, n)
+	f.read += len(matches)
+	return
+}
+
+// nextEntries returns at most n entries of the list from the given position,
+// or all of them if n is not positive. Returns io.EOF if there are less than n.
+func nextEntries(list []fs.DirEntry, pos, n int) ([]fs.DirEntry, error) {
+	if pos > len(list) {
+		pos = len(list)
+	}
+	list = list[pos:]
+	if n > len(list) {
+		return list, io.EOF
+	}
+	if n > 0 {
+		list = list[:n]
+	}
+	return list, nil
 }
 
 // DirExists check up directory existence.
diff --git a/union.go b/union.go
index 2151af8..0f2fc01 100644
--- a/union.go
+++ b/union.go
@@ -19,6 +19,7 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	read int // number of entries that were read
 }
 
 // fs.ReadDirFile interface implementation.
@@ -36,6 +37,7 @@ func (f *UnionDir) Close() error {
 	return nil
 }
 
+// ReadDir returns entries of the directory following after the last one that was read.
 // fs.ReadDirFile interface implementation.
 func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
 	var dir = f.Path()
@@ -44,7 +46,13 @@ func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			return nil, ErrOtherSubdir
 		}
 	}
-	return f.ReadDirN(dir, n)
+	var list, err = f.ReadDirN(dir, -1)
+	if err != nil {
+		return nil, err
+	}
+	list, err = nextEntries(list, f.read, n)
+	f.read += len(list)
+	return list, err
 }
 
 // Union glues list of packages into single filesystem.
-- 
2.43.0


From 41dd6e0adc089c9a561cacdb8be757de50b7ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 40/43] fix: directories of packages and unions can be stat'd

---
 union.go | 5 +++++
 wpk.go   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/union.go b/union.go
index 0f2fc01..5689401 100644
--- a/union.go
+++ b/union.go
@@ -114,6 +114,11 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	for _, pkg := range u.List {
+		if fi, err := pkg.Stat(fpath); err == nil { // it can be the folder only
+			return fi, nil
+		}
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
diff --git a/wpk.go b/wpk.go
index 026d1f6..8379c8a 100644
--- a/wpk.go
+++ b/wpk.go
@@ -693,6 +693,9 @@ func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if f, err := pkg.OpenDir(pkg.FullPath(util.ToSlash(fkey))); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From 31015449ac897df5078ffb5c78d8dbdb872d6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 41/43] fix: script function path.match takes the name first
 and the pattern second, as documented

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index 9524d64..367252d 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError("%s", err.Error())
 		return 0
-- 
2.43.0


From cc8194f1c2bb57cbf54733df0af40bd05d125fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 42/43] fix: script function path.enum gives no names for empty
 directory instead of failing

---
 luawpk/luapath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index 367252d..367b3cf 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -1,6 +1,7 @@
 package luawpk
 
 import (
+	"io"
 	"os"
 	"path"
 	"path/filepath"
@@ -146,7 +147,7 @@ func pathenum(ls *lua.LState) int {
 	defer dir.Close()
 
 	var names []string
-	if names, err = dir.Readdirnames(n); err != nil {
+	if names, err = dir.Readdirnames(n); err != nil && err != io.EOF {
 		ls.RaiseError("%s", err.Error())
 		return 0
 	}
-- 
2.43.0


From 40ea71dfe370d01b61c96e1d9c8823b664855ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 43/43] fix: extract utility reports an empty list of packages

A list of separators only passed the check of the arguments, and the
utility finished as done having extracted nothing.
---
 cmd/extract/extract.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 9393522..6a2d752 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -60,7 +60,7 @@ func checkargs() int {
 		}
 		SrcList = append(SrcList, fpath)
 	}
-	if len(srcfile) == 0 {
+	if len(SrcList) == 0 {
 		log.Println("package file does not specified")
 		ec++
 	}
-- 
2.43.0

