From 31ff86907a44590e8094629c5024d3e9286851ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 01/30] fix: reject header index entries that point outside the
 data area

A negative or too large offset, or a negative or too large count, made
readHeader (or a later GetStrings) panic with a slice bounds error.
---
 header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/header.go b/header.go
index 5894a58..9f2572e 100644
--- a/header.go
+++ b/header.go
@@ -116,6 +116,9 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || int(tag.Offset) > len(data) || tag.Count < 0 {
+			return nil, fmt.Errorf("tag %d is out of range", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
@@ -131,6 +134,9 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 				end += next + 1
 			}
 		}
+		if end < int(tag.Offset) || end > len(data) {
+			return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+		}
 		ents[int(tag.Tag)] = entry{
 			dataType: tag.DataType,
 			count:    tag.Count,
-- 
2.43.0


From ae70920a6565e77b28bec628a73e465914be5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 02/30] fix: do not panic on header arrays that are empty or of
 unequal length

GetFiles and the OLDFILENAMES splice indexed all file arrays by the number
of names, and GetNEVRA and the digest lookup took the first element of
arrays that may be empty.
---
 header.go     | 15 +++++++++++++++
 signatures.go |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 9f2572e..506dcdd 100644
--- a/header.go
+++ b/header.go
@@ -202,6 +202,9 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		}
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
+			if i >= len(dirIdxs) || uint64(dirIdxs[i]) >= uint64(len(dirs)) {
+				return nil, fmt.Errorf("no valid directory index for file %d", i)
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -377,6 +380,9 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
+		return nil, errors.New("incorrect number of values")
+	}
 	return &NEVRA{
 		Name:    name[0],
 		Epoch:   strconv.FormatUint(epoch[0], 10),
@@ -440,6 +446,15 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	for _, n := range []int{
+		len(fileSizes), len(fileUserName), len(fileGroupName), len(fileFlags), len(fileMtimes),
+		len(fileDigests), len(fileModes), len(linkTos), len(devices), len(inodes),
+	} {
+		if n < len(paths) {
+			return nil, errors.New("file attributes are missing for some files")
+		}
+	}
+
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
diff --git a/signatures.go b/signatures.go
index 4678155..58858cc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -90,7 +90,7 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 
 func getSha1(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA1)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
@@ -98,7 +98,7 @@ func getSha1(sigHeader *rpmHeader) string {
 
 func getSha256(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA256)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
-- 
2.43.0


From 895d44a2372d95d19224c4caca9ebfc5c525c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 03/30] fix: do not allocate header buffers of unverified size
 up front

A 112 byte file could make ReadHeader allocate 4 GiB.
---
 header.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/header.go b/header.go
index 506dcdd..1ba2a47 100644
--- a/header.go
+++ b/header.go
@@ -31,6 +31,9 @@ import (
 
 const introMagic = 0x8eade801
 
+// largest buffer to allocate before knowing whether there is data to fill it
+const maxPrealloc = 1 << 20
+
 type entry struct {
 	dataType, count int32
 	contents        []byte
@@ -67,6 +70,15 @@ var typeSizes = map[int32]int{
 }
 
 func readExact(f io.Reader, n int) ([]byte, error) {
+	if n > maxPrealloc {
+		// n comes from the file and might be bogus, so only grow as data arrives
+		var buf bytes.Buffer
+		copied, err := io.CopyN(&buf, f, int64(n))
+		if err == io.EOF && copied > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return buf.Bytes(), err
+	}
 	buf := make([]byte, n)
 	_, err := io.ReadFull(f, buf)
 	return buf, err
-- 
2.43.0


From 3669fcd8de0a29bafe64188c6f5c997ad9478e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 04/30] fix: reject cpio headers with impossible lengths and
 skip without buffering

Negative numbers, a zero filename length and huge or negative supplied file
sizes made the reader panic, and skipping a file allocated its whole size.
---
 cpio/cpio.go   | 17 +++++++++++++++--
 cpio/header.go |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..f549589 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -20,11 +20,15 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 // TRAILER is the filename found on the last entry of a cpio archive
 const TRAILER = "TRAILER!!!"
 
+// longest filename (with its terminator) that is plausible and worth allocating memory for
+const maxNameSize = 1 << 20
+
 // ErrStrippedHeader indicates that a RPM-style archive was read without calling SetFileSizes()
 var ErrStrippedHeader = errors.New("invalid cpio header: rpm-style stripped cpio requires supplemental size info")
 
@@ -81,6 +85,10 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 		return cs.readStrippedEntry(hdr)
 	}
 
+	if hdr.namesize < 1 || hdr.namesize > maxNameSize {
+		return nil, fmt.Errorf("invalid cpio filename length %d", hdr.namesize)
+	}
+
 	// Read filename
 	buf := make([]byte, hdr.namesize)
 	if _, err = io.ReadFull(cs.stream, buf); err != nil {
@@ -125,6 +133,9 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	if size < 0 || size > math.MaxInt64-3-cs.stream.curPos {
+		return nil, fmt.Errorf("invalid size %d for file index %d", size, hdr.index)
+	}
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
@@ -146,8 +157,10 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	if offset == 0 {
 		return cr.curPos, nil
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
+	n, err := io.CopyN(io.Discard, cr, offset)
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
diff --git a/cpio/header.go b/cpio/header.go
index 89af114..51cb956 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -67,6 +67,9 @@ func (br *binaryReader) Read16(buf *int) error {
 	if err != nil {
 		return err
 	}
+	if i < 0 {
+		return fmt.Errorf("invalid negative number in cpio header")
+	}
 	*buf = int(i)
 	return nil
 }
-- 
2.43.0


From 4608bc2bfc6575c368682cddbe9f600a804f5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 05/30] fix: report a truncated cpio archive instead of ending
 silently

If the stream ended at an entry boundary or inside a file, Next and Read
returned io.EOF as if the archive or file was complete. Decompressors that
do not detect truncation themselves (zstd, none) thus yielded short files
without any error.
---
 cpio/reader.go | 7 +++++++
 cpio/stream.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..8f865e1 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -22,6 +22,8 @@ import "io"
 type Reader struct {
 	stream *CpioStream
 	cur    *CpioEntry
+	// set once the end of the archive was found
+	trailer bool
 }
 
 // NewReader starts reading a cpio archive stream
@@ -45,9 +47,14 @@ func NewReaderWithSizes(stream io.Reader, sizes []int64) *Reader {
 // Returns io.EOF upon encountering the archive trailer.
 func (r *Reader) Next() (*Cpio_newc_header, error) {
 	ent, err := r.stream.ReadNextEntry()
+	if err == io.EOF && !r.trailer {
+		// the archive ended without a trailer
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return nil, err
 	} else if ent.Header.filename == TRAILER {
+		r.trailer = true
 		return nil, io.EOF
 	}
 	r.cur = ent
diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..b18df21 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,9 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if err == io.EOF && fs.curr_pos < fs.size {
+		// the archive ended in the middle of the file
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
-- 
2.43.0


From db3ead4cf3bd0e74d335bc4da220293a4ba750e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 06/30] fix: set Filesize64 of stripped cpio entries

It is documented to come from SetFileSizes but was always 0.
---
 cpio/cpio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index f549589..57637ea 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -136,6 +136,7 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 	if size < 0 || size > math.MaxInt64-3-cs.stream.curPos {
 		return nil, fmt.Errorf("invalid size %d for file index %d", size, hdr.index)
 	}
+	hdr.size64 = size
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
-- 
2.43.0


From cde86a2a5e86a5968a95414c4a7081ca6850700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 07/30] fix: do not panic when reading a payload before the
 first entry

Read before Next dereferenced a nil entry, and IsLink of a package without
files indexed an empty array.
---
 cpio/reader.go | 4 ++++
 payload.go     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cpio/reader.go b/cpio/reader.go
index 8f865e1..7eb2ce4 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -65,5 +65,9 @@ func (r *Reader) Next() (*Cpio_newc_header, error) {
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.cur == nil {
+		// Next() has not found a file yet
+		return 0, io.EOF
+	}
 	return r.cur.payload.Read(p)
 }
diff --git a/payload.go b/payload.go
index ca489b2..5165423 100644
--- a/payload.go
+++ b/payload.go
@@ -120,5 +120,9 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
+	if pr.index >= len(pr.isLink) {
+		// package without files
+		return false
+	}
 	return pr.isLink[pr.index]
 }
-- 
2.43.0


From f36241e4e993af8f99d1a46af783cb113c4b68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 08/30] fix: read the whole symlink target when extracting

A single Read may return less than the whole target, e.g. at a block
boundary of the decompressor, and the rest was filled with NUL bytes.
---
 cpio/extract.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..e5c6fd9 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -92,8 +92,11 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISLNK:
+			if entry.Header.filesize > maxNameSize {
+				return fmt.Errorf("symlink target of %q is too long", entry.Header.filename)
+			}
 			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			if _, err := io.ReadFull(entry.payload, buf); err != nil {
 				return err
 			}
 			if err := os.Symlink(string(buf), target); err != nil {
-- 
2.43.0


From 06b56376cc78ee268d7faef653389c17d64f94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 09/30] fix: allow extracting to the current directory or the
 root directory

With a destination of "." or "/" every entry was refused as an invalid path.
---
 cpio/extract.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index e5c6fd9..5ad6ce1 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -64,7 +64,7 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
+		if rel, err := filepath.Rel(dest, target); err != nil || !filepath.IsLocal(rel) {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
-- 
2.43.0


From 03df2444d0a1becf7c7964d244da48b619872e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 10/30] fix: extract hardlinks to empty files and tell devices
 apart

Hardlinks whose group has no content, or whose content came earlier, were
silently not extracted, and groups on different devices that happened to have
the same inode number were mixed up.
---
 cpio/extract.go | 33 +++++++++++++++++++++++++++++----
 cpio/header.go  |  9 +++++++++
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 5ad6ce1..454d14e 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -44,7 +44,8 @@ const (
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
-	linkMap := make(map[int][]string)
+	linkMap := make(map[inode][]string)
+	linked := make(map[inode]string)
 
 	stream := NewCpioStream(rs)
 
@@ -105,12 +106,18 @@ func Extract(rs io.Reader, dest string) error {
 		case S_ISREG:
 			// save hardlinks until after the taget is written
 			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {
-				l, ok := linkMap[entry.Header.ino]
+				if source, ok := linked[entry.Header.inode()]; ok {
+					if err := os.Link(source, target); err != nil {
+						return err
+					}
+					continue
+				}
+				l, ok := linkMap[entry.Header.inode()]
 				if !ok {
 					l = make([]string, 0)
 				}
 				l = append(l, target)
-				linkMap[entry.Header.ino] = l
+				linkMap[entry.Header.inode()] = l
 				continue
 			}
 
@@ -132,10 +139,12 @@ func Extract(rs io.Reader, dest string) error {
 
 			// Create hardlinks after the file content is written.
 			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
-				l, ok := linkMap[entry.Header.ino]
+				l, ok := linkMap[entry.Header.inode()]
 				if !ok {
 					return fmt.Errorf("hardlinks missing")
 				}
+				delete(linkMap, entry.Header.inode())
+				linked[entry.Header.inode()] = target
 
 				for _, t := range l {
 					if err := os.Link(target, t); err != nil {
@@ -149,5 +158,21 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
+	// Hardlink groups that never got any content are links to an empty file.
+	for _, l := range linkMap {
+		f, err := os.Create(l[0])
+		if err != nil {
+			return err
+		}
+		if err := f.Close(); err != nil {
+			return err
+		}
+		for _, t := range l[1:] {
+			if err := os.Link(l[0], t); err != nil {
+				return err
+			}
+		}
+	}
+
 	return nil
 }
diff --git a/cpio/header.go b/cpio/header.go
index 51cb956..5ce20ee 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -143,6 +143,15 @@ func readStrippedHeader(br binaryReader) (*Cpio_newc_header, error) {
 	return hdr, nil
 }
 
+// inode identifies a file that several entries may be hardlinks of
+type inode struct {
+	devmajor, devminor, ino int
+}
+
+func (hdr *Cpio_newc_header) inode() inode {
+	return inode{devmajor: hdr.devmajor, devminor: hdr.devminor, ino: hdr.ino}
+}
+
 // Magic returns the magic number preceding the file entry
 func (hdr *Cpio_newc_header) Magic() string { return hdr.magic }
 
-- 
2.43.0


From 427cd81c07cf01f04605a0060ee7bb4c7f465a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 11/30] fix: do not follow symlinks out of the destination when
 extracting

An archive could create a symlink to any place and then create or overwrite
files below or behind it, outside of the destination directory.
---
 cpio/extract.go | 66 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index 454d14e..e476cda 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -69,8 +69,14 @@ func Extract(rs io.Reader, dest string) error {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
+		if target == dest && entry.Header.Mode()&^07777 != S_ISDIR {
+			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
+		}
 		// Create the parent directory if it doesn't exist.
 		parent := filepath.Dir(target)
+		if err := checkSymlinks(dest, target); err != nil {
+			return err
+		}
 		if err := os.MkdirAll(parent, 0755); err != nil {
 			return err
 		}
@@ -121,6 +127,10 @@ func Extract(rs io.Reader, dest string) error {
 				continue
 			}
 
+			if err := removeSpecial(target); err != nil {
+				return err
+			}
+
 			// FIXME: Set permissions on files when creating.
 			f, err := os.Create(target)
 			if err != nil {
@@ -160,6 +170,9 @@ func Extract(rs io.Reader, dest string) error {
 
 	// Hardlink groups that never got any content are links to an empty file.
 	for _, l := range linkMap {
+		if err := removeSpecial(l[0]); err != nil {
+			return err
+		}
 		f, err := os.Create(l[0])
 		if err != nil {
 			return err
@@ -176,3 +189,56 @@ func Extract(rs io.Reader, dest string) error {
 
 	return nil
 }
+
+// removeSpecial removes what exists at target if it is neither a regular file
+// nor a directory. Writing through a symlink could change any file, and opening
+// a fifo could block.
+func removeSpecial(target string) error {
+	info, err := os.Lstat(target)
+	if err != nil || info.Mode().IsRegular() || info.IsDir() {
+		return nil
+	}
+	return os.Remove(target)
+}
+
+// checkSymlinks returns an error if any of the directories between dest and
+// target is a symlink that leads out of dest.
+func checkSymlinks(dest, target string) error {
+	rel, err := filepath.Rel(dest, target)
+	if err != nil {
+		return err
+	}
+	names := strings.Split(rel, string(filepath.Separator))
+	current := dest
+	for _, name := range names[:len(names)-1] {
+		current = filepath.Join(current, name)
+		info, err := os.Lstat(current)
+		if os.IsNotExist(err) {
+			return nil
+		} else if err != nil {
+			return err
+		} else if info.Mode()&os.ModeSymlink == 0 {
+			continue
+		}
+		root, err := realPath(dest)
+		if err != nil {
+			return err
+		}
+		real, err := realPath(current)
+		if err != nil {
+			return err
+		}
+		if rel, err := filepath.Rel(root, real); err != nil || !filepath.IsLocal(rel) {
+			return fmt.Errorf("cpio path %q leads out of the destination through symlink %q", target, current)
+		}
+	}
+	return nil
+}
+
+func realPath(name string) (string, error) {
+	name, err := filepath.EvalSymlinks(name)
+	if err != nil {
+		return "", err
+	}
+	return filepath.Abs(name)
+}
-- 
2.43.0


From 56ac974e39ba7d513969aea79d27d275e8dc0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 12/30] fix: close the extracted file and the decompressor on
 errors

---
 cpio/extract.go | 2 ++
 rpmutils.go     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index e476cda..307e071 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -138,9 +138,11 @@ func Extract(rs io.Reader, dest string) error {
 			}
 			written, err := io.Copy(f, entry.payload)
 			if err != nil {
+				f.Close()
 				return err
 			}
 			if written != int64(entry.Header.filesize) {
+				f.Close()
 				return fmt.Errorf("short write")
 			}
 			if err := f.Close(); err != nil {
diff --git a/rpmutils.go b/rpmutils.go
index cbe3100..af83abf 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -86,6 +86,9 @@ func (rpm *Rpm) PayloadReaderExtended() (PayloadReader, error) {
 	}
 	files, err := rpm.Header.GetFiles()
 	if err != nil {
+		if c, ok := pld.(io.Closer); ok {
+			c.Close()
+		}
 		return nil, err
 	}
 	return newPayloadReader(pld, files), nil
-- 
2.43.0


From 5417152b39c94c0da79f5df8263a6d2fa4058c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 13/30] fix: apply the documented defaults to unset signature
 options

A SignatureOptions without Hash made signing panic, and one without
CreationTime produced signatures dated with the zero time.
---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 58858cc..f7caedc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -39,14 +39,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
-- 
2.43.0


From a5848c83984fcaab0de8b5662268b26d098367c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 14/30] fix: make HasLinks recognise the type that os.Stat
 returns

It always reported false, so that signing a hardlinked file in place also
changed the file under its other names.
---
 fileutil/fileutil_unix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..e69ba35 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -21,12 +21,13 @@ package fileutil
 
 import (
 	"os"
+	"syscall"
 	"golang.org/x/sys/unix"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From f08b4e17fa52bb9555340df4cb3c4b524dc4c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 15/30] fix: do not replace the output after a failed write,
 and report failures

The deferred function looked at a shadowed err, so that a package that could
not be written completely still replaced the output file, and failures to
close or rename the temporary file were reported as success.
---
 signatures.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/signatures.go b/signatures.go
index f7caedc..19b416e 100644
--- a/signatures.go
+++ b/signatures.go
@@ -225,7 +225,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (result error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -258,14 +258,17 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 				return err
 			}
 			defer func() {
-				if err != nil {
-					os.Remove(tempfile.Name())
-				} else {
+				if result == nil {
 					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
-					err = os.Rename(tempfile.Name(), outpath)
+				}
+				if err := tempfile.Close(); result == nil {
+					result = err
+				}
+				if result == nil {
+					result = os.Rename(tempfile.Name(), outpath)
+				}
+				if result != nil {
+					os.Remove(tempfile.Name())
 				}
 			}()
 			outstream = tempfile
-- 
2.43.0


From 68fec10ce3314c17386cd643e1dbf0d8e2e089e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 16/30] fix: do not truncate the input when signing to a
 symlink to it

Such an output was opened for writing, and thus truncated, before the package
was copied from it, which destroyed the package.
---
 signatures.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index 19b416e..3dacabd 100644
--- a/signatures.go
+++ b/signatures.go
@@ -199,6 +199,13 @@ func canOverwrite(ininfo, outinfo os.FileInfo) bool {
 	return true
 }
 
+// leadsTo returns true if outpath is a symlink to the input file, which must not
+// be truncated before it has been read.
+func leadsTo(outpath string, ininfo os.FileInfo) bool {
+	info, err := os.Stat(outpath)
+	return err == nil && os.SameFile(ininfo, info)
+}
+
 // SignRpmFile signs infile and writes it to outpath, which may be the same file
 func SignRpmFile(infile *os.File, outpath string, key *packet.PrivateKey, opts *SignatureOptions) (header *RpmHeader, err error) {
 	header, err = SignRpmStream(infile, key, opts)
@@ -242,7 +249,7 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (result erro
 				return err
 			}
 			// in-place didn't work; fallback to rewrite
-		} else if err == nil && !outinfo.Mode().IsRegular() {
+		} else if err == nil && !outinfo.Mode().IsRegular() && !leadsTo(outpath, ininfo) {
 			// pipe or something else. open for writing.
 			outfile, err := os.Create(outpath)
 			if err != nil {
-- 
2.43.0


From 04e2cd2d0a4131438758a5003e95ec0804f77273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 17/30] fix: compare carets in versions as rpm does

rpm has treated ^ as an operator since 4.15; Vercmp took it for a mere
separator, so that 1.0^ and 1.0 were equal and 1.0^2016 newer than 1.0.1.
---
 vercmp.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vercmp.go b/vercmp.go
index e9cba8c..d61b00a 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,7 +22,7 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~^]*)(.*)$`)
 	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
 	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
 )
@@ -80,6 +80,25 @@ func Vercmp(first, second string) int {
 			return 1
 		}
 
+		// Handle the caret separator. It sorts after the end of the version but
+		// before any further segment.
+		if strings.HasPrefix(first, "^") || strings.HasPrefix(second, "^") {
+			if first == "" {
+				return -1
+			}
+			if second == "" {
+				return 1
+			}
+			if !strings.HasPrefix(first, "^") {
+				return 1
+			}
+			if !strings.HasPrefix(second, "^") {
+				return -1
+			}
+			first, second = first[1:], second[1:]
+			continue
+		}
+
 		// If we ran to the end of either, we are finished with the loop.
 		if first == "" || second == "" {
 			break
-- 
2.43.0


From f942661d48da3128fd97da8684230e9fd5969837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 18/30] fix: compare versions that contain newlines

The regular expressions did not match such strings at all, which made them
equal to every other version.
---
 vercmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercmp.go b/vercmp.go
index d61b00a..4472a86 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,9 +22,9 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~^]*)(.*)$`)
-	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
-	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~^]*)(.*)$`)
+	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
+	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
 
 // VersionSlice provides the Sort interface for sorting version strings.
-- 
2.43.0


From fef2d5a6a33cd3c3f9d20036de441af28b66a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 19/30] fix: report the fingerprint of the subkey that made a
 signature

KeyFingerprint was set to that of the primary key if the signature itself only
names the key ID of a subkey.
---
 verify_v4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verify_v4.go b/verify_v4.go
index 38d02d6..cc5b924 100644
--- a/verify_v4.go
+++ b/verify_v4.go
@@ -37,6 +37,12 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 			return nil
 		}
 		if entity, key := findKey(pkt, knownKeys); key != nil {
+			if sig.KeyId == 0 {
+				sig.KeyId = key.KeyId
+			}
+			if sig.KeyFingerprint == nil {
+				sig.KeyFingerprint = key.Fingerprint
+			}
 			setEntity(sig, entity)
 			return key.VerifySignature(h, pkt)
 		}
-- 
2.43.0


From 634697b525dc001ebf79ef22d0521d1d9050d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 20/30] fix: report package sizes that do not fit in an int64
 instead of returning negative ones

---
 rpmutils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpmutils.go b/rpmutils.go
index af83abf..8e9ec5d 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/sassoftware/go-rpmutils/cpio"
 )
@@ -306,6 +307,8 @@ func (hdr *RpmHeader) InstalledSize() (int64, error) {
 	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)
 	if err != nil {
 		return -1, err
+	} else if u > math.MaxInt64 {
+		return -1, errors.New("size is out of range")
 	}
 	return int64(u), nil
 }
@@ -317,6 +320,8 @@ func (hdr *RpmHeader) PayloadSize() (int64, error) {
 		return -1, err
 	} else if len(u) != 1 {
 		return -1, errors.New("incorrect number of values")
+	} else if u[0] > math.MaxInt64 {
+		return -1, errors.New("size is out of range")
 	}
 	return int64(u[0]), err
 }
-- 
2.43.0


From 1af9e178c13b97b8c5bd59e62f3c9090ab5751f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 21/30] fix: check header digests that are only one character
 long

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 1ba2a47..7446c65 100644
--- a/header.go
+++ b/header.go
@@ -112,7 +112,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if hash != "" {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 1210803e53e7a25fe5eac8fbf780d55e7d7dbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 22/30] fix: do not take ghosts or files without an inode for
 hard links

---
 payload.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/payload.go b/payload.go
index 5165423..1f7855b 100644
--- a/payload.go
+++ b/payload.go
@@ -64,8 +64,12 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 
 			// all but the last file in a link group will have no contents. flag
 			// them so we don't try to read the nonexistent payload.
+			// Ghosts are not in the payload, and inode 0 is never shared.
 			ino := fileSt.inode64()
-			if lastInode, ok := lastInodes[ino]; ok && ino != 0 {
+			if fileSt.inode == 0 || fileSt.flags&RPMFILE_GHOST != 0 {
+				continue
+			}
+			if lastInode, ok := lastInodes[ino]; ok {
 				pr.isLink[lastInode] = true
 				fileSizes[lastInode] = 0
 			}
-- 
2.43.0


From 5a8aa81c7ba48f971df9de12725d789bd985e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 23/30] fix: do not write through a symlink that could not be
 examined when extracting

---
 cpio/extract.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 307e071..be972fb 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -197,7 +197,12 @@ func Extract(rs io.Reader, dest string) error {
 // a fifo could block.
 func removeSpecial(target string) error {
 	info, err := os.Lstat(target)
-	if err != nil || info.Mode().IsRegular() || info.IsDir() {
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if info.Mode().IsRegular() || info.IsDir() {
 		return nil
 	}
 	return os.Remove(target)
-- 
2.43.0


From 23e01db697524f8d48f2b6cd2606b3cd9d5fae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:59 +0000
Subject: [PATCH 24/30] fix: read lzma and xz payloads from streams that return
 no bytes at times

---
 uncompress.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/uncompress.go b/uncompress.go
index 90b8622..1f8c861 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -75,9 +75,9 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 	case "bzip2":
 		return bzip2.NewReader(r), nil
 	case "lzma":
-		return lzma.NewReader(r)
+		return lzma.NewReader(nonEmptyReader{r})
 	case "xz":
-		return xz.NewReader(r)
+		return xz.NewReader(nonEmptyReader{r})
 	case "uncompressed":
 		// prevent ExpandPayload from closing the underlying file
 		return noCloseWrapper{r}, nil
@@ -86,6 +86,22 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 	}
 }
 
+// nonEmptyReader repeats reads that return neither data nor an error, which
+// the lzma and xz readers take for a failure
+type nonEmptyReader struct {
+	r io.Reader
+}
+
+func (n nonEmptyReader) Read(d []byte) (int, error) {
+	for i := 0; i < 100; i++ {
+		c, err := n.r.Read(d)
+		if c > 0 || err != nil || len(d) == 0 {
+			return c, err
+		}
+	}
+	return 0, io.ErrNoProgress
+}
+
 type noCloseWrapper struct {
 	r io.Reader
 }
-- 
2.43.0


From 00741a2d278bcfe28d75675df9255562710c3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 25/30] fix: read compressed payloads to their end so that
 their checksums are verified

---
 payload.go    |  5 +++++
 rpmutils.go   |  5 ++++-
 uncompress.go | 11 +++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/payload.go b/payload.go
index 1f7855b..466ee51 100644
--- a/payload.go
+++ b/payload.go
@@ -87,6 +87,11 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 // files have been consumed.
 func (pr *payloadReader) Next() (FileInfo, error) {
 	hdr, err := pr.cr.Next()
+	if err == io.EOF {
+		if derr := drainPayload(pr.stream); derr != nil {
+			err = derr
+		}
+	}
 	if err != nil {
 		// close decompressor on EOF, zstd in particular leaks goroutines otherwise
 		if c, ok := pr.stream.(io.Closer); ok {
diff --git a/rpmutils.go b/rpmutils.go
index 8e9ec5d..c730094 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -65,7 +65,10 @@ func (rpm *Rpm) ExpandPayload(dest string) error {
 	if c, ok := pld.(io.Closer); ok {
 		defer c.Close()
 	}
-	return cpio.Extract(pld, dest)
+	if err := cpio.Extract(pld, dest); err != nil {
+		return err
+	}
+	return drainPayload(pld)
 }
 
 // PayloadReader accesses the payload cpio archive within the RPM.
diff --git a/uncompress.go b/uncompress.go
index 1f8c861..7b5afad 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -86,6 +86,17 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 	}
 }
 
+// drainPayload reads a compressed payload to its end, past the end of the
+// archive, which is where checksums are verified
+func drainPayload(r io.Reader) error {
+	if _, ok := r.(noCloseWrapper); ok {
+		// not compressed
+		return nil
+	}
+	_, err := io.Copy(io.Discard, r)
+	return err
+}
+
 // nonEmptyReader repeats reads that return neither data nor an error, which
 // the lzma and xz readers take for a failure
 type nonEmptyReader struct {
-- 
2.43.0


From 71864126433e1dec5a0514964d5f1fd802a478d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 26/30] fix: keep returning the error that ended a payload
 instead of reading on

---
 payload.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/payload.go b/payload.go
index 466ee51..921f7fe 100644
--- a/payload.go
+++ b/payload.go
@@ -43,6 +43,8 @@ type payloadReader struct {
 	fileMap map[string]int
 	isLink  []bool
 	index   int
+	// set once the payload has ended or failed and the decompressor is closed
+	err error
 }
 
 func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
@@ -86,6 +88,9 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 // Read() can be used to read the contents of the file. Returns io.EOF when all
 // files have been consumed.
 func (pr *payloadReader) Next() (FileInfo, error) {
+	if pr.err != nil {
+		return nil, pr.err
+	}
 	hdr, err := pr.cr.Next()
 	if err == io.EOF {
 		if derr := drainPayload(pr.stream); derr != nil {
@@ -93,6 +98,7 @@ func (pr *payloadReader) Next() (FileInfo, error) {
 		}
 	}
 	if err != nil {
+		pr.err = err
 		// close decompressor on EOF, zstd in particular leaks goroutines otherwise
 		if c, ok := pr.stream.(io.Closer); ok {
 			c.Close()
@@ -122,6 +128,9 @@ func (pr *payloadReader) Next() (FileInfo, error) {
 
 // Read bytes from the file returned by the preceding call to Next()
 func (pr *payloadReader) Read(d []byte) (int, error) {
+	if pr.err != nil {
+		return 0, pr.err
+	}
 	return pr.cr.Read(d)
 }
 
-- 
2.43.0


From efdcc4d9ed90ed766948c7faffedf8fb4c436aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:14 +0000
Subject: [PATCH 27/30] fix: report a failure to close a package that was
 signed in place

---
 signatures.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index 3dacabd..5357626 100644
--- a/signatures.go
+++ b/signatures.go
@@ -298,8 +298,10 @@ func writeInPlace(path string, header *RpmHeader) (ok bool, err error) {
 	if err != nil {
 		return
 	}
-	defer outfile.Close()
 	n, err := outfile.Write(blob)
+	if err2 := outfile.Close(); err == nil {
+		err = err2
+	}
 	if err != nil {
 		return false, err
 	} else if n != len(blob) {
-- 
2.43.0


From efe7391b03975530be593a2ddbcaf648522066bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 28/30] fix: do not write through existing hard links when
 extracting over files

---
 cpio/extract.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index be972fb..ed985cf 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -194,7 +194,8 @@ func Extract(rs io.Reader, dest string) error {
 
 // removeSpecial removes what exists at target if it is neither a regular file
 // nor a directory. Writing through a symlink could change any file, and opening
-// a fifo could block.
+// a fifo could block. Files that have other names are removed as well, since
+// what is written would appear there, too.
 func removeSpecial(target string) error {
 	info, err := os.Lstat(target)
 	if os.IsNotExist(err) {
@@ -202,7 +203,7 @@ func removeSpecial(target string) error {
 	} else if err != nil {
 		return err
 	}
-	if info.Mode().IsRegular() || info.IsDir() {
+	if info.Mode().IsRegular() && !fileutil.HasLinks(info) || info.IsDir() {
 		return nil
 	}
 	return os.Remove(target)
-- 
2.43.0


From 7357dfc97acda1936a050b8ea8727265bf797744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:33 +0000
Subject: [PATCH 29/30] fix: report a directory that cannot be made because
 something else is there

---
 cpio/extract.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ed985cf..cc59a39 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -91,8 +91,12 @@ func Extract(rs io.Reader, dest string) error {
 			continue
 		case S_ISDIR:
 			m := os.FileMode(entry.Header.Mode()).Perm()
-			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
-				return err
+			if err := os.Mkdir(target, m); err != nil {
+				// an existing directory, or a link to one, is kept
+				info, staterr := os.Stat(target)
+				if !os.IsExist(err) || staterr != nil || !info.IsDir() {
+					return err
+				}
 			}
 		case S_ISFIFO:
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
-- 
2.43.0


From 91c3818668651fc72bccc0fd9b01a060131c572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 30/30] fix: do not let the declared size of a header overflow

---
 header.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 7446c65..73e67bc 100644
--- a/header.go
+++ b/header.go
@@ -69,11 +69,11 @@ var typeSizes = map[int32]int{
 	RPM_BIN_TYPE:   1,
 }
 
-func readExact(f io.Reader, n int) ([]byte, error) {
+func readExact(f io.Reader, n int64) ([]byte, error) {
 	if n > maxPrealloc {
 		// n comes from the file and might be bogus, so only grow as data arrives
 		var buf bytes.Buffer
-		copied, err := io.CopyN(&buf, f, int64(n))
+		copied, err := io.CopyN(&buf, f, n)
 		if err == io.EOF && copied > 0 {
 			err = io.ErrUnexpectedEOF
 		}
@@ -97,17 +97,17 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("bad magic for header")
 	}
 	// read entries
-	entryTable, err := readExact(f, int(intro.Entries*16))
+	entryTable, err := readExact(f, int64(intro.Entries)*16)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header table: %s", err.Error())
 	}
 	// read data
-	size := intro.Size
+	size := int64(intro.Size)
 	if sigBlock {
 		// signature block is padded to 8 byte alignment
 		size = (size + 7) / 8 * 8
 	}
-	data, err := readExact(f, int(size))
+	data, err := readExact(f, size)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
-- 
2.43.0

