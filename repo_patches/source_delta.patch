From 7e85eae4ccfcd66614e5eb571dee1c4940061a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 01/23] fix: drop vanished entries from an imported directory's
 Readdir instead of listing nil

---
 vroot/iofs_from.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index 97bd22b..3b6b499 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -216,16 +216,19 @@ func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 
-	infos := make([]fs.FileInfo, len(entries))
-	for i, entry := range entries {
+	infos := make([]fs.FileInfo, 0, len(entries))
+	for _, entry := range entries {
 		info, err := entry.Info()
-		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		if errors.Is(err, fs.ErrNotExist) {
 			// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
-			// tolerated by suppressing fs.ErrNotExist, mirroring how
-			// os.(*File).Readdir behaves with disappearing entries.
+			// tolerated by dropping the entry, as os.(*File).Readdir does with
+			// disappearing entries.
+			continue
+		}
+		if err != nil {
 			return nil, err
 		}
-		infos[i] = info
+		infos = append(infos, info)
 	}
 	return infos, nil
 }
-- 
2.43.0


From 85aa54d8266da6ac0e2155018bf1899b9ceb05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 02/23] fix: report the close error of a copied file instead of
 dropping it

---
 fsutil/copy_fs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..6009192 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -213,7 +213,6 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -221,6 +220,10 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 
 		buf := *bufP
 		_, err = io.CopyBuffer(dstFile, srcFile, buf)
+		// Data may be lost at close(2): its error counts as a failed copy.
+		if cErr := dstFile.Close(); err == nil {
+			err = cErr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 05ba82d832d3adfd6704b67bf1179d1ee2d0f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 03/23] fix: send an empty file to the sink instead of
 committing whatever part it holds

---
 fsutil/resumable.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..32ab80d 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -500,8 +500,9 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		offset = 0
 	}
 
-	// Step 4: sink already has all bytes — just commit.
-	if offset == actualSize {
+	// Step 4: sink already has all bytes — just commit. An empty file is always
+	// sent: the sink may hold no part yet, or one that has just been rejected.
+	if offset > 0 && offset == actualSize {
 		return sink.Commit(ctx)
 	}
 
-- 
2.43.0


From b1f0bf6e494ae84970a2c0592dd29f6e3bb0aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 04/23] fix: fail a push whose local file shrank instead of
 committing the truncated copy

---
 fsutil/resumable.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 32ab80d..91e6ae9 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -513,7 +513,7 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		}
 	}
 
-	lr := io.LimitReader(f, actualSize-offset)
+	lr := &exactReader{r: f, n: actualSize - offset}
 	ctxR := &ctxReader{ctx: ctx, r: lr}
 	if aerr := sink.Append(ctx, info, offset, ctxR); aerr != nil {
 		return WrapPathErr("push-append", name, aerr)
@@ -523,6 +523,29 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	return sink.Commit(ctx)
 }
 
+// exactReader reads exactly n bytes from r: the rest of r is not read, and an r
+// that ends before is an [io.ErrUnexpectedEOF], so that a sink does not take a
+// file that shrank under the transfer for a complete one.
+type exactReader struct {
+	r io.Reader
+	n int64
+}
+
+func (er *exactReader) Read(p []byte) (int, error) {
+	if er.n <= 0 {
+		return 0, io.EOF
+	}
+	if int64(len(p)) > er.n {
+		p = p[:er.n]
+	}
+	n, err := er.r.Read(p)
+	er.n -= int64(n)
+	if err == io.EOF && er.n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 // ctxReader wraps a reader and checks ctx cancellation before each Read call.
 type ctxReader struct {
 	ctx context.Context
-- 
2.43.0


From 5915b45d0d3ad89465b15b04e4b7d4975cbf4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 05/23] fix: drop the stale version tag of a part that gets
 bytes of unknown version

---
 fsutil/resumable.go    |  9 +++++++++
 fsutil/resumable_fs.go | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 91e6ae9..dcedcc9 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -395,6 +395,15 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			return WrapPathErr("write-sidecar", sidecarPath, serr)
 		}
 	}
+	if effectiveETag == "" {
+		// The part is about to hold bytes of an unknown version: it must not keep
+		// the tag of an earlier transfer.
+		rerr := fsys.Remove(sidecarPath)
+		if rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = partFile.Close()
+			return WrapPathErr("remove-sidecar", sidecarPath, rerr)
+		}
+	}
 
 	if startAt > 0 {
 		if _, serr := partFile.Seek(startAt, io.SeekStart); serr != nil {
diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..4735084 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -209,7 +209,8 @@ func (s *FsSink[Fsys, File]) State(ctx context.Context) (SinkState, error) {
 // When offset == 0, the part file is created or truncated to zero.  When
 // offset > 0, the existing part file must have at least offset bytes; if it is
 // longer it is truncated to offset; if it is shorter, [ErrSizeMismatch] is
-// returned.  info.ETag is persisted to the sidecar before any data is written.
+// returned.  info.ETag is persisted to the sidecar before any data is written; the
+// sidecar of an earlier transfer is removed when info.ETag is empty.
 func (s *FsSink[Fsys, File]) Append(
 	ctx context.Context,
 	info ContentInfo,
@@ -261,6 +262,14 @@ func (s *FsSink[Fsys, File]) Append(
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
 		}
+	} else {
+		// The part is about to hold bytes of an unknown version: it must not keep
+		// the tag of an earlier transfer.
+		rerr := s.fsys.Remove(s.sidecarPath())
+		if rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = f.Close()
+			return WrapPathErr("remove-sidecar", s.sidecarPath(), rerr)
+		}
 	}
 
 	_, copyErr := io.Copy(f, r)
-- 
2.43.0


From a211638037d9b4cc2eb212e4a11fe4dfaed6e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 06/23] fix: remove a random directory that cannot be opened
 after it was made

---
 fsutil/open_random.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..746ac9f 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,15 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				// The caller never learns of the name: do not leave it behind.
+				if fsys, ok := any(fsys).(RemoveAllFs); ok {
+					_ = fsys.RemoveAll(name)
+				}
+				return *new(File), err
+			}
+			return f, nil
 		},
 	)
 }
-- 
2.43.0


From 21f34bfc1b57862b528945e6cf0da8fcb8e432a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 07/23] fix: recognise temporary names when the temporary
 directory is '.' or '/'

---
 fsutil/safe_write.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fsutil/safe_write.go b/fsutil/safe_write.go
index 535d16d..543f7b0 100644
--- a/fsutil/safe_write.go
+++ b/fsutil/safe_write.go
@@ -472,10 +472,17 @@ func (p TempFilePolicyDir[Fsys, File]) Match(path string) bool {
 	cleanTempDir := filepath.Clean(p.tempDir)
 
 	// Check if path is within temp directory
-	isInTempDir := cleanPath == cleanTempDir ||
-		(len(cleanPath) > len(cleanTempDir)+1 &&
-			cleanPath[:len(cleanTempDir)] == cleanTempDir &&
-			cleanPath[len(cleanTempDir)] == filepath.Separator)
+	var isInTempDir bool
+	if cleanTempDir == "." {
+		isInTempDir = filepath.IsLocal(cleanPath)
+	} else {
+		// cleanTempDir ends with a separator only if it is a root directory.
+		prefix := strings.TrimSuffix(
+			cleanTempDir,
+			string(filepath.Separator),
+		) + string(filepath.Separator)
+		isInTempDir = cleanPath == cleanTempDir || strings.HasPrefix(cleanPath, prefix)
+	}
 
 	if !isInTempDir {
 		return false
-- 
2.43.0


From ee21414e86264d75072eb15e3d6b368a463da92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 08/23] fix: ResolvePath follows links one at a time, so that a
 target behind another link resolves

---
 fsutil/resolve_symlink.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index ca41409..96eff69 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -99,16 +99,19 @@ func ResolvePath(
 			continue
 		}
 
-		currentResolved, numSymlink, err := ResolveSymlink(
-			fsys,
-			resolved.String(),
-			maxSymlinkResolutionCount-curLinkResolved,
-		)
+		// Follow one link at a time: the target may itself lie behind another
+		// link, so it needs to be walked from the root before being read.
+		target, err := fsys.ReadLink(resolved.String())
 		if err != nil {
 			return resolved.String(), err
 		}
 
-		curLinkResolved += numSymlink
+		var currentResolved string
+		if !filepath.IsAbs(target) {
+			currentResolved = filepath.Join(filepath.Dir(resolved.String()), target)
+		}
+
+		curLinkResolved++
 		if curLinkResolved >= maxSymlinkResolutionCount {
 			return cmp.Or(
 					currentResolved,
@@ -127,27 +130,21 @@ func ResolvePath(
 			// The root directory may be moved after open,
 			// but you don't have robust way to convert an fd back to a path on the filesystem,
 			// maybe even multiple paths are linked to a file.
-			return cmp.Or(currentResolved, resolved.String()), ErrPathEscapes
+			return resolved.String(), ErrPathEscapes
 		}
 
 		if offEnd >= len(name) {
 			name = currentResolved
 		} else {
-			name = currentResolved + name[offEnd:]
+			name = filepath.Join(currentResolved, name[offEnd:])
 		}
 		i = 0
 		offStart = 0
 		resolved.Reset()
 	}
 
-	if lastPart != "" {
-		if resolved.Len() > 0 {
-			resolved.WriteByte(filepath.Separator)
-		}
-		resolved.WriteString(lastPart)
-	}
-
-	return resolved.String(), nil
+	// Not a mere concatenation: a link may resolve to ".".
+	return filepath.Join(resolved.String(), lastPart), nil
 }
 
 // ResolveSymlink retruns resoluition result with numbers of symlink that has been resolved.
-- 
2.43.0


From feeddbe0a96272811db0ccf04fe6dd7391020af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 09/23] fix: a multi reader whose last segment is short reports
 it, also when it delivered some bytes

---
 stream/multi_read_at_closer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..33002b2 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -163,7 +163,8 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (len(r.r)-1 > r.idx || int64(n) < rem):
+		// Not the end of all, or too short: the next read tells.
 		err = nil
 	}
 
@@ -248,7 +249,7 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (len(r.r)-1 > i || int64(n) < rem):
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From 5aad46d17c476af8f0acdc5fe3927afd81920df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 10/23] fix: count chunks without overflowing for a huge chunk
 size

---
 stream/fileserver/chunk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index ab7d168..65fce5a 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -20,8 +20,12 @@ func chunkCount(totalSize, chunkSize int64) int64 {
 	if totalSize == 0 {
 		return 1 // one empty chunk for zero-size objects
 	}
-	// Ceiling division: (totalSize + chunkSize - 1) / chunkSize.
-	return (totalSize + chunkSize - 1) / chunkSize
+	// Ceiling division, written so that a huge chunkSize does not overflow.
+	n := totalSize / chunkSize
+	if totalSize%chunkSize != 0 {
+		n++
+	}
+	return n
 }
 
 // expectedChunkSize returns the expected byte count of chunk i.
-- 
2.43.0


From bedfe164aa6604d40c0377a76a52befaba462d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 11/23] fix: refuse a truncated last chunk instead of storing
 it

---
 stream/fileserver/chunk.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index 65fce5a..e334903 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -274,10 +274,9 @@ func (s *ChunkedSink) Append(
 				"ChunkedSink Append chunk %d: spool: %w", i, err,
 			)
 		}
-		// For the last chunk a short read (written < expected) is valid only
-		// if the source is exhausted. If this is not the last chunk and we
-		// got fewer bytes, the reader was truncated.
-		if written < expected && i < nChunks-1 {
+		// expected already accounts for a short last chunk, so fewer bytes
+		// always mean that the reader was truncated.
+		if written < expected {
 			cleanup()
 			return fmt.Errorf(
 				"ChunkedSink Append chunk %d: short read: got %d, want %d",
-- 
2.43.0


From 0a65d54c6727f13eb44f5c727602527f26a6dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 12/23] fix: refuse a range answer that starts at another
 offset

---
 stream/fileserver/client.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..b110029 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -192,7 +192,11 @@ func (c *HTTPClient) Get(
 
 	case http.StatusPartialContent: // 206
 		// Total size is in Content-Range: bytes <from>-<to>/<total>.
-		total, err := parseTotalFromContentRange(resp.Header.Get("Content-Range"))
+		contentRange := resp.Header.Get("Content-Range")
+		total, err := parseTotalFromContentRange(contentRange)
+		if err == nil {
+			err = checkContentRangeStart(contentRange, offset)
+		}
 		if err != nil {
 			_, _ = io.Copy(io.Discard, resp.Body)
 			_ = resp.Body.Close()
@@ -313,3 +317,20 @@ func parseTotalFromContentRange(s string) (int64, error) {
 	}
 	return total, nil
 }
+
+// checkContentRangeStart reports an error unless the range of a Content-Range
+// header value of the form "bytes <from>-<to>/<total>" starts at offset, i.e.
+// unless the body holds the bytes that were asked for.
+func checkContentRangeStart(s string, offset int64) error {
+	fromStr, _, _ := strings.Cut(strings.TrimPrefix(s, "bytes "), "-")
+	from, err := strconv.ParseInt(fromStr, 10, 64)
+	if err != nil {
+		return fmt.Errorf("Content-Range start parse: %w", err)
+	}
+	if from != max(offset, 0) {
+		return fmt.Errorf(
+			"Content-Range %q does not start at offset %d", s, offset,
+		)
+	}
+	return nil
+}
-- 
2.43.0


From b5c63bd1f25241aa0a5e4b014a96bc1209744625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 13/23] fix: keep credentials of unparsable, opaque and nested
 URLs out of errors

---
 stream/fileserver/client.go | 37 +++++++++++++++++++++++++++++++------
 stream/httprange/redact.go  | 25 +++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index b110029..bd16637 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -111,36 +111,61 @@ func (c *HTTPClient) applyHeaders(req *http.Request) {
 	}
 }
 
+// redactedURLPlaceholder stands in for a URL that could not be parsed: any
+// piece of such a URL can be a piece of a credential.
+const redactedURLPlaceholder = "[redacted url]"
+
 // redactURLError sanitizes a *url.Error so that credentials and query
 // parameters embedded in the URL (e.g. presigned tokens in the query string
 // or userinfo) are not exposed in log output or error messages.
 //
 // Guarantee: if err wraps a *url.Error, the returned error's message contains
 // only the scheme, host, and path of the original URL — userinfo, query, and
-// fragment are stripped. The underlying Err field is preserved unchanged so
-// that errors.Is/As chains (e.g. context.Canceled, net errors, fs.ErrNotExist)
-// continue to work normally. If err is not (or does not wrap) a *url.Error it
-// is returned as-is.
+// fragment are stripped, and a URL that cannot be parsed is not shown at all.
+// The underlying Err field is kept, itself sanitized, so that errors.Is/As
+// chains (e.g. context.Canceled, net errors, fs.ErrNotExist) continue to work
+// normally. If err is not (or does not wrap) a *url.Error it is returned as-is.
 func redactURLError(err error) error {
 	var ue *url.Error
 	if !errors.As(err, &ue) {
 		return err
 	}
 	// Parse and redact the URL embedded in the *url.Error.
-	redacted := ue.URL
+	redacted := redactedURLPlaceholder
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
+		u.Opaque = ""
 		u.User = nil
 		u.RawQuery = ""
 		u.Fragment = ""
 		redacted = u.String()
 	}
+	inner := redactURLError(ue.Err)
+	if ue.Op == "parse" && inner != nil {
+		inner = &parseFailure{err: inner}
+	}
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redacted,
-		Err: ue.Err,
+		Err: inner,
+	}
+}
+
+// parseFailure hides the text of what url.Parse reported, which quotes pieces
+// of the URL.
+type parseFailure struct {
+	err error
+}
+
+func (e *parseFailure) Error() string {
+	var escape url.EscapeError
+	if errors.As(e.err, &escape) {
+		return "invalid URL escape"
 	}
+	return "invalid URL"
 }
 
+func (e *parseFailure) Unwrap() error { return e.err }
+
 // Get implements [Client].
 //
 // When offset == 0 the request has no Range header; a 200 or 206 response is
diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 207ea62..aaf5e6f 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -14,6 +14,7 @@ const redactedURLPlaceholder = "[redacted url]"
 // query and fragment.
 func redactURL(u *url.URL) string {
 	redacted := *u
+	redacted.Opaque = ""
 	redacted.User = nil
 	redacted.RawQuery = ""
 	redacted.ForceQuery = false
@@ -35,7 +36,7 @@ func redactRawURL(raw string) string {
 // tree with its redacted form, so that presigned tokens, basic-auth
 // passwords and the like never reach error text.
 //
-// The underlying Err is carried over untouched, keeping [errors.Is] and
+// The underlying Err is carried over, itself redacted, keeping [errors.Is] and
 // [errors.AsType] working through the result. Any error not built around a
 // [url.Error] is returned as is.
 func redactURLError(err error) error {
@@ -43,9 +44,29 @@ func redactURLError(err error) error {
 	if !ok {
 		return err
 	}
+	inner := redactURLError(ue.Err)
+	if ue.Op == "parse" && inner != nil {
+		inner = &parseFailure{err: inner}
+	}
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redactRawURL(ue.URL),
-		Err: ue.Err,
+		Err: inner,
 	}
 }
+
+// parseFailure hides the text of what [url.Parse] reported: it quotes pieces
+// of the URL, and in a URL that cannot be parsed any piece can be a piece of a
+// credential, e.g. the port in "https://user:pass/word@example.com".
+type parseFailure struct {
+	err error
+}
+
+func (e *parseFailure) Error() string {
+	if _, ok := errors.AsType[url.EscapeError](e.err); ok {
+		return "invalid URL escape"
+	}
+	return "invalid URL"
+}
+
+func (e *parseFailure) Unwrap() error { return e.err }
-- 
2.43.0


From b5297e73f8da211313197c752622eb3e21f9a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 14/23] fix: do not serve a sparse tar entry without its sparse
 map

---
 tarfs/headers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..0df1dc6 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -80,7 +80,12 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				hh.headerStart = prev.bodyEnd + (-prev.bodyEnd)&(blockSize-1)
 			}
 
-			hh.holes, _ = reconstructSparse(r, hh, &blk)
+			hh.holes, err = reconstructSparse(r, hh, &blk)
+			if err != nil {
+				// Without its sparse map the file would be served as something else.
+				yield(nil, fmt.Errorf("read tar archive: sparse map of %q: %w", h.Name, err))
+				return
+			}
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-- 
2.43.0


From bb3057517484aa9136a87be8231e7dad8bd8a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 15/23] fix: a contiguous-file tar entry has data, unlike a
 header-only one

---
 tarfs/headers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 0df1dc6..e914f4c 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -89,7 +89,7 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
-- 
2.43.0


From 348029c873661f4607e27888121b13a2c06d5106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:23 +0000
Subject: [PATCH 16/23] fix: synthfs: every operation on a closed handle
 answers fs.ErrClosed

---
 vroot/synthfs/handle.go     |  9 +++++++++
 vroot/synthfs/handle_dir.go | 26 +++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a5a2e68..a12d32a 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -138,6 +138,9 @@ func (h *fileHandle) Sync() error {
 }
 
 func (h *fileHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	s := h.node.toStat()
@@ -150,6 +153,9 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 }
 
 func (h *fileHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -157,6 +163,9 @@ func (h *fileHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *fileHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..9e1e35a 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -29,7 +29,19 @@ var _ vroot.File = (*dirHandle)(nil)
 
 func (h *dirHandle) Name() string { return h.name }
 func (h *dirHandle) Fd() uintptr  { return ^uintptr(0) }
-func (h *dirHandle) Sync() error  { return nil }
+
+func (h *dirHandle) Sync() error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("sync", h.name, fs.ErrClosed)
+	}
+	return nil
+}
+
+func (h *dirHandle) isClosed() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return h.closed
+}
 
 func (h *dirHandle) Close() error {
 	h.mu.Lock()
@@ -47,6 +59,9 @@ func (h *dirHandle) Close() error {
 }
 
 func (h *dirHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	return h.node.toStat(), nil
@@ -81,6 +96,9 @@ func (h *dirHandle) Truncate(int64) error {
 func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
+	if h.closed {
+		return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset < 0 {
@@ -185,6 +203,9 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 }
 
 func (h *dirHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -192,6 +213,9 @@ func (h *dirHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *dirHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
-- 
2.43.0


From cfd4854f73518c00d2ee1c44b8d82ecac24a57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:23 +0000
Subject: [PATCH 17/23] fix: synthfs: ReadDir of a huge count after a partial
 read no longer panics

---
 vroot/synthfs/handle_dir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index 9e1e35a..6f0a311 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -151,7 +151,7 @@ func (h *dirHandle) readEntries(n int) ([]node, error) {
 		return nil, io.EOF
 	}
 	end := len(all)
-	if n > 0 && h.cursor+n < end {
+	if n > 0 && n < end-h.cursor {
 		end = h.cursor + n
 	}
 	out := make([]node, end-h.cursor)
-- 
2.43.0


From 0e640d64d33e64c5ea9dcb3595bac2a3dc9e6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:23 +0000
Subject: [PATCH 18/23] fix: overlayfs: ReadDir of a huge count after a partial
 read no longer panics

---
 vroot-adapter/overlayfs/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index f794fe0..6f23676 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -196,7 +196,7 @@ func (d *mergedDir) readEntries(n int) ([]fs.DirEntry, error) {
 		return nil, io.EOF
 	}
 	end := len(d.entries)
-	if n > 0 && d.cursor+n < end {
+	if n > 0 && n < end-d.cursor {
 		end = d.cursor + n
 	}
 	out := slices.Clone(d.entries[d.cursor:end])
-- 
2.43.0


From 9af78340b961fbc43175a72e65ea72c53efe63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 19/23] fix: synthfs: an offset or size too large to allocate
 is an error, not a panic

---
 vroot/synthfs/view_mem_buf.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..cb61558 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -81,7 +81,9 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	defer b.mu.Unlock()
 	end := int(off) + len(p)
 	if end > len(b.content) {
-		b.grow(end - len(b.content))
+		if err := b.grow(end - len(b.content)); err != nil {
+			return 0, err
+		}
 	}
 	n := copy(b.content[int(off):], p)
 	b.modTime = b.clock.Now()
@@ -95,7 +97,9 @@ func (b *memBuf) truncate(size int64) error {
 	b.mu.Lock()
 	defer b.mu.Unlock()
 	if grow := int(size) - len(b.content); grow > 0 {
-		b.grow(grow)
+		if err := b.grow(grow); err != nil {
+			return err
+		}
 	}
 	b.content = b.content[:size:size]
 	b.modTime = b.clock.Now()
@@ -103,12 +107,20 @@ func (b *memBuf) truncate(size int64) error {
 }
 
 // grow extends content by `by` bytes. Caller holds b.mu (write).
-func (b *memBuf) grow(by int) {
+// It returns EFBIG, leaving content as is, if the runtime can not allocate a
+// slice of that length.
+func (b *memBuf) grow(by int) (err error) {
 	if cap(b.content)-len(b.content) >= by {
 		b.content = b.content[:len(b.content)+by]
-		return
+		return nil
 	}
+	defer func() {
+		if recover() != nil {
+			err = syscall.EFBIG
+		}
+	}()
 	b.content = append(b.content, make([]byte, by)...)
+	return nil
 }
 
 // memHandle is one stateful handle into a [memBuf]. Multiple handles can
-- 
2.43.0


From c93c0f79539ff7bb6d5635b2c098072763ac79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 20/23] fix: synthfs: appends through two handles of one file
 no longer overwrite each other

---
 vroot/synthfs/view_mem_buf.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index cb61558..e0ab348 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -79,6 +79,25 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
+	return b.writeLocked(p, off)
+}
+
+// appendBytes writes p at the end of content, under one lock so that appends
+// through different handles never overwrite each other. off is where p begins.
+func (b *memBuf) appendBytes(p []byte) (off int64, n int, err error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	off = int64(len(b.content))
+	if len(p) == 0 {
+		return off, 0, nil
+	}
+	n, err = b.writeLocked(p, off)
+	return off, n, err
+}
+
+// writeLocked stores p at off. Caller holds b.mu (write) and checked that
+// off+len(p) does not overflow.
+func (b *memBuf) writeLocked(p []byte, off int64) (int, error) {
 	end := int(off) + len(p)
 	if end > len(b.content) {
 		if err := b.grow(end - len(b.content)); err != nil {
@@ -208,10 +227,15 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	}
 	h.mu.Lock()
 	defer h.mu.Unlock()
+	var (
+		n   int
+		err error
+	)
 	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+		h.off, n, err = h.buf.appendBytes(p)
+	} else {
+		n, err = h.buf.writeAt(p, h.off)
 	}
-	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
 	if err != nil {
 		return n, fsutil.WrapPathErr("write", h.name, err)
-- 
2.43.0


From 266561ab425ff18169c6493ad8f0dac57c0375c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 21/23] fix: synthfs: OpenFile no longer deadlocks when
 truncating the opened file fails

---
 vroot/synthfs/open.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..3bc4d0f 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -45,7 +45,11 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 				view: view,
 			}
 			parent.addEntry(base, nf)
-			return r.openFileNode(nf, name, flag)
+			h, err := r.openFileNode(nf, name, flag)
+			if err != nil {
+				return nil, err
+			}
+			return h, nil
 		}
 	}
 
@@ -69,7 +73,9 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 			// Truncate through the open handle so aliased views (e.g. hard
 			// links) see the same shrink. Re-Allocate would desynchronize.
 			if terr := h.Truncate(0); terr != nil {
-				_ = h.Close()
+				// Not h.Close: it would take state.mu, which is held here.
+				nd.refCount--
+				_ = h.inner.Close()
 				return nil, terr
 			}
 		}
@@ -84,7 +90,7 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 
 // openFileNode opens the view and wraps it in a fileHandle, bumping refCount
 // on success. Caller holds state.mu (write).
-func (r *Root) openFileNode(nd *file, userName string, flag int) (vroot.File, error) {
+func (r *Root) openFileNode(nd *file, userName string, flag int) (*fileHandle, error) {
 	inner, err := nd.view.Open(flag)
 	if err != nil {
 		return nil, toPathErr("open", userName, err)
-- 
2.43.0


From 270e413ee2fc47e6505be6a604af271d4ba84107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 22/23] fix: synthfs: a create that fails to open its new view
 leaves no entry behind

---
 vroot/synthfs/open.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index 3bc4d0f..e93b166 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -47,6 +47,8 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 			parent.addEntry(base, nf)
 			h, err := r.openFileNode(nf, name, flag)
 			if err != nil {
+				parent.removeEntry(base)
+				_ = view.Close()
 				return nil, err
 			}
 			return h, nil
-- 
2.43.0


From 05ee1745ff602dc3581dc1d453622c4862561c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 23/23] fix: synthfs: renaming a directory below itself cut it
 off, and onto itself failed

---
 vroot/synthfs/rename.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..ef43af9 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -25,7 +26,18 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
+	if td, ok := target.(*dir); ok {
+		// A directory moved below itself would be cut off from the root.
+		for p := newParent; p != nil; p = p.parent {
+			if p == td {
+				return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+			}
+		}
+	}
 	if existing := newParent.lookup(newBase); existing != nil {
+		if existing == target {
+			return nil
+		}
 		// POSIX rename replaces; emulate that for files. Refuse to overwrite
 		// a non-empty directory to keep the operation safe under any platform.
 		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
-- 
2.43.0

