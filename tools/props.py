NOTES, NA = {}, {}

# ---------------------------------------------------------------- vroot
prop("V01", "Prefix views confine every operation to their subtree",
 "A file system view restricted to a directory prefix hands every name of every operation to the backing file system as that prefix or a lexically clean path strictly below it, never as anything outside. A name that is absolute, or that climbs above the view's root, is refused with a path-escape error before the backing file system is touched, and recursively removing the view's own root is refused. The meaning of a name is the prefix joined with the cleaned name, for both names of a two-name operation, and results and errors are those of the backing operation.",
 ["inputs"], "All names (any byte strings, including '', '.', '..', absolute, doubled and trailing separators), all prefixes accepted at construction, every operation.",
 "Tests try a handful of names per operation; the guarantee is over every string and every operation of the interface.",
 ["vroot/pathprefix.go"],
 [("name resolution clean-check-join", "vroot/pathprefix.go resolvePath"), ("every operation resolves its names", "vroot/pathprefix.go")],
 observe=["the calls received by a recording backing file system"])

prop("V02", "Read-only views never change what they wrap",
 "No operation on a read-only file system view, on a read-only rooted view, on a sub-root obtained from one, or on a file handle obtained from any of them performs a mutating operation on the wrapped file system or file: no write-capable, creating, truncating or appending open, and no metadata change. Each such request fails with a read-only (file systems) or not-permitted (file handles) error, having touched nothing. Reads are forwarded with their arguments unchanged and answer exactly what the wrapped object answers, and a failed open never yields a usable handle.",
 ["inputs"], "All method calls with all argument values, including every open-flag combination, for arbitrary wrapped implementations.",
 "Tests exercise sample calls; open flags alone form a 2^n space and the wrapped implementation is arbitrary.",
 ["vroot/readonly.go", "vroot/internal/openflag/flag.go"],
 [("read-only wrapper", "vroot/readonly.go"), ("write-flag classification", "vroot/internal/openflag")],
 observe=["the calls received by the wrapped file system and files"])

prop("V03", "The io/fs bridges keep io/fs semantics in both directions",
 "A file system exported through the io/fs bridge accepts exactly the names io/fs calls valid (that hold no NUL byte), refuses every other name with an invalid-name error before the backing file system is asked, and otherwise passes the name and the answer through unchanged. An io/fs tree imported as a file system cleans names, refuses escaping ones, serves reads from the tree, and refuses every mutating operation and write-capable open. An error from the source never comes back as a successful or usable handle, and listings hold no empty entries.",
 ["inputs"], "All names, all open flags, arbitrary backing implementations and results.",
 "Tests use fixed trees and a few names; the bridge must agree with io/fs validity for every string and forward every outcome.",
 ["vroot/iofs_to.go", "vroot/iofs_from.go"],
 [("exporting wrapper", "vroot/iofs_to.go"), ("importing wrapper", "vroot/iofs_from.go")])

prop("V04", "Path normalisation is exact and identical for every operation",
 "A normalising view passes every operation's name to the backing file system in its lexically cleaned form, and a localising view in the cleaned operating-system form, for both names of a two-name operation. Symbolic-link targets are passed on without being treated as names of the view. Nothing else about a call or its result is altered.",
 ["inputs"], "All names and all operations of the interface, arbitrary backing implementations.",
 "Each operation forwards by hand; one operation forgetting or swapping one name is invisible to tests that use already-clean names.",
 ["vroot/pathnormalizer.go"],
 [("clean-then-forward wrappers", "vroot/pathnormalizer.go")])

# ---------------------------------------------------------------- fsutil
prop("F01", "Symlink-resolving path lookup never leaves the root",
 "Resolving a path through symbolic links yields a clean path inside the root or an error: absolute names, climbing names and links whose targets are absolute or climb above the root are refused with a path-escape error. On success no component of the answer (except the last, when asked to keep it) is a symbolic link according to the file system queried. Every query made during resolution is for a path inside the root, and the number of links followed is bounded, a longer chain or a cycle ending in a too-many-links error.",
 ["inputs", "configurations"], "All path strings and all file-system contents, including cyclic and adversarial symbolic links.",
 "Tests build a few link layouts; escape depends on how cleaned targets combine at every step of an unbounded chain.",
 ["fsutil/resolve_symlink.go"],
 [("component-wise resolution with locality checks", "fsutil/resolve_symlink.go")],
 observe=["returned path and error", "the names passed to lstat/readlink"])

prop("F02", "Safe write replaces the destination atomically or not at all",
 "A safe write or copy creates the new content under a temporary name, and the destination name is touched by exactly one rename, performed only after the content was written, every hook succeeded and the temporary file was closed. If anything fails before that rename the destination is untouched, the error is returned, and the temporary file is removed. Success is reported only if the rename succeeded.",
 ["fault_sequences", "crash_points", "inputs"], "Every subset of failing steps (open, chmod, copy, hooks, sync, close, rename, remove), every crash point between steps, all contents and names.",
 "Tests inject a few failures; the guarantee ranges over every failing step and their combinations.",
 ["fsutil/safe_write.go", "fsutil/open_random.go"],
 [("temp-file, copy, hooks, close, rename sequence", "fsutil/safe_write.go")],
 observe=["the sequence of file-system operations and their arguments"])

prop("F03", "Resumed downloads commit only complete, unmixed content",
 "A resumable download places a file at its destination only after the partial file holds every byte the source declared, and bytes obtained from one version of the source are never combined with bytes of another: a partial file is reused only together with the version tag recorded for it, and when versions or sizes disagree the partial data is discarded or an error is returned. An interrupted transfer leaves the destination untouched. A hook that rejects the content prevents the commit and removes the partial data.",
 ["fault_sequences", "histories", "inputs"], "All source behaviours (tags, sizes, short reads, errors, ignored offsets), all pre-existing partial states, all interruption points.",
 "Tests sample a few resume histories; correctness depends on every combination of stored tag, expected tag, reported tag, sizes and offsets.",
 ["fsutil/resumable.go"],
 [("resume decision and tag sidecar", "fsutil/resumable.go Pull"), ("declared-size check before commit", "fsutil/resumable.go Pull")])

prop("F04", "Resumed uploads commit only the complete current file",
 "A resumable upload asks the sink for its state, sends exactly the bytes of the local file from the offset at which the sink's stored part is a prefix of this version, and otherwise restarts from zero; it commits only after every byte was accepted. A sink whose stored part carries another version tag, or is longer than the file, never has that data committed as this file. A file-backed sink keeps the version tag of its part in step with the part's content and commits by rename.",
 ["fault_sequences", "histories", "inputs"], "All sink states, all local sizes including zero, all failing steps.",
 "Tests cover a few resume histories of one fake sink.",
 ["fsutil/resumable.go", "fsutil/resumable_fs.go"],
 [("push protocol", "fsutil/resumable.go Push"), ("file-backed sink", "fsutil/resumable_fs.go")])

prop("F05", "Temporary names are created exclusively and recognised for cleanup",
 "A temporary file or directory is always created with exclusive creation under a name that the same policy recognises as its own, in the directory the policy designates, so an existing file is never opened or truncated in its place. Cleaning up leftovers removes only names the policy recognises. Random naming retries only on collisions and gives up with an error after a bounded number of attempts.",
 ["inputs", "fault_sequences"], "All destination names, name patterns and random draws, and all error sequences of the file system.",
 "Tests create a few names; agreement between generator and recogniser is over all names.",
 ["fsutil/safe_write.go", "fsutil/open_random.go"],
 [("temp-name policies", "fsutil/safe_write.go"), ("random open", "fsutil/open_random.go")])

# ---------------------------------------------------------------- stream
prop("S01", "A virtually concatenated reader behaves as the one concatenation",
 "Reading, positional reading and seeking over a sequence of sized segments yields exactly the bytes of their concatenation: a positional read at any offset delivers the bytes starting there, crossing segment boundaries, and reports end of input exactly at the total length; a sequential read continues where the previous one ended; seeking accepts exactly the positions io.Seeker allows. A segment that delivers fewer bytes than it declared is reported as an unexpected end of input, never as silently shifted data. Closing closes every segment.",
 ["inputs", "histories"], "All segment size vectors (including zero-length segments), all offsets and buffer sizes, all interleavings of calls, all short-read behaviours of segments.",
 "Tests sample segment layouts and buffer sizes; off-by-one errors live at boundaries of unsampled layouts.",
 ["stream/multi_read_at_closer.go", "stream/multi_read_closer.go"],
 [("binary search for the segment and boundary arithmetic", "stream/multi_read_at_closer.go")])

prop("S02", "Sequential and cancellable readers deliver an exact, gap-free prefix",
 "Adapting a sequential source to positional reads delivers, for every accepted offset, exactly the source's bytes at that offset and refuses offsets it can no longer serve. A cancellable reader returns no data once its context is cancelled and otherwise passes reads through unchanged; a limited, repeating or tee-like helper yields exactly the bytes its definition gives.",
 ["inputs", "histories"], "All call sequences, offsets and buffer sizes, all source behaviours.",
 "Tests use a few offset sequences.",
 ["stream/seq_reader_at.go", "stream/cancellable.go", "stream/repeat.go"],
 [("position tracking", "stream/seq_reader_at.go"), ("context check before read", "stream/cancellable.go")])

prop("H01", "A ranged HTTP reader returns only bytes of one pinned resource version",
 "Every byte handed out by a ranged HTTP reader comes from a response that matches the resource identity observed when it was opened (strong entity tag or last-modified date, and total size) and whose declared range is the one requested. A response of another version, another range, another size, or with an unacceptable status is an error, never data at the wrong offset. Reads are confined to the resource's size and report end of input exactly there.",
 ["inputs", "histories", "fault_sequences"], "All server behaviours (status codes, headers, body lengths), all offsets and lengths.",
 "Tests script a few server responses; a server may answer each request with any status and headers.",
 ["stream/httprange/httprange.go", "stream/httprange/reader_at.go", "stream/httprange/stream.go", "stream/httprange/probe.go", "stream/httprange/range.go", "stream/httprange/content_range.go"],
 [("response validation against the pinned identity", "stream/httprange/httprange.go"), ("range header arithmetic", "stream/httprange")])

prop("H02", "Content-Range parsing accepts exactly well-formed ranges",
 "Parsing a Content-Range value succeeds exactly for the forms 'bytes first-last/total', with plain decimal numbers satisfying first <= last < total, and 'bytes */total' (the refusal of a range), every number fitting 63 bits; the unit may be in any case, with white space around the value and spaces after the unit. The result is exactly the numbers written (and -1, -1 for the refusal). Any other text, including an unknown total, signs and overflowing numbers, is an error and never a panic.",
 ["inputs"], "All header strings.",
 "Tests list a few malformed headers; the set of strings is infinite.",
 ["stream/httprange/content_range.go"],
 [("header parser", "stream/httprange")])

prop("H03", "Chunked transfer covers the content exactly once, in order",
 "A chunked sink splits content into consecutive chunks of the configured size that partition it exactly: chunk k starts at k times the chunk size, only the last one is shorter, and none is skipped or repeated. It reports itself complete only if every chunk is present with its exact size, and otherwise the start of the first chunk that is not; sending resumes only at a chunk boundary, and succeeds only after every chunk from its offset was accepted with its full size. A chunked source opened at an offset delivers exactly the content from there on, or an error; an answer to a range request that starts elsewhere than asked is refused.",
 ["inputs", "histories", "fault_sequences"], "All content sizes, chunk sizes, resume offsets, reader behaviours and failing requests.",
 "Tests use a few sizes.",
 ["stream/fileserver/chunk.go", "stream/fileserver/client.go"],
 [("chunk index arithmetic", "stream/fileserver/chunk.go"), ("range answers", "stream/fileserver/client.go Get")])

prop("H04", "Credentials and query secrets never appear in errors",
 "No error returned by the file-server client or by the ranged HTTP reader shows user information, an opaque part, a query or a fragment of a URL carried by a *url.Error anywhere in its chain, or of the URL it was built for: such a URL is reduced to scheme, host and path, a URL that cannot be parsed is replaced by a placeholder, and what the URL parser quotes of it is hidden. Being a certain error (errors.Is) is preserved through the redaction.",
 ["inputs", "fault_sequences"], "All URLs (well formed, opaque, malformed), all shapes of errors of the HTTP transport, all answers.",
 "Tests check a few URLs around flat errors.",
 ["stream/fileserver/client.go", "stream/httprange/redact.go", "stream/httprange/httprange.go", "stream/httprange/probe.go", "stream/httprange/reader_at.go", "stream/httprange/stream.go"],
 [("URL redaction of errors", "stream/fileserver/client.go redactURLError, stream/httprange/redact.go")])

# ---------------------------------------------------------------- tarfs
prop("T01", "Tar file content is the archive's logical content",
 "Reading a file of a tar file system, sequentially or positionally, yields exactly the entry's logical content: data bytes from their place in the archive and zero bytes in sparse holes, for the entry's declared size. Offsets, segment boundaries and end of input follow that logical size.",
 ["inputs"], "All archives (plain and sparse layouts), offsets and buffer sizes.",
 "Tests use a few archives.",
 ["tarfs/entfile.go", "tarfs/reader.go", "tarfs/headers.go", "tarfs/copied_go_std.go"],
 [("segment construction from sparse maps", "tarfs/reader.go makeReader")])

prop("T02", "Tar file systems resolve names like io/fs and never crash",
 "For every well-formed archive, however its entries are ordered, duplicated, linked or nested, opening, listing, stat-ing and link-reading any name terminates without a crash and either answers consistently with the archive's tree or returns an error. Names that io/fs calls invalid are refused, symbolic links are followed only inside the tree and boundedly often, and directory listings agree with lookups.",
 ["inputs"], "All archives, including implicit directories, replaced entries, link cycles and links to links; all names.",
 "Tests use a few archives; hostile layouts are unbounded.",
 ["tarfs/fs.go", "tarfs/entdir.go", "tarfs/enthardlink.go", "tarfs/entsymlink.go"],
 [("tree construction", "tarfs/entdir.go addChild"), ("name resolution", "tarfs/entdir.go")])

# ---------------------------------------------------------------- synthfs
prop("Y01", "Synthetic file systems stay well-formed trees under every history",
 "After any sequence of operations on an in-memory composed file system the directory structure is a tree rooted at the root: every entry is reachable, no directory is its own descendant, an entry found by name is the one listed under that name, and failed operations change nothing. A rename moves exactly the named entry; a removal removes exactly the named entry and refuses non-empty directories.",
 ["histories", "inputs"], "All operation sequences and names.",
 "Tests run short fixed scripts; invariants must hold after every prefix of every history.",
 ["vroot/synthfs/node.go", "vroot/synthfs/rename.go", "vroot/synthfs/remove.go", "vroot/synthfs/mkdir.go", "vroot/synthfs/link.go", "vroot/synthfs/open.go", "vroot/synthfs/add.go"],
 [("tree primitives", "vroot/synthfs/node.go addEntry/removeEntry"), ("operations", "vroot/synthfs/rename.go, remove.go, mkdir.go, link.go")])

prop("Y02", "Synthetic roots confine path resolution",
 "No name and no symbolic link lets an operation on a synthetic root act on anything outside it: a name that is absolute or climbs out, directly or through links, ends in a path-escape error, and link chains are followed at most a fixed number of times before a too-many-links error. A sub-root is confined to its own directory in the same way.",
 ["inputs", "histories"], "All names, all link targets, all tree shapes.",
 "Tests try a few escape spellings.",
 ["vroot/synthfs/tree.go", "vroot/synthfs/root.go"],
 [("resolution loop with link budget", "vroot/synthfs/tree.go resolve")])

prop("Y03", "In-memory files are exact byte arrays",
 "An in-memory file answers reads, positional reads and writes, appends, seeks and truncation as a growable byte array does: a write at an offset stores exactly those bytes there, zero-fills any gap and changes nothing else; a read returns exactly the stored bytes; size is the highest byte written or the truncation length. Invalid offsets and sizes are errors, never crashes.",
 ["inputs", "histories"], "All offsets, sizes, contents and call sequences.",
 "Tests sample offsets and sizes.",
 ["vroot/synthfs/view_mem_buf.go", "vroot/synthfs/view_mem.go", "vroot/synthfs/handle.go"],
 [("buffer operations", "vroot/synthfs/view_mem_buf.go")])

prop("Y04", "File handles honour their open mode and position",
 "A handle of a synthetic file system permits exactly the operations its open mode allows: no reads on write-only handles, no writes on read-only handles, appends always at the end, and nothing after close. Sequential operations start at the handle's position and advance it by exactly the bytes transferred; positional ones leave it alone; seeking accepts exactly non-negative positions.",
 ["inputs", "histories"], "All open-flag combinations and call sequences.",
 "Tests sample modes and sequences.",
 ["vroot/synthfs/handle.go", "vroot/synthfs/handle_dir.go", "vroot/synthfs/open.go"],
 [("mode checks and offset arithmetic", "vroot/synthfs/handle.go")])

# ---------------------------------------------------------------- overlayfs
prop("O01", "An overlay never writes to its lower layers",
 "No operation on an overlay, and no operation on a file handle obtained from it, performs a mutating operation on any lower layer: lower files are opened for reading only, and every creation, modification, removal and rename happens in the top layer. A file that exists only below is copied up before it is opened for writing or has its metadata changed.",
 ["inputs", "histories", "fault_sequences"], "All operations, names, flags, layer stacks and failures of layer operations.",
 "Tests check sample operations; a single missed path that opens a lower file for writing corrupts shared data.",
 ["vroot-adapter/overlayfs/fs.go", "vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/file.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/mkdir.go"],
 [("copy-up before write", "vroot-adapter/overlayfs/copyup.go"), ("top-only mutations", "vroot-adapter/overlayfs")])

prop("O02", "Overlay lookups follow mount order and masking exactly",
 "A name is visible in an overlay exactly if some layer has it and no higher layer masks it: the highest layer that has the name answers unless a layer above whites the name or one of its ancestors out, makes an ancestor opaque, or replaces an ancestor by a non-directory. Directory listings contain exactly the names that lookups find, each once.",
 ["inputs", "histories", "configurations"], "All layer contents, all mask records and all names.",
 "Tests use small hand-written stacks; the masking rules interact across depths and layers.",
 ["vroot-adapter/overlayfs/resolve.go", "vroot-adapter/overlayfs/merged.go", "vroot-adapter/overlayfs/state.go"],
 [("layer search with cut-off", "vroot-adapter/overlayfs/resolve.go"), ("mask state", "vroot-adapter/overlayfs/state.go"), ("merged listing", "vroot-adapter/overlayfs/merged.go")])

prop("O03", "Overlay mutations are ordered so that a crash never resurrects data",
 "A deletion records its whiteout before the top layer's entry is dropped, and a creation removes a mask only after the new entry exists in the top layer; a directory made over a masked name is recorded as opaque before its mask goes. Hence after a crash or failure between any two steps, deleted lower entries do not reappear and no operation that reported success is undone.",
 ["crash_points", "fault_sequences"], "Every failing step and every crash point between two layer or mask-store operations.",
 "Tests cannot place a crash between each pair of steps.",
 ["vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/mkdir.go", "vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/state.go"],
 [("ordering of store and layer operations", "vroot-adapter/overlayfs")])

prop("O04", "Mask state in memory never runs ahead of the persistent store",
 "Every change of an overlay's masking state is committed to its persistent store before it takes effect in memory; if the store refuses the change, the in-memory state is unchanged and the operation fails. After any history the in-memory state equals what a fresh load of the store would give.",
 ["fault_sequences", "histories", "crash_points"], "All sequences of mask changes and all store failures.",
 "Tests do not fail the store at each call.",
 ["vroot-adapter/overlayfs/state.go", "vroot-adapter/overlayfs/metadatastore_sqlite.go"],
 [("store-then-memory update", "vroot-adapter/overlayfs/state.go")])

NOTES["Y03"] = "For all contents, offsets, lengths and call sequences: every buffer operation takes effect once, between one lock and its unlock (whatever other calls did before), with exactly the bytes its contract states; machine integers are modelled. Trusts that append clears the memory it adds, that the content array is not shared with callers, and that a panic of append (caught in grow) leaves the buffer alone. Read-only byte views forward to bytes.Reader (trusted)."
NOTES["V02"] = "For all arguments and arbitrary wrapped implementations: every method of the read-only file system, root and file wrappers satisfies its contract (no mutating call below, refusals, faithful forwarding). Trusts the interface contracts that say which wrapped methods mutate, and the verifier."

NOTES["Y04"] = "For all open flags, handle states and call sequences: each operation of a file or directory handle is refused or performed as its mode states, on the position it states, and moves the position by exactly what was transferred; each call takes effect once, between one lock and its unlock. File views are arbitrary implementations obeying io.ReaderAt/WriterAt contracts; the mode table of open.go is verified with the flag bits as machine integers. Listings of a directory handle are cut out of a snapshot whose content belongs to Y01."
NOTES["Y01"] = "For all trees, names and answers of views, allocators, merge callbacks and merged-in file systems: every operation that edits the tree keeps its well-formedness invariant (each directory's index and ordered list agree entry by entry, an entry's key is its node's name, a child directory's parent is the directory listing it, no node is listed twice, directories share no index or list), changes exactly the entries its contract names, changes none when it fails (AddFile and AddFS, documented as not atomic, keep the invariant), and Rename refuses to move a directory below itself. Resolution (resolveParent, findNode) is used through its Y02 contract; container/list is a trusted contract; operations are verified between lock and unlock. Which entry order a listing shows, and when views of hard-linked files are closed, are not part of it."
NOTES["Y02"] = "For all names, link targets and tree shapes: every operation resolves its names component by component inside the root it was called on, follows at most the fixed number of links, refuses absolute and climbing names and targets, and acts only on entries so reached. The tree primitives (lookup, addEntry, removeEntry, entriesSnapshot) are used through contracts whose bodies belong to Y01, and the directory tree is assumed well formed (an entry's parent is the directory listing it); path/filepath and container/list are trusted contracts."
NOTES["V01"] = "For all names, prefixes and arbitrary backing implementations: every method of the prefix view refuses or forwards exactly once, with the arguments and results its contract states; containment of the joined path is a lemma over the trusted contracts of path/filepath (Clean, IsLocal, Join), which the harness compares with an independent definition."
NOTES["V03"] = "For all names, flags and backing implementations: every method of both bridges and of their handles satisfies its contract. Bodies of io.ReadAll, fs.Stat, fs.ValidPath, filepath.Localize/Clean/IsLocal are trusted contracts; ordering of listings is exercised by the harness only."
NOTES["V04"] = "For all names and backing implementations: each forwarding method makes exactly one call with the cleaned names and unchanged other arguments, and answers its result. filepath.Clean is a trusted function; on this platform both separators coincide."
NOTES["F01"] = "For all names and arbitrary answers of the queried file system: ResolvePath asks only for clean paths inside the root, walks the remaining name component by component (no query below a link), follows at most 40 links, terminates, refuses escaping links, and on success answers the fully walked path. Trusts the path/filepath contracts and that Lstat/ReadLink answer arbitrarily but without changing the resolver's own state."
NOTES["F02"] = "For all sources, hooks and failures: one rename, after all content, hooks and the close; cleanup and error reporting on every failing path. The order of effects is a ghost history over trusted interface contracts (OpenFile, Rename, Remove, Close); io.Copy is a trusted contract."
NOTES["F05"] = "For all patterns, directories and answers of the file system: creations are exclusive, retried only after collisions and at most 10000 times; made names have the recognised form in the designated directory; cleanup removes exactly recognised names. Random numbers are arbitrary 32-bit values; strconv.FormatUint, strings.Builder and path/filepath are trusted contracts."
NOTES["S01"] = "For all segment lists, offsets and buffers, and arbitrary segments that obey io.ReaderAt: positional and sequential reads deliver the concatenation's bytes, ends and errors as stated, seeking and closing likewise. The binary search of slices.BinarySearchFunc and io.ReadFull's callee contracts are trusted; segment offsets are mathematical integers (their sum is assumed not to overflow int64)."
NOTES["S02"] = "For all call sequences and sources: the sequential adapter tracks exactly the source's position, refuses offsets it cannot serve and never leaves a gap; the cancellable wrappers ask the context first; the repeater's bytes are those of its definition. Contexts and sources are arbitrary; io.CopyN/io.Discard style helpers are trusted contracts."
NOTES["H02"] = "For all strings: parseContentRange succeeds exactly on the stated form and yields the numbers written there, and never panics. strings.TrimSpace, TrimLeft, EqualFold, Cut and strconv.ParseInt are trusted contracts; the harness compares the parser with an independent unbounded-integer reader."
NOTES["H03"] = "For all total sizes, chunk sizes, offsets and reader behaviours: the partition arithmetic (machine integers), the chunks sent by Append and their sizes, the verdict of State, the reads of a chunked source and the acceptance of range answers. The clients of the chunk objects, io.LimitReader, temporary files and net/http are trusted contracts; what the server stores is the harness's in-memory server."
NOTES["H04"] = "For all errors and URLs, under a two-level taint labelling: a text rendered from a URL that has user information, opaque part, query or fragment is secret, and no error built by the two packages may take a secret argument or an error that is, wraps or quotes an unredacted *url.Error; redactURLError is proved to return only redacted ones at every level of the chain. net/url, errors.As and fmt are trusted contracts; that texts of other errors (numbers, sentinels, bodies) show no URL is assumed. The harness renders real errors around hostile URLs."
NOTES["H01"] = "For all answers of the server, offsets, buffers and earlier states of the pinned description: every byte and every end of input a read hands out, bounded or from the lane, belongs to an acceptable response of the pinned identity. Goroutines are handled by rely/guarantee on the pinned description and by the lock's invariant, not by exploring interleavings (the harness runs some). parseContentRange is used through the contract unit H02 proves; net/http, sync/atomic and io.ReadFull are trusted contracts; no integer overflow in the arithmetic of the readers is proved."
NOTES["T01"] = "For all header sequences, sparse maps and archives: sections are laid end to end as archive/tar reads them; the main header of a sparse entry is found behind its extension headers; inverting a valid data map gives the ordered complement up to the size; the reader built is, in order, the data from its place in the archive and zeros elsewhere for the declared size (that such a list reads as its concatenation is S01); opened files forward to it. The parsers of the three sparse map formats (copies of archive/tar's) are trusted contracts, compared with archive/tar by the harness on byte-built archives; sizes are mathematical integers."
