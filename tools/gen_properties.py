#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":a})

p("C01","File reads return exactly the file's bytes",
 "For every regular file of a valid image, reading n bytes at position o delivers exactly min(n, size-o) bytes (0 at or past the end of the file, also for n = 0, and this is success, not an error), each equal to the file's content, and writes nothing else into the caller's buffer. This holds however the file is stored: any mix of compressed, stored-uncompressed and sparse (hole) blocks, a short last block, a tail in a shared fragment block, no fragment at all, a basic or extended inode, an empty file, and an image that starts at any byte offset of the memory region.",
 ["inputs","configurations"],"every block layout of up to a few blocks x tail kind x inode kind x image offset, every (position, length) around every block edge",
 "The tests read two files that fit in one fragment; no test reads a data block, a sparse block, a stored block, a block edge or an image at a non-zero offset.",
 ["src/file.c","src/fs.c","src/fd.c","src/decompress.c","include/squash/file.h"],
 [("block list walk, fragment tail and hole handling","src/file.c:sqfs_read_range, sqfs_blocklist_next, sqfs_frag_block"),("block decoding","src/fs.c:sqfs_block_read, sqfs_data_header"),("position handling","src/fd.c:squash_read")],
 ["squash_read","sqfs_read_range"])
p("C02","Random access in very large files reads the right bytes",
 "In a file with so many blocks that its list of block sizes spans several metadata blocks, a read at any position returns the same bytes as a sequential read of the file would deliver there. This holds wherever the inode lies within its metadata block, for files with or without a fragment tail and with sparse blocks, and no matter which other large files were read before, including more of them than the library remembers positions for.",
 ["inputs","histories","configurations"],"every block-list size around the metadata-block edges x every inode placement modulo the metadata block (aligned and unaligned) x read positions at every metadata-block edge x histories over more large files than the index remembers",
 "No fixture contains a file of more than one block, so the block index is never built by a test.",
 ["src/file.c","src/cache.c"],
 [("block index construction and use","src/file.c:sqfs_blockidx_add, sqfs_blockidx_blocklist"),("index cache keyed by inode","src/cache.c:sqfs_cache_get, sqfs_cache_add")],
 ["squash_read","squash_lseek","sqfs_read_range"])
p("C03","Each virtual descriptor is an independent cursor",
 "Every open virtual descriptor has its own position: it starts at 0, advances by exactly the number of bytes each read returned, is moved by a seek to the given offset (SET), by the given offset from the current position (CUR) or to the file size (END, as documented), and the seek returns the resulting position. Operations on one descriptor never move another, even one open on the same file; a call that fails - including a seek to a negative position or with an unknown whence, which must fail - leaves every position unchanged; fstat on a descriptor reports what stat reported for its path.",
 ["histories","inputs"],"every sequence, up to a depth bound, of open/read/lseek/fstat/close over several descriptors on several files, with offsets in front of, at, and past both ends of the file",
 "The tests exercise one fixed sequence over two descriptors; no negative, overflowing or past-the-end seek.",
 ["src/fd.c","src/stat.c"],
 [("descriptor position","src/fd.c:squash_read, squash_lseek"),("fstat from the descriptor","src/stat.c:squash_fstat")],
 ["squash_open","squash_read","squash_lseek","squash_fstat","squash_close"],
 [("squash_file.pos","position of one virtual descriptor","include/squash/fdtable.h")])
p("C04","The virtual descriptor table never confuses, loses or leaks descriptors",
 "A descriptor returned by an open (or a directory stream) is a fresh descriptor number of the process that no other open descriptor, virtual or real, has; it stays valid and refers to the file it was opened on until it is closed, whatever is opened or closed in between and in whatever order, and its number becomes available again after the close. Every call with a number that is not an open virtual descriptor (never opened, already closed, negative, a real descriptor, far beyond any in use) fails with EBADF and touches nothing, in particular no real descriptor. Neither a failing call nor a completed open/close, opendir/closedir, scandir or extract leaves a descriptor or memory behind.",
 ["histories"],"every sequence, up to a depth bound, of open/opendir/close/closedir on files, directories and missing paths interleaved with real descriptors being opened and closed, so that the table grows, shrinks and has holes",
 "The tests open a few descriptors in one fixed order; growth of the table, closing out of order, holes, and reuse of numbers are not reached.",
 ["src/fd.c","src/dirent.c","src/stat.c","src/scandir.c","src/extract.c","include/squash.h"],
 [("table growth, insertion, end mark","src/fd.c:squash_open_inner, squash_close"),("validity check","include/squash.h:SQUASH_VALID_VFD"),("directory streams own a descriptor","src/dirent.c:squash_opendir_inner, squash_closedir"),("reverse lookup","src/fd.c:squash_find_entry")],
 ["squash_open","squash_close","squash_opendir","squash_closedir","squash_find_entry"],
 [("squash_global_fdtable","maps descriptor numbers to open files; end is one past the highest used","include/squash/fdtable.h")])
p("C05","Paths without symbolic links resolve to exactly the named object",
 "For a path that goes through no symbolic link, stat, lstat, open and opendir find exactly the object obtained by taking its components one by one from the root: repeated slashes and '.' components are no-ops, '..' removes the component before it, a leading slash is optional, and names are compared byte for byte (a prefix or extension of a name is a different name). A path that names nothing, that climbs above the root, or that continues below something that is not a directory fails, and never finds anything.",
 ["inputs"],"every path of up to a bounded number of components over an alphabet of present names, absent names, prefixes and extensions of names, '.', '..' and empty components, with and without leading and trailing slash",
 "The tests look up about ten literal paths, none of them with '.', '..', doubled slashes or prefixes of names.",
 ["src/dir.c","src/stat.c","src/fd.c","src/dirent.c"],
 [("component walk","src/dir.c:sqfs_lookup_path_inner"),("lexical dot-dot","src/dir.c:clear_dot_dot")],
 ["squash_stat","squash_lstat","squash_open","squash_opendir","sqfs_lookup_path"])
p("C06","Symbolic links are followed exactly, within bounds, and never crash",
 "stat, open, opendir and scandir follow a symbolic link in the last component, lstat and readlink do not, and links in earlier components are always followed; an absolute target is resolved from the root of the image (after a configured root alias prefix is stripped), a relative one from the directory that contains the link. Chains of up to 32 links resolve; longer chains and loops of any shape (self loops, mutual loops, loops through a middle component) fail with ELOOP, and dangling links fail with ENOENT. Whatever the links contain and however long the target or the combined path is, a lookup terminates and stays within its buffers, failing cleanly with ENAMETOOLONG if a path is too long.",
 ["inputs","configurations"],"every graph of a bounded number of links and directories with every target of a bounded grammar (absolute, relative, dot, dot-dot, through other links, dangling, aliased), every path over it, chain lengths 1..40, target and path lengths around the 2048-byte limit",
 "The fixture has a handful of links; the tests cover one loop shape and no relative dot-dot target below another link, long target, alias or chain limit.",
 ["src/dir.c","src/readlink.c"],
 [("link following","src/dir.c:squash_follow_link, sqfs_lookup_path_inner"),("target and alias rewriting","src/readlink.c:squash_readlink_inode")],
 ["squash_stat","squash_lstat","squash_open","squash_opendir","squash_readlink"])
p("C07","Directory listings are complete, ordered and correct",
 "Reading any directory of a valid image from the start delivers every entry exactly once, in stored order, with its exact name (any bytes, 1 to 256 long), the right type for each of the 14 inode kinds, and its inode number, and then reports the end - again on every further call. This holds for empty directories, directories with many headers and inode-number differences of either sign, directories whose listing begins at any offset of a metadata block and crosses metadata-block edges, compressed or stored, and basic or extended directory inodes; names longer than the entry record can hold must not write outside it.",
 ["inputs","configurations"],"every directory shape up to a bound: entry counts 0..600, name lengths 1..256, listing start at every kind of offset within a metadata block, header splits, each entry type",
 "The largest directory in the fixture has a handful of short names in a single header.",
 ["src/dir.c","src/dirent.c","src/fs.c"],
 [("entry iteration","src/dir.c:sqfs_dir_next"),("conversion to dirent","src/dirent.c:squash_readdir"),("metadata cursor","src/fs.c:sqfs_md_read")],
 ["squash_readdir","sqfs_dir_next"])
p("C08","Name lookup agrees with the directory listing",
 "In every directory, looking a name up succeeds exactly for the names the listing contains and yields that entry's type, inode and number; every other name (prefixes and extensions of present names, names sorting before, between and after them) is reported as absent. This also holds for large directories that carry a name index, for every target position relative to the index entries, and for directories placed anywhere in the directory table.",
 ["inputs","configurations"],"for every generated directory (sizes 0..600 spanning up to several metadata blocks, with and without index, any start offset): every present name, and for each its prefixes, one-byte extensions and neighbours",
 "No fixture directory has an index, and only a few names are ever looked up.",
 ["src/dir.c"],
 [("lookup with index","src/dir.c:sqfs_dir_lookup, sqfs_dir_ff_header, sqfs_dir_ff_name_f")],
 ["sqfs_dir_lookup","squash_stat"])
p("C09","Directory stream positions can be saved and restored",
 "Seeking a directory stream to a position previously returned by telldir makes the next read deliver the entry that was next at that time, rewinding starts over from the first entry, and two streams, even on the same directory, never affect each other. On the lower-level interface, opening a directory at the offset at which any entry starts delivers the listing from that entry on, and an offset at which no entry starts is refused with an error.",
 ["histories","inputs"],"every sequence, up to a depth bound, of readdir/telldir/seekdir/rewinddir over two interleaved streams on directories from empty to larger than any internal buffer; every start offset of indexed and unindexed directories",
 "The tests seek once in a three-entry directory; resuming at an offset is not tested at all.",
 ["src/dirent.c","src/dir.c"],
 [("buffered entries and position","src/dirent.c:squash_readdir, squash_telldir, squash_seekdir, squash_rewinddir"),("offset fast-forward","src/dir.c:sqfs_dir_open, sqfs_dir_ff_offset")],
 ["squash_readdir","squash_telldir","squash_seekdir","squash_rewinddir","sqfs_dir_open"])
p("C10","scandir returns exactly the selected entries, sorted, and freeable",
 "scandir calls the select function once on every entry of the directory, returns the number of entries it accepted (all of them when it is NULL), stores an array holding exactly copies of those entries, in listing order or sorted by the comparison function when one is given, and stores an array that can be freed even when the count is 0. On failure it returns -1 and stores nothing that has to be freed; in both cases no descriptor and no memory beyond the result remains.",
 ["inputs"],"directory sizes 0..2100 including around 1024, every subset selection for small directories, ascending and descending comparisons, missing paths and non-directories",
 "The tests scan one three-entry directory; empty results and large directories are not reached.",
 ["src/scandir.c","src/dirent.c"],
 [("collection loop, array sizing","src/scandir.c:squash_scandir")],
 ["squash_scandir"])
p("C11","stat, lstat and fstat report the stored metadata",
 "For every object of a valid image, whichever of the 14 inode kinds it is, stat, lstat and fstat report the file type matching the inode kind, the stored permission, set-uid, set-gid and sticky bits, the stored link count (1 for basic regular files), the stored modification time in all three time fields, the file size for regular files (64-bit) and the target length for symbolic links, and the stored device number for devices - and zero in the other size and device fields. The result does not depend on where in the inode table the inode lies, even across a metadata-block edge.",
 ["inputs","configurations"],"all 14 inode kinds x all 4096 mode values x extreme mtimes, link counts, sizes and device numbers x every inode position relative to a metadata-block edge",
 "The tests check the type and size of a few basic inodes.",
 ["src/fs.c","src/private.c","src/stat.c","src/nonstd-stat.c","src/nonstd-makedev.c"],
 [("inode decoding","src/fs.c:sqfs_inode_get, sqfs_decode_dev"),("stat filling","src/private.c:sqfs_stat"),("type bits","src/nonstd-stat.c:sqfs_mode")],
 ["squash_stat","squash_lstat","squash_fstat"])
p("C12","readlink returns the exact target for every buffer size",
 "readlink on a symbolic link delivers exactly the stored target, with a configured root alias prefix replaced by the image root, and returns its length if the buffer is larger than the stored target; a smaller buffer (including size 0) makes it fail with ENAMETOOLONG without writing outside the buffer. On an object that is not a symbolic link it fails with EINVAL, on a missing path with ENOENT; the lower-level call truncates to the buffer and always terminates the string.",
 ["inputs","configurations"],"target lengths 1..2050 x buffer sizes 0..target+3 x both root aliases set, unset, matching, nearly matching and longer than the target",
 "The tests read two links with two buffer sizes and no alias.",
 ["src/readlink.c","src/fs.c"],
 [("length check and alias rewriting","src/readlink.c:squash_readlink_inode"),("low level","src/fs.c:sqfs_readlink")],
 ["squash_readlink","sqfs_readlink"])
p("C13","A failing call sets errno itself, independently of earlier errors",
 "Whenever a public call that mirrors a system call fails, it reports failure (-1 or NULL) and errno is a non-zero value determined by this call alone: the same call on the same image fails with the same errno whatever errno was before it. A missing path gives ENOENT, an invalid descriptor EBADF, a link loop ELOOP, an over-long path ENAMETOOLONG or ENOENT, readlink on a non-link EINVAL, and opening a directory stream on a non-directory ENOTDIR or ENOENT.",
 ["histories","inputs"],"every failing call of the API x every kind of failure x every errno value left over from before (0 and every errno constant)",
 "The tests check errno after four failures, always starting from errno 0 or the same value.",
 ["src/stat.c","src/fd.c","src/dirent.c","src/readlink.c","src/scandir.c","src/extract.c","src/dir.c"],
 [("errno assignment on each failure path","src/stat.c, src/fd.c, src/dirent.c, src/readlink.c")],
 ["errno"])
p("C14","Tree traversal visits every object once, in order, and can prune or stop",
 "Traversing from a directory delivers every object below it exactly once in depth-first listing order, each with its path relative to the start, and delivers an end marker with the directory's path after the last object of every directory below the start. Pruning right after a directory was delivered skips exactly its contents (and its end marker); the traversal can be closed at any point and more than once; after the last object it keeps reporting the end; any depth and any path length work.",
 ["inputs","histories"],"every tree shape up to a bounded number of nodes, chains deeper than every internal capacity, long names, every prune decision vector and every stopping point",
 "No existing test uses the traversal interface on anything but the tiny fixture.",
 ["src/traverse.c","src/stack.c","src/dir.c"],
 [("state machine and path buffer","src/traverse.c:sqfs_traverse_next, sqfs_traverse_descend_inode, sqfs_traverse_ascend"),("level stack","src/stack.c")],
 ["sqfs_traverse_open","sqfs_traverse_next","sqfs_traverse_prune","sqfs_traverse_close"])
p("C15","Extraction yields a complete private copy or nothing",
 "Extracting a file returns the path of a temporary file in the temporary directory (TMPDIR, TMP or TEMP, the first that is set, else /tmp) whose content equals the file and whose name ends in the requested extension; extracting the same path of the same image again returns the same path until the cache is cleared, distinct files get distinct temporary files, even many within one second, and the caller may free or change its path string afterwards. If anything fails (missing file, not a regular file, allocation, reading, creating, writing or closing the temporary file), the call returns NULL with errno set and leaves no file, descriptor or cache entry behind. Clearing the cache removes every extracted file, after which extraction works afresh.",
 ["fault_sequences","histories","inputs"],"every sequence up to a depth bound of extract/clear over files of several images, file sizes around the copy-buffer size, and a fault at every single I/O or allocation operation of an extraction",
 "The tests never call extract; no test injects an I/O failure.",
 ["src/extract.c"],
 [("copy loop and cache","src/extract.c:squash_uncached_extract, squash_extract, squash_extract_clear_cache"),("name choice","src/extract.c:squash_tmpf, squash_tmpdir")],
 ["squash_extract","squash_extract_clear_cache"])
p("C16","Caching is invisible: results do not depend on access history",
 "The result of every operation (read, readdir, lookup, stat, readlink) on an image depends only on its arguments and the state of its handle, never on which objects were accessed before on the same or on another image: each operation gives the same result on a freshly opened image as after any sequence of other operations, however these fill, hit and evict the metadata, data, fragment and block-index caches.",
 ["histories"],"every sequence, up to a depth bound, over accesses to more metadata blocks, data blocks, fragments and large files than each cache has slots, on two images opened at the same time",
 "The fixture has one metadata block per table and one fragment block, so nothing is ever evicted in a test.",
 ["src/cache.c","src/fs.c","src/file.c","src/table.c"],
 [("slot search and round-robin eviction","src/cache.c:sqfs_cache_get, sqfs_cache_add"),("block caches","src/fs.c:sqfs_md_cache, sqfs_data_cache"),("block index cache","src/file.c:sqfs_blockidx_add")],
 ["all read operations"],
 [("md_cache, data_cache, frag_cache, blockidx","cached blocks keyed by position / inode number","include/squash/fs.h")])
p("C17","Concurrent use from several threads is race free and linearizable",
 "Threads that use the library at the same time on the same image, each on its own descriptors and directory streams, get exactly the results each would get alone, under every interleaving: no data race, no use of freed memory, no deadlock, no lost or mixed-up descriptor and no leaked memory. Opening, closing and looking up descriptors may run concurrently with reads on other descriptors and with the process opening and closing real descriptors.",
 ["schedules"],"all interleavings, up to a preemption bound, of 2-3 threads each running a short program of stat/open/read/lseek/fstat/close/opendir/readdir/closedir/readlink on one image whose caches are under eviction pressure",
 "The tests are single threaded.",
 ["src/fd.c","src/fs.c","src/cache.c","src/file.c","src/table.c","src/dirent.c","src/stat.c","src/mutex.c"],
 [("global table lock","src/fd.c:squash_global_mutex"),("per-cache locks","src/fs.c:sqfs_md_cache, sqfs_data_cache"),("block index lock","src/file.c:sqfs_blockidx_blocklist")],
 ["all calls"])
p("C18","A damaged block fails only the operations that need it",
 "If a compressed block of the image (metadata, data or fragment) cannot be decompressed, every operation that needs it fails with an error each time it is tried, and every operation that does not need it gives the same result as on the undamaged image, before and after such failures and however the two are interleaved. No such failure crashes the process, delivers wrong data as success, or is turned into success later; closing the image afterwards is clean.",
 ["fault_sequences","histories","inputs"],"each compressed block of the image damaged in turn (several damage patterns) x all sequences, up to a depth bound, over operations that need and do not need it",
 "No test uses a damaged image.",
 ["src/fs.c","src/cache.c","src/decompress.c","src/file.c","src/table.c"],
 [("failed block read must not stay cached","src/fs.c:sqfs_md_cache, sqfs_data_cache, sqfs_block_read"),("decompressor errors","src/decompress.c")],
 ["all read operations"])
p("C19","Running out of memory at any point fails cleanly",
 "If one memory allocation fails at any point of any operation (opening the image, stat, open, read, opendir, readdir, scandir, readlink, traversal, extract, close), that operation reports failure or still gives its correct result; nothing crashes, deadlocks, leaks, or corrupts state, and every later operation works as if the failed one had not been attempted (or had succeeded, if it reported success).",
 ["fault_sequences"],"each operation of the API, from a cold and from a warm state x the k-th allocation failing, for every k x every operation run afterwards",
 "No test injects an allocation failure.",
 ["src/fd.c","src/dirent.c","src/scandir.c","src/fs.c","src/cache.c","src/file.c","src/dir.c","src/extract.c","src/traverse.c","src/stack.c"],
 [("allocation failure paths","every malloc/calloc/realloc/strdup in src")],
 ["all calls"])
p("C20","Only supported images are accepted, with the right reason",
 "Opening an image succeeds exactly if its magic number, version (major 4, minor not above the supported one) and compression type (zlib) are supported: a wrong magic is reported as bad format, an unsupported version as bad version, an unsupported compression as bad compression, in this order of precedence, for every value of these fields and every image offset. A refused image never crashes the process and leaves nothing allocated, and the version and compression accessors report the header's values even then; a closed image can be opened again.",
 ["inputs"],"all 65536 compression values, all major and minor versions 0..65535 separately and around the supported pair jointly, every single-bit flip of the magic, x image offsets",
 "The tests open one valid image.",
 ["src/fs.c","src/decompress.c","src/util.c"],
 [("superblock checks","src/fs.c:sqfs_init"),("compression dispatch","src/decompress.c:sqfs_decompressor_get"),("message and cleanup","src/util.c:sqfs_open_image")],
 ["sqfs_init","sqfs_open_image","sqfs_version","sqfs_compression"])
p("C21","Id, export and fragment tables give the right entry for every index",
 "For every index below the table's length, the id lookup returns the stored id, the export lookup (when the image has an export table) returns the inode reference stored for that inode number, which leads to the inode with that number, and the fragment lookup returns the stored position and size - for tables of any length, including those that span several metadata blocks and entries next to their edges. Without an export table the export lookup reports the feature as unsupported; a file without fragment has no fragment entry.",
 ["inputs","configurations"],"table lengths at and around every metadata-block edge x every index, compressed and stored tables, image offsets, orders of access",
 "The tests never call these lookups directly; the fixture's tables have one entry.",
 ["src/table.c","src/fs.c","src/file.c"],
 [("index arithmetic","src/table.c:sqfs_table_get, sqfs_table_init"),("users","src/fs.c:sqfs_id_get, sqfs_export_inode; src/file.c:sqfs_frag_entry")],
 ["sqfs_id_get","sqfs_export_inode","sqfs_frag_entry"])
p("C22","The interception layer routes each descriptor call to its owner",
 "Through the sample's interception layer, read, pread, readv, lseek, fstat, close, fdopendir and the directory stream calls on a virtual descriptor act on the image with their POSIX meaning (pread and its failures leave the position alone, readv fills its segments in order and skips empty ones, 64-bit results are not truncated), and the same calls on any other descriptor or stream behave exactly as the operating system's, whatever mixture of both kinds is open.",
 ["histories","inputs"],"every sequence, up to a depth bound, of these calls over a mixture of virtual and real descriptors and streams, with every segment split of small readv requests",
 "The sample program makes three calls (mkdir, chdir, mkdir); none on descriptors.",
 ["sample/enclose_io_unix.c","src/fd.c","src/dirent.c"],
 [("dispatch on table membership","sample/enclose_io_unix.c:enclose_io_read, enclose_io_pread, enclose_io_readv, enclose_io_lseek, enclose_io_close, enclose_io_fdopendir, enclose_io_readdir"),("reverse lookup","src/fd.c:squash_find_entry")],
 ["enclose_io_* descriptor calls"])
p("C23","The interception layer redirects exactly the paths of the memory filesystem",
 "Path calls of the interception layer (stat, lstat, open, openat, access, readlink, opendir, scandir, getcwd, chdir) serve from the image every path under the memory-filesystem root, and every relative path while the working directory lies inside it, resolved against that directory; every other path goes to the operating system unchanged. A successful chdir, absolute or relative, into the image makes getcwd report that directory (failing with ERANGE or allocating as POSIX says), chdir to a real directory returns to normal, and a failing chdir changes nothing.",
 ["histories","inputs"],"every sequence, up to a depth bound, of chdir (image, real, missing, file) and path calls over absolute and relative paths of both worlds, getcwd with every buffer size",
 "The sample program makes one chdir and never looks a path up.",
 ["sample/enclose_io_unix.c","sample/enclose_io_common.h"],
 [("path test and expansion","sample/enclose_io_unix.c:enclose_io_is_path, enclose_io_chdir, enclose_io_getcwd; sample/enclose_io_common.h:ENCLOSE_IO_GEN_EXPANDED_NAME")],
 ["enclose_io_* path calls"])
p("C24","The generic containers behave as their models",
 "The stack behaves as a stack of fixed-size items (push, pop, top, at, size, out-of-range refused) that calls its release function exactly once for each item removed or still present at destruction, the hash as a map from keys to fixed-size values through any number of growth steps (a removed or never-added key is absent) in space bounded by the number of keys it holds at a time and not by the length of its history, and the cache as a fixed number of slots replaced in insertion order that disposes each replaced or remaining entry exactly once. Each can be destroyed in any state, including right after initialisation.",
 ["histories"],"every operation sequence up to a depth bound over a small key set, item sizes 1..24, initial capacities 0..16, beyond several growth steps",
 "Nothing tests the containers.",
 ["src/stack.c","src/hash.c","src/cache.c"],
 [("stack","src/stack.c"),("hash","src/hash.c"),("cache","src/cache.c")],
 ["sqfs_stack_*","sqfs_hash_*","sqfs_cache_*"])
p("C25","Writes through the interception layer stay in a private temporary directory",
 "Creating directories or files under the memory-filesystem root through the interception layer (mkdir, open with O_CREAT, absolute or relative to a working directory inside it) creates them only inside one private directory in the temporary directory, never modifies the image or any other path, and makes the created object visible through later path calls under the same name. mkdir of a name that exists in the image fails with EEXIST, the caller's path string is never modified, and when the process ends the private directory is removed with everything in it.",
 ["histories","inputs"],"every sequence, up to a depth bound, of mkdir, creating open, write, stat and chdir over nested names, present and absent in the image",
 "The sample program creates two directories and never looks at the result.",
 ["sample/enclose_io_unix.c","sample/enclose_io_common.h"],
 [("overlay directory","sample/enclose_io_unix.c:enclose_io_mkdir_workdir, enclose_io_mkdir, enclose_io_mkdir_consult, enclose_io_open"),("removal at exit","sample/enclose_io_unix.c:mkdir_workdir_halt")],
 ["enclose_io_mkdir","enclose_io_open"])
p("C26","Executing and loading files of the memory filesystem",
 "Through the interception layer, execv of a path that names a file of the memory filesystem (absolute, or relative to a working directory inside it) runs the running executable itself, with the caller's argument 0, the full memory-filesystem path, and then the caller's remaining arguments unchanged and in order, and with the environment selecting the original interpreter; dlopen of such a path loads a private copy holding exactly the file's bytes. Every other path (also a null path for dlopen) reaches the operating system with the caller's arguments unchanged. When something cannot be resolved, extracted, allocated or executed, the call fails (-1 with errno, or a null handle): it never runs or loads another object, never hands out a handle of the running program instead, never ends the process, leaves no descriptor open, and leaves the caller's strings and argument vector as they were, for any number of arguments including none.",
 ["inputs","configurations","faults"],"every path form of both worlds x every kind of working directory x argument vectors of every length x dlopen modes, every short history of chdir, dlopen, execv and extraction, every failing allocation, file operation and environment call, every damaged block",
 "No test calls the interception layer's execv, dlopen or extraction.",
 ["sample/enclose_io_unix.c","src/extract.c"],
 [("re-execution","sample/enclose_io_unix.c:enclose_io_execv, enclose_io__exec, enclose_io_exepath"),("loading","sample/enclose_io_unix.c:enclose_io_dlopen, enclose_io_ifextract; src/extract.c:squash_extract")],
 ["enclose_io_execv","enclose_io_dlopen","enclose_io_ifextract"])
p("C27","Processes sharing a temporary directory never disturb each other",
 "The files a process extracts and the private directory the interception layer makes belong to the process that made them. Whatever several processes, unrelated or forked from one another at any moment, do at the same time with one temporary directory, and in whatever order their file operations fall: each successful extraction gives a path whose file holds exactly the complete content until that process clears its cache or ends; no process overwrites, reuses, removes or hands out a file or directory another process made; a name another process has taken never makes an extraction or creation fail; and when the processes end normally, everything they made in the temporary directory is gone and nothing else is, however often the library was started and however the working directory changed in between (also when the temporary directory was named by a relative path).",
 ["schedules","histories","inputs"],"every interleaving of the processes at the operations that touch the directory, every program of extractions, clearings and creations, every moment of forking, every collision of random names",
 "The tests extract in one process only.",
 ["src/extract.c","src/fd.c","sample/enclose_io_unix.c"],
 [("making and removing files","src/extract.c:squash_tmpf, squash_uncached_extract, squash_extract_clear_cache; src/fd.c:squash_halt"),("private directory","sample/enclose_io_unix.c:enclose_io_mkdir_workdir_create, mkdir_workdir_halt")],
 ["squash_extract","squash_extract_clear_cache","enclose_io_mkdir"])
p("C28","Blocks, metadata streams, tables and block lists are read exactly",
 "The block-level interface gives exactly what the image stores. Every block header is taken apart as the format says (size, stored or compressed, the full-size metadata case included). Reading metadata from any cursor yields the uncompressed stream's bytes from there on, for any length, across any number of blocks, equally when read at once, in pieces, or skipped without a buffer, and leaves the cursor at the next byte. A metadata, data or fragment block read alone or through a cache of any size has the stored content and length, never more bytes than announced, and a block that cannot be decompressed (or would not fit) is an error that gives no block, keeps none and leaks nothing. A table gives for each index its entry and writes no more than that. A file's block list, taken from the start or from any position, names for each block the right position in the file, place in the image, stored size and storage form, in order, and ends after the last full block (the fragment being separate).",
 ["inputs","histories"],"every header value, every cursor x length around every block edge, every block in every order of cache uses, every table index, every position in every file layout, every damaged block",
 "The tests read a few objects of one image, whose metadata fits into single blocks, and never use this interface directly.",
 ["src/fs.c","src/file.c","src/table.c","src/cache.c","src/decompress.c"],
 [("metadata and blocks","src/fs.c:sqfs_md_header, sqfs_data_header, sqfs_block_read, sqfs_md_block_read, sqfs_data_block_read, sqfs_md_cache, sqfs_data_cache, sqfs_md_read, sqfs_divceil; src/table.c:sqfs_table_get"),("block lists and fragments","src/file.c:sqfs_blocklist_count, sqfs_blocklist_init, sqfs_blocklist_next, sqfs_blockidx_blocklist, sqfs_frag_block")],
 ["sqfs_md_read","sqfs_data_block_read","sqfs_blocklist_next"])
p("C29","The image and all arguments are only read, wherever they lie",
 "A mounted image may lie in read-only memory (such as the constant data of the executable), at any address, alignment and offset, with nothing accessible directly in front of it or behind it: no operation, successful or failing, on an intact or damaged image, writes to the image, reads outside its bytes, or gives a result that depends on where it lies or on the bytes around it. The same holds for the strings a caller passes (paths, names, extensions): they are never written to, and never read beyond their terminator. An image whose header is refused is judged by that header alone.",
 ["inputs","configurations"],"every operation and pair of operations x every placement, every damaged block, every path form and length at a page edge, every form of image whose last bytes are a table",
 "The tests use one image in ordinary constant data followed by other data, and literals.",
 ["src/fs.c","src/dir.c","src/file.c","src/private.c","src/table.c"],
 [("access to the image","src/fs.c:sqfs_init, sqfs_block_read, sqfs_md_block_read; src/table.c:sqfs_table_get"),("access to strings","src/dir.c:sqfs_lookup_path_inner; src/private.c; src/extract.c")],
 ["sqfs_init","squash_open","squash_stat"])
p("C30","The interception layer can be used from several threads at once",
 "While the working directory stays the same, several threads may call the interception layer at the same time, on memory-filesystem paths, created objects and real files alike: whatever the interleaving, the results of all calls, and what exists afterwards, are those of the same calls made one whole call after another in some order. In particular at most one private directory comes into being, however many threads make the first creation together; exclusive creation of one name succeeds for exactly one of them; every object a call reported as created is there, with its content; extraction and creation do not disturb each other's names; descriptors and streams of different threads never mix, and positional reads through a descriptor two threads share each give the bytes at their own position and leave the descriptor's position alone. No access of the layer or the library to shared memory is unordered with a conflicting one, no call blocks for ever, and nothing stays behind afterwards.",
 ["schedules","histories"],"every interleaving of the threads at locks and system calls, every combination of calls, from every state of the caches and of the private directory",
 "No test uses the layer from more than one thread.",
 ["sample/enclose_io_unix.c","sample/enclose_io_common.h","src/extract.c","src/fd.c"],
 [("private directory","sample/enclose_io_unix.c:enclose_io_mkdir_workdir, enclose_io_mkdir_workdir_get, enclose_io_mkdir_parents, enclose_io_mkdir_expand"),("names of temporary files","src/extract.c:squash_tmpf"),("streams","sample/enclose_io_unix.c:enclose_io_fdopendir, enclose_io_closedir, enclose_io_readdir; src/fd.c")],
 ["enclose_io_open","enclose_io_mkdir","enclose_io_stat"])
p("C31","A program built with the interception header sees the image as a real directory",
 "An ordinary C program that is compiled with the interception header and run on an image gives the same results, call for call, as the same program compiled without it and run on a real copy of the tree: chdir, getcwd, getwd, open and openat (also relative to a directory descriptor) with and without a mode, read, pread, readv, lseek, fstat, close, stat, lstat, access, readlink, mkdir, opendir, fdopendir, readdir, telldir, seekdir, rewinddir, dirfd, closedir, scandir and dlopen give the same values, contents, names, types, attributes (mode, owner, size and link count of files) and errno values, whatever calls came before and whatever mixture of image, created and real objects they work on. In particular a call that fails changes nothing that later calls see: a failed creation does not hide anything of the image.",
 ["histories"],"every program of calls up to a length bound, from several starting directories",
 "The one sample program makes three directories; no test compiles a program that opens, reads or lists through the header.",
 ["sample/enclose_io.h","sample/enclose_io_unix.h","sample/enclose_io_common.h","sample/enclose_io_unix.c","src/fd.c","src/dirent.c","src/stat.c","src/readlink.c","src/scandir.c"],
 [("names mapped to the layer","sample/enclose_io_unix.h; sample/enclose_io_common.h:ENCLOSE_IO_PP_NARG"),("calls","sample/enclose_io_unix.c")],
 ["open","openat","readdir","chdir","mkdir"])
p("C32","Images and files beyond 4 GiB are read right, wherever their parts lie",
 "Every position the format stores in 64 bits is honoured in all its bits, and so is the image offset given when the image is opened. Wherever in an image of any size the data blocks, fragment blocks, inodes, directory listings and the fragment, export and id tables lie - below or beyond 4 GiB, in any combination, also when several of them lie at positions that agree in their low 32 bits - and whatever has been read before in whatever order, every file, listing, status, link target and table entry is what the image stores. The same holds within one file whose stored blocks together, or whose holes, take more than 4 GiB: each read gives the bytes of its position.",
 ["inputs","configurations"],"every combination of near and far sections, image offsets, orders of use, and positions in files whose blocks take more than 4 GiB",
 "The tests use one image of a few kilobytes.",
 ["src/fs.c","src/file.c","src/dir.c","src/table.c","src/cache.c"],
 [("positions","src/fs.c:sqfs_init, sqfs_block_read, sqfs_md_block_read, sqfs_md_cursor_inode, sqfs_inode_get; src/dir.c:sqfs_dir_open, sqfs_dir_ff_header; src/table.c:sqfs_table_init"),("cache keys and block lists","src/fs.c:sqfs_md_cache, sqfs_data_cache; src/file.c:sqfs_blocklist_next, sqfs_blockidx_add, sqfs_blockidx_blocklist")],
 ["sqfs_init","squash_read","squash_readdir"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
