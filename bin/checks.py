# Registry of the checks: harness, level, bounds and oracle (the texts go into MANIFEST.json and the evidence files).
CHECKS={}
ENUM="exhaustive bounded enumeration of executions of the real library (explicit-state, differential against an abstract model)"
BASE_ASSUME=["libc, zlib and the compiler are correct","images are well-formed squashfs 4.0 written by harness/sqimg.hpp unless the property is about damage"]
def add(id,harness,**kw):
    d=dict(harness=harness if isinstance(harness,list) else [harness],level="model_checking",technique=ENUM,assumptions=list(BASE_ASSUME),bounds="",oracle="",note=""); d.update(kw); CHECKS[id]=d
add("C01","c01.cpp",oracle="content function of the abstract tree the image was written from; the caller's buffer ends exactly at the requested length (ASan red zone) and is pre-filled",
    bounds={"quick":"block sizes 4096 (up to 3 full blocks, every combination of compressed/stored/hole per block, 4 tail forms x 2 tail lengths, basic/extended inode) and 131072 (up to 1 full block); image offsets 0,1,3,4099; every read position around each block edge x 13 lengths, through squash_read and sqfs_read_range, plus sequential passes with 4 step sizes",
            "thorough":"as quick with 6 image offsets, 4 tail lengths, up to 5 full blocks, every block size 4096..1048576"},
    note="Every combination of storage forms and read windows within the bounds is executed on the real code under AddressSanitizer; nothing is claimed for files of more blocks (see C02) or other block sizes in the quick tier.")
add("C02","c02.cpp",oracle="content function of the abstract file, compared byte by byte for every read",
    bounds={"quick":"files of 2047,2048,2049,4097,6200 blocks of 4096 x 15 inode offsets (incl. block lists starting at every offset next to a metadata-block edge) x 5 storage patterns x fragment x inode kind (a fixed third of the product, all of the edge placements), every block next to every edge of the block list x 3 windows, full sequential pass; 4 files larger than 4 GB; histories of up to 12 other large files (once, twice) between two reads",
            "thorough":"12 block counts up to 12300, 139 inode offsets (every one within 64 bytes of the edges), the whole product, a fresh image for every edge position, histories of up to 19 other files"},
    note="Every enumerated placement is run on the real code; placements and patterns outside the listed classes are not.")
add("C03","c03.cpp",oracle="model with one position per descriptor; content function for the bytes read",
    bounds={"quick":"4 descriptors (two on one file, one on a file with a damaged block) plus a directory's and a closed one: every one of 95 operations in each of 384 combinations of positions; every sequence of 3 of 29 operations from fresh descriptors","thorough":"every sequence of 3 of all 95 operations and every sequence of 4 of the 29"},
    note="Positions, results and bytes are compared after every sequence; longer histories are covered only through the position-vector part.")
add("C04","c04.cpp",oracle="model of the descriptor table (number -> object); the real descriptor table of the process (fcntl); memory live after a repetition of the whole history",
    bounds={"quick":"every sequence of 3 of 10 operations (opens, opendirs, failing opens, open without a free descriptor, real dups, closes of any open object) and every sequence of 5 of the opens, closes and dups, from an empty table; after every step all numbers -3..139 and 11 far ones are probed with read, lseek, fstat, close; up to 100 objects closed in 5 orders","thorough":"sequences of 5 of all operations and of 7 opens and closes"},
    note="The table is reset with squash_start before every history, so growth of the table is met at every point of a history.")
add("C05","c05.cpp",oracle="component-wise resolution over the abstract tree (harness/pathmodel.hpp); objects are told apart by unique modification times and inode numbers, directories also by their listing",
    bounds={"quick":"every path of up to 5 components over {a,ab,b,x,.,..,'',...,.a} with and without leading slash, through stat, lstat, open, opendir, sqfs_lookup_path; every byte as a name in 12 positions; names of 0..300 bytes; paths up to 65536 bytes in 8 forms; 8000 objects in 16 directories (tables of inodes and listings stored and longer than 64 KiB) with 1, 7 and 256 entries per header","thorough":"paths of up to 7 components"},
    note="Left open by the statement and therefore accepted either way: dot-dot behind a missing component or non-directory, a trailing slash or dot behind a non-directory, the empty path, ENAMETOOLONG for paths over 1500 bytes.")
add("C06","c06.cpp",oracle="resolution with links over the abstract tree (harness/pathmodel.hpp) including the expected errno (ELOOP, ENOENT, ENAMETOOLONG); ASan for the buffers",
    bounds={"quick":"every assignment of 22 targets to 3 links in two directories (with and without root aliases) x 21 paths; chains of 1..40 links in 7 forms with 5 ends; paths through up to 64 links; targets of 34 lengths up to 8193 bytes in 7 forms with rests of 14 lengths and every combined length 2040..2056; each through stat, lstat, open, opendir, scandir, readlink and sqfs_lookup_path","thorough":"90 further paths, chains up to 70, every target length 1..299 and 1990..2109, up to 65000"},
    note="Accepted either way: '..' written behind a link or something missing, more than 32 links spread over several components, ENAMETOOLONG when target + rest exceed 1500 bytes, a trailing slash or dot behind a link to a non-directory.")
FAMQ="the directory family (harness/dirs.hpp): 0..7 entries x 4 header widths x inode/index forms x 6 places; 20 entries with the listing at each of the last 420 offsets of a metadata block; up to 6000 entries; names of every length 1..256, every byte, all 14 kinds; every ordered triple of 9 inode numbers; inodes spread over metadata blocks; other directories in front"
add("C07","c07.cpp",oracle="the abstract directory the image was written from (names, kinds, inode numbers, references, listing offsets)",
    bounds={"quick":FAMQ+"; through readdir (two passes) and sqfs_dir_next (with and without a name buffer)","thorough":"the listing at each of the 8192 offsets of a metadata block"},
    note="d_name holds at most 255 bytes, a 256-byte name is expected truncated there and exact in the lower-level interface.")
add("C08","c08.cpp",oracle="membership in the abstract directory",
    bounds={"quick":FAMQ+"; lookup of (nearly) every present name and 9 neighbours of each, forwards and backwards, through sqfs_dir_lookup and lstat; every subset of 9 related names x header widths x index forms","thorough":"all 8192 listing offsets, every name of every directory, every subset of 12 names"},
    note="In directories of more than 400 entries the quick tier looks up every (n/200)-th name and all names next to header edges.")
add("C09","c09.cpp",oracle="model with one position per stream and a list of remembered positions; listing offsets of the abstract directory",
    bounds={"quick":"every sequence of 4 of 14 operations (read one, read 9, tell, seek to newest/oldest, rewind, read to the end; two streams) on directories of 0,1,2,9,10,11,25 entries; all pairs of positions in directories up to 400 entries; sqfs_dir_open at every offset of the directories of the family (offsets around 40 entries and all headers for more than 60 entries)","thorough":"sequences of 5, all placements"},
    note="Opening at the offset behind the last entry, at offset 0 of an empty directory, and directly behind a header is accepted either way.")
add("C10","c10.cpp",oracle="the abstract directory filtered and checked against the comparison function; memory and descriptor accounting",
    bounds={"quick":"every selection of directories of 0..7 entries x 6 comparison functions (also ones that change errno); sizes up to 4100 around the array's growth x 6 selections; the directory family; failing paths, null arguments, each allocation failing (all for small, 300 places for large directories), each damaged metadata block of a listing","thorough":"every selection up to 9 entries, all placements"},
    note="Which of several equal entries comes first is left open.")
add("C11","c11.cpp",oracle="metadata of the abstract node; makedev(major, minor) of the stored device number",
    bounds={"quick":"14 inode kinds x all 4096 modes; 11 link counts x 6 times; 16 sizes up to 2^62; 143 device numbers; 17 target lengths; the inode at each of the last 80 offsets of a metadata block, stored and compressed","thorough":"the inode at 592 offsets over the whole metadata block"},
    note="Owner fields and inode number in struct stat are not part of the statement and not compared.")
add("C12","c12.cpp",oracle="stored target of the abstract link, alias prefix replaced; buffers end exactly at their size (ASan) and are pre-filled",
    bounds={"quick":"targets of 68 lengths up to 65536, two contents, basic/extended inode, 20-80 buffer sizes each; the link at each of the last 120 offsets of a metadata block; 36 pairs of aliases x 19 targets x all buffer sizes; all other kinds and missing paths","thorough":"all target lengths below 700, all buffer sizes"},
    note="Empty targets cannot occur in a valid image; the result of sqfs_readlink with size 0 is left open (it must not write).")
add("C13","c13.cpp",oracle="the same call with errno 0 before it on a fresh image; the errno values the statement names",
    bounds={"quick":"about 120 failing calls (every path call on 14 kinds of failing paths, every descriptor call on 4 kinds of invalid descriptors, seeks, readlink, damaged blocks) x 138 earlier errno values; every ordered pair of them; 9 operations x each allocation failing x 7 earlier errno values; 9 operations x each damaged block x 7, also with every object reaching over the edge of a metadata block","thorough":"the same"},
    note="Calls outside the list (e.g. on other paths) are not compared; dirfd and telldir cannot fail.")
add("C14","c14.cpp",oracle="depth-first walk of the abstract tree",
    bounds={"quick":"every tree of up to 5 objects x every set of pruned directories, every closing point (with nothing and with everything pruned), two interleaved traversals at 3 speeds; names of 1..256 bytes x depths up to 9; depths up to 1000; the directory family","thorough":"every tree of up to 7 objects x every prune set x every closing point; depth 4000"},
    note="Pruning is only defined right after a directory was delivered; the path after the end and the entry fields of an end marker are not compared.")
add("C15","c15.cpp",level="fault_enumeration",rule="every extraction with a fault, storage form, name or history listed under bounds is one evaluation; distinct_nontrivial counts the enumerated combinations",redir=["rand","srand"],oracle="content function of the abstract file; model of the extraction cache (image, path -> file); complete listing of the temporary directory, table of open descriptors and live allocations before and after",
    bounds={"quick":"17 sizes x 2 block sizes x 5 storage patterns x fragment; extensions of 0..70000 bytes; up to 400 files at one second; every sequence of 6 random numbers out of 3 (colliding names); every history of 4 of 11 operations (7 extractions from two images, clear, reopen, replace the image); 6 files x each file operation failing (2 ways), each allocation failing (warm and cold caches), each compressed block damaged, 20 file size limits, 5 descriptor limits, missing temporary directory; 11 paths that cannot be extracted; every combination of the three environment variables","thorough":"histories of 5, random sequences of 8, 430 file size limits"},
    note="Faults are injected at the libc calls of the library and, independently of how it is written, through resource limits of the process.")
add("C24","c24.cpp",oracle="std::vector, std::map and a slot array with insertion pointer; every item carries its identity in all its bytes; live allocations after destruction",
    bounds={"quick":"every sequence of 12 pushes and pops (5 item sizes, 5 initial capacities); growth to 3000; every sequence of 5 adds and removes over 4 sets of 4 keys x 4 bucket counts; up to 700 keys of 6 patterns; 20000 keys added and removed with at most 1, 3 or 20 present; every sequence of 6 uses of up to 6 keys on caches of 1..5 slots; every allocation failing","thorough":"stack sequences of 16, hash of 7, cache of 8"},
    note="The cache is only used as the library does: a key is added when a lookup did not find it; key 0 is reserved.")
add("C20","c20.cpp",oracle="decision table of the statement (magic, then version, then compression); the header bytes for the accessors; content of the abstract tree for accepted images; live allocations",
    bounds={"quick":"all 65536 values of compression, major (x 3 minors) and minor (x 3 majors), all magics with up to two wrong bits or one wrong byte, 1540 combinations of right and wrong fields, each at 6 image offsets through sqfs_init and sqfs_open_image; each of the first 12 allocations failing; 64 forms of valid images; every sequence of 7 openings, refusals and closings on two handles","thorough":"sequences of 9"},
    note="sqfs_open_image prints a message for refused images; only its result is compared, and only for part of the values.")
add("C21","c21.cpp",oracle="the tables the image was written with",
    bounds={"quick":"id tables of 15 lengths up to 65535, export tables of 18 lengths up to 70005, fragment tables of 18 lengths up to 30006, stored and compressed, every index ascending, descending and with a large stride; inodes reached through the export table; files reading their fragments; images without export table","thorough":"about 300 further lengths of each"},
    note="Indices beyond a table are outside the statement.")
add("C16","c16.cpp",technique="explicit-state exploration (breadth-first over cache states, replaying the real code) and exhaustive bounded histories",oracle="the result of the same operation on a freshly opened image",
    bounds={"quick":"3 scenes on one and 3 on two images (objects in many metadata blocks, 5 fragment blocks and data blocks, 11 indexed files): cache states reachable after each operation (slots and insertion pointers of the four caches as state) up to 150..4000 per start, every operation tried in each; every history of 3 operations; three rounds with every stride; every number of other accesses between two equal ones; inodes in 14 metadata blocks at every distance","thorough":"up to 100000 states per start; histories of 3 followed by all operations"},
    note="Where the fields of the caches cannot be read any more the state is the history itself (depth 3).")
add("C30","c30.cpp",vs=True,sample=True,runtime=["vf.cpp","sched.cpp"],san=["-fsanitize=thread"],hsan=[],lsan=[],libflags=["-fno-pie"],cxxflags=["-fno-pie","-O2"],ld=["-no-pie"],redir="stat lstat access mkdir rmdir remove rename mkstemp mkdtemp openat opendir realpath readlink read pread fstat".split(),case_timeout=200,
    technique="stateless model checking of the real code: every interleaving at locks and system calls up to a preemption bound under a controlled scheduler, with a vector-clock race detector on every execution",
    oracle="the outcomes (results of all calls and the state afterwards) of every interleaving of whole operations, run on the same code; happens-before races on the memory of the library and the layer, freed memory, deadlock, descriptors, live allocations; the temporary directory afterwards",
    bounds={"quick":"every pair of 18 programs (1-4 calls each: creating, looking, listing, reading, positional reads of a shared descriptor, extracting, real files, failing and relative calls) x 3 starts (cold caches, filled caches, private directory there) with 1 preemption; the pairs of the 7 programs that create or extract, from cold caches, with 2; a sixth of the triples of 8 first calls x 2 starts with 1","thorough":"all pairs with 2, all triples with 2"},
    note="The working directory is the process's: nobody changes it while the threads run. Listings of image directories in which something is created at the same time are left out (see C25).")
add("C18","c18.cpp",level="fault_enumeration",rule="every (damaged block, kind of damage, operation or history) is one evaluation; a case is a (block, kind) pair; damages that still decompress are skipped and counted",technique="exhaustive enumeration of damaged blocks and bounded histories on the real code, breadth-first exploration of cache states",oracle="results on the undamaged image; the set of blocks an operation can need, computed from the layout of the image; the operation's own result on a freshly opened damaged image",
    bounds={"quick":"every compressed block of an image with all kinds of blocks (inodes, listings, tables, data, fragments; 4 of 4200 equal data blocks) x 6 kinds of damage x 39 operations, each twice; for 2 kinds every history (failing, any, failing), (working, failing, working, failing), three rounds of everything; cache states reachable after a failure (60 per start); a fifth of all pairs of damaged blocks; damage while descriptors and streams are open","thorough":"all histories for all kinds, all pairs, 3000 cache states per start"},
    note="An operation is allowed to fail only if the damaged block belongs to an inode, listing, data block or table on its way; it must fail if the block holds the data it returns.")
add("C19","c19.cpp",level="fault_enumeration",rule="every (operation, history before it, allocation that fails) is one evaluation, counted only if an allocation did fail; distinct_nontrivial is the number of failed allocations",case_timeout=40,technique="exhaustive enumeration of allocation failures (single, pairs, and memory exhausted from a point on) on the real code",oracle="result of the same operation without a fault; all 39 operations afterwards against their results on a fresh image; descriptors, temporary files and live allocations compared with the execution without a fault",
    bounds={"quick":"49 operations (all calls of the library; handles used across the failure) x 8 histories (cold, partly and fully filled caches) and a new descriptor table x every allocation the operation makes (malloc, calloc, realloc, strdup and zlib's), up to 400; in 4 histories also: that one and all later ones, that one and the one right behind it (in a quarter of the cases also the one 2, 3 and 5 behind it)","thorough":"47 histories, all with a new descriptor table as well, up to 4000 allocations; the same with all later ones and with the one 1, 2, 3 and 5 behind it"},
    note="One allocation fails per execution; errno is C13's subject.")
add("C22","c22.cpp",sample=True,technique="exhaustive bounded enumeration of call sequences on the real code (differential against an abstract model and against the operating system on twin objects)",oracle="content function and a position for virtual objects; a twin object driven through the operating system directly for real ones; live allocations and open descriptors",
    bounds={"quick":"every sequence of 3 of 65 calls with two virtual files, a virtual stream, a real file and a real stream open; every sequence of 4 of 25 opens, closes and calls from nothing; every split of readv requests into up to 4 segments of 0..5 bytes at 9 positions; pread and readv over a damaged block from 7 positions; files of 2 and 5 GB; fdopendir with each allocation failing","thorough":"sequences of 4 and 5; splits into up to 6 segments"},
    note="lseek with SEEK_END ignores the offset, as documented; calls on a descriptor after fdopendir took it over are limited to fstat, read and dirfd.")
add("C23","c23.cpp",sample=True,technique="exhaustive bounded enumeration of chdir histories and path calls on the real code (differential against abstract path resolution and against the operating system)",oracle="resolution over the abstract tree for paths of the memory filesystem (objects told apart by modification time and content); the same call made directly to the operating system for every other path",
    bounds={"quick":"every sequence of up to 2 of 29 chdir calls, then 12 path calls on each of 65 absolute and relative paths of both worlds and getcwd with every buffer size; every sequence of 4 chdir calls; working directories of up to 1900 bytes, reached in 4 ways, with relative paths of 255 files x 15 lengths x 2 forms","thorough":"every sequence of 5 chdir calls; 8 ways"},
    note="Left open: '..' out of the memory-filesystem root, openat relative to a virtual directory descriptor, the empty path, write permission in access, ENAMETOOLONG for combined paths over 1500 bytes.")

add("C17","c17.cpp",vs=True,runtime=["vf.cpp","sched.cpp"],san=["-fsanitize=thread"],hsan=[],lsan=[],libflags=["-fno-pie"],cxxflags=["-fno-pie","-O2"],ld=["-no-pie"],case_timeout=120,
    technique="stateless model checking of the real code: every interleaving at synchronisation operations, descriptor operations and atomics up to a preemption bound under a controlled scheduler, with a vector-clock race detector on every execution",
    oracle="result of every thread when it runs alone from the same start; happens-before races on the library's memory, freed memory, deadlock, lock misuse, ownership of every descriptor number, live allocations and temporary files after each execution",
    bounds={"quick":"every pair of 24 programs (all calls of the library, in groups with small and with large files) x 2 starts (cold caches; full caches and a descriptor table about to grow) with up to 2 preemptions, from full caches with 1; a tenth of all triples with up to 1","thorough":"pairs with 3 preemptions from all 3 starts, all triples with 2"},
    note="Executions without a data race behave as if threads were switched at synchronisation operations only, so the race detector (run on every execution) closes the gap between those points. With large files locking of the metadata cache is not a place of preemption.")

add("C25","c25.cpp",sample=True,quarantine=1,redir="mkdir open openat rmdir unlink remove unlinkat rename chmod system atexit".split(),case_timeout=120,
    technique="exhaustive bounded enumeration of call histories and failure points on the real code, each history in a process of its own (differential against a model of image and created objects)",
    oracle="model of the created objects above the image tree; stand-ins that check every mutating system call against the one private directory; snapshot of the scratch tree after the process has ended",
    bounds={"quick":"every sequence of up to 3 of 39 operations (mkdir, creating opens through open and openat, chdir, umask, calls on real paths; nested, dotted, escaping and linked names, present and absent in the image), after which about 100 path forms are compared; every allocation, mkdir, open and the registration of the exit handler failing in 9 programs; 20 kinds of temporary directory; names of up to 2130 bytes; 9 scenes with forked processes","thorough":"a quarter of the sequences of 4"},
    note="Left open: O_CREAT for writing on a file that exists in the image, the listing of an image directory in which something was created (both recorded findings of C31), trailing slashes behind files.")

add("C31",["c31.cpp","c31_image.c","c31_real.c"],sample=True,san=[],hsan=[],lsan=[],redir="mkdir open openat rmdir unlink remove unlinkat rename chmod system".split(),case_timeout=120,technique="exhaustive bounded enumeration of programs on the real code (differential: the same C program compiled with and without the interception header)",
    oracle="the same program, compiled without the header, on a copy of the tree in a real file system",
    bounds={"quick":"every program of 3 of 114 calls (on image, real and created objects) from the image's root, of 2 from four other starting directories; of 4 of 32 calls; directory streams: every 5 of 10 calls after 4 ways to open one; files: every 4 of 11 calls after 5 opens; created working directories: every 3 of 14 calls","thorough":"3 from every starting directory, 4 of 37 calls with creations, 5 of 32; streams 7, files 6, created directories 5"},
    note="Known findings (one case each, otherwise left out): attributes and listing of image directories in which something was created, O_CREAT for writing on image files. Left open: '..' and getcwd behind a symbolic link to a directory; leaving the tree through '..'; positions and sizes of directories; '.' and '..' in listings; ENOENT or ENOTDIR below a file; readlink into a buffer that is too small (documented to fail); writing to what exists in the image. Built without sanitizers; memory errors are the subject of the other checks.")

add("C26","c26.cpp",sample=True,redir="execv execve dlopen readlink setenv".split(),technique="exhaustive bounded enumeration of paths, working directories, argument vectors, histories and failing calls on the real code with recording stand-ins for execv and dlopen",
    oracle="resolution over the abstract tree; what the stand-ins were asked to run or load (program, arguments, environment; content of the file at the moment of loading)",
    bounds={"quick":"69 paths of both worlds x 10 working directories x 6 argument vectors x 3 outcomes of the system's execv, x 5 dlopen modes, x 3 extensions; argument vectors of 0..300 arguments; every sequence of 3 of 22 chdir, dlopen, execv, extract and clear calls from 3 working directories; every allocation, file operation, readlink and setenv failing; each block of a file damaged; combined paths up to 12000 bytes; every buffer size for the path of the executable","thorough":"sequences of 4, up to 3000 arguments, all lengths"},
    note="Left open: execv of a path that is no file of the image (it may fail or hand the path to the program), the environment after a failed execv, a name without a slash that exists in the working directory (loaded from there or searched by the system), objects created through the layer.")

add("C27","c27.cpp",sample=True,san=[],redir="stat lstat access mkdir open mkstemp mkdtemp rmdir unlink remove rename atexit srand rand".split(),case_timeout=300,technique="stateless model checking of real processes: every interleaving, at the system calls that touch the shared temporary directory, up to a preemption bound",
    oracle="content of every file and object a process obtained, checked by that process between all of its steps; the temporary directory after all processes have ended; stand-ins that refuse changes outside it",
    bounds={"quick":"every pair of 13 programs (extractions, clearing, creations through the layer, leaving the directory, ending) in unrelated processes and in processes forked after the start, after one and after two extractions x 3 sequences of random numbers that make names collide, with up to 2 (1 after extractions) preemptions; relative temporary directory with 1; a quarter of all triples of the 9 extraction programs with 1","thorough":"3 (2) preemptions, all triples with 2"},
    note="A process that dies without running its exit handlers leaves its files, by nature. What a forked process inherits from its parent ends with the parent; the layer's private directory stays shared with forked processes (their view of the created objects), and ends with the process that made it.")
add("C28","c28.cpp",oracle="an independent parse of the image's metadata runs, and the tree the image was written from; the memory live afterwards",
    bounds={"quick":"all 65536 metadata headers, data headers around every bit and in steps; 3 trees x stored/compressed x 2 offsets: every metadata block of every run, alone and in every order of three; cursors at 18 places around every block edge x about 30 lengths (to every one of the next three edges +-2), with buffer, skipping and in pieces; every table entry; files of all orders of 3 kinds of blocks x tails x fragments x 3 block sizes; block lists from every position, for files of up to 4300 blocks around every metadata-block edge; every damaged block","thorough":"every data header of the first 2^25; every seventh position in large files"},
    note="Cursors that point outside the image, and reads past the end of a run, are outside the statement.")
add("C29","c29.cpp",oracle="memory protection (read-only pages, inaccessible pages directly before and behind) and the result of the same operation on an ordinary writable copy",
    bounds={"quick":"an image with every kind of block at 9 places (ending at a page end, beginning at a page start, 3 further alignments, 4 offsets, with the bytes in front inaccessible): every ordered pair of 39 operations; all places at once; every seventh block damaged in 2 ways x every operation; 55 paths x 8 operations with the strings ending before and beginning behind an inaccessible page; directories of 9 sizes x 3 index forms; images of 72 forms whose tables end at the page end; refused headers with nothing behind them","thorough":"triples, every damaged block"},
    note="On the side that does not lie on a page edge, accesses within the page are not seen (each side is tight at some place).")
add("C32","c32.cpp",case_timeout=300,oracle="the tree the image was written from",
    bounds={"quick":"all 128 choices of the sections (file data, fragments, inodes, listings, three tables) that begin far away, each at another multiple of 4 GiB plus the same low bits, x stored/compressed metadata x 2 image offsets (one beyond 4 GiB): every file, listing, status, target and table entry in 3 orders; 8 files with more than 4 GiB of stored blocks, at every place that holds other than zeros","thorough":"9 image offsets"},
    note="The far parts of the images are untouched zero pages of a sparse mapping.")
