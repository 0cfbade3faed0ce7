#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

D = "src/libcork/ds/"; C = "src/libcork/core/"; O = "src/libcork/posix/"; T = "src/libcork/pthreads/"
I = "include/libcork/"

prop("C01", "A hash table is a finite map that iterates in insertion order",
 "For every sequence of operations, and whatever hash values the keys have (including all keys colliding) and however often the table grows, lookups return the value last stored under an equal key and nothing else, and every operation reports correctly whether the key was new and which old key and value it replaced or removed. The reported size is the number of distinct keys present. Mapping and iterating visit exactly the present entries, each once, in the order their keys were first added since they were last absent, and a mapping can delete the visited entry or abort.",
 ["histories", "inputs"], "all operation sequences over all keys, hash assignments, initial sizes and growth points, for custom-hash, string-keyed and pointer-keyed tables, through both the hashing and the precomputed-hash entry points",
 "Tests run a few fixed insertions and deletions with well-distributed keys; they never enumerate collisions, deletions in the middle of a bin chain combined with growth, or delete-while-mapping.",
 [D+"hash-table.c", I+"ds/hash-table.h"],
 [("bin chains plus a separate insertion-order list", D+"hash-table.c"), ("rehash on growth", D+"hash-table.c: cork_hash_table_ensure_size / rehash"), ("put/get_or_create/delete old-value reporting", D+"hash-table.c: cork_hash_table_put, cork_hash_table_delete")],
 ["return values and out-parameters of every table operation", "order of cork_hash_table_map / iterator"],
 [("map", "partial function key -> value with insertion rank", D+"hash-table.c struct cork_hash_table")])

prop("C02", "A hash table finalizes everything it owns exactly once",
 "When free-key, free-value or user-data free callbacks are registered, each key and value stored in the table is passed to its callback exactly once over the table's life: when its entry is deleted (directly, by entry, or during a mapping), cleared, or still present when the table is destroyed. Nothing that is still in the table, and nothing that was handed back to the caller as a replaced key or value, is ever passed to a callback. The user data's free callback runs exactly once, when the table is destroyed.",
 ["histories"], "all sequences of put, get-or-create, delete, delete-entry, map-with-deletion, clear and destroy, with every combination of callbacks present or absent",
 "Tests register only the built-in string free callbacks and check contents, not how often or for which objects callbacks run.",
 [D+"hash-table.c"], [("free_entry on delete, clear, map-delete and destroy", D+"hash-table.c: cork_hash_table_free_entry, cork_hash_table_clear, cork_hash_table_free")],
 ["invocations of the registered callbacks"])

prop("C03", "A doubly-linked list behaves as a mutable sequence",
 "After any sequence of additions at head or tail, before or after a member, removals and list concatenations, forward traversal yields exactly the specified sequence and backward traversal yields its exact reverse, with size, emptiness, head and tail agreeing. Concatenation moves every element of the source, in order, to the chosen end of the destination and leaves the source empty and reusable. Visiting and foreach traversal stay correct when the current element is removed during the visit, and visiting stops at, and returns, the first non-zero result.",
 ["histories"], "all operation sequences over several lists and a pool of elements, including empty lists on either side of a concatenation",
 "Tests concatenate and remove in a handful of fixed scripts; pointer-surgery mistakes that only show in the reverse direction or on an empty operand pass them.",
 [D+"dllist.c", I+"ds/dllist.h"], [("circular sentinel list", I+"ds/dllist.h"), ("concatenation", I+"ds/dllist.h: cork_dllist_add_list_to_head/tail"), ("visit", D+"dllist.c")],
 ["traversals in both directions", "cork_dllist_size/head/tail/is_empty", "cork_dllist_visit"])

prop("C04", "Growable arrays keep exactly the elements appended, in order",
 "For every history of append, append-get, remove-last, remove-first, remove-range, clear, ensure-size and copy, an array (raw, pointer or string) contains exactly the sequence those operations define, whatever the element size and however often storage is reallocated. A copy has the source's length and elements and is independent of it, and a failing element copier's error is reported. Reserving capacity never changes size or contents.",
 ["histories", "inputs"], "all operation sequences, element sizes, and sizes crossing every internal-storage and reallocation boundary",
 "Tests append a few integers and copy once; removals from the middle after regrowth, element sizes other than 8 and copies onto non-empty arrays are not reached.",
 [D+"array.c", I+"ds/array.h"], [("allocated_count / size bookkeeping", D+"array.c: cork_raw_array_ensure_size"), ("remove range", D+"array.c: cork_raw_array_remove_range"), ("copy", D+"array.c: cork_raw_array_copy")],
 ["cork_array_size, cork_array_elements/at after every operation"])

prop("C05", "Array element callbacks run in a correct lifecycle for every slot",
 "Each element slot is initialised exactly once before first use, told it is being reused (and not initialised again) each time it is used again, told it is removed exactly once when its element leaves the array, and finalised exactly once when the array is destroyed or its storage released; callbacks are never applied to a slot that is in the wrong phase, and none is left unfinalised. Pointer and string arrays consequently free each element they own exactly once, and the callback data's free function runs exactly once.",
 ["histories"], "all operation sequences, with every subset of the init, reuse, remove and done callbacks registered",
 "Tests count callbacks on one append/clear script; they never remove from the middle with callbacks registered, nor check which object each callback received.",
 [D+"array.c"], [("initialized_count high-water mark", D+"array.c"), ("remove/done in clear, remove_range and done", D+"array.c: cork_raw_array_clear, cork_raw_array_remove_range, cork_raw_array_done")],
 ["callback invocations with the element they were given"])

prop("C06", "A ring buffer is a bounded FIFO queue",
 "Pop and peek always return the oldest element not yet popped (peek without removing it), or nothing if empty; adding succeeds exactly when fewer elements than the capacity are held and otherwise fails leaving the contents unchanged. The empty and full queries agree with the contents at every point, across any number of wrap-arounds.",
 ["histories", "configurations"], "all capacities, and all interleavings of add, pop and peek at every rotation offset",
 "Tests fill one buffer of one capacity and drain it; wrap-around at other offsets and capacities 1 or full-at-offset are not reached.",
 [D+"ring-buffer.c", I+"ds/ring-buffer.h"], [("read/write index wrap", D+"ring-buffer.c: cork_ring_buffer_add/pop")],
 ["return values of add/pop/peek/is_empty/is_full"])

prop("C07", "Each bit of a bitset is independent storage",
 "After any sequence of set and clear operations on a bitset of any size, reading a bit returns the value last stored in that bit (initially off, and off after a clear), and writing one bit never changes another. The bit count never changes.",
 ["histories", "configurations"], "all bit counts (including those not a multiple of the word size) and all write sequences",
 "Tests set bits in one or two sizes in ascending order; they do not check that all other bits are untouched at word boundaries.",
 [D+"bitset.c", I+"ds/bitset.h"], [("byte index / mask arithmetic", I+"ds/bitset.h")],
 ["cork_bitset_get over every index after every operation"])

prop("C08", "A buffer holds exactly the bytes written, always NUL-terminated",
 "After any sequence of set, append, copy, string, literal, formatted-print, truncate, clear and ensure-size operations, a buffer's size and bytes equal the concatenation those operations define, including embedded NULs, for any content length and any existing capacity. Whenever the buffer has had content placed in it, cleared or truncated, the byte after the content is NUL. Two buffers compare equal exactly when their sizes and bytes are equal.",
 ["histories", "inputs"], "all operation sequences and all lengths, in particular formatted output whose length is just below, at and above the free capacity",
 "Tests append short strings; formatted output at exact capacity boundaries, appends to partially filled buffers and truncation followed by appends are not enumerated.",
 [D+"buffer.c", I+"ds/buffer.h"], [("ensure_size growth", D+"buffer.c: cork_buffer_ensure_size_int"), ("two-pass vsnprintf", D+"buffer.c: cork_buffer_append_vprintf")],
 ["buffer size and bytes after every operation"])

prop("C09", "Pretty-printed renderings are exact, reversible and correctly indented",
 "For every byte string, the C-string rendering is a single-line, double-quoted literal in which non-printable bytes, quotes and backslashes are escaped as documented, so it denotes exactly the original bytes. The hex dump lists every byte once at the right offset with its printable character, and in hex-dump and multi-line renderings every line but the first is prefixed by exactly the requested indentation and there is no trailing newline. The auto-detecting form uses the hex dump exactly when there is a non-printable byte, the multi-line form when there are only printable bytes and white space including a newline, and the raw text otherwise (white space counts as printable).",
 ["inputs"], "all byte strings of all lengths and all indentations, appended after any existing content",
 "Tests compare a few literals; most byte values, lengths around the 16-byte row and indentations are not reached.",
 [D+"buffer.c"], [("escaping", D+"buffer.c: cork_buffer_append_c_string"), ("hex dump rows", D+"buffer.c: cork_buffer_append_hex_dump"), ("auto detection", D+"buffer.c: cork_buffer_append_binary")],
 ["appended text"])

prop("C10", "A slice never refers to bytes outside its buffer",
 "Copying, light-copying or re-slicing with an offset and length succeeds exactly when the requested window lies inside the source, for every offset and length up to the largest representable, and the result then denotes exactly that window of the same bytes. A rejected request reports an error and never yields a usable window: a copy leaves an empty destination, a re-slice leaves the slice as it was. Slice equality is equality of contents.",
 ["inputs", "histories"], "all chains of copy, light copy and slice over static, copy-once, managed and buffer-backed slices, all (offset, length) pairs including values whose sum overflows",
 "Tests try two or three in-range and one out-of-range pair; overflow of offset+length and windows of windows are not tried.",
 [D+"slice.c", D+"managed-buffer.c", I+"ds/slice.h"], [("bounds check", D+"slice.c: cork_slice_copy, cork_slice_slice"), ("managed-buffer bounds check", D+"managed-buffer.c: cork_managed_buffer_slice")],
 ["slice buf/size, return codes, error condition"])

prop("C11", "A shared buffer is freed exactly once, after its last reference is dropped",
 "However references and slices of a managed buffer (or of a copy-once slice, or of a buffer converted to one) are created, copied, re-sliced and finished, and from however many threads, the underlying bytes stay valid and unchanged while any reference or unfinished slice exists. The free function runs exactly once, with the original bytes and size, when the last one is dropped; failed slice requests take no reference. A copy-once slice's copies stay valid after the original caller's buffer is gone.",
 ["histories", "schedules"], "all orders of ref, unref, slice, copy, light copy, re-slice, finish; all interleavings of concurrent ref/unref",
 "Tests drop references in one order on one thread and do not count frees.",
 [D+"managed-buffer.c", D+"slice.c", D+"buffer.c", I+"threads/atomics.h"], [("atomic reference count", D+"managed-buffer.c: cork_managed_buffer_ref/unref"), ("copy-once switch to managed", D+"slice.c: cork_slice_init_copy_once")],
 ["free callback invocations, bytes seen through live slices"],
 [("ref_count", "number of live references", I+"ds/managed-buffer.h")])

prop("C12", "A memory pool hands out distinct live objects and recycles only freed ones",
 "An object returned by a pool overlaps no other live object, lies in memory of at least the element size aligned for any type of that size, and keeps the bytes its user writes until freed. Each object's memory is initialised exactly once before it is first handed out, not re-initialised on reuse, and finalised exactly once when the pool is destroyed; pool user data is freed once. Freed objects are reused before the pool takes more memory.",
 ["histories", "configurations"], "all allocation/free sequences, element sizes and block sizes (including blocks that hold one object)",
 "Tests allocate a few objects from one pool configuration and count callbacks once.",
 [C+"mempool.c", I+"core/mempool.h"], [("free list threaded through objects", C+"mempool.c: cork_mempool_new_object/free_object"), ("block carving", C+"mempool.c: cork_mempool_new_block")],
 ["object addresses, contents, init/done callbacks"])

prop("C13", "The garbage collector never frees an object that is still referenced",
 "For every object graph and every sequence of reference increments and decrements that follows the ownership rules, no object reachable from an external reference (directly or through other live objects) is freed or altered, including when automatic collections happen in the middle of other operations. No object is freed twice, and the collector never touches an object after freeing it, including during final shutdown. Every thread has a collector of its own, which frees only objects of that thread, and only when that thread releases references or shuts it down.",
 ["histories", "programs"], "all object graphs (cycles, self-cycles, shared cycles, chains between garbage cycles) and all mutation and release orders, with a collection possible at every release",
 "Tests build a small tree and one cycle and release them in one order; collections triggered by a full root buffer never happen in the tests.",
 [C+"gc.c", I+"core/gc.h"], [("synchronous trial deletion (mark gray / scan / collect white)", C+"gc.c"), ("root buffer and automatic collection", C+"gc.c: cork_gc_possible_root, cork_gc_collect_cycles")],
 ["per-object free callbacks and memory errors"],
 [("ref_count, color, buffered", "per-object collector state", C+"gc.c struct cork_gc_header"), ("roots", "possible cycle roots", C+"gc.c struct cork_gc")])

prop("C14", "The garbage collector frees every unreachable object by shutdown",
 "An object that is not part of a garbage cycle nor reachable from one is freed as soon as its last reference is released, together with everything only it kept alive. Every object unreachable from external references, including all members of garbage cycles, has been freed exactly once by the time the collector is shut down, with its free callback run once. This holds however many candidate roots accumulated and however many automatic collections ran in between. It holds for every thread's collector on its own, whether or not it was initialised explicitly.",
 ["histories", "programs"], "all object graphs and release orders; any number of candidate roots relative to the collector's root capacity",
 "Tests have no way to notice an object that is leaked, and never fill the root buffer.",
 [C+"gc.c"], [("release on zero count", C+"gc.c: cork_gc_release"), ("collect at shutdown", C+"gc.c: cork_gc_done")],
 ["per-object free callbacks"])

prop("C15", "The error condition is exact and private to each thread",
 "After setting an error (by string, format or errno), its code and full formatted message are what is reported, for messages of any length and even if the new message was built from the old one; prefixing prepends exactly the given text; clearing leaves no error. The operations of one thread never change or expose another thread's error condition, for any interleaving. Functions documented to fail through the error condition leave it set exactly when they report failure.",
 ["histories", "inputs", "schedules"], "all sequences of set, prefix, clear and query in any number of threads, and all message lengths",
 "Tests set one error on one thread with short messages.",
 [C+"error.c", I+"core/error.h"], [("double-buffered thread-local error", C+"error.c: cork_error_get, prefix/set swapping buffers"), ("thread-local storage", I+"threads/basics.h: cork_tls")],
 ["cork_error_code, cork_error_message, cork_error_occurred per thread"])

prop("C16", "A thread runs its body exactly once and join reports its outcome",
 "Starting a thread runs its body exactly once with its user data; joining returns only after the body has finished, all its writes are visible, and its user-data free function has run exactly once; a thread freed without being started never runs its body and frees its user data once. Join fails with the body's own error code and message exactly when the body failed. Thread identifiers are never zero and are distinct between all threads, including ones not created by the library, and stable within each thread.",
 ["schedules", "histories"], "all interleavings of creation, start, body execution and join over any number of threads, and all outcomes of the body",
 "Tests start a few threads and join them in one order; interleavings and identifier uniqueness under contention cannot be sampled meaningfully.",
 [T+"thread.c", I+"threads/basics.h"], [("atomic id assignment", T+"thread.c: cork_thread_id allocation"), ("run wrapper, error hand-over on join", T+"thread.c")],
 ["body executions, join results, ids"])

prop("C17", "A once-barrier runs its initialisation exactly once, before anyone passes it",
 "However many threads reach a once-barrier at the same time, exactly one executes the guarded statement, and no thread continues past the barrier before that execution has completed. With the recursive form, a thread that re-enters the barrier from inside the guarded statement passes through while every other thread still waits for completion.",
 ["schedules"], "all interleavings of any number of threads through one or several barriers, including nested recursive entry",
 "Tests let threads race freely a few times; a window of a few instructions is practically never hit.",
 [I+"threads/basics.h", I+"threads/atomics.h"], [("three-state CAS barrier", I+"threads/basics.h: cork_once, cork_once_recursive")],
 ["executions of the guarded statement relative to barrier exits"],
 [("barrier", "0 not started / 1 running / 2 done, plus running thread id", I+"threads/basics.h")])

prop("C18", "Atomic operations never lose or invent an update",
 "For any interleaving of atomic add, subtract, pre-add, pre-subtract and compare-and-swap on a shared variable, each operation returns the value before (pre-forms, CAS) or after (plain forms) its own update, and the observed results are those of some sequential order of the operations. A compare-and-swap changes the variable exactly when it returns the expected old value. Arithmetic wraps modulo the width of the type, for int, unsigned, size and pointer variants.",
 ["schedules", "inputs"], "all interleavings, all operands and all supported types",
 "Tests use each operation once on one thread.",
 [I+"threads/atomics.h", I+"config/gcc.h"], [("compiler atomics wrappers", I+"threads/atomics.h")],
 ["returned values and final value"])

prop("C19", "A stream producer delivers exactly the file's bytes, then one end-of-stream",
 "Reading a descriptor, FILE or path into a consumer delivers exactly its bytes in order, marks only the first chunk as first, and signals end-of-stream exactly once after all data, for any length and any pattern of short or interrupted reads. If the consumer or the source reports an error, that error is returned at once, no further data or end-of-stream is delivered, and a file opened by path is closed in every case while caller-opened ones stay open.",
 ["inputs", "fault_sequences"], "all contents, lengths, read-size patterns, EINTR and error positions, consumer failures at any chunk",
 "Tests read one small regular file, where reads are never short, interrupted or failing.",
 [D+"file-stream.c", D+"stream.c", I+"ds/stream.h"], [("read loops", D+"file-stream.c: cork_consume_fd, cork_consume_file, cork_consume_file_from_path")],
 ["calls received by the consumer, return value, open descriptors"])

prop("C20", "A file-writing stream consumer writes every byte it is given, once, in order",
 "A descriptor, FILE or path consumer, and the buffer-backed consumer, append exactly the concatenation of the chunks they receive, for any chunking and any pattern of short or interrupted writes, and report an error exactly when a write ultimately fails. A consumer that opened its own file closes it exactly once, and a file that it created is one that its owner can read and write; one given an open file never closes it.",
 ["inputs", "fault_sequences"], "all chunk sequences, short-write and EINTR patterns and error positions",
 "Tests write small chunks to regular files, where write(2) is never short or interrupted.",
 [D+"file-stream.c", D+"buffer.c"], [("write loop", D+"file-stream.c: cork_fd_consumer__data"), ("close on eof/free", D+"file-stream.c")],
 ["bytes arriving in the file, return values, open descriptors"])

prop("C21", "A child's output is delivered completely, in order, with one end-of-stream",
 "Each consumer attached to a child's stdout or stderr receives exactly the bytes the child wrote to that stream, in order, with only the first chunk marked first and end-of-stream signalled exactly once after the last byte, for any amount and interleaving of output on the two streams and over any number of children in a group. Waiting always terminates once the children have exited and never deadlocks, however the children interleave writing, closing and blocking on their streams, and draining never blocks.",
 ["schedules", "inputs", "configurations"], "all output sizes (including more than a pipe's capacity on either stream), all interleavings of writes and closes across streams and children, all groupings",
 "Tests run children that print one short line; pipe-capacity deadlocks and multi-chunk streams are not reached.",
 [O+"subprocess.c"], [("non-blocking read pipes", O+"subprocess.c: cork_read_pipe_*"), ("drain/wait loops", O+"subprocess.c: cork_subprocess_drain, cork_subprocess_wait, group variants")],
 ["calls received by each consumer, termination of wait, time spent in drain"])

prop("C22", "A child's start, stdin, exit code, finish and abort are reported faithfully",
 "A child started with an exit-code destination stores there exactly the value its body returned or its program exited with, for all values, once waiting has finished; it is reported finished only after it has exited and its attached output has been delivered. Data sent to its stdin arrives exactly and in order, followed by end-of-file when the stream is ended. Abort terminates all running members, waiting or aborting again after the end has no effect, and no zombie process or open descriptor remains.",
 ["histories", "schedules", "configurations"], "all exit codes, function-bodied and program-bodied children, groups of any size, all orders of start, feed, drain, wait and abort",
 "Tests check exit codes of a couple of programs and one cat-style stdin exchange.",
 [O+"subprocess.c"], [("waitpid and exit status", O+"subprocess.c"), ("write pipe", O+"subprocess.c: cork_write_pipe__data/eof"), ("abort", O+"subprocess.c: cork_subprocess_abort")],
 ["exit code cells, is_finished, child-side observations"])

prop("C23", "An executed program gets exactly the specified arguments, environment and cwd",
 "Running an execution specification gives the new program exactly the parameters in the order they were specified (by any constructor or added later), exactly the variables of the attached environment if one is attached and otherwise the caller's environment, and the specified working directory or otherwise the caller's. If the directory or program cannot be used, running returns an error instead of executing anything. The accessors and description reflect the specification.",
 ["configurations", "inputs"], "all parameter lists, environments, directories and construction orders",
 "Tests run a few fixed command lines and compare their output.",
 [O+"exec.c", O+"env.c"], [("param array and execvp", O+"exec.c: cork_exec_run"), ("replace environ, chdir", O+"exec.c")],
 ["argv, environ and cwd as seen by the executed program"])

prop("C24", "An environment collection is a map from names to values",
 "For every sequence of add, formatted add, remove, get, clone and replace operations, a name maps to the value last added and not since removed, removing an absent name changes nothing, and added strings may be changed or freed by the caller afterwards. Operations on one collection never affect another or the process environment, while operations given no collection act on the process environment. Cloning captures exactly the process environment, and replacing makes the process environment exactly the collection.",
 ["histories"], "all operation sequences over several collections and the process environment, including values containing '=' or empty values",
 "Tests set and read a couple of variables; removal and replacement are not exercised.",
 [O+"env.c"], [("name-keyed table of variables", O+"env.c: cork_env_add/remove/get"), ("clone/replace", O+"env.c: cork_env_clone_current, cork_env_replace_current")],
 ["cork_env_get on every name, process environ"])

prop("C25", "Registered cleanup functions all run once, in priority order, at exit",
 "At normal termination every registered cleanup function is called exactly once for each registration, in non-decreasing order of priority, including negative and extreme priorities, whatever the registration order. A function registered by a running cleanup function, directly or by first use of a library facility, is also run once before the process ends.",
 ["histories"], "all registration sequences and priorities, including registrations made during cleanup",
 "Nothing in the tests observes exit-time behaviour.",
 [O+"process.c"], [("sorted list", O+"process.c: cork_cleanup_at_exit_named"), ("atexit hook", O+"process.c: cork_cleanup_call_all")],
 ["order of cleanup calls seen at process exit"])

prop("C26", "Creating, removing and querying files acts exactly as specified on the tree",
 "Creating a directory makes it (and with the recursive flag every missing parent, each with the given mode) and removing deletes exactly the named file or directory (with the recursive flag its whole contents); nothing else in the file system changes, in particular nothing behind a symbolic link inside a removed tree. The call fails with an error set exactly when the target already exists or is missing without the permissive flag, a parent is missing without the recursive flag, a non-recursive removal meets a non-empty directory, or the operating system refuses. Existence and type queries report the state of the file system when the file object first looks (and again after it has itself created or removed the file), through links, and setting or reading never alters the tree.",
 ["histories", "configurations", "inputs"], "all small directory trees (files, directories, links), all paths within them and all flag combinations",
 "Tests create and remove one path shape each; the combinations of flags, pre-existing partial paths and links are not reached.",
 [O+"files.c", I+"os/files.h"], [("mkdir recursion", O+"files.c: cork_file_mkdir"), ("remove recursion", O+"files.c: cork_file_remove"), ("cached stat", O+"files.c: cork_file_stat")],
 ["resulting tree, return codes, error condition"])

prop("C27", "Iterating and walking a directory visits every entry exactly once, well nested",
 "Iterating a directory calls back exactly once for each immediate entry except dot entries, with the right name and path, and stops at and returns the first non-zero result. Walking calls the file callback once for every regular file and enter and leave once around the contents of every directory not skipped (symbolic links count as what they refer to, and a dangling one as neither), with correct full path, path relative to the root and base name, however the root is spelled. A walk stops at and returns the first non-zero result other than skip, and reports an error, with the condition set, if a directory cannot be read.",
 ["configurations", "inputs"], "all small directory trees and root spellings (relative, absolute, trailing slashes), abort and skip at every callback",
 "Tests walk one fixed source directory.",
 [O+"directory-walker.c", O+"files.c"], [("recursion and path buffer truncation", O+"directory-walker.c"), ("iterate", O+"files.c: cork_file_iterate_directory")],
 ["callback sequence and arguments, return code"])

prop("C28", "Path operations compute the documented path for every input",
 "Joining gives the second path if it is absolute or the first is empty, the first if the second is empty, and otherwise the two in sequence, with a slash added between them unless the first already ends in one; the base name is what follows the last slash and the directory name what precedes it (keeping the root slash); making a path absolute prefixes the current directory unless it is already absolute. The in-place and copying variants agree, the copying ones leave their operands unchanged, and no other normalisation happens.",
 ["inputs"], "all path strings over slashes and names, of any length, for both variants of each operation",
 "Tests list a couple of dozen literal pairs.",
 [O+"files.c", I+"os/files.h"], [("join/basename/dirname/absolute", O+"files.c")],
 ["cork_path_get of results and operands"])

prop("C29", "Path lists keep their order and searches return matches in list order",
 "Splitting a colon-separated string yields its components in order, printing joins the list's paths with colons in order, and adding appends. Searching for a relative name returns the first existing match in list order, or an error naming the target when there is none, and the all-matches variant returns every existing match, in list order, without error when there are none.",
 ["inputs", "configurations"], "all list strings (including empty components) and all placements of the target among the listed directories",
 "Tests search one installed list of two directories.",
 [O+"files.c"], [("split/append/to_string", O+"files.c: cork_path_list_*"), ("search", O+"files.c: cork_path_list_find_file(s)")],
 ["list contents, found paths, error condition"])

prop("C30", "Standard paths follow the environment as the XDG specification says",
 "For every combination of HOME and XDG variables being set, unset or empty, the home, configuration, data, cache and runtime paths are the ones the XDG Base Directory Specification defines: the user-specific entry first, then the configured list in order, or the documented defaults. When a required variable is missing or empty the function returns nothing and sets an error.",
 ["configurations"], "all combinations of the seven environment variables being unset, empty or set to one or several directories",
 "Tests cover a few combinations per function.",
 [O+"files.c"], [("default values and composition", O+"files.c: cork_path_config_paths, cork_path_data_paths, cork_path_user_cache_path, cork_path_user_runtime_path, cork_path_home")],
 ["returned paths, error condition"])

prop("C31", "All library memory goes through the installed allocator, with exact sizes",
 "With a custom allocator installed, every allocation, reallocation and release the library makes for its own data goes to that allocator; every block it releases or resizes is one it obtained and still holds, with exactly the size it was obtained with, and after all objects are destroyed nothing remains held. An allocator that supplies only the two required methods gets correct zeroed, resizing, duplicating and freeing behaviour from the derived ones, recoverable forms return nothing on failure (leaving the old block intact, or freed for the freeing form), and user data is freed once at exit with allocators released in reverse order.",
 ["histories", "fault_sequences", "configurations"], "all histories of library objects under an accounting allocator, all subsets of overridden methods, failures at any allocation of a recoverable form, all sizes including zero",
 "Tests run under the debug allocator only where selected and never override single methods or inject failure into recoverable calls.",
 [C+"allocator.c", I+"core/allocator.h"], [("default method derivation", C+"allocator.c: cork_alloc__default_*"), ("size-carrying frees", "all modules calling cork_free/cork_cfree/cork_delete"), ("debug allocator", C+"allocator.c: cork_debug_alloc_new")],
 ["calls reaching the custom allocator"])

prop("C32", "Command-line dispatch selects exactly the named subcommand or help",
 "For every command tree and argument vector, options at each level are given to that level's parser, the following word selects the matching subcommand (first match wins), and the selected leaf runs exactly once with exactly the arguments left after its own options. Help requested by the help command or by -h/--help at any level prints that command's help and succeeds without running a leaf; a missing or unknown subcommand prints the set's help or an error and the program exits with failure status.",
 ["inputs", "configurations"], "all argument vectors over all small command trees, with and without option parsers",
 "Tests run a handful of command lines through one binary and compare text.",
 ["src/libcork/cli/commands.c", I+"cli/commands.h"], [("dispatch recursion", "src/libcork/cli/commands.c: cork_command_main, cork_command_set run"), ("help", "src/libcork/cli/commands.c: cork_command_show_help")],
 ["which leaf runs with which argv, exit status, stdout/stderr"])

prop("C33", "IP address parsing and printing are exact and mutually inverse",
 "A string is accepted as an IPv4 or IPv6 address exactly when it is a valid dotted quad or a valid RFC 4291 textual form, and then denotes that form's address; any other string is rejected with a parse error and leaves the address unchanged, and the generic form accepts exactly the union with the right version. Printing any address gives text that parses back to the same address, with no leading zeros and the first longest run of zero groups compressed. Equality and copying agree with the address bytes and version.",
 ["inputs"], "all strings and all addresses of both versions",
 "Tests contain a list of good and bad strings; the space of malformed strings is what matters to callers.",
 [C+"ip-address.c", I+"core/net-addresses.h"], [("single-pass parsers", C+"ip-address.c: cork_ipv4_parse, cork_ipv6_init"), ("printing with zero-run compression", C+"ip-address.c: cork_ipv6_to_raw_string")],
 ["parse result bytes, return code, printed text"])

prop("C34", "An address is a valid network exactly when its host bits are all zero",
 "For every IPv4 or IPv6 address and every prefix length, the network check succeeds exactly when the prefix length is within the address width and all bits after the prefix are zero; an over-long prefix is never accepted and reports an error where documented. The generic form agrees with the version-specific one.",
 ["inputs"], "all addresses of both versions and all prefix lengths, in particular single set bits on both sides of every prefix boundary",
 "Tests check a handful of addresses whose host bits happen to be in the low half.",
 [C+"ip-address.c"], [("mask construction and byte order", C+"ip-address.c: cork_ipv4_is_valid_network, cork_ipv6_is_valid_network")],
 ["boolean result, error condition"])

prop("C35", "Timestamp conversion and formatting are exact",
 "Building a timestamp from seconds and milli-, micro- or nanoseconds and reading any unit back gives the same value, and every reading is the fraction correctly rounded (to within the resolution of the stored fraction) and below one second. Formatting a timestamp replaces each documented specifier with the correct UTC or local calendar field, zero-padded to its width, copies other text unchanged, and reports an error for any other specifier.",
 ["inputs"], "all seconds and fractions, all format strings over the documented specifiers and malformed ones",
 "Tests check a few round values.",
 [C+"timestamp.c", I+"core/timestamp.h"], [("fixed-point conversion", I+"core/timestamp.h"), ("format interpreter", C+"timestamp.c: cork_timestamp_format_*")],
 ["returned units, formatted text, error condition"])

prop("C36", "128-bit unsigned arithmetic, comparison, access and printing are exact",
 "For all operands, addition and subtraction are exact modulo 2^128, the six comparisons agree with the mathematical order, and construction and big-endian piece access at every width agree with the value. Decimal and hexadecimal printing give the unique representation without leading zeros, and the padded form has a fixed width. Both the native-integer and the portable implementation give the same results.",
 ["inputs", "configurations"], "all operand pairs, in particular carries and borrows between words, on both implementations",
 "Tests use a generated table of pairs; carry patterns are not systematic.",
 [C+"u128.c", I+"core/u128.h"], [("carry and borrow between halves", I+"core/u128.h"), ("printing", C+"u128.c")],
 ["results of each operation"])

prop("C37", "Stable hashing is the fixed published function of seed and bytes",
 "The stable 32-bit hash of any bytes and seed equals the published MurmurHash3_x86_32 function for every length, alignment and content, so it never varies between platforms or versions; the big 128-bit hash equals the published 128-bit function for 64-bit words. Bytes outside the given range are never read and never affect a result. The variable forms equal hashing the variable's bytes, equal values of a string, pointer or buffer hash equal, and the command-line tool prints the stable hash of its argument.",
 ["inputs"], "all byte strings, lengths (in particular every residue modulo the block size), seeds and alignments",
 "Tests check a handful of string hashes.",
 [C+"hash.c", I+"core/hash.h", "src/cork-hash/cork-hash.c"], [("block and tail mixing", C+"hash.c, "+I+"core/hash.h")],
 ["hash values"])

prop("C38", "Byte-order conversions are exact for every expression",
 "At every width (16, 32, 64 bits) byte swapping reverses the bytes of any value, given as any side-effect-free expression or in place; conversions to and from big- and little-endian order give the integer whose memory image on the host has that byte order, and undo each other; the host's endianness constants and names are consistent. Swapping in place changes nothing but its operand.",
 ["inputs"], "all values, all macros, all expression forms (in particular operators of lower precedence than a cast, and wider operand types)",
 "Tests swap a single constant per width.",
 [I+"core/byte-order.h"], [("swap and conversion macros", I+"core/byte-order.h")],
 ["values of the expressions, memory images"])

prop("C39", "A checked call hands every failure on, and nothing else",
 "A function that makes a call under one of the checking macros goes on exactly if the call succeeded (by the macro's own rule: no error condition, a zero result, a result that is not NULL, or a system call that did not fail); if it failed the function leaves at once, through its error label or with the failing result that the macro names (an int-to-int macro hands the very result on), without another step and without changing the error condition, also through chains of functions. A system call that was interrupted is made again as often as needed; one that fails otherwise is made once and leaves its errno as the error condition. Insisting on a pointer stops the process exactly if it is NULL; a place declared unreachable always does.",
 ["histories", "inputs"], "all macros, all chains of callers, all results (any int, not only -1), errno values and numbers of interruptions, and any error condition beforehand",
 "Tests use the macros on calls that succeed, or fail with -1, and never interrupt a system call.",
 [I+"helpers/errors.h", I+"helpers/posix.h"], [("checking macros", I+"helpers/errors.h"), ("EINTR loop and errno hand-over", I+"helpers/posix.h")],
 ["steps done and left out, results, error condition, number of calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
        assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
