#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and reviewable)."""
import json, os
A = "src/rsfile/rsfileio_abstract.py"; U = "src/rsfile/rsfileio_unix.py"; R = "src/rsfile/rsfile_registries.py"
S = "src/rsfile/rsfile_streams.py"; F = "src/rsfile/rsfile_factories.py"; T = "src/rsfile/rsfile_utilities.py"
D = "src/rsfile/rsfile_definitions.py"; B = "src/rsfile/rsbackend/unix_stdlib.py"
W = "src/rsfile/rsfileio_windows.py"; WU = "src/rsfile/rsbackend/_utilities.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {})}})

prop("P01", "Byte-range locks obey one exact per-handle conflict rule",
 """A lock request (non-blocking) is granted exactly when its byte range overlaps no range already locked through the
 same handle and overlaps no range locked through another handle, in this or in another process, unless both locks are shared;
 length 0 or None means "to infinity", offsets are resolved from start, position or end of file, and files are told apart by
 identity, not by path. Overlapping a range of the same handle raises RuntimeError whatever the sharing modes, a conflict
 with others raises LockingException, a sharing mode the stream's access does not allow raises IOError, and a refused request changes nothing.
 Unlocking succeeds only for exactly a range locked through that handle and otherwise raises RuntimeError and changes nothing.""".replace(" Unlocking", " Unlocking", 1),
 ["histories", "inputs"],
 """every sequence of lock / unlock / close / reopen over several handles (separate opens, duplicated descriptors, hard links, a foreign
 process) and every range of a small universe incl. empty, infinite, adjacent, nested, beyond EOF, beyond 2**31 and 2**32""",
 """The tests take a dozen hand-picked ranges through one or two handles; overlap logic depends on pairs of ranges, sharing modes,
 handle order and the history that produced the lock table.""",
 [A, R, U], [("lock_file", A), ("unlock_file", A), ("_try_locking_range", R), ("_try_unlocking_range", R), ("_inner_file_lock", U)],
 [("_lock_registry", "per file: held (handle, shared, start, end) records", R)])

prop("P02", "A held lock is visible to other processes, exactly, until it is released",
 """At every moment the bytes of a file that other processes see as locked, and the sharing mode they see, are exactly the union of the locks
 currently held by the open streams of this process. A lock is never lost because some other stream or handle of the process on the same file is unlocked, closed,
 garbage-collected or fails to lock. A lock never survives its explicit unlock, the end of its "with" block (normal or by exception) or the closing or
 garbage collection of its stream.""",
 ["histories"],
 """every sequence of open, lock, with-lock, unlock, close, drop, failed-lock operations over up to three streams of one file (and a second file),
 observed by another lock owner after every step""",
 """The tests check one open/close pair for the fcntl pitfall and never look at the lock table after unlocking overlapping shared locks or after an exception;
 loss depends on the history of all handles of a file.""",
 [A, U, R], [("_lock_remover", A), ("close", A), ("_inner_file_unlock", U), ("_purge_pending_related_file_descriptors", U)],
 [("pending descriptors", "descriptors of closed streams kept open while the file has locks", R)])

prop("P03", "A blocked lock request always ends once its range is free",
 """Whenever the locks that conflict with a waiting (blocking) lock request have been released, whether by unlock, by leaving a "with" block, by closing or losing
 the stream, or by another process, the request is granted; no interleaving of threads locking, unlocking and closing streams deadlocks or loses a wakeup as long as every holder
 releases. Two conflicting overlapping locks are never held at the same time in any interleaving.""",
 ["schedules"],
 """all interleavings (up to a preemption bound) of two to three threads, each locking/unlocking/closing its own stream on one file, plus a foreign lock owner""",
 """Thread tests run one uncontrolled schedule; a missed notification shows only if the waiter is already waiting when the holder closes or unlocks.""",
 [A, R, U], [("register_file_lock", R), ("remove_file_locks", R), ("notify_all", R), ("lock_file two-step loop", A)],
 [("waiter counter", "number of threads waiting on a file entry", R)])

prop("P04", "Lock timeouts are honoured and options behave transactionally",
 """A lock request with a timeout T raises LockingException if and only if its range stayed unavailable for T: never before T has elapsed, never later
 than T plus one spin delay, while a range that becomes available at or before T is granted; timeout 0 never waits. With a global enforced timeout, blocking requests
 (and only those) raise RuntimeError once it is exceeded, failed requests leave no lock behind, and changes of the system wall clock do not
 shorten or extend the wait. Setting options rejects unknown names without changing anything, takes effect for streams opened afterwards, and never exposes its internal dictionary.""",
 ["schedules", "configurations", "fault_sequences"],
 """every timeout, spin delay, enforced timeout and release time of a small grid, holders in this and in another process, and clock jumps at every step""",
 """The tests time a few real waits with tolerances of seconds; they cannot place a release or a clock jump at each instant.""",
 [A, R], [("check_timeout", A), ("set_rsfile_options", R), ("get_rsfile_options", R)])

prop("P05", "Data accessed under a lock is coherent between handles and processes",
 """If every participant (thread with its own stream, or process) reads and writes a file only while holding a lock on it, any stream type gives the result of some serial
 execution of the critical sections: a reader never sees stale bytes from its own buffers, and everything written inside a critical section is in the file before the lock is released, whether the lock is released
 by unlock, by its "with" block or by close.""",
 ["schedules", "histories"],
 """all interleavings of two or three read-modify-write critical sections over raw, buffered and text streams, thread-safe or not, in one or two processes""",
 """Tests use unbuffered or self-flushed streams; a stale read buffer or a late flush is visible only when another owner's critical section falls between.""",
 [A, S], [("_reset_buffers", S), ("lock_file/unlock_file forwarding", S), ("_lock_remover", A)])

prop("P06", "Thread-safe streams execute every call atomically",
 """On a stream opened thread-safe, concurrent calls of any stream methods (including the very first call of a method, iteration, context-manager exit, lock context exit, size, sync
 and close) behave as if executed one after the other in some order, and holding the stream's public mutex excludes all other threads' calls.
 No interleaving corrupts data, loses data or deadlocks.""",
 ["schedules"],
 """all interleavings, up to a preemption bound at source-line granularity, of two threads with one or two calls each over all pairs of stream operations and the three stream layers""",
 """No test runs two threads inside one stream with a controlled schedule; a call outside the mutex fails only in a narrow window.""",
 [S, F], [("RSThreadSafeWrapper._secure_call", S), ("RSThreadSafeWrapper.__getattr__", S), ("mutex selection", F)])

prop("P07", "Forked or executed children neither own, lose nor block locks",
 """A forked child owns none of its parent's locks: it cannot release them by unlocking or closing inherited streams, it is refused conflicting locks and is granted free ranges. This holds for a
 fork at any instant, even while another thread of the parent is inside a locking or closing operation, and the child never hangs on state inherited from it. A descriptor opened by the library survives exec if and only if the stream was opened inheritable.""",
 ["schedules", "histories"],
 """a fork placed at every scheduling point of lock, unlock, open and close running in another thread, followed by each child operation; every open mode for exec""",
 """Tests fork only at quiescent moments; the locking-inheritance test in the suite is not even collected.""",
 [R, U, F], [("_check_forking", R), ("set_inheritable / FD_CLOEXEC", U), ("interprocess mutex", F)])

prop("P08", "Binary stream I/O follows the byte-file model on every call sequence",
 """For every sequence of read, readinto, readall, peek-like, write, writelines, seek, tell, truncate, size, flush, iteration and reopen calls, on raw, buffered and thread-safe streams and with every buffer
 size, results, positions, sizes and final contents equal those of an array of bytes with one position (writes past the end leave zeros). Calls the access mode
 forbids or on closed streams raise without changing anything.""",
 ["histories", "inputs"],
 """all operation sequences up to a depth over an alphabet containing offsets and lengths around 0, buffer size, block size and end of file, all access modes, all layers, all accepted buffer types""",
 """The stdlib suites run fixed scripts; position bookkeeping between read-ahead, write-behind and the descriptor depends on the whole history.""",
 [A, U, S, F], [("read/readinto/readall/write/seek/tell/size", A), ("_inner_* primitives", U), ("buffer forwarding", S)])

prop("P09", "Text streams agree with the standard library on every call sequence",
 """For every encoding, newline mode, error handler and line-buffering setting, any sequence of text reads, line reads, iteration, writes, seeks to told positions, flushes and truncations returns the same results and leaves the
 same file bytes as the standard library's text files opened the same way (where its C and pure python versions differ, as one of them). What is still read after truncating a stream which had read ahead is not specified.""",
 ["histories", "inputs", "configurations"],
 """all operation sequences up to a depth over texts with multi-byte characters, CR/LF/CRLF at buffer boundaries, BOM encodings; all newline and error modes""",
 """Fixed scripts cover few combinations of encoding, newline and history.""",
 [S, F], [("RSTextIOWrapper", S), ("text layer construction in rsopen", F)])

prop("P10", "Every open-mode string has exactly its documented effect",
 """Every mode string, standard or advanced, is either rejected with a ValueError without touching the file system, or opens with exactly the documented readability, writability, append, must-create, must-not-create, erase, synchronized and
 inheritable effects: existence and content of the file after opening, initial position, permissions of a created file after umask, access rights of the stream and descriptor flags. Directories are refused, and the
 standard and advanced spellings documented as equivalent behave identically.""",
 ["inputs", "configurations"],
 """every string over the standard flags up to length 4 and every subset of the advanced flags, against missing, empty, non-empty, read-only, directory and symlink targets, with locking on or off and several umasks and permissions""",
 """The suite compares a handful of modes on two file states; the product of flags and file states is too large to write by hand.""",
 [F, A, U], [("parse_standard_args", F), ("parse_advanced_args", F), ("_inner_create_streams", U)])

prop("P11", "Opening never destroys data without the lock, and a failed open leaves no trace",
 """When opening with locking and erasing, the file's content is untouched until the lock on the whole file is actually held; if the lock is refused the content is intact. An open call that fails for any reason
 (bad argument, conflict, system error at any point, bad encoding, directory) leaves existing content unchanged, leaves no descriptor open and no lock held.""",
 ["fault_sequences", "inputs", "schedules"],
 """each system call made by open failing in turn with each of several errors; every kind of invalid argument; foreign and local lock conflicts of every kind""",
 """Tests never inject system errors into open and never count descriptors or locks after a failed one.""",
 [F, A, U], [("lock-then-truncate order", F), ("except: result.close()", F), ("_inner_create_streams", U)])

prop("P12", "Truncation sets the exact size, keeps data, zero-fills and keeps the position",
 """truncate(n) through any stream layer makes the file exactly n bytes long, preserves the first min(n, old size) bytes including data still buffered, shows zeros in any added range when zero_fill is true, returns the new size and leaves the logical position unchanged; truncate()
 uses the logical position. Negative sizes, read-only streams and non-seekable streams are refused without effect, also when the system cannot extend files natively and the library fills with zeros itself.""",
 ["histories", "inputs", "fault_sequences"],
 """all sequences of writes, reads, seeks and truncations with sizes around 0, current size, position, buffer size and multiples; native extension working or silently doing nothing""",
 """Tests truncate a few sizes on one history; interaction with buffers and with the fallback filling path is history dependent, and the fallback never runs on Linux in tests.""",
 [A, U, S], [("truncate", A), ("_inner_reduce/_inner_extend", U)])

prop("P13", "Partial, interrupted and would-block system answers never lose or duplicate data",
 """Whatever sequence of short reads, short writes, would-block answers and errors the operating system gives, the number of bytes a stream reports as written or returns as read is the number actually transferred, buffered
 data is neither lost, duplicated nor reordered when the operation is retried, and the binary read, readinto, write and flush calls report would-block as None or BlockingIOError, never as end of file or success.""",
 ["fault_sequences"],
 """every placement of up to two (quick) or three deviations (one byte, half, would-block, error) among the read and write system calls of operation scripts on all layers""",
 """Regular files in tests always transfer everything; pipes in tests give one answer pattern.""",
 [A, U, S], [("read/readinto/readall/write", A), ("_inner_read/_inner_write", U)])

prop("P14", "After sync returns, everything written before survives a crash",
 """When sync() on any stream layer returns, all data written through the stream before, including buffered data, and the resulting file size are on the device, and unless metadata=False was passed and honoured so are its metadata; the same holds for each raw write returning on a synchronized
 stream and for the helpers' sync option. If the device could not be synchronized, sync raises instead of returning, for every combination of supported and failing native primitives.""",
 ["crash_points", "fault_sequences", "histories"],
 """every history of writes, truncations, seeks, flushes and syncs up to a depth, under every combination of answers (ok, unsupported, device error, error once) of each native sync primitive and of abnormal writes, with a crash at each return: what a device model holds as durable is compared with what was written""",
 """The suite only measures how long sync takes; nothing checks durability or error propagation.""",
 [A, U, S, T], [("_inner_sync", U), ("sync flush-first", S), ("O_SYNC", U)])

prop("P15", "Append streams always write at the current end of file, without tearing",
 """Every write on an append-mode stream lands entirely at the end of the file as it is at that moment, whatever seeks, truncations or growth by other handles or processes happened before; existing bytes are never overwritten. Concurrent appends under the default locking are all
 present afterwards, each contiguous, in some order.""",
 ["schedules", "histories"],
 """all sequences of append-writes, seeks, reads, truncations and foreign appends up to a depth on all layers; all interleavings of two to three concurrent appenders""",
 """Tests append once after a seek; growth by somebody else between buffering and flushing is not exercised.""",
 [U, A, T, F], [("O_APPEND", U), ("append_to_file", T)])

prop("P16", "Descriptors are closed exactly once, never early, and never leak",
 """A descriptor opened by the library stays open while its stream is open or while the process holds any lock on the same file through other streams, and is closed, once, as soon as its stream is closed and no such lock remains. A descriptor wrapped with closefd=False is never closed by the
 library. After all streams of a process are closed no descriptor opened by the library remains open, in every history and interleaving.""",
 ["histories", "schedules"],
 """every sequence of open, wrap, lock, unlock, failed lock, close, drop over several streams on one or two files; all interleavings of two closing/locking threads""",
 """Tests never look at the process' descriptor table; postponed closing depends on every other handle of the file.""",
 [A, U, R], [("_inner_close_streams", U), ("_purge_pending_related_file_descriptors", U), ("try_deleting_unique_id_entry", R)])

prop("P17", "Closing is final, idempotent and releases everything even when it fails",
 """After close() returned or raised, whatever errors flushing, unlocking or closing met, the stream reports closed, its locks are released and its descriptor is scheduled for closing; buffered data was written or an exception told otherwise; further close() calls do
 nothing and every other operation raises ValueError (readable() and writable() may answer False). Losing the last reference to an open stream has the effects of close(). Errors are never swallowed.""",
 ["fault_sequences", "histories"],
 """every placement of up to two failing writes, unlocks and closes in every way of closing every layer, after every short preparation (buffered data, locks, another lock holder), followed by every operation of the API""",
 """One test makes close fail once on a raw stream; combinations of pending data, locks and failing calls are not covered.""",
 [A, U, S], [("close", A), ("_inner_close_streams", U)])

prop("P18", "Whole-file helpers transfer exactly the data, under lock, or raise",
 """write_to_file, append_to_file and read_from_file, for every data, binary or text, encoding, newline mode, buffering and locking option, store, append or return exactly the given data (as the standard library would encode and decode it), honour must_create and must_not_create, hold the file lock during
 the whole transfer when locking is on, and leave no stream open. They never report success after a partial transfer.""",
 ["inputs", "configurations", "fault_sequences"],
 """product of data sizes around buffer boundaries, encodings, newlines, bufferings and flags; short transfers and failures at each system call; foreign lock owners""",
 """The suite round-trips one string; unbuffered transfers are complete there only because the kernel never answers short.""",
 [T], [("read_from_file", T), ("write_to_file", T), ("append_to_file", T)])

prop("P19", "Identity and metadata getters tell the truth about the open file",
 """Two streams report the same unique id exactly when they refer to the same file, through any path, hard link, symbolic link, duplicate, rename or deletion, and the id of a stream never changes while it is open. size, times, mode, name, origin, closefd, fileno and handle always
 describe the file actually open (size counting buffered data), not the current owner of the path.""",
 ["histories"],
 """every sequence of open, link, rename, unlink, recreate, write and close operations over two names and two streams up to a depth, all layers""",
 """Tests look at one file without renames between; identity bugs need the path to be re-pointed.""",
 [A, U, S], [("unique_id", A), ("_inner_unique_id", U), ("size/times forwarding", S)])

prop("P20", "Wrapping an existing descriptor never alters or steals it",
 """Wrapping any valid descriptor or handle (including number 0 and those returned by an opener) in any mode never truncates or creates anything and keeps the position except for append, gives a fully working stream, and closes the descriptor at stream closing if and only if closefd is true.
 Contradictory, negative or non-integer targets are refused without touching any descriptor.""",
 ["inputs", "configurations"],
 """every combination of descriptor number class (0, small, large), kind (regular file, pipe, directory, closed), source argument (name, fileno, handle, opener), mode, layer and closefd""",
 """Tests wrap ordinary descriptors in a few modes; descriptor 0, being false, is never used.""",
 [A, F, U], [("fileno/handle/opener handling", F), ("_inner_create_streams", U)])

prop("P21", "open() is a drop-in replacement for the standard one",
 """For every combination of arguments that the standard open() accepts or rejects (text, bytes, path-like or non-boolean integer name, mode, buffering, encoding, errors, newline, closefd, opener), the replacement open and the patched io classes accept or reject it too, with compatible exception types, stream capabilities (readable, writable,
 seekable, line buffering, encoding, newlines) and the same effect on the file. Installing the patches changes nothing else.""",
 ["inputs", "configurations"],
 """the full product of the argument domains against both implementations, on existing and missing files""",
 """The reused stdlib suites call open() with single argument variations.""",
 [F, T, S, D], [("rsopen argument checks", F), ("BUILTIN_OPEN_FUNC_REPLACEMENT / RSFileIOWrapper", T)])

prop("P22", "The Windows backend gives the same stream semantics as the Unix one",
 """Over any Win32 API that behaves as documented, streams of the Windows backend give the same results, positions, sizes, contents, creation and lock effects as the byte-file and lock models for every sequence of operations: appends go to the end, gaps and extensions read as zeros, truncation keeps the position, lock ranges
 (including 64-bit and infinite ones) are passed exactly and symmetrically to lock and unlock, native errors become OSErrors with the mapped errno, and handles are closed exactly once.""",
 ["histories", "inputs", "fault_sequences"],
 """all operation sequences up to a depth on a modelled Win32 API, through both Win32 bindings, with each call failing in turn""",
 """No Windows code runs in the available test environment at all.""",
 [W, WU, "src/rsfile/rsbackend/windows_ctypes.py", "src/rsfile/rsbackend/windows_pywin32.py"],
 [("RSFileIO (windows)", W), ("ctypes and pywin32 bindings", "src/rsfile/rsbackend/windows_ctypes.py")])

prop("P23", "Native number, time and error conversions are exact inverses",
 """Splitting a non-negative integer into words and joining it back (words may be given signed), and converting between signed and unsigned words, are exact mutual inverses on their whole domains; Windows file times and timestamps too, as closely as floats can tell; integers which do not fit are refused.
 Every Windows error code maps to one fixed errno, EINVAL if unknown.""",
 ["inputs"],
 """all values of small word sizes exhaustively; all combinations of boundary bit patterns for 16, 32 and 64 bits; all error codes 0..65535""",
 """Tests convert a handful of values.""",
 [WU], [("pyint_to_double_dwords and friends", WU)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
print(len(P))
