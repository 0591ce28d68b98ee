#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

# ------------------------------------------------------------- concurrency
p("C01", "Mutex: recursive mutual exclusion with truthful try/timed acquisition",
  "A Mutex is held by at most one thread at a time; its holder may acquire it again and it becomes free exactly when it has been released once per successful acquisition, whichever of lock, trylock and timedlock acquired it, and the lock count seen by the holder equals the acquisitions outstanding, as does what mutext() tells it, with the place in the source of each of the first acquisitions. trylock and timedlock report true exactly when the caller now holds the mutex, and timedlock reports false only after the requested time has passed. No thread stays blocked in lock once the mutex is free, with or without the file/line blocking report.",
  ["schedules", "histories"], "all interleavings of acquire/release calls by several threads, all clock values and timeouts",
  "LockTest runs two threads on one schedule of the host and prints; trylock/timedlock outcomes, recursion and the clock value are never varied.",
  ["Threads.h", "Threads.cpp", "Timeval.cpp"],
  [("recursive pthread mutex plus lock count", "Threads.cpp Mutex::lock/trylock/timedlock/unlock"), ("ScopedLock", "Threads.h")],
  [("mLockCnt", "acquisitions outstanding by the holder", "Threads.h Mutex")], ["Mutex public API", "ScopedLock"])
p("C02", "Multiple-mutex lock takes all, never deadlocks, restores on exit",
  "Constructing a ScopedLockMultiple returns only when the calling thread holds every mutex named, and destroying it leaves each mutex held or free for that thread exactly as on entry. Any number of threads using it on overlapping mutexes in any order, entering with any subset already held, never deadlock as long as no thread keeps a mutex forever.",
  ["schedules"], "all interleavings of threads with all owner subsets and mutex orders",
  "LockTest exercises one pair of threads with compatible owner flags on one schedule.",
  ["Threads.h", "Threads.cpp"],
  [("_lockAll try/back-off rotation", "Threads.cpp ScopedLockMultiple"), ("_restoreState", "Threads.cpp")],
  [("ownA/state", "which mutexes were/are held by this thread", "Threads.h ScopedLockMultiple")], ["Mutex::lockcnt", "Mutex::trylock from another thread"])
p("C03", "Signal: atomic release-and-wait, nothing lost, bounded waits",
  "Waiting on a Signal releases the mutex and starts waiting in one step, so a signal or broadcast issued by a thread that acquired the mutex after the waiter began is never missed: signal releases at least one waiter and broadcast releases all waiters. The wait always returns with the mutex held by the caller again. A timed wait returns once its timeout passes even if no signal comes, does not return early except for a wakeup, and returns immediately when the timeout is zero or negative.",
  ["schedules"], "all interleavings of waiters and signallers, all clock phases",
  "No test uses Signal directly; queue tests see a single schedule and real clock.",
  ["Threads.h", "Threads.cpp", "Timeval.cpp"], [("pthread condition variable wait", "Threads.h/Threads.cpp Signal::wait"), ("absolute deadline computed from Timeval", "Timeval.cpp Timeval::future")],
  [], ["Signal public API"])
p("C04", "RWLock: writers exclusive, readers shared",
  "At any time an RWLock is held by one writer or by any number of readers, never both. A try-acquire succeeds exactly when the requested mode is compatible with the current holders and never blocks, and blocked readers and writers proceed once the incompatible holders release.",
  ["schedules"], "all interleavings of read/write acquire, try-acquire and release", "RWLock has no test at all.",
  ["Threads.h", "Threads.cpp"], [("pthread rwlock wrapper", "Threads.h RWLock")], [], ["RWLock public API"])
p("C05", "InterthreadQueue is a linearizable FIFO that never loses a wakeup",
  "Concurrent use of an InterthreadQueue behaves as if each call happened at one instant on a sequence: write appends, write_front prepends, reads and non-blocking reads take the head, front peeks, size counts, flushNoDelete empties, clear empties and deletes each element exactly once. Every element written is delivered to exactly one reader or remains, unharmed and in order. A reader never stays blocked while an element is available, and destroying the queue deletes exactly the elements still in it.",
  ["schedules", "histories"], "all interleavings of any number of readers/writers on every FIFO type used with the template",
  "InterthreadTest runs one writer and one reader on the host's schedule and checks nothing but termination.",
  ["Interthread.h", "LinkedLists.h", "LinkedLists.cpp", "Threads.h"],
  [("scoped lock over each operation, signal after write, wait loop in read", "Interthread.h InterthreadQueue"), ("PointerFIFO / PtrList / SingleLinkList", "LinkedLists.h, Interthread.h")],
  [("mQ", "elements queued", "Interthread.h")], ["InterthreadQueue public API", "element destructors"])
p("C06", "Timed blocking calls: give up only after the timeout, and then do",
  "A timed read on any interthread container (queue, queue with wait, priority queue, map) or a timed wait for either of two connected queues returns an element if one is available, returns empty-handed only if none was available and at least the requested time minus 2 ms has passed since the call, and always returns by the timeout plus scheduling delay, whatever the clock value at the call and however often it is woken without an element for it. A zero timeout never blocks on the map, queue and priority queue reads.",
  ["schedules", "inputs"], "all interleavings, all clock phases (including microsecond wrap), all timeouts, spurious wakeups",
  "The tests use the real clock, so the phase at which a deadline carries into the next second is practically never hit, and competing readers are never combined with timeouts.",
  ["Interthread.h", "Timeval.h", "Timeval.cpp", "Threads.cpp"], [("deadline + remaining() loop around Signal::wait", "Interthread.h read(timeout)/get(timeout)/iqWaitForEither"), ("deadline arithmetic", "Timeval.cpp")],
  [], ["timed calls, virtual clock"])
p("C07", "Connected queues share one lock and one wakeup",
  "After one InterthreadQueue is connected to another they remain separate FIFO queues, each linearizable, but operations on both exclude each other: a thread that took the lock either queue hands out can iterate that queue while no other thread changes it. A thread waiting for either queue returns exactly when at least one of the two is non-empty (or its timeout passed), and is never left blocked while one of them holds an element.",
  ["schedules"], "all interleavings of writers, readers and one either-waiter on two connected queues", "No test connects queues.",
  ["Interthread.h"], [("shared lock/signal pointers", "Interthread.h iqConnect, iqWaitForEither, qGetLock")],
  [("mLockPointer/mWriteSignalPointer", "the lock and signal actually used", "Interthread.h")], ["iqConnect, iqWaitForEither, qGetLock, begin/end"])
p("C08", "Low-water wait on InterthreadQueueWithWait never sleeps through its mark",
  "InterthreadQueueWithWait is a linearizable FIFO with the same delivery, ownership and no-lost-wakeup guarantees as InterthreadQueue. A call waiting for the size to fall to a low-water mark returns only at a moment when the size was at or below its mark, and never stays blocked while it is - whichever operation (read, timed read, non-blocking read, clear) reduced the size and however many threads wait with whatever marks.",
  ["schedules"], "all interleavings of readers, writers, clearers and several low-water waiters with different marks", "The class has no test.",
  ["Interthread.h", "LinkedLists.cpp"], [("read signal sent by every removal", "Interthread.h InterthreadQueueWithWait")], [], ["public API"])
p("C09", "InterthreadMap is a linearizable map that owns what it holds",
  "Concurrent use of an InterthreadMap behaves as an atomic key-value map: write sets or replaces (deleting a replaced element), get removes and returns, read returns without removing, remove deletes, size counts. A blocked get or read for a key returns once the key is present and never stays blocked while it is present, even when several threads wait for the same or different keys. Each element is deleted exactly once by the map (replacement, removal, destruction) unless it was handed to a caller.",
  ["schedules", "histories"], "all interleavings of readers, writers, removers over several keys", "InterthreadTest has one writer and one reader and checks nothing.",
  ["Interthread.h"], [("scoped lock, broadcast on write, re-find loop", "Interthread.h InterthreadMap1/InterthreadMap")], [("mMap", "key to element", "Interthread.h")], ["public API", "element destructors"])
p("C10", "InterthreadPriorityQueue delivers by priority, exactly once",
  "Concurrent use of an InterthreadPriorityQueue behaves as an atomic priority queue: every read, timed read or non-blocking read takes an element that no queued element precedes under the configured comparison, peek shows such an element without removing it, and each element written is delivered exactly once or deleted exactly once by clear or destruction. A reader never stays blocked while an element is available.",
  ["schedules", "histories"], "all interleavings and all priority orders including ties", "The class has no test.",
  ["Interthread.h"], [("std::priority_queue under a scoped lock, signal after write", "Interthread.h InterthreadPriorityQueue")], [], ["public API", "element destructors"])
p("C11", "Semaphore: a post is never lost and lets exactly one through",
  "A Semaphore is a binary flag: post sets it, get waits until it is set and clears it, semtry reports whether it was set and clears it, each atomically. Each post lets at most one get or semtry through, posts while it is already set coalesce, and a thread never stays blocked in get while the flag is set.",
  ["schedules"], "all interleavings of post/get/semtry by several threads", "The class has no test.",
  ["Interthread.h"], [("flag under lock with signal", "Interthread.h Semaphore")], [("mFlag", "posted and not yet taken", "Interthread.h")], ["public API"])
p("C12", "Reference-counted objects die exactly once, with their last pointer",
  "An object managed by RefCntPointer is destroyed exactly once, at the moment the last RefCntPointer to it is destroyed, freed or reassigned, and never while another refers to it - for every sequence of copies, assignments (including self-assignment and assignment from raw pointers), frees and scope exits in any number of threads. The reported reference count equals the number of pointers referring to the object.",
  ["schedules", "histories"], "all programs over several pointers/objects and all interleavings of threads owning them", "UtilsTest does not test reference counting.",
  ["Utils.h", "Utils.cpp"], [("count under a mutex inside the object; delete on zero", "Utils.cpp RefCntBase::incRefCnt/decRefCnt"), ("RefCntPointer copy/assign/free", "Utils.h")], [("mRefCnt", "pointers to the object", "Utils.h")], ["object destructor", "getRefCnt"])
p("C13", "Shared library state is free of data races",
  "No two threads using the same thread-safe object of the library (mutexes, queues, maps, semaphore, reference-counted pointers, configuration table, logger, reporting counters, memory statistics) access the same memory without synchronization when at least one of them writes, as long as they call only its documented thread-safe operations. Every access to the state such an object protects is ordered with conflicting accesses by its lock.",
  ["schedules"], "all interleavings of concurrent operations on each thread-safe class", "Nothing in the tests observes memory accesses; races only show up as rare corruption.",
  ["Interthread.h", "Threads.cpp", "Configuration.cpp", "Logger.cpp", "Utils.cpp", "Reporting.cpp"], [("one lock per object, taken by every operation", "Interthread.h, Configuration.cpp, Logger.cpp, Utils.cpp, Reporting.cpp")], [], ["instrumented memory accesses and synchronization operations"])
p("C14", "Thread runs its task exactly once and join waits for it",
  "Starting a Thread runs the given function exactly once with the given argument in a new thread of the requested stack size, everything the starter did before is visible to it, and join returns only after the function has finished, after which the Thread can be started again. Destroying a Thread that was never started is harmless.",
  ["schedules"], "all interleavings of starter, task and joiner, repeated start/join, several threads started at once", "ThreadTest creates threads until the system limit and is not a stable test; others start one thread and never vary the schedule.",
  ["Threads.h", "Threads.cpp"], [("argument wrapper handed to pthread_create", "Threads.cpp Thread::start, thread_main")], [("mThread", "running thread or 0", "Threads.h")], ["Thread public API"])

# ------------------------------------------------------------- configuration, database
p("C20", "Configuration table: what was set is what is read, and it persists",
  "For every history of set, remove, purge and reopen, reading a key returns the value most recently set successfully, byte for byte whatever characters key and value contain, otherwise the schema default if the key is in the schema, otherwise reports that the key is not found; the numeric, boolean, float and vector readers return that same value converted. Removing a key reports true exactly when a stored entry was removed, the listing of all pairs and the pattern search show exactly the stored entries, and a table reopened on the same file shows the same contents. No operation on one key changes another.",
  ["histories", "inputs"], "all sequences of operations over arbitrary keys and values", "ConfigurationTest sets a dozen well-behaved keys once each and prints.",
  ["Configuration.h", "Configuration.cpp", "sqlite3util.cpp"], [("cache in front of an sqlite table", "Configuration.cpp lookup/set/remove"), ("schema defaults", "Configuration.cpp lookup")], [("mCache", "recently read values", "Configuration.h"), ("CONFIG table", "stored values", "Configuration.cpp")], ["public API", "the database file"])
p("C21", "Configuration changes by others become visible within three seconds",
  "A value changed in the database by another table, connection or program is returned by every read that happens at least three seconds after the change, for every table in the process and however reads of different tables and keys interleave; a purge makes it visible immediately. Reads through the same table always see its own writes at once.",
  ["histories", "schedules"], "all interleavings in time of external changes and reads on one or several tables", "The test sleeps once with a single table.",
  ["Configuration.cpp"], [("cache purged by age", "Configuration.cpp checkCacheAge"), ("purge", "Configuration.cpp")], [("age of cache", "time of last purge", "Configuration.cpp")], ["getStr/getNum/defines under a virtual clock"])
p("C22", "Validation accepts exactly the values the schema type allows",
  "Checking a value against the schema accepts exactly the values of the declared type: 0/1 for booleans, one of the listed choices, an IPv4 address, address/prefix, address:port, host:port, list of addresses with optional ports, port 1-65535, path characters, a compilable regular expression, a string matching the declared pattern, a number inside the declared range, and the empty value only for optional types. It is a pure function: it never changes the table or the schema, and a key unknown to the schema is not valid and stays unknown.",
  ["inputs", "configurations"], "all values of all lengths for every type and every declared value list", "ConfigurationTest does not call validation with malformed values.",
  ["Configuration.h", "Configuration.cpp"], [("type switch", "Configuration.cpp isValidValue"), ("range parsing", "Configuration.cpp getMinMaxStepping/isInValRange")], [("mSchema", "declared keys", "Configuration.h")], ["isValidValue, keyDefinedInSchema"])
p("C23", "Configuration table operations are atomic between threads",
  "Concurrent set, remove, purge and read calls on one configuration table behave as if executed one at a time: a read returns a value that some completed or overlapping set stored (or the default or not-found), never a mixture, a stale value older than a completed set, or a dangling one. No combination of threads deadlocks.",
  ["schedules"], "all interleavings of readers, writers, removers and purgers", "ConfigurationTest starts one purging thread and observes nothing.",
  ["Configuration.cpp", "sqlite3util.cpp"], [("table lock held over cache and database", "Configuration.cpp")], [], ["public API"])
p("C24", "Generated SQL recreates the schema defaults",
  "Executing the SQL generated by the table on an empty database succeeds and creates exactly one row per schema key with the key's default value, static flag and description, for every schema including defaults and descriptions containing quotes; executing it on a populated database changes no existing value. The generated TeX lists every key exactly once, in the section of its visibility.",
  ["configurations", "inputs"], "all schemas", "No test runs the generated SQL.",
  ["Configuration.cpp"], [("INSERT OR IGNORE generation", "Configuration.cpp getDefaultSQL"), ("getTeX", "Configuration.cpp")], [], ["getDefaultSQL, getTeX, sqlite"])
p("C25", "Database helpers survive busy databases and report failure truthfully",
  "The sqlite helper functions retry a busy or locked database and succeed if it becomes available within the allowed attempts; they report success exactly when the statement took effect, apply it once, return exactly the stored text or number, leave no statement or transaction open whatever fails, and a failing call leaves its database unchanged. Attributes written are read back exactly.",
  ["fault_sequences", "inputs"], "all patterns of busy/locked/error results over the attempts of every helper", "The tests never make the database busy.",
  ["sqlite3util.h", "sqlite3util.cpp"], [("bounded retry on BUSY/LOCKED", "sqlite3util.cpp sqlite3_prepare_statement/sqlite3_run_query"), ("sqlQuery row iteration", "sqlite3util.cpp")], [], ["helper results, database contents, open statements"])
p("C26", "Reporting counters neither lose nor invent events",
  "At any time, for each created counter, the stored value plus the not yet committed increments equals the increments since it was created or cleared, maximised where a maximum was recorded; commits concurrent with increments, and commits that fail because the database is busy, lose and duplicate nothing. Clearing affects exactly the named counters, and indexed counters are the individual counters name.index for every index in the range.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of increments, maxima, clears and commits, with busy faults", "ReportingTest is not part of the stable tests and checks nothing.",
  ["Reporting.h", "Reporting.cpp", "sqlite3util.cpp"], [("batch under lock, committed by swapping out", "Reporting.cpp incr/commit")], [("mBatch", "increments not yet committed", "Reporting.h")], ["public API", "the REPORTING table"])
p("C27", "Key=value parsing stores every pair exactly",
  "Adding a list of space separated key=value items stores for each item with an equals sign the text after its first equals sign under the text before it, later items replacing earlier ones; items without an equals sign are ignored. Lookup returns exactly the stored value, and the throwing and validity-reporting readers signal exactly the missing keys and set the validity flag in both cases.",
  ["inputs", "histories"], "all item strings and lookup keys", "ConfigurationTest reads three fixed items.",
  ["Configuration.h", "Configuration.cpp"], [("strsep/strchr parsing into a map", "Configuration.cpp SimpleKeyValue")], [], ["SimpleKeyValue public API"])

# ------------------------------------------------------------- logger
p("C30", "The alarm list holds exactly the most recent alarms",
  "Every log record of level CRIT or more severe, and no other, is added to the alarm list in the order emitted; each time one is added the list is cut to the most recent ones up to the maximum configured at that moment, also when the maximum changes and when several threads log at once. The copy returned is a consistent snapshot.",
  ["histories", "schedules"], "all histories of records at all levels, changes of the maximum, and concurrent loggers and readers", "LogTest prints the list once.",
  ["Logger.h", "Logger.cpp"], [("list under a lock trimmed at the front", "Logger.cpp addAlarm/gGetLoggerAlarms")], [("alarmsList", "recent alarms", "Logger.cpp")], ["LOG macros", "gGetLoggerAlarms"])
p("C31", "A log statement emits exactly when its effective level allows",
  "A log statement at a given level in a file emits exactly when the level configured for that file (or, if unset or empty, the default level) is at least as verbose, or the group level set for its log group is; level names and their synonyms are recognised, an unrecognised name falls back to the schema default level, and group levels follow the configuration when updated. A configuration change takes effect at the latest after 1000 further checks.",
  ["histories", "configurations"], "all histories of level settings for files, groups and default, and of log checks", "LogTest uses one level and looks at nothing.",
  ["Logger.h", "Logger.cpp"], [("per-file level lookup with a bounded-use cache", "Logger.cpp gGetLoggingLevel/getLoggingLevel"), ("group levels", "Logger.cpp LogGroup::setAll")], [("sLogCache", "cached file levels", "Logger.cpp"), ("mDebugLevel", "group levels", "Logger.h")], ["LOG macros, gGetLoggingLevel, gLogGroup"])
p("C32", "Each emitted record reaches every sink once, whole and in order",
  "Each record that passes its level check is delivered exactly once to syslog at its own priority, and exactly once to the log file and to the console when those are enabled, complete, terminated by exactly one newline, and never interleaved with a record of another thread; alarms (CRIT or more severe) are in addition echoed whole to the console. A thread's records keep their order in each sink. The log file is opened once, at initialisation.",
  ["schedules", "inputs"], "all interleavings of logging threads, all record texts with and without trailing newline, all sink combinations", "LogTest writes to syslog only and reads nothing back.",
  ["Logger.cpp"], [("record buffered in the Log object and written in its destructor under a lock", "Logger.cpp Log::~Log"), ("gLogInit/gLogInitWithFile", "Logger.cpp")], [("gLogToFile/gLogToConsole", "enabled sinks", "Logger.cpp")], ["syslog call, log file, stderr"])

# ------------------------------------------------------------- data types
p("C40", "Linked FIFOs preserve order and count, and recycle nodes safely",
  "PointerFIFO, PtrList and SingleLinkList behave as sequences for every history of operations: put and push_back append, push_front prepends, get and pop remove and return an end or null when empty, front and back peek, size is the number of elements and the total size of a SingleLinkList the sum of its elements' sizes. Popped elements are detached, nothing is lost, duplicated or reordered however often the list becomes empty, and elements that come and go do not make a PointerFIFO's storage grow without bound.",
  ["histories"], "all operation sequences", "InterthreadTest only uses them through one queue pattern; push_front and emptying/refilling patterns are not covered.",
  ["LinkedLists.h", "LinkedLists.cpp", "Interthread.h"], [("head/tail/free list pointers", "LinkedLists.cpp, LinkedLists.h")], [("mHead/mTail/mFreeList/mSize", "list structure", "LinkedLists.h")], ["public API"])
p("C41", "Vectors own or alias memory exactly as documented",
  "For every sequence of constructions, copies, assignments (also to itself), segments, clones, concatenations, segment copies, fills, resizes and destructions of Vector, BitVector and SoftVector objects: an owner's contents change only through itself or its aliases, an alias always shows and changes the memory it was taken from, clones and copies of owners are independent, Vector's non-const copy and assignment move ownership leaving the source an alias, and every block is freed exactly once by its owner. Sizes always equal the elements accessible.",
  ["programs", "histories"], "all programs over several vectors", "VectorTest and BitVectorTest run one fixed program each.",
  ["Vector.h", "BitVector.h", "BitVector.cpp"], [("mData/mStart/mEnd ownership rules", "Vector.h VectorBase, Vector; BitVector.h")], [("mData", "owned block or null", "Vector.h")], ["public API", "allocation tracking"])
p("C42", "Bit fields, packing and hex conversion are exact",
  "For every BitVector content, offset and length 0 to 64: writing a field stores exactly those bits most significant first (reversed for the reversed form) and changes nothing else, reading returns exactly the stored bits and advances the position by the length, packing and unpacking (bytes and strings, any length) and hex printing and parsing are exact inverses most significant bit first, and malformed hex is refused. Inversion, byte reversal, bit sum, comparison and construction from text agree with the bit sequence. An element counts by its lowest bit, and a stream is left writing decimal numbers after a hex dump.",
  ["inputs"], "all contents, offsets and lengths", "BitVectorTest checks a couple of fixed vectors.",
  ["BitVector.h", "BitVector.cpp"], [("field loops", "BitVector.cpp peekField/fillField..."), ("pack/unpack/hex/unhex", "BitVector.cpp")], [], ["public API"])
p("C43", "Parity words and syndromes are those of the generator polynomial",
  "For every generator polynomial and length, and every message, the parity word written is the remainder of the message polynomial times x^n divided by the generator (complemented when requested), and the syndrome of a received word is the remainder of its polynomial, so a codeword formed from a message and its non-inverted parity has syndrome zero and any change with a non-zero remainder is detected. The result does not depend on earlier use of the same generator object.",
  ["inputs", "histories"], "all polynomials up to 63 bits, all messages", "BitVectorTest computes no parity.",
  ["BitVector.h", "BitVector.cpp"], [("shift registers", "BitVector.h Generator::syndromeShift/encoderShift"), ("Parity", "BitVector.cpp")], [("mState", "register state", "BitVector.h")], ["Parity, BitVector::parity/syndrome"])
p("C44", "Interleaving maps, puncturing and soft bits are exact",
  "Mapping and unmapping by any index table place exactly the indexed bits and leave others alone, so that a permutation followed by its inverse restores the vector. Puncturing removes exactly the listed positions keeping order, and un-punctured soft vectors have the value one half exactly at the listed positions. Soft vectors made from bits slice back to the same bits, and every soft value slices by comparison with one half. The energy of a soft vector is the mean (and least) distance of its values from one half, scaled to one, and its signal to noise ratio is the power of a perfect signal over that of the values' distances from 0 or 1, at most 999.",
  ["inputs"], "all vectors, maps and puncture lists", "BitVectorTest does not cover these operations.",
  ["BitVector.h", "BitVector.cpp"], [("map/unmap, copyPunctured, copyUnPunctured, sliced", "BitVector.cpp")], [], ["public API"])
p("C45", "Hex and base64 encoding round-trip and report malformed input",
  "Encoding any byte string as binary, hex or base64 (names case-insensitive) gives the standard encoding, and decoding it - also with spaces and newlines interspersed - gives back exactly the original bytes with no error. Malformed input (foreign characters, odd hex length, data after base64 padding) and unknown encodings are always reported as an error.",
  ["inputs"], "all byte strings of all lengths, all malformed texts", "UtilsTest round-trips a few strings.",
  ["Utils.cpp"], [("base64/hex coders", "Utils.cpp encodeToString/decodeToString")], [], ["encodeToString, decodeToString"])
p("C46", "URL encoding is standard percent-encoding",
  "URLEncode leaves letters, digits and -_.!~'() unchanged and replaces every other byte, including zero and bytes above 127, by a percent sign and the two hexadecimal digits of its value, so that percent-decoding restores the original string exactly.",
  ["inputs"], "all byte strings", "URLEncodeTest prints one encoded string and compares nothing.",
  ["URLEncode.cpp"], [("URLEncode", "URLEncode.cpp")], [], ["URLEncode"])
p("C47", "String utilities compute their documented result for every input",
  "The text helpers are exact for all inputs: formatting reproduces the formatted text of every length up to the 5000 character limit; splitting and argument extraction return the separator-delimited words in order; replacing all occurrences scans left to right without rescanning replacements; first-lines, concatenation, 64/128-bit hex conversion both ways, gcd, table printing, time strings, and scanning agree with their definitions.",
  ["inputs"], "all strings, lengths, counts and separators", "UtilsTest prints a few results for eyeballing.",
  ["Utils.h", "Utils.cpp"], [("format, cstrSplit, cstrGetArg, stringSplit, replaceAll, firstlines, stringcat, stringToUint, uintToString, gcd", "Utils.cpp")], [], ["Utils functions"])
p("C48", "Timeval arithmetic is exact at every clock value",
  "For every clock value and offset, a time constructed an offset into the future is a normalised time (microseconds below one million, valid as a timespec) equal to now plus the offset; delta, elapsed and remaining give the signed difference in milliseconds to within one millisecond for any two times, passed is true exactly once the time lies in the past, msleep sleeps the given number of milliseconds, and ISO formatting denotes the same instant in UTC or local time.",
  ["inputs"], "all clock values, offsets and pairs of times", "TimevalTest waits on the real clock and prints.",
  ["Timeval.h", "Timeval.cpp"], [("future, delta, passed, timespec, isoTime", "Timeval.cpp")], [("mTimeval", "seconds and microseconds", "Timeval.h")], ["public API under a virtual clock"])
p("C49", "Fixed-point arithmetic matches rational arithmetic to the last bit",
  "For all operands whose exact result is representable, F16 conversion rounds to nearest, addition and subtraction are exact, multiplication and division by F16 deliver the exact quotient or product scaled by 65536 and rounded to the neighbouring representable value in the fixed direction of the operation, compound forms equal their plain forms, and comparisons agree with the represented values.",
  ["inputs"], "all pairs of representable operands", "F16Test prints a handful of results.",
  ["F16.h"], [("64-bit intermediate products and quotients", "F16.h")], [("mV", "value times 65536", "F16.h")], ["F16 operators"])
p("C50", "Datagram sockets deliver packets whole to the right address",
  "A packet written on a datagram socket (UDP or Unix) arrives at its destination once with exactly its bytes and length, up to 1500 bytes; the reply address is the sender of the last packet read, so writing back reaches exactly that sender. A timed read returns -1 only after its timeout and a non-blocking read returns -1 at once when nothing is queued, and host:port strings resolve to the address and port they name or are refused.",
  ["histories", "inputs"], "all histories of send, receive, reply among several sockets, all packet sizes and timeouts", "SocketsTest is not built here and prints only.",
  ["Sockets.h", "Sockets.cpp"], [("sendto/recvfrom wrappers, select timeout", "Sockets.cpp")], [("mDestination/mSource", "peer addresses", "Sockets.h")], ["public API on loopback"])
p("C51", "One instance per program, and registered files go away at exit",
  "Registering a program creates a pid file holding its process id, or terminates the caller with the documented status without touching an existing pid file, so of any number of processes registering the same name at most one proceeds. When a registered process exits or is ended by a handled signal, its pid file and every registered file are removed, and no others; handlers registered for a signal each run once in order of registration, and the process then ends by that signal.",
  ["histories", "schedules", "crash_points"], "all orders of registration, exit and signals, concurrent registrations", "SelfDetectTest and UnixSignalTest are not part of the stable tests.",
  ["SelfDetect.h", "SelfDetect.cpp", "UnixSignal.h", "UnixSignal.cpp", "Exit.h"], [("pid file existence check and creation", "SelfDetect.cpp RegisterProgram"), ("exit/signal cleanup", "SelfDetect.cpp Exit, UnixSignal.cpp")], [("mFile/mListFiles", "files to remove", "SelfDetect.h"), ("mListHandlers", "handlers per signal", "UnixSignal.h")], ["files, exit statuses, handler calls"])
p("C52", "Counters, bit sets and statistics track exactly what was recorded",
  "For every sequence of recorded points a Statistic reports the last, smallest, largest, number and average of all points; a BitSet reports exactly the bits set and not cleared since; initialised scalar types start at their declared value and otherwise behave as the scalar; and the memory statistics report, for each kind, current objects as creations minus deletions and the total created, also when several threads record at once.",
  ["histories", "schedules"], "all sequences and interleavings of recordings", "No test checks them.",
  ["Utils.h", "Utils.cpp", "MemoryLeak.h", "ScalarTypes.h"], [("Statistic, BitSet", "Utils.h"), ("MemStats under a lock", "Utils.cpp"), ("scalar wrappers", "ScalarTypes.h")], [], ["public API"])
p("C53", "Regexp and shared-stream helpers behave atomically and exactly",
  "A compiled Regexp matches a text exactly when the extended regular expression does, any number of times and from any number of threads. Output written between the lock and unlock of the console stream helpers appears contiguous, whole and once per call on the stream whatever other threads print through them.",
  ["inputs", "schedules"], "all texts for a family of patterns, all interleavings of printing threads", "RegexpTest prints a few matches; the stream helpers are untested.",
  ["Regexp.h", "Threads.h", "Threads.cpp"], [("regexec wrapper", "Regexp.h"), ("global stream lock", "Threads.cpp lockCout/lockCerr")], [], ["Regexp::match, COUT/CERR"])

if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        print(json.dumps(x))
