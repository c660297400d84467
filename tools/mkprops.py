#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the text stays readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook=False):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,meaning=x) for x in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
BV=['BitVector.cpp','BitVector.h','Vector.h']
p('B01','Bit fields written into a bit vector read back exactly, both bit orders',
 'Filling or writing a field of 1 to 64 bits at any in-range position stores exactly the low-order bits of the value, most significant bit first (least significant first for the reversed form), and leaves every other bit untouched. Peeking or reading the same position and length returns those bits as the same number whatever else the vector holds (only the low bit of each element counts), changing nothing. The cursor forms advance the cursor by exactly the field length; the non-cursor forms do not.',
 ['inputs'],'all vector sizes, positions, lengths 0..64, values and prior contents',
 'the tests write one hand-picked field; the guarantee is over every position, length, value and prior content, including what must not change',
 BV,['vector elements','cursor'],[('fillField/peekField and reversed forms','BitVector.cpp'),('readField/writeField','BitVector.cpp')],['return value, vector contents and cursor after the call'])
p('B02','Packing bits to bytes and unpacking bytes to bits are exact and inverse',
 'Packing a bit vector of n bits (to a buffer or to a string) yields exactly ceil(n/8) bytes, bit i being bit 7-(i mod 8) of byte i/8 and the unused low bits of the last byte zero, and touches no further byte. Unpacking from bytes sets bit i to that same bit of the source for every i and reads no byte beyond ceil(n/8). Hence unpack after pack restores the bits for every length, including lengths that are not a multiple of eight and zero.',
 ['inputs'],'all lengths and contents','tests print one example; off-by-one and padding errors appear only at particular lengths and bit values',
 BV,['vector elements','byte buffer'],[('pack/packToString/unpack','BitVector.cpp')],['destination buffer, string, vector contents'])
p('B03','CRC words and syndromes are the polynomial remainders over GF(2)',
 'For a generator polynomial of degree 1 to 63 and any data, the parity word is the remainder of the data polynomial times x^r, the syndrome is the remainder of the received polynomial, both computed from a cleared register whatever the generator held before. Writing a parity word stores it (inverted on request) into the first r bits of the target and nowhere else. Therefore data followed by its own uninverted parity has syndrome zero and any nonzero change of the codeword that is not a multiple of the polynomial gives a nonzero syndrome.',
 ['inputs'],'all generator polynomials, register sizes, data lengths and contents','tests check one GSM code word; the shift-register identity must hold for every polynomial, length and state history',
 BV,['generator register','vector elements'],[('Generator::syndromeShift/encoderShift','BitVector.h'),('BitVector::syndrome/parity, Parity::writeParityWord/syndrome','BitVector.cpp')],['returned words and parity target contents'])
p('B04','Bit permutations and whole-vector operations do exactly what they say',
 'Octet reversal mirrors the bits of each complete octet and leaves a trailing partial octet alone; inverting flips the bit value of every element; the bit sum counts the elements whose low bit is one; building from text gives one element per character, one for the character 1 and zero for any other. Mapping sets dest[i] to this[map[i]] and unmapping sets dest[map[i]] to this[i] for every index of the map and nothing else, so unmap undoes map for a permutation. None of them reads or writes outside the vectors involved.',
 ['inputs'],'all lengths, contents and index maps','tests cover one 8-bit and one text example; lengths that are not a multiple of eight, aliases and arbitrary maps are not sampled',
 BV,['vector elements'],[('reverse8/LSB8MSB/invert/sum/map/unmap/BitVector(const char*)','BitVector.cpp')],['vector contents and return values'])
p('B05','Puncturing drops exactly the listed positions; unpuncturing restores order',
 'Punctured copying, given strictly increasing in-range positions, fills the destination with the source elements in order, omitting exactly the listed positions. Unpunctured copying places 0.5 at exactly the listed destination positions and the source elements, in order, everywhere else. A destination of the wrong size, or a puncture list that is not increasing or runs out of range, stops with an assertion rather than touching memory outside the two vectors.',
 ['inputs'],'all sizes, puncture lists and contents','no stable test runs these functions',
 BV,['source and destination vectors'],[('BitVector::copyPunctured, SoftVector::copyUnPunctured','BitVector.cpp')],['destination contents'])
p('B06','Equality, concatenation and hard slicing of vectors agree with their bits',
 'Two bit vectors compare equal exactly when they have the same length and the same bit values. Concatenation yields a fresh vector holding the first operand followed by the second, leaving both operands unchanged. A soft vector made from bits holds 1.0 or 0.0 per bit, and slicing any soft vector yields a one exactly where the soft value exceeds one half, so slicing undoes the conversion.',
 ['inputs'],'all lengths and contents, including vectors produced by other operations','tests compare a few literals by eye',
 BV,['vector elements'],[('BitVector::operator==, vConcat, SoftVector(const BitVector&), sliced','BitVector.cpp, BitVector.h, Vector.h')],['return values and resulting vectors'])
p('V07','Each vector memory block is freed exactly once and never used after being freed',
 'Whatever sequence of construction, copy, assignment (including self-assignment), cloning, aliasing, segmenting, resizing and destruction is applied, every block allocated by a vector is owned by exactly one vector, is released exactly once when that owner lets go of it, and is never released by an alias. Copying an owning vector yields an independent owner with equal contents; copying an alias yields another alias of the same elements. Shifting assignment or construction transfers ownership and leaves the source without ownership.',
 ['histories','inputs'],'all operation sequences over vectors of all sizes','a leak, double free or lost copy shows only for particular combinations of owner, alias and empty operands',
 ['Vector.h','BitVector.h'],['mData/mStart/mEnd of each vector'],[('vInit/resize/clear/clone/shiftMem/makeAlias/operator=/destructor','Vector.h'),('copy constructors','BitVector.h, Vector.h')],['heap allocations and contents'])
p('V08','Vector views, copies and fills touch exactly the requested range',
 'A segment, head, tail or alias refers to exactly the requested elements of the same memory, and a cloned segment to an independent copy of them. Copying to or from a segment and filling a range write exactly the requested elements and no others. A request that does not fit (and does not wrap the address space) stops with an assertion before any memory outside the vectors is read or written.',
 ['inputs'],'all sizes, offsets and spans','tests use in-range requests only',
 ['Vector.h','BitVector.h'],['mStart/mEnd, element memory'],[('segment/head/tail/alias/cloneSegment/copyToSegment/segmentCopyTo/fill/operator[]','Vector.h, BitVector.h')],['resulting views and contents'])
p('F09','Fixed-point numbers follow exact 16.16 two\'s-complement arithmetic',
 'A 16.16 fixed-point number built from or assigned a number stores the nearest multiple of 1/65536 (exact for integers). Addition and subtraction are exact, multiplication rounds down and division rounds toward zero to a multiple of 1/65536, whenever the result fits; scaling by a floating-point factor gives the single-precision product or quotient of the stored integer, rounded toward zero. The compound forms store that same value and return the object itself; the other forms change no operand. Comparisons with fixed-point, integer and floating-point operands agree exactly with comparing the represented numbers. Assignment, chained or not, leaves both sides equal.',
 ['inputs'],'all representable operand values','the test prints a few sums; signs, extremes and mixed forms are not checked',
 ['F16.h'],['mV'],[('F16 operators','F16.h')],['returned and stored values'])
p('L10','Linked lists keep strict first-in first-out order and exact sizes',
 'Both linked FIFOs return elements in exactly the order they were put (push-front elements before all others), return null when empty, and report the number of elements present at every moment; the intrusive list also reports the total of the sizes of the elements present. Every internal node is either in the list or in the pool for reuse, never in both and never lost; a node is created only when the pool is empty. The intrusive list never changes anything of an element but its link. Emptying a list and filling it again behaves as for a new list.',
 ['histories'],'all sequences of put, get, push-front and pop-front, on lists of any length','tests use short histories; tail-pointer mistakes show only after particular empty/refill histories',
 ['LinkedLists.h','LinkedLists.cpp'],['mHead, mTail, mFreeList, mSize'],[('PointerFIFO::put/get/push_front','LinkedLists.cpp'),('SingleLinkList','LinkedLists.h')],['returned elements and sizes'])
p('Q11','Thread-safe queues deliver each element exactly once, in order, under one lock',
 'Every element written to a thread-safe queue is returned by exactly one read (first-in first-out; most urgent first for the priority queue), none is lost, duplicated or invented, for every interleaving of writers and readers. Every access to the queue happens while its lock is held and every operation releases the lock exactly as often as it took it, including on the empty and timed-out paths. A non-blocking read of an empty queue returns null at once, a blocking read returns only with an element. Queues connected to each other share one lock. (Elements are non-null pointers.)',
 ['schedules','histories'],'all interleavings of any number of threads and all operation histories','the tests run one schedule; a missing lock, lost wake-up or early return shows only in rare interleavings',
 ['Interthread.h','LinkedLists.h','Threads.h'],['queue contents under its mutex'],[('InterthreadQueue, InterthreadPriorityQueue','Interthread.h')],['returned elements, lock state'])
p('Q12','Every insertion wakes the readers that wait for it',
 'Each operation that makes a waited-for condition true (an element written to a queue, priority queue, keyed map or semaphore) signals the condition its readers wait on, together with the change (under the lock, or after it) and before returning; taking elements out of a queue that supports waiting for it to shrink wakes the threads that wait for that. Connected queues wake the one thread that reads them. Each blocking read re-tests its condition under the lock after every wake-up and before its first wait, so a signal sent before the reader waits is not needed and a spurious wake-up never returns without an element.',
 ['schedules'],'all interleavings of waiters and writers','a lost wake-up needs a specific interleaving',
 ['Interthread.h','Threads.h'],['queue contents, condition variable'],[('write/read/wait loops','Interthread.h')],['calls to wait and signal relative to the state change'])
p('Q13','The keyed hand-off map is a map: last write wins, reads remove exactly their key',
 'Writing a key replaces (and releases) any previous element of that key, reading a key removes exactly that entry and hands its element over, peeking leaves it, removing a key releases exactly it, and a read that times out or finds nothing returns null; other keys are unaffected. No element is released while it is still in the map or after it was handed to a reader. The lock is held for every access and released on every path.',
 ['histories','schedules'],'all operation histories and interleavings','tests use two keys in one schedule',
 ['Interthread.h'],['mMap'],[('InterthreadMap','Interthread.h')],['returned elements, released elements, map contents'])
p('T14','Timed waits return with the element or at the deadline, never hang past it',
 'A timed read of a queue or keyed map, and a timed wait for either of two connected queues, returns with an element if one is available and otherwise gives up once the given time has passed (at most three milliseconds early); it never loops on after the deadline and never waits without a limit. The remaining time it passes to each wait is never more than the time left until the deadline, to the millisecond. Absolute time limits passed to the operating system are always well-formed.',
 ['schedules','inputs'],'all timeouts, clock readings and wake-up histories','tests wait a few fixed times; the edge cases are particular clock readings',
 ['Interthread.h','Threads.h','Threads.cpp','Timeval.h','Timeval.cpp'],['deadline, clock'],[('timed reads','Interthread.h'),('Signal::wait, Mutex::timedlock','Threads.cpp')],['return value, wait arguments'])
p('T15','Locks are counted exactly and scoped locks always give back what they took',
 'A mutex\'s hold count equals the number of successful lock, trylock and timed-lock calls minus unlocks, and lock attempts report success exactly when the lock was taken. A scoped lock releases its mutex exactly once when the scope ends on every path, including by exception. Scoped multiple locking ends holding every requested mutex exactly once, and its destruction gives back exactly what the caller did not hold before, whatever subset was free at each attempt.',
 ['schedules','inputs'],'all outcomes of each lock attempt, all numbers of mutexes','contention outcomes cannot be enumerated by a test schedule',
 ['Threads.h','Threads.cpp'],['mLockCnt, mutex state'],[('Mutex, ScopedLock, ScopedLockMultiple','Threads.h, Threads.cpp')],['mutex operations performed, return values'])
p('T16','Time values stay normalised and time arithmetic is exact',
 'A time value set from now plus an offset of any non-negative number of milliseconds is exactly that much later, with microseconds in 0..999999; adding minutes is exact and leaves the microseconds alone. The difference of two time values in milliseconds is exact to within one millisecond for any two times within centuries of each other, elapsed and remaining time likewise (with opposite signs), and a time is reported passed exactly when the clock is beyond it. Construction from seconds and microseconds or from a struct timeval stores them unchanged. Conversion to the operating system\'s time specification keeps the same instant and is always well-formed.',
 ['inputs'],'all time values and offsets','tests use the current time and small offsets',
 ['Timeval.h','Timeval.cpp'],['mTimeval'],[('future/delta/passed/timespec/add','Timeval.h, Timeval.cpp')],['returned values'])
p('S17','URL encoding is reversible and emits only safe characters',
 'Encoding any byte string yields only ASCII letters, digits, the safe punctuation characters and percent escapes of exactly two hexadecimal digits; letters, digits and safe punctuation are passed through and each other byte becomes the percent escape of its value. Standard percent-decoding therefore returns the original bytes for every input, including control characters, NUL and bytes above 127.',
 ['inputs'],'all byte strings of all lengths','the test encodes one string',
 ['URLEncode.cpp'],['output string'],[('URLEncode','URLEncode.cpp')],['returned string'])
p('R18','Reference-counted objects are deleted exactly when the last reference goes',
 'As long as an object has fewer than 32767 counted pointers: however counted pointers to it are copied, assigned (including to themselves), reset and destroyed, the object\'s count equals the number of counted pointers referring to it, the object is deleted exactly once, when that number falls to zero, and is never used afterwards. Copying, comparing and passing counted pointers keeps the count right, also while other threads copy and drop their own pointers to the same object.',
 ['histories'],'all sequences of pointer operations','self-assignment and last-release orders are not covered by tests',
 ['Utils.h','Utils.cpp'],['mRefCnt'],[('RefCntPointer, RefCntBase','Utils.h, Utils.cpp')],['count and deletions'])
p('K20','Configuration reads return the latest value written, through cache or database',
 'After a successful set of a key every later read of that key (text, number, flag, float or whether it is defined) gives the value set, whether it comes from the cache or from the database, until the key is set again or removed; then the next read gives the new value, or the default of the schema, or not-found when there is neither. A failed set or remove reports failure and changes no read. Purging drops every cached value, so the next read shows what the database holds. Reads never invent a value, never change the database, and hold under any interleaving of threads. Text reads as a number the way strtol and strtof do (hexadecimal and octal included); no value reads as 0. The database is taken to be readable and changed only through the table or before a purge, and keys and values to need no SQL quoting.',
 ['histories','fault_sequences'],'all histories of set, remove, read and purge, and all database outcomes','tests use a healthy database and a few keys',
 ['Configuration.cpp','Configuration.h'],['mCache','configuration table'],[('ConfigurationTable::lookup/set/remove','Configuration.cpp')],['returned values, SQL issued, cache'])
p('K21','Configuration values are checked against their declared type before acceptance',
 'A value is accepted for a key exactly when it is well-formed for the declared type of the key and inside its declared valid range or choices; anything else is rejected. Validation never crashes and never accepts a value with a missing part or trailing garbage.',
 ['inputs'],'all values and schema declarations','tests do not validate malformed values',
 ['Configuration.cpp'],['schema'],[('ConfigurationTable::isValidValue','Configuration.cpp')],['return value'])
p('D22','Database helpers report what happened and release every statement exactly once',
 'Each database helper returns success exactly when the database did, found exactly when a row matched, with the value of that row (a NULL value reads as empty text), and leaves its output as documented otherwise. A busy or locked database is tried again until it is neither, but at most the configured number of times. On every path every prepared statement is finalised exactly once, every text obtained is freed or handed over, and no buffer is exceeded however long names and keys are. Keys and values are taken to need no SQL quoting, and composed texts to stay below 5000 characters.',
 ['fault_sequences'],'all sequences of database result codes','tests run against a healthy database only',
 ['sqlite3util.cpp','sqlite3util.h'],['statement handles'],[('sqlite3_prepare_statement, sqlite3_run_query, sqlite3_single_lookup, ...','sqlite3util.cpp')],['database calls, return values'])
p('G23','A message is logged exactly when it passes the level in force for its source',
 'A text names a level exactly when it is one of the eight level names or the substitutes INFORMATION, WARN, ERROR, CRITICAL, EMERGENCY; any other text names none (-1). The level in force for a source file is the one its non-empty setting Log.Level.<file> names, otherwise the one Log.Level names; a setting that names no level counts as the schema default of Log.Level, and only such a setting is ever replaced (by that default). gGetLoggingLevel returns the level in force, or the one it returned for that file before: a level is remembered for at most 1001 uses in total, after which it is looked up again. LogGroup::setAll gives each group, for Log.Group.<group> and Log.Watch.<group> alike, the level its non-empty setting names (the schema default if that names none), and 0 without a setting. LOG(L) emits its message exactly when L is at most the level in force for the file or, with a LOG_GROUP, at most the level of the group. A message is sent to syslog exactly once, with its own severity and its text exactly as written, and exactly messages of severity CRIT and above also become alarms. After an alarm is added no more than Log.Alarms.Max alarms are remembered, the oldest are dropped and only while there are too many, the rest keep their order with the newest last; gGetLoggerAlarms returns a copy of all of them. No lock is left held. Outside: configuration changes during one operation, different names with equal 64-bit hashes, NDEBUG builds, console and file copies of messages, initialisation of the logger.',
 ['inputs','histories'],'all level settings, files (names up to 400 characters), messages (up to 4000 characters) and alarm histories','tests log a few messages by eye',
 ['Logger.cpp','Logger.h'],['level cache','alarm list'],[('gGetLoggingLevel, addAlarm','Logger.cpp')],['emitted messages, alarm list'])
p('N24','Host-and-port text is split and resolved without touching memory outside it',
 'Resolving a host:port text uses exactly the part before the colon as host and the part after it as port, fails when it is malformed or the host is unknown, and leaves the given text unchanged.',
 ['inputs'],'all texts','the socket sources are not even built by the tests',
 ['Sockets.cpp'],[],[('resolveAddress','Sockets.cpp')],['resulting address'])
p('H25','Performance counters count exactly the events reported',
 'For the reporting table (Reporting.cpp): creating a counter gives it value 0 when it is new and changes nothing when it exists, and discards no increment already reported. Each successful incr(name) or incr(base,index) adds exactly one pending event to exactly that name, also when several threads increment at the same time. commit() moves every pending event of a counter into its stored value exactly once: it issues one statement adding exactly the number pending, leaves none of them pending, and when the database refuses that statement those events stay pending for a later commit. Events reported by other threads while a commit runs are neither lost nor counted twice. So stored plus pending always equals the events reported since the last clear of the stored value. max(name,v) makes the stored value the larger of itself and v, as unsigned values; clear(name) sets only that stored value to zero, clear() all of them; an event still pending at that time is counted by the next commit. The indexed forms act on the name base.index with the index in decimal, and creating a set creates each name from the first to the last index. create, max and clear report success exactly when the database accepted their statements, incr and commit always; no operation changes another counter. Names of any length never corrupt memory. Outside: names containing quote characters (they are not quoted in the SQL), events for a counter never created, sets ending at index 4294967295, more than 2^32-1 events pending for one counter.',
 ['histories','inputs','schedules','faults'],'all names, all histories and all interleavings at lock boundaries','the reporting sources are not built by the tests',
 ['Reporting.cpp'],['reporting table'],[('ReportingTable','Reporting.cpp')],['SQL issued'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
