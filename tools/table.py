TECH = "abstract interpretation of the SSA form (linear relations, heap shapes, loop fixpoints)"
NOTE = ("Every outcome of every analysed entry point is compared with the specification, for all inputs the quantifier names; an outcome that cannot be decided is reported. "
        "Trusted: go/types and go/ssa, the interpreter and its models of the standard library.")
TODO = "not built yet"
P = []

def prop(id, title, st, over, q, why, files, mech, **kw):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, **kw))

prop("C01", "The linked queue is first-in first-out",
     "A linked queue hands elements back in exactly the order they were enqueued: dequeuing returns and removes the oldest element, peeking returns it without removing it, and on an empty queue both report false and a zero value. No sequence of enqueue, dequeue, peek and emptiness queries panics, loses, duplicates or reorders an element, also when nodes are recycled between queues.",
     ["inputs", "histories"], "every element type, every queue content of every length, every operation, hence every history of operations",
     "the tests run a few short sequences; the property needs every length and every history of recycled nodes",
     ["dsx/linkedx/queuex/queuex.go"], [("Enqueue, Dequeue, Peek, IsEmpty", "dsx/linkedx/queuex/queuex.go")])
prop("C02", "Both stacks are last-in first-out and know their length",
     "The linked stack and the slice stack return elements in the reverse of the order they were pushed: popping returns and removes the newest element, peeking returns it, and on an empty stack both report false and a zero value. The reported length always equals the number of elements held, and no sequence of operations panics, loses, duplicates or reorders an element.",
     ["inputs", "histories"], "every element type, every content of every length, every operation, hence every history",
     "the tests push and pop a handful of elements; the property needs every length and every history of recycled nodes",
     ["dsx/linkedx/stackx/stackx.go", "dsx/slicex/stackx/stackx.go"], [("Push, Pop, Peek, Len", "dsx/linkedx/stackx/stackx.go"), ("Push, Pop, Peek, Len, IsEmpty", "dsx/slicex/stackx/stackx.go")])
prop("C03", "The deque keeps its order at both ends",
     "A deque behaves as a sequence: pushing at an end puts the element at that end, popping or peeking at an end yields the element at that end, and on an empty deque popping and peeking report false and a zero value. This holds for every mix of operations at both ends and every length, however the elements are spread over internal storage and however that storage is recycled, and no operation panics.",
     ["inputs", "histories"], "every element type, every content of every length and every placement of it, every operation, hence every history",
     "the tests push from one end and pop from one end; the defects are at the boundaries of storage chunks after mixed histories",
     ["dsx/linkedx/dequex/dequex.go"], [("PushFront, PushBack, PopFront, PopBack, PeekFront, PeekBack", "dsx/linkedx/dequex/dequex.go")])
prop("C04", "Both lists have index semantics and a correct length",
     "Both list types behave as a sequence indexed from 0: appending adds at the end, inserting at an index from 0 to the length places the element there, removing and reading at an index below the length yield that element and true, any other index changes nothing and yields a zero value and false, and iteration visits elements in order until the callback returns false. The length always equals the number of elements, and no index makes an operation panic.",
     ["inputs", "histories"], "every element type, every content of every length, every index (also negative and too large), every callback, hence every history",
     "the tests use a few indices in the middle; the property is about every index and every length, and about what later operations see",
     ["dsx/linkedx/listx/listx.go", "dsx/slicex/listx/listx.go"], [("Append, Insert, Remove, At, Len, Iterate", "dsx/linkedx/listx/listx.go"), ("Append, Insert, Remove, At, Len, Iterate", "dsx/slicex/listx/listx.go")])
prop("C05", "The ring queue is a bounded first-in first-out queue",
     "A ring queue made for a capacity of at least 1 holds up to exactly that many elements: enqueuing succeeds if and only if it is not full, and elements come out in the order they went in. Peek, emptiness, fullness and capacity always agree with the content, and no operation on it panics, wherever in the ring the content lies.",
     ["inputs", "histories", "configurations"], "every capacity from 1 to 2^40, every fill and every position of the content in the ring, every operation, hence every history",
     "the tests use one capacity and a short history; the errors are where the content wraps around",
     ["dsx/slicex/queuex/queuex.go"], [("Enqueue, Dequeue, Peek, IsEmpty, IsFull, Cap", "dsx/slicex/queuex/queuex.go")])
prop("C06", "Slice operations by index are total and exact",
     "On every slice, also an empty one, and for every integer index, the slice utilities Extend, Clear, Set, Get, Slice, Splice, Expand, Insert, Cut, Delete, Push, Pop, Shift, UnShift, DeleteReplace, Reverse, Rotate and Copy never panic and produce exactly the documented sequence, with indices outside the slice brought to its nearest end, reversed bounds swapped, and a rotation taken modulo the length. A slice passed as variadic arguments is never written to, a copy shares no memory with its original, and the fluent operations return their receiver.",
     ["inputs"], "every element type, length, capacity, content and index; extensions up to 2^40",
     "the tests use one slice and a few indices; the errors are at the ends, past them, and in memory behind the slice",
     ["dsx/slicex/slicex.go"], [("index methods", "dsx/slicex/slicex.go"), ("index clamping", "dsx/slicex/slicex.go")])
prop("C07", "Slice callbacks run in order and results match them",
     "Each and ForEach call the function once for every element in order, IndexOf and Contains ask in order and stop at the first match with the right answer, and Filter asks once for every element in order and keeps exactly the accepted ones in their order. Shuffle only permutes the elements. Split with non-negative lengths and Batch cut the slice into consecutive pieces that cover it exactly, every batch but the last having the size asked for.",
     ["inputs"], "every element type, length, content and callback; lengths to split at below 2^32",
     "the tests use one predicate on one slice; the property is about every predicate and length",
     ["dsx/slicex/slicex.go"], [("Filter, IndexOf, Contains, Each, ForEach, Shuffle, Split, Batch", "dsx/slicex/slicex.go")])
prop("C08", "The skip list map is a sorted map",
     "A skip list map behaves as a map from ordered keys to values: setting stores or replaces, getting finds exactly the keys that were set and not deleted, deleting reports whether the key was there, and the length is the number of keys. Keys, values, iteration from the start or from a sought key, and conversion to a built-in map list the entries in ascending key order, each once. This holds for every sequence of operations and every outcome of the random level choice.",
     ["inputs", "histories"], "every key type, every content and history, every random tower height",
     "the tests insert a few keys; the links of higher levels depend on random heights and on deletions",
     ["dsx/mapx/sklmapx/sklmapx.go"], [("search, insert, delete", "dsx/mapx/sklmapx/sklmapx.go")])
prop("C09", "The ordered map's two indexes always agree",
     "An ordered map holds the same keys in its lookup table and in its order: after every operation the length, the keys, the values, the ranges and the lookups describe one and the same map, with keys ascending. Setting an existing key only replaces its value, deleting a key removes it everywhere, and ranging visits every entry in ascending key order until the callback asks to stop.",
     ["inputs", "histories"], "every key and value type, every content, every key, every callback, hence every history",
     "the tests run one history; the property is that no history makes the two indexes differ",
     ["dsx/mapx/ordmapx/ordmapx.go"], [("Set, Del, Clear, Range", "dsx/mapx/ordmapx/ordmapx.go")])
prop("C10", "Every operation of the synchronised map is one critical section",
     "Every operation of the synchronised map has the effect of the same operation on a built-in map, touches the map only while it holds the map's lock (for writing if it changes the map), acquires that lock once, and releases it on every way out, also when the key turns out to be one that cannot be hashed. Hence concurrent operations never race and each takes effect at one instant.",
     ["schedules", "inputs"], "every schedule of concurrent operations, every content and key",
     "a test samples a few schedules; a missing or a split critical section shows only under some of them",
     ["dsx/mapx/syncmapx/syncmapx.go"], [("lock discipline", "dsx/mapx/syncmapx/syncmapx.go")])
prop("C11", "A task the pool accepts is run exactly once",
     "Whenever submitting a task to the goroutine pool returns true, the handler is called with that task exactly once, also when workers are reaped for being idle or the pool is stopped at the same time; when it returns false the handler is never called with it. Submitting never panics and never blocks for want of a worker.",
     ["schedules", "histories"], "every schedule of submissions, idle reaping and stopping",
     "a test samples a few schedules and time-outs; losing a task needs a reaper or a stop at the wrong moment",
     ["poolx/gopoolx/timedpool.go"], [("Run, worker loop, reaper", "poolx/gopoolx/timedpool.go")])
prop("C12", "The pool never exceeds its worker limit and stops cleanly",
     "The number of live workers never exceeds the maximum given at construction, also with preheated workers, and the reported worker count is incremented once for each worker started and decremented once for each worker ended. Invalid construction arguments are refused with an error, stopping any number of times from any goroutines neither panics nor blocks forever, and after a stop every later submission is refused.",
     ["schedules", "histories", "configurations"], "every schedule and every construction argument",
     "a test samples a few schedules and arguments",
     ["poolx/gopoolx/timedpool.go"], [("Run, start, Stop", "poolx/gopoolx/timedpool.go")])
prop("C13", "The decoupler delivers every accepted write once, in order",
     "Every non-empty write that is accepted is handed to exactly one later read, unchanged, in the order in which writers obtained their places, and reading returns false only when nothing was pending. The buffer handed to the viewer is never written by another writer while the viewer runs, and the writer's own slice is not kept.",
     ["schedules", "histories"], "every schedule of any number of writers and one reader, every size and content",
     "a test samples a few schedules; a lost, torn or repeated write needs a particular interleaving",
     ["iox/decouplex/decouple.go"], [("Write, Next", "iox/decouplex/decouple.go")])
prop("C14", "The decoupler drops a write only when it is full or empty",
     "A write is passed to the drop function, exactly once and with its own data, if it is empty or if at that moment as many writes as the decoupler has places are pending; its result is then the write's result. A dropped write never consumes a place or holds up the reader.",
     ["schedules", "histories"], "every schedule, every size and content",
     "a test does not reach the boundary of a full buffer under concurrent writers",
     ["iox/decouplex/decouple.go"], [("reservation", "iox/decouplex/decouple.go")])
prop("C15", "A wakeup always reaches the sleeper it found asleep",
     "A sleeper admits one sleep at a time: a second one returns false at once without disturbing the first, and a sleep that ends lets the next begin. A wakeup returns true if and only if it found a sleep in progress, and then that sleep returns; a wakeup that found none has no effect on a later sleep.",
     ["schedules", "histories"], "every schedule of sleeps and wakeups",
     "a test samples a few schedules; a lost wakeup needs one between claiming and waiting",
     ["timex/sleepx/sleepx.go"], [("begin, SleepFor, SleepUntil, SleepForever, Wakeup", "timex/sleepx/sleepx.go")])
prop("C16", "The converter registry is synchronised and keyed by exact types",
     "Registering, unregistering, looking up and converting touch the converter registry only under its lock (for writing when they change it), release it on every way out, and never hold it while a user's converter runs. A converter is found for exactly the pair of static types it was registered for, interface types included; without one, conversion reports false and a zero value, or the given default.",
     ["schedules", "inputs", "histories"], "every schedule, every pair of types, every value, every registry content",
     "the tests convert a few values sequentially with built-in types",
     ["typex/convx/convx.go"], [("Register, Unregister, Exists, Into, IntoOr", "typex/convx/convx.go")])
prop("C17", "The built-in converter table is complete and means what Go means",
     "For every ordered pair of sized integer and float types, and between each of them and string and bool, and among string, byte slice and rune slice, the package registers at start a converter whose result is that of the Go conversion or of the standard base-10 formatting and parsing, parsed at 64 bits and then converted to the type asked for. Conversions from bool give 1 or 0 and to bool compare with zero.",
     ["inputs", "configurations"], "every pair of built-in types in the table and every value",
     "the tests try a few pairs; the table has over 190 entries and a wrong one shows only for its own pair",
     ["typex/convx/init.go", "typex/convx/converters.go"], [("registrations", "typex/convx/init.go")])
prop("C18", "Each encryption uses a fresh random prefix of the right size",
     "Every successful AES encryption returns an initialisation vector or nonce freshly read from the system's cryptographic random source in that call, of exactly the cipher's size, followed by the ciphertext made under it with the cipher keyed by SHA-256 of the caller's key. If the random source or the cipher reports an error, or CBC data is not whole blocks, the call returns an error and no data; it never panics and never changes the caller's data or key.",
     ["inputs", "fault_sequences"], "every data (for GCM at most 2^36-32 bytes) and key, every failure of the random source and of cipher construction",
     "tests encrypt and decrypt a few strings; a reused or constant vector decrypts just as well",
     ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"], [("EncryptCBC, EncryptCTR, EncryptGCM", "cryptox/aesx")])
prop("C19", "Decryption undoes encryption and never panics",
     "Every AES decryption takes the prefix that the matching encryption wrote as its vector or nonce, derives the key the same way, and returns exactly what the cipher yields for the rest; for GCM no plaintext is returned unless authentication succeeded. For every input, however short or misaligned, it returns an error instead of panicking, and it never changes its input.",
     ["inputs", "fault_sequences"], "every ciphertext of every length and every key",
     "tests decrypt what was just encrypted; short and tampered inputs are not tried",
     ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"], [("DecryptCBC, DecryptCTR, DecryptGCM", "cryptox/aesx")])
prop("C20", "Password verification accepts only a matching hash and never panics",
     "Verifying a password returns nil only if the stored hash is well formed, names a known algorithm, and its digest equals, compared in constant time over its full length, the digest of the password with the stored salt under that algorithm; in every other case it returns an error. It never panics, for any bytes.",
     ["inputs"], "every password and every stored byte string",
     "tests verify hashes just made; malformed, truncated and foreign ones are not tried",
     ["cryptox/passhashx/passhash.go", "cryptox/passhashx/internal/passhash.vstruct.go"], [("Verify, VerifyBase64", "cryptox/passhashx/passhash.go")])
prop("C21", "A password hash is salted, costed as promised and verifiable",
     "Hashing a password at a security level returns a well-formed record of that level's algorithm, a salt freshly read from the system's cryptographic random source in that call and the digest of exactly that password and salt at that level's fixed Argon2id cost, which verification later recomputes with the same parameters. An unknown level or a failing random source yields an error and no hash.",
     ["inputs", "fault_sequences", "configurations"], "every password, every level (also invalid ones), every failure of the random source",
     "tests hash one password per level; a constant salt or swapped parameters verify just as well",
     ["cryptox/passhashx/passhash.go", "cryptox/passhashx/alg.go", "cryptox/passhashx/internal/passhash.vstruct.go"], [("Hash, algorithm table, record layout", "cryptox/passhashx")])
prop("C22", "The bcrypt wrapper refuses what bcrypt would ignore",
     "Hashing and comparing a password longer than 72 bytes are refused with the documented error, because bcrypt ignores what follows. Otherwise hashing returns exactly bcrypt's hash at the default cost or its error, and comparing returns true without an error if and only if bcrypt accepts the password, and false with bcrypt's error otherwise.",
     ["inputs", "fault_sequences"], "every password, every stored hash, every error of bcrypt",
     "tests compare one password; the length limit and the error paths are not tried",
     ["cryptox/bcryptx/bcryptx.go"], [("Encrypt, Decrypt", "cryptox/bcryptx/bcryptx.go")])
prop("C23", "Sorting and searching follow the direction and order asked for",
     "Each sorting function sorts the caller's slice in place with the stable or unstable algorithm its name promises, ascending or descending as its name and arguments say, and each sortedness test and search uses that same order: the test tells whether no two neighbours are out of order, and the search gives the first place that is not before the value sought, and whether an equal one is there. Custom orders are passed on unchanged.",
     ["inputs"], "every element type, slice, order and value of the direction argument",
     "the tests sort a few slices in one direction",
     ["algox/sortx/sortx.go", "algox/searchx/searchx.go"], [("Sort, SortReverse, SortStable, Search", "algox")])
prop("C24", "Interval intersection does not depend on the order of its inputs",
     "The interval intersection is a function of the set of intervals: its end points are ordered by a total order before they are scanned, so the order in which the intervals are given cannot change the result. If it reports success, the lower bound does not exceed the upper bound, it never panics, and it never changes its arguments.",
     ["inputs"], "every number of intervals (up to 2^40), every offset between -2^61 and 2^61, every band between 0 and 2^61",
     "the tests give a few intervals in one order",
     ["timex/intersectionx/intersectionx.go"], [("Less, Sort, Intersection", "timex/intersectionx/intersectionx.go")])
prop("C25", "Time truncation is done in UTC",
     "Every truncation function maps a Unix time to the Unix time of the start of its year, month, week, day, hour, minute or second in UTC, independent of the local time zone. Weeks start on Monday.",
     ["inputs", "configurations"], "every Unix time between -2^55 and 2^55 seconds (about a thousand million years either way), every local time zone",
     "the tests truncate a few moments in the zone of the machine",
     ["timex/truncatex/truncatex.go", "timex/timex.go"], [("Truncate*", "timex/truncatex/truncatex.go")])
prop("C26", "A lazy value is constructed once",
     "The constructor of a lazy value runs at most once, not before the first request, also when many goroutines request it together, and every request returns the value it produced.",
     ["schedules", "histories"], "every schedule of requests, every constructor that returns",
     "a test makes one or a few requests",
     ["functionalx/lazyx/lazy.go"], [("Get", "functionalx/lazyx/lazy.go")])
prop("C27", "Option and Result call the branch that matches, once",
     "Matching an option or a result calls exactly one of the two functions, once, with the held value: the first for a present value or a success, the second otherwise, also when the value is zero or nil. Its results are returned unchanged.",
     ["inputs"], "every type, value and pair of functions",
     "the tests match a few values",
     ["functionalx/optionx/optionx.go", "functionalx/resultx/resultx.go"], [("Match", "functionalx")])
prop("C28", "Every closer is closed and every failure is reported",
     "Both closing helpers call every registered closer exactly once, in the order given, whether or not earlier ones failed, and report exactly the failures in that order, or nil if there were none; the failures are had back unchanged from the manager's result. The package's own functions do the same with the default manager, and never replace it. The scoped helper closes after its function has run, also when that function panics, and a manager's list is only touched under its lock, which is released on every way out.",
     ["inputs", "fault_sequences", "schedules"], "every number of closers, every pattern of failures, a panicking function",
     "the tests close a few closers that succeed",
     ["iox/managerx/closex/manager.go", "iox/managerx/closex/default.go", "iox/managerx/closex/types.go", "iox/usingx/using.go"], [("Close", "iox")])
prop("C29", "The kill signal handler runs once and then announces completion",
     "After the first termination signal the handler runs exactly once, and only after it has returned is the completion channel closed, exactly once, however many signals arrive. Interrupt, quit and terminate are all handled, and no other signal is, through a channel that cannot lose the first one.",
     ["schedules", "histories"], "every number and timing of signals",
     "a test would have to kill itself; the existing ones do not send a second signal",
     ["osx/closex/closex.go"], [("HandleKillSig", "osx/closex/closex.go")])
prop("C30", "The bit set changes exactly the bits named",
     "Setting, clearing and toggling change exactly the named bits and no other, for every list of bit numbers within the width (toggling flips a bit once for each time it is named); testing reports whether any named bit is set; and the operations on all bits, emptiness and fullness cover exactly the width of the underlying type.",
     ["inputs"], "every content, every list of bit numbers and every unsigned width",
     "the tests use a few bits of one width",
     ["dsx/setx/bitsetx/bitsetx.go"], [("Set, Clear, Toggle, Test", "dsx/setx/bitsetx/bitsetx.go")])
prop("C31", "Optional parameters are applied in order, once each",
     "Constructing with optional parameters applies each option function exactly once, in the order given, each to the result of the one before, the first to nil, and passes the last result to the constructor, whose result is returned.",
     ["inputs"], "every number of option functions and every result of theirs",
     "the tests use one list of options",
     ["configx/optionalx/optionalx.go"], [("Parameter", "configx/optionalx/optionalx.go")])
prop("C32", "The pointer lock runs its function under mutual exclusion",
     "The lock takes a variable that holds its own address while it is free. Locking waits until the variable is free, runs the function exactly once with the variable's address, never at the same time as another holder of the same lock, and afterwards the variable holds its own address, that is, is free again, also when the function panics. This holds for every variable, whatever it holds while it is free, and without touching memory outside it.",
     ["inputs", "schedules"], "every type and value of the variable, every schedule",
     "no test calls it",
     ["syncx/lockx/lockx.go"], [("Lock", "syncx/lockx/lockx.go")])
prop("C33", "The typed pool passes objects through unchanged",
     "A typed pool returns only objects that its constructor made in that call or that were put back before, hands each object that was put back to the underlying pool exactly once, and never panics once it is initialised with a constructor.",
     ["inputs", "histories"], "every element type, every history of gets and puts",
     "no test covers it",
     ["syncx/syncpoolx/syncpoolx.go"], [("Init, Get, Put", "syncx/syncpoolx/syncpoolx.go")])
prop("C34", "Time differences and current times are in UTC and consistent",
     "The current and the custom time are always in UTC; a differ returns exactly the times recorded by its last start and its last end, and as difference exactly the end minus the start.",
     ["inputs", "histories"], "every history of starts and ends, every second and nanosecond value",
     "the tests check one difference",
     ["timex/timex.go", "timex/diffx/diffx.go"], [("Now, Custom, Start, End, GetDiff", "timex")])
prop("C35", "A sleep ends when its time is over, and not before",
     "Unless a wakeup ends it, a sleep for a duration lasts exactly the duration asked for, a sleep until a time lasts from now to that time, and an endless sleep has no end of its own.",
     ["inputs"], "every duration and every time asked for",
     "no test sleeps; a wrong unit or a swapped difference shows only with the clock running",
     ["timex/sleepx/sleepx.go"], [("SleepFor, SleepUntil, SleepForever", "timex/sleepx/sleepx.go")])
prop("C36", "Packages keep no unguarded state shared by their users",
     "What a package keeps for all its users (its package-level variables, what functions kept in them have captured, and everything reached from either) causes no data race, however many goroutines use the package at the same time on values of their own: after initialisation every part of it is only read, or it is accessed atomically throughout, or every access to it is made while holding one and the same lock, held for writing where it is changed.",
     ["schedules"], "every schedule of any number of goroutines calling any functions of the packages",
     "the tests use every package from one goroutine, and a race that loses or tears an update shows in few schedules only",
     ["dsx/mapx/sklmapx/splitmix64.go", "typex/convx/convx.go", "iox/managerx/closex/default.go", "cryptox/aesx/cbcx.go", "timex/intersectionx/intersectionx.go", "dsx/slicex/slicex.go"], [("root_next, splitmix64", "dsx/mapx/sklmapx/splitmix64.go"), ("Register, Exists, Convert", "typex/convx/convx.go")],
     tech="effect and lockset analysis of the whole repository's SSA form (access paths, locks followed through calls)",
     lnote="Every read and write of shared memory in every function that code outside can reach is compared with the locks held there, in every calling context. Places are told apart by access path, elements of a container are one place; an access through an interface to a type of the repository is followed from the method itself. Trusted: go/types and go/ssa, the list of library types and functions that are safe or read-only.")
prop("C37", "The maintenance commands run the go tool once per directory, nowhere else",
     "autotidy and autoupdate walk the tree below the directory they are started in and run `go mod tidy` and `go get -u`, respectively, exactly once in each directory of it, except those named vendor or .git, which they do not enter. Whatever fails on the way (a directory that is gone or cannot be read or entered, a command that fails), the tool is never run in any other directory than the one being visited, nor a second time in one; the failure neither crashes the program nor ends the walk, and the walk always goes on from the directory it began in.",
     ["inputs", "fault_sequences"], "every tree, every sequence of entries and every failure of a call",
     "no test covers the commands, and the failures need a tree that changes during the walk or directories that cannot be entered",
     ["cmd/autotidy/autotidy.go", "cmd/autoupdate/autoupdate.go"], [("main", "cmd/autotidy/autotidy.go"), ("main", "cmd/autoupdate/autoupdate.go")])
