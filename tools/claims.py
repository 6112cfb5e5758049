B=" Nothing beyond the stated alphabets, depths and store sizes is claimed."
CLAIMS.update({
"C02":(HIST+", with a reopen inside and at the end of every history",MC,"Every word over the alphabet up to the depth, from every initial store, is executed on the real code with reopen after a prefix and at the end; content, counts and free space are compared before and after."+B),
"C05":(HIST+" with exact space accounting",MC,"After every operation the free count plus live blocks equals capacity and live extents are disjoint; after every history everything is deleted and a lump filling the region must fit, before and after reopen."+B),
"C06":(HIST+" on stores so small that every kind of failure occurs at every position",MC,"Every failing operation is followed by a complete comparison with the unchanged model, then a reopen and another comparison."+B),
"C07":(HIST+" with GC steps, and of all cyclic workloads up to a word length over many ring laps",MC,"Journal-full with few live records, entries left after a full GC, content changes and non-termination are violations; cycles beyond the GC batch size are included."+B),
"C08":("exhaustive enumeration of (size, offset, length, reservation) around block boundaries and of update sequences on the real store, against a byte array model",MC,"All combinations of the boundary sets (reads: all lengths 0..1600), all update words up to the depth."+B),
"C18":("exhaustive enumeration of id pairs over a boundary alphabet and of all subsets of boundary ids as store content",MC,"Every pair, every encoding, every subset of the id set as live content; not all 2^64 ids."),
"C13":("exhaustive enumeration of allocate/release sequences and of all reachable layouts of a small region on both real allocators, against a bit map",MC,"Every word up to the depth, every layout reached by every release order and by rebuilding, every pair of operations from it; regions around the 2^24-block limit by enumerated capacities and occupancies. Larger regions are not covered."),
"C14":("exhaustive enumeration of records over boundary field values, of every truncation and of single-byte changes of their encodings, on the real codec",MC,"All record kinds over the boundary alphabets; all truncations; single-byte changes at every position (all values in headers and, in the thorough tier, everywhere; bit flips and boundary values elsewhere; every 1/50th position of payloads above 700 bytes)."),
"C15":("explicit enumeration of operation words on the real journal buffer and ring against a byte array / FIFO model, device image compared after sync",MC,"All words up to the depth over the position/length alphabets, from several ring positions."+B),
"C17":("explicit enumeration of index operation words over boundary ids against a sorted map",MC,"All words up to the depth; every observer after every step."+B),
"C21":("explicit enumeration of buffer operation words, source lengths, base offsets and block sizes on the real code against a byte slice",MC,"All words up to the depth over boundary lengths; all 65536 block size values."+B),
})

CLAIMS.update({
"C03":("exhaustive crash-point enumeration: every operation word up to a depth on the real store with a crash after every device write; kill images and, for power loss, subsets of the unsynced writes; every image is reopened by the real code and compared with the allowed states",FE,"Power loss drops whole device write calls: all subsets up to a number of pending writes, above that all prefixes, all suffixes and all with at most two writes missing or at most two kept. A write call is atomic: torn multi-sector calls are not claimed. Crashes repeat inside the words (crash, reopen, go on, crash)."+B),
"C04":("exhaustive crash-point enumeration: every operation word up to a depth on the real store with a process kill after every device write; every image is reopened by the real code and must equal the model after an allowed prefix",FE,"All kill points of all words (a write call is atomic), from every initial store of the list, with kills also inside the words followed by further operations."+B),
})

CLAIMS.update({
"C16":("explicit enumeration of operation words on every kind of view (memory, file, short file, snapshot device, all split layouts of a list) against a byte array with a window, whole device compared after each step",MC,"Devices of 4 blocks, all words of two operations over all boundary offsets and lengths on every view, words of three (thorough: four) over a smaller alphabet."+B),
"C20":("exhaustive enumeration of capacities x journal ratios, of every value of every header byte, every truncation length, and of all create/open/close words over two handles of one path",MC,"Capacities up to 40 blocks (thorough 160) plus unaligned ones; header fields that are checked (magic, sizes of header, versions, block size, misaligned or impossible region sizes) must be refused; a size changed to another legal value is only required not to crash (the format has no header checksum)."),
})

CLAIMS.update({
"C09":("exhaustive enumeration of thread schedules of the real store under a controlled scheduler (preemption-bounded), every execution checked for linearizability against the map model by brute force, then verified, closed and reopened",MC,"All programs of two concurrent calls over the alphabet up to 4 preemptions (thorough: unbounded), 2x2 and three-thread programs up to 2 (thorough 3), on empty, filled, nearly full and GC-busy stores. Preemption points are lock acquisitions and device calls."+B),
"C10":("exhaustive enumeration of thread schedules of the real store under a controlled scheduler (preemption-bounded) with deadlock detection, every call against Close and the background goroutine, and happens-before race detection on every schedule of every pair of calls",MC,"All pairs of calls including Close and snapshot calls; up to 3 preemptions (thorough 5), 1 (thorough 3) under the race detector. Preemption points are lock acquisitions, device calls and wait group waits."+B),
})

CLAIMS.update({
"C11":("explicit enumeration of words of writes, reader calls, deletes and reopens on snapshot devices of several copy regions and on whole stores, of all seek/read pairs, of confusable store names, and of thread schedules of readers against every other call",MC,"Words up to 3 (thorough 4) calls from several states and file sizes around region boundaries; schedules up to 2 preemptions (thorough 4); the bytes read are compared with the file at creation and opened as a store. Store names that differ only in a \".lusf\" appended to a name ending in lusf without a dot are a known finding."+B),
"C12":("exhaustive crash-point enumeration over all files of the store directory: every operation word up to a depth with snapshot calls, a crash after every device event, for power loss with subsets of the unsynced writes and of the directory changes; every state is reopened by the real code",FE,"Words up to 3 operations (thorough 4), crashes also inside the words; content judged as in C03/C04, the snapshot must be absent (only when not created or being deleted) or read exactly, also after further writes and a reopen. A write call is atomic."+B),
})

CLAIMS.update({
"C19":("exhaustive fault injection: for every operation word up to a depth, every device call of the last operation is made to fail in every way, and every later state (in memory, after further use, after a kill, after power loss, after reopening) is compared with the allowed states",FE,"Every read, write, sync, rename, unlink and allocation call fails before taking effect, after it, or half written; once, until the operation ends, or through the next operation. Clean-up unlinks are assumed to succeed; snapshots are not judged after a fault followed by power loss."+B),
})

CLAIMS.update({
"C22":("explicit enumeration of all words of kanils commands up to a depth, run on the compiled tool, output and complete store content compared with a map after each command; every command killed or losing power after each of its device events",MC,"Words of 3 commands over 22 (thorough the same, deeper small alphabets up to 6), value and file sizes around block, embedding and size limits, capacities from 0 to 700 kB. The tool's main function is called in the harness process; an exit or panic ends it."+B),
})

CLAIMS.update({
"C23":("exhaustive enumeration of request words and of all interleavings of request arrivals, timer ticks and SIGINT with the server's device calls under a controlled scheduler; every execution judged for linearizability, and a process kill and power loss after every device call; every device call of a request made to fail",FE,"The real main function and HTTP stack over in-memory connections. Words of 3-5 requests sequentially, 3-4 with all arrival positions (device calls and, for some, device reads are the scheduling points), bursts of up to 30 uploads, single device faults."+B),
})
