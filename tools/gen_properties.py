#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every operation sequence behaves like a map of lumps",
"For every sequence of storage operations (Put, PutEmbed, PutWithOffset create, Delete, DeleteRange, journal GC, side jobs, Sync, Flush), the results of Get, GetSize, List, ListRange, First, MinId, MaxId and the updated/size results of the mutating calls equal those of an ordered map from lump id to bytes, whatever journal GC, ring wrap-around or space reuse happened in between. A lump read back is byte-for-byte the last value stored, and absent lumps are reported as absent.",
["inputs","histories","configurations"],"all operation sequences up to a depth over a small colliding id/size alphabet, from several initial stores (fresh, ring wrapped, GC in progress, data region nearly full)",
"The tests run a handful of fixed sequences on large, almost empty stores, where the journal never wraps or collects and space is never reused; the guarantee is over all histories.",
["storage/storage.go","storage/data_region.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/nvm_buffer.go","lumpindex/lump_index.go"],
[("index update tied to journal append","storage/storage.go put/PutEmbed/deleteIfExist/DeleteRange"),("padding trailer gives the exact size","storage/data_region.go Put/Get")],
[("index","lump id -> portion","lumpindex/lump_index.go"),("ring head/tail","live journal window","storage/journal/ring_buffer.go")],
["storage.Storage exported methods"])

p("C02","Closing and reopening a store changes nothing",
"After any sequence of operations, closing the store and opening it again yields the same set of lumps with the same bytes, the same file count and the same free data space, and the reopened store keeps behaving correctly. Deleted, range-deleted or overwritten values never come back, and no acknowledged lump disappears.",
["histories","configurations"],"all operation sequences up to a depth with a reopen after every one of them, and reopen as an operation inside sequences",
"Tests reopen after one or two fixed histories; the failing cases need GC, range deletes or wrap-around to rewrite journal entries between the operation and the reopen.",
["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/record.go","storage/allocator/judy_allocator.go"],
[("journal replay","storage/journal/region.go RestoreIndex"),("garbage test keeps live entries during GC","storage/journal/region.go isGarbage/gcOnce")],
[("journal head","first record replayed","journal header sector")],["OpenCannylsStorage, List, Get, Usage"])

p("C03","Synced data survives every crash and the store always opens",
"Once Sync has returned, every lump acknowledged before it and not changed afterwards is readable with exactly its bytes after a crash at any later point (process kill at any device write, or power loss that drops any subset of the writes issued since the last completed device sync), and lumps whose deletion was synced stay deleted. Opening the store after such a crash always succeeds, terminates and yields a usable store.",
["crash_points","histories"],"every prefix of the device-write log and every subset of un-synced writes (bounded count), for every history in a bounded set that includes GC, wrap-around, delete, range delete, overwrite and space reuse",
"Tests never crash a store; crash consistency depends on the order of data writes, journal flushes, journal header updates and syncs at every instant.",
["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/nvm_buffer.go","storage/journal/journal_header_region.go","storage/data_region.go"],
[("write data, then journal, then sync","storage/storage.go put/Sync"),("journal header moved only past collected entries","storage/journal/region.go fillGCQueue/GcAllEntries")],
[("device log","ordered writes and syncs issued by the process","syscall boundary")],["OpenCannylsStorage, List, Get after the crash"],
"none in /repo: a build overlay of the Go standard library's syscall package records device writes and syncs")

p("C04","A process kill leaves a prefix of the operations",
"If the process is killed at any point, the reopened store equals the state after some prefix of the executed operations (Put, PutEmbed, Delete, DeleteRange) that includes at least everything acknowledged before the last completed Sync. No operation is ever half applied: an overwrite shows the old or the new value (an overwrite that only fits into the space of the value it replaces deletes that value first, so it may also show the lump absent), a lump never shows bytes of another lump or of a value never written to it, and a range delete is all or nothing.",
["crash_points","histories"],"every prefix of the device-write log of every history in a bounded set, checked against the list of reference states",
"No test kills the process; the failing windows are between individual device writes of one operation.",
["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/nvm_buffer.go","storage/data_region.go"],
[("one journal record per operation","storage/journal/region.go Record*"),("released space is not reused before its release is durable","storage/data_region.go")],
[],["OpenCannylsStorage, List, Get after the kill"],"none in /repo (std overlay)")

p("C05","Data space is accounted exactly and never shared or leaked",
"At every moment the free data bytes reported by Usage plus the blocks of all live lumps equal the data capacity, and no two live lumps occupy the same block. Space freed by deletes, overwrites and failed operations becomes allocatable again: after deleting everything, a lump filling the whole data region (up to the maximum lump size) can be stored; the same holds after reopen. The file count reported equals the number of live lumps.",
["histories","configurations"],"all operation sequences up to a depth including overwrite, failure, range delete and reopen",
"A leak or a double allocation needs a specific history (failed overwrite, GC re-append, range delete) that no test composes and no test asserts the accounting equation.",
["storage/storage.go","storage/data_region.go","storage/allocator/judy_allocator.go","storage/allocator/allocator.go","lumpindex/lump_index.go"],
[("release on delete/overwrite/failure","storage/storage.go deleteIfExist, put, DeleteRange"),("rebuild of free space from the index","storage/allocator RestoreFromIndex")],
[("free list","free extents","storage/allocator"),("counts","live lumps","lumpindex")],["Storage.Usage, GetRecord, GetSizeOnDisk"])

p("C06","A failed operation has no effect",
"An operation that returns an error (data region full, journal full, value too large, invalid offset or embedded update) leaves every lump, the reported free space and the file count exactly as they were, both immediately and after close and reopen; in particular a failed overwrite keeps the old value and a failed delete keeps the lump.",
["inputs","histories","configurations"],"all operation sequences up to a depth on stores so small that data-full and journal-full occur at every position",
"The tests check the error code of a few full-store calls, not that the state is unchanged, and never reach journal-full with live data.",
["storage/storage.go","storage/data_region.go","storage/journal/region.go","storage/journal/ring_buffer.go"],
[("undo on journal append error","storage/storage.go put"),("free-space check before append","storage/journal/ring_buffer.go checkFreeSpace")],
[],["error results, then Get/List/Usage before and after reopen"])

p("C07","Journal GC never changes content and never wedges the store",
"Automatic, manual and side-job journal GC never change any lump, at any interleaving with other operations. A store whose live journal records fit comfortably in the journal keeps accepting writes, overwrites and deletes forever: space of superseded journal records is always recovered, and GC always terminates, also when the journal is completely full.",
["histories","configurations"],"all operation sequences with GC steps up to a depth, and exhaustively enumerated cyclic workloads run for many ring laps (beyond the GC batch size)",
"Tests call GC on one history; wedging needs many laps of the ring or a full ring, and content loss needs GC to meet a live record at a lap boundary.",
["storage/journal/region.go","storage/journal/ring_buffer.go","storage/storage.go"],
[("incremental GC after append","storage/journal/region.go gcOnce"),("full GC","storage/journal/region.go GcAllEntries"),("wrap marker","storage/journal/ring_buffer.go Enqueue")],
[("unreleased head/head/tail","ring window","storage/journal/ring_buffer.go"),("gc queue","entries to examine","storage/journal/region.go")],["Put/Delete results over long runs, JournalGC, RunSideJobOnce, JournalSnapshot"])

p("C08","Offset reads and writes treat a lump as a byte array",
"For every lump size, offset and length, GetWithOffset returns exactly the bytes of the lump in the requested range (clipped at its end) or an error when the start lies beyond the end; PutWithOffset on an absent id creates a zero-padded lump of size max(reservation, offset+length), and on an existing one changes exactly the addressed bytes and never its size, or fails without effect when the range does not fit. A read that asks for more than the blocks the lump occupies may be refused with an error. Neither call ever panics or touches any other lump.",
["inputs","histories"],"all (size, reservation, offset, length) combinations around block boundaries for 1-4 block lumps, and sequences of such updates",
"The tests sample a few aligned combinations; off-by-one and cross-block cases lie on specific residues of size and offset modulo the block size.",
["storage/data_region.go","storage/storage.go","block/aligned_bytes.go"],
[("block-aligned read-modify-write","storage/data_region.go Update"),("range read","storage/data_region.go GetWithOffset"),("zero padding","storage/storage.go paddingWithZero")],
[],["PutWithOffset, GetWithOffset, Get, GetSize"])

p("C09","Concurrent operations are linearizable",
"For any set of concurrent calls on one open store (Put, PutEmbed, PutWithOffset, Get, GetWithOffset, GetSize, Delete, DeleteRange, List, journal GC, side jobs, Sync), the results equal those of some sequential order consistent with real time. A reader never sees a torn value, another lump's bytes, or an overwrite's key momentarily missing; two racing writers never leak or share space, and the state after closing and reopening equals the final in-memory state.",
["schedules"],"all interleavings (at lock operations and device I/O) up to a preemption bound of 2-3 threads with 1-2 operations each on colliding ids",
"The tests are single-threaded or run goroutines once under the Go scheduler; the failing schedules need a switch between two specific lock operations.",
["storage/storage.go","storage/data_region.go"],
[("index lock / journal lock","storage/storage.go i, jr")],[("i","index lock","storage/storage.go"),("jr","journal lock","storage/storage.go")],["call/return histories"],
"none in /repo: overlay of sync and syscall in the Go standard library")

p("C10","No schedule deadlocks, races or corrupts shutdown",
"No interleaving of any calls on a store, including Close, deadlocks, panics or accesses shared memory without synchronisation. After Close returns every data call reports the closed state instead of touching the file, Close may be called twice, and every operation acknowledged before Close is durable while none is acknowledged after it.",
["schedules"],"all interleavings up to a preemption bound of 2-3 threads including Close, with a happens-before race check on every one",
"Lock-order inversions and close/operation races need specific interleavings; the tests never run Close concurrently and are not run with the race detector.",
["storage/storage.go","nvm/snapnvm.go","util/stopper.go"],
[("lock order","storage/storage.go"),("opened flag","storage/storage.go Close")],[("opened","store accepts calls","storage/storage.go")],["blocked threads, race reports, results after Close"],
"none in /repo (std overlay)")

p("C11","A snapshot is an exact frozen image of the store",
"After a snapshot is taken, reading it through a snapshot reader yields, at any time and with any read sizes and seeks, exactly the bytes the storage file had when the snapshot was created, no matter which writes, deletes, GC or reopen happen meanwhile; the bytes read form a store image that opens to the lumps of that moment. The live store is never affected by having, reading or deleting a snapshot, and a snapshot of one store is never taken for another's.",
["histories","inputs","schedules"],"all sequences of region-crossing writes, snapshot create/delete, reopen and reader operations up to a depth; reader steps interleaved at every position with writes",
"The tests take one snapshot with one fixed write pattern and read it sequentially once in the same directory and process.",
["nvm/snapnvm.go","storage/storage.go"],
[("copy on first write per region","nvm/snapnvm.go WriteAt/Write"),("region lookup","nvm/snapnvm.go GetCopyOffset")],[("region map","regions already preserved","nvm/snapnvm.go BackingFile")],["SnapshotReader.Read/Seek"])

p("C12","Crashing with a snapshot active harms neither store nor snapshot",
"A crash at any device write while a snapshot is being created, is active or is being deleted never prevents the store from opening, never changes the store's content guarantees, and leaves either no snapshot or one that still reads exactly the bytes of its creation moment, also after further writes.",
["crash_points","histories"],"every prefix of the write log over both files for a bounded set of histories with a snapshot active, each followed by recovery, more writes and a full snapshot read",
"No test crashes with a snapshot present; the windows are between the region map entry, the region data and the origin write.",
["nvm/snapnvm.go"],[("map entry, region data, sync, then origin write","nvm/snapnvm.go WriteOffset"),("backing file rebuild","nvm/snapnvm.go OpenBackingFile")],[],["OpenCannylsStorage, SnapshotReader after crash"],"none in /repo (std overlay)")

p("C13","Allocators hand out disjoint in-range extents and lose none",
"For both allocators and every sequence of allocate and release calls, each allocated extent lies inside the data region, has the requested length and overlaps no other live extent, the free count equals capacity minus allocated, and an allocation fails only if no free run of that length exists (free runs are kept in pieces below 2^24 blocks). Released neighbours coalesce, rebuilding from a set of live extents gives the same free space, and the reported largest segment and allocation map match it.",
["inputs","histories","configurations"],"all allocate/release sequences up to a depth on small regions, all reachable allocator states, all rebuilds from every reachable state",
"Tests replay a few fixed sequences; fragmentation/coalescing mistakes depend on the shape of the free list.",
["storage/allocator/judy_allocator.go","storage/allocator/allocator.go","portion/portion.go"],
[("split and coalesce","storage/allocator Allocate/Release"),("rebuild","storage/allocator RestoreFromIndex")],[("free maps","by size and by end/start","storage/allocator")],["Allocate, Release, FreeCount, MaxSegmentSize, GetAllocationBitStatus"])

p("C14","Journal records round-trip and corruption is detected",
"Every journal record, for every id, range and payload, decodes to exactly what was encoded, its stated size equals the bytes written, and entry boundaries are exact. Changing any single byte of an encoded record makes decoding report an error instead of yielding a different record, and truncated input is an error, never a record.",
["inputs"],"all record kinds with boundary field values, all single-byte changes at every position with every value, all truncation points",
"The tests encode one value per record kind; checksum coverage and width mistakes show only at specific values and positions.",
["storage/journal/record.go","lump/lump.go","address/address.go"],
[("record checksum and tag","storage/journal/record.go")],[],["ReadRecordFrom, WriteTo, ExternalSize"])

p("C15","The journal ring is a FIFO log over any operation sequence",
"The journal buffer behaves as a plain byte array under every sequence of seeks, overlapping writes, reads, flushes and syncs, and after a sync the device holds exactly those bytes. On top of it, the ring returns exactly the appended, not yet released records in order, across wrap-around, and accepts a record whenever the free room suffices; a record that does not fit is refused with the journal-full error and without damage.",
["histories","inputs","configurations"],"all sequences of buffer operations over small position/length alphabets up to a depth; all sequences of record sizes, dequeues and releases on rings of a few sectors",
"Tests use one pattern on a big ring; overwrite-in-buffer, sector-straddling and wrap-around cases depend on exact residues.",
["storage/journal/nvm_buffer.go","storage/journal/ring_buffer.go","storage/journal/region.go"],
[("write buffer with last sector kept","storage/journal/nvm_buffer.go"),("wrap marker and end marker","storage/journal/ring_buffer.go Enqueue")],[("head/unreleased head/tail","window","storage/journal/ring_buffer.go")],["Read/Write/Seek/Flush, journal entries, replay after reopen"])

p("C16","Storage views are byte arrays confined to their region",
"File, memory and snapshot-capable devices, and every view split from them, behave as byte arrays of their capacity for all seeks, positioned and cursor reads and writes: data written is read back, positions advance by the amount transferred, and requests reaching past the end of the view are refused or shortened to it. No operation on a view ever reads or changes a byte outside it.",
["inputs","histories","configurations"],"all sequences of seek/read/write/readat/writeat over boundary offsets and lengths up to a depth, on every nesting of splits",
"Tests use a few in-range accesses; confinement is about the out-of-range and boundary ones, on split views.",
["nvm/file.go","nvm/memory.go","nvm/snapnvm.go","nvm/nvm.go","nvm/header.go"],
[("view bounds","nvm/file.go viewStart/viewEnd"),("offset conversion","nvm/nvm.go ConvertToOffset")],[],["NonVolatileMemory methods; the whole backing bytes"])

p("C17","The lump index is an ordered map with exact counts",
"For every sequence of insertions, overwrites, deletions and range deletions the index answers point lookups, first/min/max, listing and range listing exactly as an ordered map over the full 64-bit id space does, its count equals the number of entries, and portions round-trip for every start and length.",
["inputs","histories"],"all operation sequences up to a depth over boundary ids (0, 1, 2^63, max-1, max) and portions, with all observers compared after each step",
"Tests insert a few small ids; counts after overwrite or absent delete, and boundary ids, are not covered.",
["lumpindex/lump_index.go","portion/portion.go","address/address.go"],
[("portion packing","lumpindex/lump_index.go"),("count bookkeeping","lumpindex/lump_index.go")],[("counts","entries","lumpindex/lump_index.go")],["index methods"])

p("C18","Lump ids keep identity and order; fresh ids are unused",
"Lump ids round-trip through text and byte encodings, and comparison, increment and maximum test agree with the 64-bit numeric order for all values. A generated empty id is never the id of a live lump, and one is found whenever any id is unused.",
["inputs","histories"],"all pairs over a boundary value alphabet of 64-bit ids; all small subsets of boundary ids as store content",
"Tests use small ids; order and overflow errors need values far apart or at the extremes.",
["lump/lump.go","storage/storage.go","lumpindex/lump_index.go"],
[("comparison","lump/lump.go Compare"),("max+1 or first gap","storage/storage.go GenerateEmptyId")],[],["LumpId methods, GenerateEmptyId"])

p("C19","Device errors are reported, never acknowledged or spread",
"When a device read, write or sync fails, the operation that needed it reports an error (or the process stops) rather than acknowledging, no other lump changes, no space is lost, and after the device recovers the store keeps working and reopens to a state containing every operation that was acknowledged and synced.",
["fault_sequences","histories"],"for every history in a bounded set, one injected failure (and pairs of failures) at every device call position, of each kind: error and short write",
"No test injects I/O errors; each error path is taken only when a specific call fails.",
["storage/storage.go","storage/data_region.go","storage/journal/region.go","storage/journal/nvm_buffer.go","nvm/file.go"],
[("error propagation","storage/data_region.go Put/Update, storage/journal/region.go")],[],["operation errors, then Get/List/Usage/reopen"],"none in /repo (std overlay)")

p("C20","Store files are created, recognised and locked safely",
"Creating a store yields disjoint header, journal and data regions that exactly tile the reported sizes, and reading the header back gives what was written, for every legal capacity and journal ratio; impossible sizes and existing paths are refused without touching existing files. A file whose header was altered in any checked field or truncated is refused with an error, and a store already open elsewhere cannot be opened a second time, while closing it makes it openable again.",
["inputs","configurations","fault_sequences"],"all block-aligned capacities over a range times journal ratios; every header byte corrupted; every truncation; all open/create/close orderings of two handles",
"Tests use a few capacities and never damage headers or open twice.",
["nvm/header.go","nvm/file.go","nvm/nvm_linux.go","storage/storage.go"],
[("header codec","nvm/header.go"),("exclusive lock","nvm/nvm_linux.go"),("geometry","storage/storage.go makeHeader")],[],["CreateCannylsStorage, OpenCannylsStorage, Header"])

p("C21","Aligned buffers keep content and alignment",
"Aligned byte buffers always start at a block-aligned address, have exactly the requested length, and creating from bytes, resizing, truncating and aligning preserve the common prefix of the content, for every length and sequence of these operations; block-size rounding functions equal their arithmetic definition for all values.",
["inputs","histories"],"all sequences of resize/align/truncate operations over boundary lengths up to a depth, from every source length 0..3 blocks; all values around block boundaries",
"Tests use a few lengths; content errors depend on the random base address offset and length residues.",
["block/aligned_bytes.go","block/block.go","lump/lump.go"],
[("over-allocate and offset","block/aligned_bytes.go")],[],["AlignedBytes/BlockSize methods"])

p("C22","The command line tool stores and returns exact data",
"For every value or file content and key, storing through the kanils tool and reading it back returns exactly the stored bytes, deletes remove exactly the named lump, Dump and Journal list what is stored, and the tool always terminates. Expanding the data region keeps every lump and makes the new space usable.",
["inputs","histories"],"all command sequences up to a depth over boundary sizes (including empty values and files of block-boundary sizes) and keys",
"The command line tool has no tests at all.",
["cmd/kanils/main.go"],[("file read loop","cmd/kanils/main.go readUpData"),("resize","cmd/kanils/main.go expandDataRegionSize")],[],["tool output and exit"])

p("C23","The HTTP server acknowledges uploads only when durable",
"Every upload the HTTP server confirms is readable with exactly its bytes, under the id it reported, after a process kill at any later moment; automatically chosen ids never overwrite an existing lump. A failed upload is reported as failed, concurrent uploads all get an answer, and reads of absent ids do not succeed.",
["crash_points","schedules","inputs"],"kill at every device write of a bounded upload history, and all batches of up to three concurrent uploads",
"The server has no tests at all.",
["cmd/readup/main.go","storage/storage.go"],[("group commit: put all, sync, answer","cmd/readup/main.go ServeStore")],[],["HTTP responses, store content after kill"],"none in /repo (std overlay)")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
