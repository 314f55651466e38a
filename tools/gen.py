#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the check modules name their technique)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

I = 'include/chia/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          **({'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state]} if state else {}),
                          **({'observe_at': list(observe)} if observe else {})}})


prop('C01', 'A failed or incomplete file operation never goes unnoticed',
     'Whenever opening, reading, writing, seeking, flushing, renaming or (for a file that was written) closing a temporary file or plot file fails or transfers fewer bytes than asked for, the operation that needed it does not complete as if it had succeeded: it raises an error to its caller (or makes the program exit with an error status). '
     'A short read is accepted only where end of file was told apart from a read error. An error raised by a file operation is never caught and dropped, except to retry the same operation until it succeeds.',
     ['fault_sequences', 'inputs'], 'every file operation on every path, with every possible failing or partial result',
     'The tests never see a failing disk; each call site fails independently and only the fault-free path is ever run.',
     [I + x for x in ('DiskSort.hpp', 'DiskTable.h', 'copy.h', 'util.hpp', 'phase3.hpp', 'phase4.hpp', 'bitfield.hpp')] + ['src/chia_plot.cpp'],
     [('result checks after each stdio call', 'DiskSort.hpp bucket_t, DiskTable.h, copy.h, util.hpp fwrite_ex/fseek_set, phase3.hpp WriteHeader, phase4.hpp compute')],
     ['exceptions leaving DiskSort, DiskTable, copy_file, final_copy, phase3/phase4 compute'])
prop('C02', 'Moving a finished plot never loses or damages it',
     'While a finished plot is moved to its destination, by rename or by copying, there is after every single file operation a file name that holds its complete, unchanged contents. '
     'If the move returns normally the destination name holds exactly the bytes of the source; if it fails with an error the source is still complete under its own name, so that it can be retried.',
     ['crash_points', 'fault_sequences', 'inputs'], 'every crash point, every combination of failing file operations, every file size',
     'The test moves one small file on one file system without faults: the copy path, partial reads and writes, and failing renames are never run.',
     [I + 'copy.h'], [('copy to a temporary name, close, rename, then remove the source', 'copy.h copy_file, final_copy')],
     ['final_copy(src, dst) return or exception; the two paths in the file system'])
prop('C03', 'The final plot name never denotes an unfinished plot',
     'A file whose name ends in ".plot" is never opened for writing and never exists with incomplete contents: the name comes into existence only by renaming a file after everything was written to it and it was closed successfully, both at the end of plot creation and when a plot is moved to the destination directory. '
     'Nothing is written to the plot after it received that name.',
     ['crash_points', 'fault_sequences'], 'every crash point and failing operation of phases 3, 4 and the final move',
     'Tests only look at the end state of successful runs; the plot phases are not run at all.',
     [I + 'phase3.hpp', I + 'phase4.hpp', I + 'copy.h'],
     [('plot is written as .plot.tmp and renamed after fclose', 'phase3.hpp compute, phase4.hpp compute'), ('copy to .tmp then rename', 'copy.h final_copy')],
     ['directory contents of the stage and final directories at any time'])
prop('C04', 'Every temporary record survives the trip to disk unchanged',
     'For every record type stored in temporary files and both supported builds (up to k=32 and up to k=34), storing a record writes exactly its fixed number of bytes, no more, and loading those bytes yields for every field the same value that was stored, for all values within the width the format reserves for that field (sort value k+6 bits, table-7 value and x k bits, position and sort key 32 respectively 35 bits, offset 10 bits, line point 2k-1 bits). '
     'Metadata bytes are preserved verbatim.',
     ['inputs', 'configurations'], 'all field values of all record types in both builds',
     'The tests store random small values of one record type in one build and never compare field by field.',
     [I + 'entries.h', I + 'phase1.h', I + 'phase2.h', I + 'phase3.h'],
     [('read()/write() members and disk_size of the entry types', 'phase1.h, phase2.h, phase3.h, entries.h')])
prop('C05', 'A pipeline stage runs every handed-over item exactly once, in order',
     'Every item that a stage accepts before it is closed is processed by its function exactly once, in the order in which the items were accepted, and by one thread at a time; an item is never overwritten before the stage took it. '
     'Waiting for or closing a stage returns only when no accepted item is waiting or being processed, and once the stage function has failed with an exception every later wait or close reports that failure.',
     ['schedules', 'fault_sequences', 'histories'], 'all interleavings of producers, the worker and closers; every failing item',
     'A test run samples a handful of interleavings; lost wakeups, overwritten items and early returns need particular ones.',
     [I + 'Thread.h'], [('flags under one mutex with a condition variable', 'Thread.h take, wait, close, loop')],
     state=[('is_avail', 'an accepted item waits in the input slot', 'Thread.h'), ('is_busy', 'the function is running', 'Thread.h'), ('is_fail', 'the function failed', 'Thread.h')])
prop('C06', 'A parallel stage delivers results exactly once and in input order',
     'For any number of worker threads, each item given to a parallel stage is processed exactly once, and its result is passed to the next stage exactly once and in the order the items were given, whichever worker finishes first; no two workers hand over results at the same time. '
     'Per-worker state is only ever used by its own worker while that runs, and waiting for or closing the stage returns only after every given item was processed and its result delivered.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings of workers for every thread count and item sequence',
     'Out-of-order completion and simultaneous delivery depend on scheduling and thread counts that tests do not control.',
     [I + 'ThreadPool.h'], [('round-robin assignment with job numbers; each worker waits for its predecessor', 'ThreadPool.h take, wrapper, wait, close')])
prop('C07', 'Concurrent parts of the plotter never race on shared data',
     'Data that can be reached by two pipeline workers, or by a worker and the thread that built the pipeline, at the same time is only accessed under a common lock, through atomic operations, or by reads alone; everything else is used by one worker at a time. '
     'In particular an unsynchronised writer (a table file being written, the plot file position, a per-worker cache, a plain counter or buffer) is never used from a stage that runs on several threads.',
     ['schedules', 'configurations'], 'all interleavings, thread counts and pipelines of all phases',
     'Races show only under particular interleavings; the plot phases are not run by the tests.',
     [I + x for x in ('Thread.h', 'ThreadPool.h', 'DiskSort.hpp', 'DiskTable.h', 'bitfield.hpp', 'phase1.hpp', 'phase2.hpp', 'phase3.hpp', 'phase4.hpp')],
     [('mutex per bucket, atomics in the bitfield and counters, single-threaded stages for file output, per-worker caches', 'DiskSort.hpp, bitfield.hpp, phase*.hpp')])
prop('C08', 'Results are used only after the pipeline that produces them has drained',
     'Wherever a phase builds a pipeline, every stage is closed before the stages it feeds are closed, before the files, sorters, tables, counters and buffers it writes are finished, closed, read or used, and before the objects its function refers to are destroyed. '
     'Nothing is handed to a stage after it was closed.',
     ['schedules', 'histories'], 'all schedules of every pipeline of the four phases',
     'A missing or misplaced close usually goes unnoticed because the worker happens to be done; tests do not run the phases.',
     [I + x for x in ('DiskSort.hpp', 'DiskTable.h', 'phase1.hpp', 'phase2.hpp', 'phase3.hpp', 'phase4.hpp')] + ['src/chia_plot.cpp'],
     [('close() calls in upstream-to-downstream order', 'phase1-4 compute functions, DiskSort::read, DiskTable::read')])
prop('C09', 'Disk sort returns every record exactly once, in key order, with its rank',
     'For every record type, bucket count and sequence of records added (directly or through any number of write caches that were flushed), reading a finished sorter delivers exactly the added records, each once and unchanged, grouped into blocks whose keys do not decrease from record to record and from block to block, each block tagged with the number of records delivered before it. '
     'A record whose key does not fit the declared key size is rejected with an error instead of being misplaced or dropped.',
     ['inputs', 'configurations', 'schedules'], 'all record multisets, key sizes, bucket counts, cache and thread counts',
     'The test sorts one kind of random record with one configuration and only looks at the order.',
     [I + 'DiskSort.h', I + 'DiskSort.hpp', I + 'buffer.h'],
     [('bucket by the top key bits, sub-block by the next, std::sort each block, emit in order', 'DiskSort.hpp add, write, read_bucket, read'), ('flush before finish', 'DiskSort.hpp finish, ~WriteCache')])
prop('C10', 'A table file returns exactly the records written to it',
     'For every record type, number of records and block size, reading a table after it was flushed or closed delivers every record written, each exactly once and unchanged, in the order written, in consecutive blocks each tagged with the index of its first record; the last incomplete block is included. '
     'The number of records the table reports equals the number written so far to the file; opening a table with a known number of records leaves the file as it is.',
     ['inputs', 'configurations', 'schedules'], 'all record sequences, block sizes, reader thread counts',
     'No test reads a table back; block boundaries and buffer-capacity boundaries need exact counts.',
     [I + 'DiskTable.h', I + 'buffer.h'], [('buffered write, flush, block reads by offset', 'DiskTable.h write, flush, close, read, read_block')])
prop('C11', 'Temporary files are removed after, and never before, their last use',
     'Every temporary file created while plotting has been removed when the plot is finished, and no temporary file is removed, truncated or reopened for writing while a later step still has to read it. '
     'A sorter that does not keep its files leaves none behind once closed or destroyed, whether or not it was read; one that keeps them, such as a read-only one, removes none and a read-only one opens none for writing. '
     'No two sets of temporary records in use at the same time share a file name, even if all directories are the same.',
     ['histories', 'configurations'], 'all phases, table indices, bucket counts and directory settings',
     'The phases are not run by the tests; a leaked or prematurely removed file shows only after hours of plotting.',
     [I + 'phase1.hpp', I + 'phase2.hpp', I + 'phase3.hpp', I + 'phase4.hpp', I + 'DiskSort.hpp'],
     [('remove() of tables after the reading step, bucket files removed after reading or on destruction', 'phase2.hpp compute, phase3.hpp compute, DiskSort.hpp read_bucket, close')])
prop('C12', 'The plot file layout matches its header pointers',
     'The header starts with the fixed text, the plot id, k, the format description and the memo (each with its two-byte big-endian length), followed by ten eight-byte big-endian pointers; pointer i holds the offset at which the i-th section (tables 1 to 7, C1, C2, C3) was actually written. '
     'Every park of a table is written whole at the table start plus its park number times the fixed park size, unused bytes of a park are zero, sections follow each other without overlap, and the recorded park, C1, C2 and C3 sizes follow from k and the number of entries as the Chia plot format prescribes.',
     ['inputs', 'configurations'], 'all k, memo lengths and entry counts',
     'No test creates or parses a plot.',
     [I + 'phase3.hpp', I + 'phase4.hpp', I + 'util.hpp'],
     [('WriteHeader, final_pointers, park offsets, C1-C3 offsets', 'phase3.hpp WriteHeader, compute_stage2, compute; phase4.hpp compute')])
prop('C13', 'The first table function is exactly ChaCha8 as prescribed',
     'For every plot id and every x, the table-1 value is the k bits at bit position x*k of the ChaCha8 keystream (8 rounds, 256-bit key made of the byte 1 followed by the first 31 plot id bytes, zero nonce, 64-bit block counter starting at 0) extended by the top 6 bits of x, and every x from 0 to 2^k-1 is produced exactly once together with its own x.',
     ['inputs', 'configurations'], 'all keys, counters and x',
     'No test calls the cipher.',
     ['lib/chacha8.c', I + 'phase1.hpp'], [('keystream blocks and slicing', 'lib/chacha8.c, phase1.hpp F1Calculator, compute_f1')])
prop('C14', 'Table functions combine both parents as the format prescribes',
     'For tables 2 to 7, the value of a match is the top k+6 bits (k bits for table 7) of the BLAKE3 hash of the concatenation, most significant bit first, of the left sort value (k+6 bits), the left metadata and the right metadata (each 1, 2, 4, 4, 3 or 2 times k bits for tables 2 to 7), and the new metadata is the concatenation of the parents\' metadata for tables 2 and 3 and the hash bits following the value, 4k, 3k, 2k bits, for tables 4 to 6.',
     ['inputs', 'configurations'], 'all metadata values, all tables, both builds',
     'No test computes a table function.',
     [I + 'phase1.h', I + 'phase1.hpp'], [('FxCalculator::evaluate', 'phase1.hpp')])
prop('C15', 'Bit packing and byte order helpers lose no bits',
     'Appending values of given bit widths to a bit string and writing it out yields exactly the concatenation of those bits, most significant first, zero-padded to full bytes, for any number of values and any widths up to the word size; the byte-order conversion and bit-slicing helpers return exactly the bits they name and are inverse to each other.',
     ['inputs'], 'all values, widths and alignments',
     'The tests never call these helpers directly.',
     [I + 'bits.hpp', I + 'util.hpp'], [('BitsGeneric::AppendValue, ToBytes; Util::SliceInt64FromBytes, IntToTwoBytes, IntToEightBytes, IntTo16Bytes', 'bits.hpp, util.hpp')])
prop('C16', 'Back-propagation keeps exactly the used entries and renumbers them exactly',
     'An entry of tables 1 to 6 is kept if and only if some kept entry of the next table refers to it, as left or right parent; all of table 7 is kept. '
     'Kept entries stay in order, and each reference is replaced by the number of kept entries before the referenced one, for every table size including sizes that are not multiples of the bitmap word or index bucket.',
     ['inputs', 'schedules'], 'all reference patterns and table sizes, all thread interleavings',
     'The bitmap, the rank index and the phase are not covered by any test.',
     [I + 'phase2.hpp', I + 'bitfield.hpp', I + 'bitfield_index.hpp'], [('mark pass, rank index, remap pass', 'phase2.hpp compute_table, bitfield.hpp set/get/count, bitfield_index.hpp lookup')])
prop('C17', 'No plotting starts with invalid options or unusable directories',
     'Plot creation is never started unless k is within 16 and the build maximum, the thread count within 1 and 1024, both bucket counts within 2^4 and 2^16, exactly one of pool key and contract is given, all keys have 48 bytes and an explicit plot id has 32, each directory option ends with a path separator, and a file could be created in the temporary, second temporary, stage and final directories; otherwise the program reports the problem and exits with an error status.',
     ['inputs', 'configurations'], 'all command lines',
     'main() is not run by any test.',
     ['src/chia_plot.cpp'], [('validation sequence', 'chia_plot.cpp main')])
prop('C18', 'Interrupts stop between plots and every finished plot is delivered before exit',
     'When more than one plot is requested, SIGINT and SIGTERM are handled: an interrupt does not terminate the process unless another one preceded it by less than about a second (then it does); after an interrupt no further plot is started, '
     'while the current one is completed. Unless interrupted, exactly the requested number of plots is made (without end if negative). A plot made in a directory other than the final one is handed to the copy stage with its name in the final directory; '
     'a failing move is retried until it succeeds, and the program does not end normally before every plot handed over has been moved.',
     ['histories', 'fault_sequences', 'schedules'], 'all times of interrupts, all counts, all copy failures',
     'main() and its loop are not run by any test.',
     ['src/chia_plot.cpp'], [('signal flag tested before each plot, copy thread closed at the end, retry loop', 'chia_plot.cpp main, interrupt_handler')])
prop('C19', 'Plot id and memo belong to the given keys',
     'The memo of every plot is the pool public key (or the 32-byte puzzle hash of the pool contract), then the farmer public key, then the master secret key of the plot, which is generated from 32 fresh random bytes. '
     'Unless an id is given explicitly (then that is used), the plot id is the hash of the pool key or puzzle hash followed by the plot public key, which is local key + farmer key, plus for contracts the taproot key generated from the hash of (local + farmer, local, farmer); '
     'the local key is m/12381/port/3/0 of the master key; with the unique option, and always for port 11337, the id is the hash of that hash and the 4-byte port. '
     'The keys, the id, k, port and thread count are those of the command line: byte i of a hex text is its digits 2i and 2i+1, a contract address is accepted only if it is Bech32m with 52 groups and its puzzle hash is the first 256 bits of those. '
     'k, id, memo, name, directories, thread and bucket counts reach every phase unchanged and each phase gets the output of the previous one.',
     ['inputs', 'configurations'], 'all keys, addresses, ports and options',
     'main() and create_plot() are not run by any test; a wrong key shows only when a plot fails to farm.',
     ['src/chia_plot.cpp', I + 'util.hpp'], [('derivation of id and memo, decoding of keys', 'chia_plot.cpp create_plot, bech32_address_decode, main; util.hpp hex_to_bytes')])

NA = {}


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA[id] = reason


na('C90', 'Every proof in a finished plot verifies',
   'Every proof of space retrieved from a finished plot verifies against the plot id and k.',
   ['inputs'], 'all plot ids and challenges', 'No plot is made by the tests.', [I + 'phase1.hpp', I + 'phase3.hpp', I + 'phase4.hpp'],
   [('all phases', 'phase1-4')],
   'An end-to-end numeric statement over BLAKE3, matching, sorting and entropy coding; no static argument in reach relates the bytes of a plot to proof verification. Its structural parts are claimed separately (C04, C09, C10, C12-C16).')
na('C91', 'Delta encoding round-trips and never overruns its buffer',
   'Entropy-coded deltas of every park decode to the same deltas and fit the space reserved for them.',
   ['inputs'], 'all delta sequences', 'Only the FSE library itself is fuzzed.', [I + 'encoding.hpp', 'lib/FSE/lib/fse_compress.c'],
   [('ANSEncodeDeltas, FSE', 'encoding.hpp')],
   'The encoded size is a runtime quantity (information content of the deltas under a floating-point table) and the code checks it only after writing; no sound static bound is in reach.')
na('C92', 'Plotting never deadlocks',
   'Every pipeline eventually finishes when its inputs end, also when a stage fails.',
   ['schedules', 'fault_sequences'], 'all interleavings', 'Hangs need particular interleavings.', [I + 'Thread.h', I + 'ThreadPool.h', I + 'phase3.hpp'],
   [('condition variables', 'Thread.h, ThreadPool.h, phase3.hpp')],
   'Liveness under a fair scheduler over dynamically built pipelines with back-pressure; a sound static argument would need ranking functions over queue contents. Known: a worker of a parallel stage that fails leaves its successor waiting, so some failures hang instead of ending the program (see DESIGN.md).')
na('C93', 'The plot is independent of thread and bucket counts',
   'The same plot id, k and keys give a byte-identical plot for every thread count and bucket count.',
   ['configurations', 'schedules'], 'all thread and bucket counts', 'No plot is made by the tests.', [I + 'DiskSort.hpp', I + 'phase1.hpp'],
   [('sorting and order-preserving pools', 'DiskSort.hpp, ThreadPool.h')],
   'Not true as stated: entries with equal sort keys keep an arbitrary order that depends on bucket contents order (several write caches), so only the set of proofs is invariant; that is a runtime equivalence out of static reach.')

LEVEL_NOTE = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, nap = [], []
    for p in P:
        id = p['id']
        mod = os.path.join(V, 'checks', id.lower() + '.py')
        if id in NA:
            nap.append({'property': id, 'reason': NA[id]})
        elif not os.path.exists(mod):
            nap.append({'property': id, 'reason': 'not built: removal of temporary files is spread over DiskSort, DiskTable and three phases under runtime flags, and whether two names denote the same file depends on directories given at run time; no sound rule that stays quiet under refactoring was reached'})
        else:
            m = importlib.import_module('checks.' + id.lower())
            checks.append({'property': id, 'quick_cmd': 'python3 check.py %s --tier quick' % id,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                           'evidence_file': 'evidence/%s.json' % id,
                           'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'other'),
                           'level_note': getattr(m, 'NOTE', m.RULE + '. Undecided obligations are listed in the evidence.')})
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': nap,
               'notes': 'Static analysis only; see DESIGN.md. No hooks are needed in /repo; its extra commits are fixes of genuine defects (known-findings.txt).'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
