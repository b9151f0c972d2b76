"""Source of properties.jsonl and MANIFEST.json (python3 meta/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, cant, files, mech, technique='', note='', state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, cant=cant,
                  files=files, mech=mech, technique=technique, note=note, state=state,
                  observe=observe, na=na))


T0 = ('The repository\'s tests that build here exercise only the bench text generator; ')

prop('C01', 'Wire encoder and decoder of every message agree at every version',
     'For every protocol version that both ends can negotiate, the decoder of each wire message (header, checkpoints, done, size, abort, chunk list, settings, encryption settings, footer) reads exactly the fields its encoder writes, in the same order, with the same encoding and under the same version and flag conditions. '
     'A decoder reports success only when every field it consumes was read successfully, and an encoder reports failure when a field did not fit.',
     ['inputs', 'configurations'], 'all field values, all negotiated protocol versions, all buffers',
     T0 + 'protocol tests sample a few messages at a few versions and always pair a decoder with the encoder built from the same version.',
     ['Protocol.cpp', 'Protocol.h', 'SerializationUtil.cpp', 'SerializationUtil.h'],
     ['Protocol::encode*/decode* pairs', 'version constants in Protocol.h'],
     'path-sensitive typestate dataflow extracting the field/primitive sequence of each encoder and decoder per version interval, then set comparison')
prop('C02', 'Every transfer-log entry is parsed back the way it was written',
     'Each kind of entry the receiver appends to its transfer log (header, file creation, block, invalidation, directory invalidation, file resize) is decoded with the same fields, order and encoding as it was written, and the log parser handles every kind of entry that can be written. '
     'Every entry is written with its own size prefix, and a parser reports an entry as decoded only if all its fields were read.',
     ['inputs', 'histories'], 'all entry kinds, all field values, all log contents',
     T0 + 'log tests write and read a handful of entries of the common kinds.',
     ['TransferLogManager.cpp', 'TransferLogManager.h'],
     ['LogEncoderDecoder::encode*/decode*', 'LogParser::parseLog'],
     'path-sensitive field-sequence extraction and comparison; exhaustiveness of the entry-type dispatch')
prop('C03', 'Encoding and decoding stay inside their buffers',
     'No sequence of bytes received from a peer or read from a log file makes a decoding routine read outside the bytes it was given, and no encoding routine writes beyond the capacity it was given. '
     'A read or write that would not fit fails instead, and so does a number that is negative or too large for its result. The transfer log\'s entries are never longer than the memory they are built in or read into.',
     ['inputs'], 'all byte sequences, all offsets and capacities',
     T0 + 'truncation tests try a few cut points of well-formed messages.',
     ['SerializationUtil.cpp', 'SerializationUtil.h', 'Protocol.cpp', 'TransferLogManager.cpp'],
     ['bounds checks of the serialization primitives'],
     'path-sensitive linear-fact dataflow with an obligation at every raw buffer access')
prop('C04', 'Peer-supplied lengths are validated before use',
     'No length, count or offset sent by the peer, and no amount of bytes it sends at once, makes sender or receiver read, write, copy or check bytes outside of the buffer they belong to, ask for a negative amount of memory, or lose track of which received bytes are not processed yet. '
     'A value that does not fit ends the exchange with an error instead.',
     ['inputs', 'schedules'], 'all bytes a peer may send in every state of both protocols, cut into reads in any way',
     T0 + 'no test sends a hostile or corrupted length, or cuts a stream at chosen places.',
     ['ReceiverThread.cpp', 'SenderThread.cpp', 'Protocol.cpp'],
     ['state functions of ReceiverThread and SenderThread', 'readAtLeast / readAtMost', 'buffer positions off_, oldOffset_, numRead_'],
     'abstract interpretation of every state function with linear bounds: an obligation at every buffer access, and an inductive invariant of the buffer positions at state changes')
prop('C05', 'A block is confirmed only after it was fully written, synced and verified',
     'The receiver counts a block as received (in its progress, its resumable state and what it confirms to the sender) only after every byte of the block was written, and the block was synced and closed without error. '
     'When checksums or encryption tags are in use, a mismatching block is never counted, and a block that still awaits verification is counted only after a verification that succeeded on the same connection. Every block that passed is counted before the transfer is confirmed.',
     ['inputs', 'fault_sequences', 'histories'], 'all paths of the receiver through one block, with any call failing',
     T0 + 'end-to-end tests run without disk faults and with correct checksums.',
     ['ReceiverThread.cpp', 'FileWriter.cpp'],
     ['ReceiverThread::processFileCmd', 'markBlockVerified / markReceivedBlocksVerified'],
     'must-pass-through typestate over the interprocedural CFG')
prop('C06', 'A failed or short disk operation is never reported as success',
     'When opening, allocating, reading, writing, truncating, syncing or closing a data file or the transfer log fails or is short, the operation that needed it reports failure to its caller, unless the same operation was retried and then succeeded. '
     'This holds on every path, including errors in the middle of a block or entry.',
     ['fault_sequences', 'inputs'], 'all outcomes of each I/O system call on each path',
     T0 + 'no test injects a failing or short write, fsync, ftruncate or pread.',
     ['FileWriter.cpp', 'FileCreator.cpp', 'FileByteSource.cpp', 'TransferLogManager.cpp'],
     ['return-code checks after each system call'],
     'fault-forking typestate dataflow: each syscall outcome is forked; a pending failure must reach the result')

prop('C16', 'With encryption on, every byte is encrypted once and failures are sticky',
     'On a connection with encryption enabled no byte of application data is put on the socket before the encryption settings were sent and the byte was encrypted, and no received byte is handed out before it was decrypted; every byte passes through the cipher exactly once and in stream order, and integrity tags are sent and checked at the same positions on both sides. '
     'A failed key setup, cipher, tag or IV operation makes the operation fail and leaves an error on the connection, so that no later read or write on it succeeds; a connection that is closed and reopened starts from fresh cipher state.',
     ['inputs', 'fault_sequences', 'histories'], 'all paths of the socket layer with any raw transfer being short or failing and any OpenSSL call failing',
     T0 + 'encryption tests run the good path and a few corrupted bytes; they never make a cipher call or a tag transfer fail.',
     ['util/WdtSocket.cpp', 'util/EncryptionUtils.cpp'],
     ['WdtSocket read/write layering', 'AESEncryptor/AESDecryptor wrappers'],
     'assume-guarantee typestate with linear buffer positions, each socket layer explored against the contracts of the layer below; every OpenSSL call forked')
prop('C09', 'No block is lost between discovery, queue, sender thread and history',
     'Every block created for a file stays accounted for until its statistics are recorded: it is in the shared queue, held by exactly one thread, or in that thread\'s history. '
     'A block taken from the queue is never dropped, overwritten or destroyed on any path, whatever fails: it is kept in the history, returned to the queue, or recorded as failed. '
     'The queue\'s counters of queued and dequeued blocks change by exactly the number of blocks that entered or left it, and rebuilding the queue covers every discovered file.',
     ['inputs', 'fault_sequences', 'histories'], 'all paths of every function that creates, moves or destroys a block',
     T0 + 'sender tests send complete directories without reconnects in the middle of a block.',
     ['util/DirectorySourceQueue.cpp', 'util/ThreadTransferHistory.cpp', 'SenderThread.cpp'],
     ['DirectorySourceQueue::getNextSource / returnToQueue', 'ThreadTransferHistory::addSource', 'SenderThread::sendBlocks'],
     'linear-ownership typestate for unique_ptr blocks with ghost counters')
prop('C11', 'State shared between threads is only touched under its lock',
     'Every access to the state that sender and receiver threads, reporting threads and callers share (queue, histories, checkpoints, statistics, barriers and funnels, log entries, throttler, file status, resource controller) happens while the mutex that guards it is held, exclusively for writes. '
     'No pointer, reference or iterator into such state is used after the lock was released.',
     ['schedules', 'inputs'], 'all thread interleavings, all calling contexts of each access',
     T0 + 'a race needs a particular interleaving that tests do not force.',
     ['util/DirectorySourceQueue.h', 'util/ThreadTransferHistory.h', 'util/ThreadsController.h', 'Reporting.h', 'Throttler.h', 'util/TransferLogManager.h'],
     ['mutex members and the state declared next to them'],
     'interprocedural must-lockset dataflow')
prop('C12', 'Locks are balanced, taken in one order and never held while blocking',
     'Every lock taken is released on every path, no lock is released that is not held or taken twice by one thread, the order in which locks are taken is acyclic, a condition wait holds only the lock it waits with, no lock that other threads need is held across a blocking system call, and no thread is joined while a lock it needs is held.',
     ['schedules', 'inputs', 'fault_sequences'], 'all thread interleavings, all paths including failure paths',
     T0 + 'a deadlock needs a particular interleaving or failure path.',
     ['util/FileCreator.cpp', 'util/ThreadsController.cpp', 'WdtBase.cpp', 'WdtResourceController.cpp', 'Receiver.cpp', 'Sender.cpp'],
     ['manual lock()/unlock() and scoped guards', 'joins in finish()'],
     'path-sensitive lockset typestate and lock-order graph')
prop('C07', 'A failed or cut-off socket exchange never continues as if it had worked',
     'Whenever a socket read, write, accept, connect or message decode in a sender or receiver thread fails or comes up short, the thread records an error and reconnects, aborts or ends; it never acts on the data that did not arrive or goes on with the regular protocol. '
     'A block is reported sent only if every byte of its header, data and footer was written.',
     ['inputs', 'fault_sequences'], 'all paths of every thread state function under every combination of failed, short and complete exchanges',
     T0 + 'tests do not cut connections inside a message.',
     ['SenderThread.cpp', 'ReceiverThread.cpp'],
     ['SenderThread state functions', 'ReceiverThread state functions', 'sendOneByteSource'],
     'fault-forking path-sensitive typestate over socket operations')
prop('C10', 'Blocks count as delivered only as far as the receiver acknowledged them',
     'When a connection ends, all and only the blocks after those the receiver acknowledged go back to the queue, marked as failed; bytes it already has are credited only to the block the checkpoint names, and never more than that block has. '
     'A checkpoint that is malformed, goes backwards or covers more blocks than were sent is refused and changes nothing. All blocks count as delivered only after the receiver sent DONE, WAIT or a global checkpoint on that connection, or a thread finished without an error. Block and thread statistics are corrected alike.',
     ['inputs', 'histories', 'fault_sequences'], 'every checkpoint value and history length, all paths of the sender state machine',
     T0 + 'tests do not reconnect, and never feed a receiver\'s message to the sender\'s history.',
     ['util/ThreadTransferHistory.cpp', 'SenderThread.cpp', 'Sender.cpp'],
     ['setCheckpointAndReturnToQueue', 'markSourceAsFailed', 'addSource', 'readLocalCheckPoint', 'readReceiverCmd', 'processErrCmd', 'Sender::finish'],
     'symbolic counter and ownership dataflow with guard dominance')
prop('C20', 'The receiver only touches files below its own directory',
     'Whatever file names a sender transmits, the receiver creates, opens, truncates or deletes only files and directories below its own root directory: a name is used only after it was checked to be relative, not empty and without a ".." component, '
     'and every path handed to the system is the root directory followed by such a name or a leading part of it.',
     ['inputs'], 'all names a peer may send, all paths from the file command to the system calls',
     T0 + 'no test sends a hostile name.',
     ['ReceiverThread.cpp', 'util/FileCreator.cpp', 'util/FileCreator.h', 'util/FileWriter.cpp'],
     ['FileCreator::isSafeRelativePath', 'FileCreator::getFullPath', 'ReceiverThread::processFileCmd'],
     'taint typestate on the received name, string-position typestate proving the validator, origin tracking of every path argument')
prop('C18', 'Only a sender that proved the transfer id on its connection is served',
     'On every connection a receiver accepts, it acts on file, size and done commands and sends file chunks only after the settings received on that same connection were decoded, both protocol versions are equal and the sender\'s transfer id equals its own. '
     'A new connection never inherits the verification of an earlier one.',
     ['inputs', 'histories'], 'all states of the receiver thread, all command sequences over any number of connections',
     T0 + 'no test connects without the settings, or a second time with a wrong id.',
     ['ReceiverThread.cpp', 'ReceiverThread.h'],
     ['ReceiverThread::readNextCmd', 'ReceiverThread::processSettingsCmd', 'ReceiverThread::acceptWithTimeout', 'curConnectionVerified_'],
     'inductive invariant of the verified mark over the receiver\'s state functions; typestate of the verification itself')
prop('C22', 'The resource controller counts what is registered and keeps its limits',
     'The numbers of senders and receivers kept by every namespace and by the root controller equal what is registered after every operation, successful or not, and a sender or receiver is only added while the global and the namespace limit allow it. '
     'A transfer started through the public entry points is unregistered exactly when it ends or could not be started: no failing path keeps its share of the limits, a registered one is never replaced silently, and none is unregistered while it still runs.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'], 'all operations of the controllers in any order, all paths of wdtSend, wdtReceiveStart and wdtReceiveFinish',
     T0 + 'controller tests register and release a handful of senders and do not make initialization fail.',
     ['WdtResourceController.cpp', 'WdtResourceController.h', 'Wdt.cpp'],
     ['WdtNamespaceController::create*/release*', 'WdtResourceController::create*/release*', 'Wdt::wdtSend', 'Wdt::wdtReceiveStart'],
     'ghost-counter dataflow (registered minus counted is zero at every exit), lock-section typestate for the limits, registration typestate over the entry points')
prop('C08', 'Both state machines take only the transitions of the protocol',
     'A sender or receiver thread moves only between states the protocol connects, and only for the reason the protocol gives: it serves the command whose byte it received, exchanges a local checkpoint after a reconnect exactly when it had an error, exchanges file chunks exactly when the settings say so, sends DONE only when no block is left or no other thread runs and no checkpoint is new, and renegotiates only after a version mismatch, taking over everything that depends on the version. '
     'Every transition of the protocol remains possible; a thread enters no state without looking for an abort, stops at END, and tells the other threads when it ends.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all 29 states of both machines, with all answers of sockets, decoders, queue, history and the other threads',
     T0 + 'no test drives the state machines; end-to-end runs take a few of the transitions.',
     ['SenderThread.cpp', 'ReceiverThread.cpp', 'SenderThread.h', 'ReceiverThread.h'],
     ['SenderThread::stateMap_', 'ReceiverThread::stateMap_', 'SenderThread::start', 'ReceiverThread::start'],
     'path-sensitive transition relation of every state function, compared in both directions with a guarded transition table')
prop('C25', 'The reported result of a transfer is what happened',
     'A sender reports success only if every file and directory could be read, all bytes discovered were sent and a thread finished without an error; a receiver reports success only if it knows how many blocks and bytes the sender sent, has exactly those, and no connection failed its authentication. '
     'Every thread is counted exactly once, the error of no thread is lost in the merge, a transfer in which nothing failed is not reported as failed, a transfer that was not started is not reported as success, and nothing of a previous session is left in the statistics of the next. The library calls return that result, and the totals and the status a sender announces are those of its queue and are the ones the receiver judges by.',
     ['inputs', 'histories', 'fault_sequences'], 'all values of all statistics and error codes, any number of threads, failed files and directories',
     T0 + 'no test makes a report.',
     ['Reporting.cpp', 'Reporting.h', 'Sender.cpp', 'Receiver.cpp', 'Wdt.cpp', 'ErrorCodes.cpp'],
     ['TransferReport::TransferReport', 'TransferStats::operator+=', 'TransferStats::reset', 'Sender::getTransferReport', 'Receiver::getTransferReport', 'Wdt::wdtSend'],
     'path-sensitive relation between the merged statistics and the reported error code, statistics symbolic')
prop('C19', 'The transfer log never claims more than what is on disk',
     'What a session reads back from the transfer log holds on disk: only entries after a valid header of the same transfer and configuration count, files only if they exist (with their '
     'logged size, when preallocated), blocks only inside their file, nothing after an invalid entry or an inconsistent directory; an incomplete entry left by a crash is cut off exactly, and parse-only mode changes nothing. '
     'A header counts only once written in full and synced, entries are queued only behind one, and all that was queued is written before the log is closed. '
     'The log is used only under its file lock, emptied for compaction only if all files are complete (and then rewritten with all of them), and removed, renamed or declared valid only after success.',
     ['histories', 'inputs', 'crash_points'], 'all log contents, all failing or short system calls, both parsing modes, all session ends',
     T0 + 'they cannot enumerate crash points and log contents',
     ['util/TransferLogManager.cpp', 'Receiver.cpp'],
     ['LogParser::parseLog', 'LogParser::processBlockWriteEntry', 'TransferLogManager::threadProcWriteEntriesToDisk', 'TransferLogManager::compactLog', 'Receiver::fixAndCloseTransferLog'],
     'typestate over log entries and system calls')
prop('C13', 'Nobody who waits for another thread is left waiting',
     'A barrier opens exactly when every thread that has not ended has come to it, a funnel gives its work to exactly one thread and every thread that gets it reports success or failure on every path, '
     'and work for the first or last thread of a session is done exactly once. Every thread that ends leaves all barriers, releases its history and is counted, on every path. '
     'Whatever other threads wait for (a file being allocated, the end of the queue, a history in use, the end of a transfer) is announced to all that may wait, and a thread that wakes up looks again.',
     ['schedules', 'fault_sequences'], 'all interleavings at the level of lock sections, all answers of funnels and failures of allocations',
     T0 + 'they start no two threads.',
     ['util/ThreadsController.cpp', 'util/FileCreator.cpp', 'util/DirectorySourceQueue.cpp', 'SenderThread.cpp', 'ReceiverThread.cpp'],
     ['Barrier::execute', 'Funnel::getStatus', 'ThreadsController::deRegisterThread', 'FileCreator::openForFirstBlock', 'DirectorySourceQueue::getNextSource'],
     'typestate of the coordination primitives and their users, must-notify dataflow per condition variable')
prop('C26', 'Discovery queues exactly the files the options select',
     'Every regular file below the source directory, at any depth and whatever entry types the file system reports, is queued exactly once, under its path relative to the root and with its size, unless the include, exclude or prune pattern or the rule about symbolic links leaves it out; nothing else is queued. A file list given by the caller is queued the same way, completely. A directory that cannot be opened or read to its end fails the transfer, and an entry that cannot be examined makes the discovery report failure.',
     ['inputs', 'fault_sequences', 'configurations'], 'all directory trees, entry kinds, pattern outcomes and failures of the calls that examine entries', T0 + 'produce the entry types of other file systems, failing listings, or every combination of link, pattern and kind',
     ['util/DirectorySourceQueue.cpp: explore, enqueueFiles, createIntoQueue, setRootDir'],
     ['case split over entry kinds', 'string concatenation domain', 'pending-failure typestate'],
     'abstract interpretation of the directory walk: every kind of entry and every outcome of the system calls and patterns is a separate case, and what was done with the entry is judged when the walk moves on')
prop('C30', 'The blocks queued for a file are exactly what the receiver lacks',
     'Whatever part of a file the receiver already holds, the blocks queued for it lie end to end over exactly the missing byte ranges, none longer than the block size, and nothing is queued twice when the receiver tells late what it has. A file of which it holds a usable part keeps its number, one it does not hold or that has become shorter gets a number no other file has, and the state announced for it is the true one. Reading a block yields its bytes in order from the position reached, never bytes that were not read, and never moves on without data.',
     ['inputs', 'histories', 'configurations'], 'all file and block sizes, sets of received ranges, receiver sizes, and results of the reads', T0 + 'combine sizes, received ranges and file states at the receiver, or make a read return every possible length',
     ['util/DirectorySourceQueue.cpp: createIntoQueueInternal, setPreviouslyReceivedChunks', 'Protocol.cpp: FileChunksInfo::getRemainingChunks', 'util/FileByteSource.cpp: read'],
     ['affine invariants over the block loops', 'ghost position of what is covered', 'case split on what the receiver has'],
     'abstract interpretation with linear relations between the sizes: a ghost variable follows what is covered, and each block, range and read is judged against it')
prop('C27', 'Deletion removes exactly the extra files, and only on request',
     'A file at the destination is deleted only if deletion of extra files was asked for at both ends, the peer knows the command, and a discovery that was complete did not find the file at the source; no other code of the transfer deletes files. If all that holds, every such file is deleted, exactly once and under its own name, and the transfer log forgets it. A deletion that announces data is refused.',
     ['histories', 'configurations', 'inputs', 'fault_sequences'], 'all sets of files at both ends, orders of discovery and of the list from the receiver, options, protocol versions and deletion commands', T0 + 'try every order of discovery and resumption with every failure, or prove that nothing else deletes files',
     ['util/DirectorySourceQueue.cpp: enqueueFilesToBeDeleted, buildQueueSynchronously', 'Sender.cpp: start', 'ReceiverThread.cpp: processFileCmd, markBlockVerified', 'util/FileCreator.cpp: openForBlocks'],
     ['exhaustive guard cases', 'typestate per file over both loops', 'census of deleting system calls'],
     'abstract interpretation of the functions that queue, send, accept and carry out deletions, with a case split on every condition that must hold first, and a census of the system calls that delete')
prop('C24', 'A transfer request comes back unchanged from its URL',
     'A transfer request written as a URL for the other side and parsed there yields the same request: transfer id, namespace, destination, host, ports, protocol version, encryption data, TLS and resumption settings and key-change interval all come back unchanged, whatever bytes their text contains and whether or not the ports follow each other. No character with a meaning in the URL appears unescaped in a value. A URL that is malformed, of another protocol, without ports or with values that do not parse is reported as an error, never accepted with guessed values.',
     ['inputs'], 'every request: all byte values in text fields, every port list, every combination of optional settings; every URL received',
     T0 + 'a test encodes a few requests; it cannot cover every byte value, every shape of port list and every optional field at once.',
     ['WdtTransferRequest.cpp', 'WdtTransferRequest.h'],
     ['parameter written for a field paired with the parameter read into it', 'constant propagation of each byte through escaping and unescaping', 'relation between neighbouring ports', 'error typestate of the parser and of every handler'],
     'pairing of URL parameters by dataflow; constant propagation per byte; error typestate')
prop('C31', 'The throttler keeps the sending rate at the configured limits',
     'Over any window, the bytes sent by all threads sharing a throttler stay within the configured average rate and token-bucket burst, whatever the number of threads and the sizes they ask for. A thread is never slowed below what the limits allow.',
     ['schedules', 'inputs', 'configurations'], 'all rates, all request sizes, all interleavings of the threads, all clock readings',
     T0 + 'throttler tests measure a few rates for a few seconds.',
     ['Throttler.cpp', 'Throttler.h'], ['Throttler::limit', 'Throttler::averageThrottler', 'Throttler::calculateSleep'],
     na='the guarantee is a bound on floating-point sums over measured time and actual sleep durations; no static rule over the source bounds clock readings or sleep lengths, and the locking around the token bucket is already decided by C11 and C12')
prop('C32', 'A transfer between live peers finishes, and timeouts fire on time',
     'If both peers stay alive and the network delivers bytes, every transfer ends within a time bounded by its size, the configured timeouts and the number of retries; no timeout fires earlier or later than configured.',
     ['schedules', 'fault_sequences', 'configurations'], 'all schedules, all delays, all timeouts',
     T0 + 'tests with real time observe single runs.',
     ['SenderThread.cpp', 'ReceiverThread.cpp', 'util/WdtSocket.cpp'], ['SenderThread::start', 'ReceiverThread::start', 'WdtSocket::readInternal'],
     na='liveness under fairness and real time depends on the peer, the kernel and the clock; only its structural parts have a static argument, and those are decided elsewhere (waiters are woken: C13, cut-off exchanges end: C07, state machines take protocol transitions: C08)')

if __name__ == '__main__':
    done = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'rules')) if f[0] == 'c' and f.endswith('.py')}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['cant'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': m, 'where': p['files'][0]} if isinstance(m, str) else m for m in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = list(p['state'])
            if p['observe']:
                d['anchors']['observe_at'] = list(p['observe'])
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    base = ('Static analysis of the type-checked source. Trusted: clang\'s AST/CFG, the folly/glog stand-ins used for parsing, the rule tables. ')
    for p in P:
        if p['id'] in done and not p['na']:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'python3 check.py ' + p['id'],
                           'technique': p['technique'], 'level': 'other',
                           'level_note': base + p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not claimed')

    import subprocess
    subprocess.check_call([sys.executable, os.path.join(V, 'meta/design.py')])
