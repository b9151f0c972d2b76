"""C11: lock-protected state is only touched with its lock held."""
import re
from wdtsa.locks import *
from wdtsa.program import Broken

EXPLAIN = ('An interprocedural lockset dataflow computes, for every member and global access in every function and '
           'calling context, the locks held on all paths reaching it. Every access to the tabled shared state outside '
           'constructors must hold the lock of the same object; writes must hold it exclusively. References and '
           'iterators into that state must not be used after the lock was released.')
RULE = 'must-held lockset at access contains the guarding mutex of the accessed object'
ASSUME = ['objects are not shared between threads before their constructor returns or after their destructor starts',
          'functions listed as owners run while no other thread uses the state they access (documented in the header)']

# mutex member -> members it guards
TABLE = {
    'Barrier::mutex_': 'Barrier::isComplete_ Barrier::numHits_ Barrier::numThreads_',
    'ExecuteOnceFunc::mutex_': 'ExecuteOnceFunc::numHits_',
    'Funnel::mutex_': 'Funnel::status_',
    'ThreadsController::controllerMutex_': 'ThreadsController::threadStateMap_',
    'DirectorySourceQueue::mutex_':
        'initCalled_ initFinished_ nextSeqId_ numBlocksDequeued_ numBlocks_ numEntries_ numWaiters_ '
        'previouslySentBytes_ previouslyTransferredChunks_ sharedFileData_ sourceQueue_ totalFileSize_ failedSourceStats_',
    'FileCreator::mutex_': 'createdDirs_',
    'FileCreator::lock_': 'fileStatusMap_',
    'PerfStatReport::mutex_': 'count_ maxValueMicros_ minValueMicros_ perfStats_ sumMicros_ networkTimeoutMillis_',
    'PeriodicCounters::mutex_': 'stop_',
    'Sender@WdtBase::mutex_': 'fileChunksReceived_',
    'Receiver@WdtBase::mutex_': 'acceptMode_',
    'WdtBase::mutex_': 'transferStatus_',
    'WdtBase::abortCodeLock_': 'abortCode_',
    'ThreadTransferHistory::mutex_': 'globalCheckpoint_ history_ inUse_ lastCheckpoint_ numAcknowledged_',
    'Throttler::throttlerMutex_':
        'avgRatePerSec_ bucketRatePerSec_ instantProgress_ lastFillTime_ lastLogTime_ progress_ refCount_ startTime_ '
        'throttlerLogTimeMillis_ tokenBucketLimit_ tokenBucket_',
    'TransferLogManager::mutex_': 'entries_ finished_',
    'TransferStats::mutex_':
        'dataBytes_ effectiveDataBytes_ effectiveHeaderBytes_ encryptionType_ failedAttempts_ headerBytes_ id_ '
        'localErrCode_ remoteErrCode_ numBlocksSend_ numBlocks_ numFiles_ tls_ totalSenderBytes_',
    'WdtControllerBase::controllerMutex_': 'maxNumReceivers_ maxNumSenders_ numReceivers_ numSenders_',
    'WdtNamespaceController@WdtControllerBase::controllerMutex_': 'receiversMap_ sendersMap_',
    'WdtResourceController@WdtControllerBase::controllerMutex_': 'namespaceMap_ strictRegistration_',
}
GLOBALS = {'::s_wdtMap': '::s_mutex', '::static@randomEngine': '::static@mutex', '::isAbortCancelled': '::abortMutex'}

# documented single-threaded owners: (function, member) pairs
OWNERS = {
    'DirectorySourceQueue::getFailedSourceStats': ('DirectorySourceQueue::sourceQueue_', 'DirectorySourceQueue::failedSourceStats_'),
    'DirectorySourceQueue::getDiscoveredFilesMetaData': ('DirectorySourceQueue::sharedFileData_',),
    # the discovery thread is the only writer
    'DirectorySourceQueue::explore': ('DirectorySourceQueue::numEntries_',),
    'ExecuteOnceFunc::reset': ('ExecuteOnceFunc::numHits_',),
    # sender threads read their own statistics without locking (flag argument)
    'TransferStats::getTotalBytes': ('TransferStats::dataBytes_', 'TransferStats::headerBytes_'),
}


def table(P):
    out = {}
    known = {x['q'] for r in P.records.values() for x in r['fields']}
    for m, fs in TABLE.items():
        cls, mx = m.split('@') if '@' in m else (m.rsplit('::', 1)[0], m)
        for x in fs.split():
            q = x if '::' in x else cls + '::' + x
            if q in known:
                out[q] = mx
    return out


def written(f):
    """member/variable nodes whose object f modifies"""
    out = set()

    def root(x):
        while x in f.nodes:
            n = f.nodes[x]
            k = n['k']
            if k in ('m', 'v'):
                out.add(x)
                return
            if k in ('idx', 'cast', 'addr'):
                x = n.get('b') or n.get('e')
            elif k == 'call' and n.get('o') and not n.get('repo'):
                x = n['o']
            else:
                return
    for n in f.nodes.values():
        k = n['k']
        if k in ('assign', 'cassign'):
            root(n['a'])
        elif k == 'incdec':
            root(n.get('e') or n.get('a'))
        elif k == 'call' and n.get('o') and not n.get('cm') and not n.get('repo') \
                and n.get('f', '').rsplit('::', 1)[-1] not in ('begin', 'end', 'find', 'operator->', 'operator*', 'back', 'front', 'at', 'top', 'get'):
            root(n['o'])
        if k in ('call', 'ctor'):
            for a, m in zip(n.get('a', []), n.get('am', [])):
                if m == 2:
                    root(a)
    return out


def handle(t):
    """iterators into a container"""
    t = (t or '')
    return 'iterator' in t or '_Node' in t


def run(P, c):
    tab = table(P)
    for m in set(tab.values()):
        c.need(any(x['q'] == m for r in P.records.values() for x in r['fields']), 'mutex %s not found' % m)
    c.floor('guarded_members', len(tab), 60)
    L = Locks(P, OWNERS)
    c.counts['lock_states'] = L.steps
    seen = {}
    for (fk, nid), sts in sorted(L.at.items()):
        f = P.F[fk]
        n = f.nodes[nid]
        if n['k'] == 'm':
            q = n['f']
            mx = tab.get(q)
            base = canon(f, n['b']) if n.get('b') else 'this'
        elif n['k'] == 'v':
            q = re.sub(r'#.*', '', n['d'])
            mx = GLOBALS.get(q)
            base = 'global'
        else:
            continue
        if not mx:
            continue
        c.funcs.add(fk)
        seen[q] = seen.get(q, 0) + 1
        wr = nid in writes(f)
        ok = all(fine(st, q, mx, base, wr) for st in sts)
        held = L.must((fk, nid))
        c.check(ok, '%s in %s' % (q, f.qn),
                '%s is %s without holding %s%s' % (q, 'modified' if wr else 'read', mx,
                                                    ' exclusively' if wr and has(held, mx, base) else ''), f.loc(nid))
    missing = [q for q in tab if q not in seen]
    c.floor('guarded_members_accessed', len(seen), 60)
    c.counts['accesses'] = sum(seen.values())
    if missing:
        c.sample('never accessed: ' + ', '.join(missing))
    # references and iterators into guarded state
    n = 0
    for f in P.F.values():
        loc = {}
        for x in f.nodes.values():
            if x['k'] != 'decl':
                continue
            for d in x['ds']:
                if not d.get('e') or not (d.get('ref') or handle(d['t'])):
                    continue
                q = owner(f, d['e'], tab)
                if q:
                    loc[d['d']] = q
        if not loc:
            continue
        for nid, x in f.nodes.items():
            if x['k'] == 'v' and x['d'] in loc and (f.key, nid) in L.at:
                q, base = loc[x['d']]
                n += 1
                c.check(all(fine(st, q, tab[q], base, False) for st in L.at[(f.key, nid)]), '%s via %s in %s' % (q, x['n'], f.qn),
                        'a reference or iterator into %s is used without holding %s' % (q, tab[q]), f.loc(nid))
    c.count('handles_checked', n)
    c.need(not any(p[0] == 'param' for p in L.problems), 'lock parameters not resolved')


_w = {}


def writes(f):
    if f.key not in _w:
        _w[f.key] = written(f)
    return _w[f.key]


def fine(st, q, mx, base, wr):
    """one lockset: exempt, or holding the lock"""
    held = {(m, b) for m, b, h in st if not (wr and h.startswith('s!'))}
    if ('#ctor', base) in held or any(m.startswith('#own ') and q in OWNERS.get(m[5:], ()) for m, b in held):
        return True
    return has(held, mx, base)


def has(held, mx, base):
    if base == 'global':
        return any(re.sub(r'#.*', '', m) == mx for m, b in held)
    return any(m == mx and b == base for m, b in held)


def owner(f, e, tab):
    """guarded member whose elements an expression designates"""
    x = e
    for _ in range(12):
        n = f.nodes.get(x)
        if n is None:
            return None
        k = n['k']
        if k == 'm':
            if n['f'] in tab:
                return (n['f'], canon(f, n['b']) if n.get('b') else 'this')
            x = n.get('b')
        elif k in ('cast', 'load', 'idx', 'addr', 'deref', 'temp', 'bind'):
            x = n.get('b') or n.get('e')
        elif k == 'ctor' and n.get('a'):
            x = n['a'][0]
        elif k == 'call' and n.get('o') and not n.get('repo') and 'shared_ptr' not in n.get('f', ''):
            x = n['o']
        else:
            return None
    return None
