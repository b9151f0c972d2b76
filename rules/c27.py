"""C27: only files that the source does not have are deleted at the destination, and only on request."""
from wdtsa.foreach import *
from rules.c26 import Strings, S, is_str

EXPLAIN = ('The function that queues deletions is explored for every combination of what must hold first (deletion asked for, '
           'discovery over, discovery complete, something known of the receiver): unless all of it holds nothing may be queued. '
           'Otherwise every file of the receiver must be looked up among all discovered names, the names compared must be the '
           'right ones, and exactly the files that are missing there are queued, once, empty, under their own name and number. '
           'The calls that trigger it, the option that reaches it, the command at the receiver, the one system call that '
           'deletes and the record in the transfer log are explored the same way; no other code may delete files.')
RULE = 'typestate per file over both loops with a case split on what was found; guards by exhaustive cases; census of deleting system calls'
ASSUME = ['what the receiver lists as received is what it has']

Q = 'DirectorySourceQueue::'
MD = 'SourceMetaData::'
SHARED, PREV = Q + 'sharedFileData_', Q + 'previouslyTransferredChunks_'


def sym(x):
    return ('sym', x)


def field(x):
    return ('F', ('P', THIS), x)


class Enq(Strings, ForEach):
    """rs: added (per discovered file), hit / miss / queued / made (per file of the receiver)"""
    over = (SHARED, PREV)
    affine = True
    K = 10
    follow = frozenset({'SourceMetaData::SourceMetaData'})
    go_ahead = True

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def is_event(self, f, nid, n):
        if n['k'] in ('call', 'ctor') and ('FileByteSource' in n.get('f', '') or n.get('rec') == 'FileByteSource' or n.get('f', '').startswith('std::make_unique')):
            return True
        return super().is_event(f, nid, n)

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls not in ('FileByteSource', 'FileChunksInfo') and f.name != 'smartNotify' and super().should_inline(k)

    def part_of(self, st, l):
        if l[0] == 'F' and l[2].endswith('::first') and self.is_elem(st, l, PREV):
            return '<name>'
        if l[0] == 'F' and l[2] == MD + 'relPath' and self.is_elem(st, l, SHARED):
            return '<discovered>'
        return None

    def txt(self, st, v, depth=6):
        if v and v != TOP and v[0] == 'fld':
            t = self.part_of(st, ('F', v[1], v[2]))
            if t is None and v[1][0] == 'cont':
                t = self.part_of(st, ('F', ('P', v[1][1]), v[2]))
            if t is not None:
                return t
        return super().txt(st, v, depth)

    def elem_start(self, en, st, f, nid, m):
        self.drop(st, lambda x: x[0] in ('added', 'hit', 'miss', 'queued', 'made', 'shared'))

    def elem_end(self, en, st, f, nid, m):
        w = f.loc(nid)
        if m == SHARED:
            if not self.has(st, ('added',)):
                self.report('overlooked', 'a discovered file is left out of what is compared with the receiver', st, w)
            return
        if not self.go_ahead:
            return
        if self.has(st, ('miss',)):
            if not self.has(st, ('queued',)):
                self.report('kept', 'an extra file at the receiver may not be deleted', st, w)
        elif not self.has(st, ('hit',)):
            self.report('unchecked', 'it is not determined whether a file of the receiver was discovered', st, w)
        if self.has(st, ('made',)):
            self.report('lost', 'a deletion is made but not queued', st, w)

    def loop_end(self, en, st, f, nid, m):
        self.add(st, ('over', m))
        self.drop(st, lambda x: x[0] in ('added', 'hit', 'miss', 'queued', 'made', 'shared'))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        w = f.loc(nid)
        if q == 'new':
            new = st.env[(fid, nid)]
            old = ('T', fid, n.get('e'))
            for l, v in list(st.store.items()):
                if l[0] == 'F' and l[1] == old:
                    st.store[('F', ('P', new), l[2])] = v
            return None
        if q == 'FileChunksInfo::getSeqId':
            return [(st, sym('pseq') if obj and self.is_elem(st, obj, PREV) else TOP)]
        if b == 'smartNotify':
            return [(st, TOP)]
        if n.get('repo'):
            return None
        if q.startswith('std::make_unique') and 'FileByteSource' in n.get('t', ''):
            return self.block(en, st, f, nid, args)
        if obj and obj[0] == 'F' and obj[2] == PREV and b == 'empty':
            return [(st, ZERO if self.listed else ONE)]
        if obj and obj[0] == 'F' and obj[2] == Q + 'sourceQueue_' and b in ('push', 'emplace'):
            if not self.has(st, ('made',)):
                self.report('other', 'something else than a deletion is queued', st, w)
            self.drop(st, lambda x: x == ('made',))
            self.add(st, ('queued',))
            return [(st, TOP)]
        if obj and obj[0] == 'F' and obj[2] == SHARED and b in ('push_back', 'emplace_back'):
            a = args[0]
            st.store[('G', 'kept')] = st.read(a[1]) if a != TOP and a[0] == 'addr' else a
            return [(st, TOP)]
        if 'std::' in q and ('set<' in q or 'map<' in q) and 'basic_string' in q and obj is not None and obj[0] in ('L', 'T'):
            t = self.txt(st, args[0]) if args else None
            if b in ('insert', 'emplace') or b == 'operator[]' and 'map<' in q:
                if t == '<discovered>':
                    self.add(st, ('added',))
                    self.count('compared')
                else:
                    self.report('name', 'what is compared with the files of the receiver is not the name of a discovered file', st, w)
                st.store[('G', 'names')] = obj
                return [(st, TOP)]
            if b in ('find', 'count', 'contains'):
                self.count('lookups')
                if t != '<name>':
                    self.report('lookup', 'a file of the receiver is not looked up under its name', st, w)
                if not self.has(st, ('over', SHARED)):
                    self.report('early', 'files of the receiver are looked up before all discovered files are known', st, w)
                x = st.copy()
                self.add(x, ('hit',))
                self.add(st, ('miss',))
                return [(x, sym('hit') if b == 'find' else ONE), (st, sym('end') if b == 'find' else ZERO)]
            if b in ('end', 'cend'):
                return [(st, sym('end'))]
        if b in ('operator==', 'operator!='):
            vs = []
            for v in ([('addr', obj)] if obj else []) + list(args):
                while v != TOP and v[0] == 'addr':
                    v = st.read(v[1])
                vs.append(v)
            if len(vs) == 2 and all(v in (sym('hit'), sym('end')) for v in vs):
                return [(st, ONE if (vs[0] == vs[1]) == (b == 'operator==') else ZERO)]
        r = self.string_call(st, q, b, n, obj, args)
        if r is None and obj is not None and is_str(n):
            r = self.string_method(st, b, n, obj, args)
        return r

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec') == 'FileByteSource' and len(args) == 3:
            return self.block(en, st, f, nid, args)
        return self.string_ctor(st, f, n, args)

    def block(self, en, st, f, nid, args):
        w = f.loc(nid)
        self.count('deletions')
        if not self.go_ahead:
            self.report('unwanted', 'files may be deleted at the receiver although %s' % self.why, st, w)
        elif self.phase(st, PREV) != 'elem' or not self.has(st, ('miss',)):
            self.report('existing', 'a file may be deleted at the receiver that was discovered at the source', st, w)
        elif self.has(st, ('queued',)) or self.has(st, ('made',)):
            self.report('twice', 'a deletion may be queued twice', st, w)
        args = [st.read(a[1]) if i and a != TOP and a[0] == 'addr' else a for i, a in enumerate(args)]
        m = args[0]
        m = ('P', st.read(m[1])) if m != TOP and m[0] == 'addr' and m[1][0] in ('L', 'T') else m[1] if m != TOP and m[0] == 'addr' else ('P', m)
        rd = lambda x: st.read(('F', m, MD + x))
        if self.txt(st, rd('relPath')) != '<name>':
            self.report('wrong name', 'the name of the file to be deleted is not the one that is missing at the source', st, w)
        if rd('seqId') != sym('pseq'):
            self.report('number', 'a deletion does not carry the number of its file', st, w)
        if rd('allocationStatus') != const(self.prog.enum('FileAllocationStatus')['TO_BE_DELETED']):
            self.report('state', 'what is queued for an extra file is not a deletion', st, w)
        if rd('size') != ZERO or args[1] != ZERO or args[2] != ZERO:
            self.report('size', 'a deletion is not announced as empty (the receiver rejects it)', st, w)
        if ('P', st.store.get(('G', 'kept'), TOP)) != m and 0:
            self.report('kept', 'the description of a deletion is not kept as long as the queue', st, w)
        self.add(st, ('made',))
        st.store[('G', 'count')] = ladd(st.store[('G', 'count')], ONE)
        return [(st, sym('block'))]

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        w = fn.loc()
        if not self.go_ahead:
            return
        if not self.has(st, ('over', PREV)) or not self.has(st, ('over', SHARED)):
            self.report('incomplete', 'files of the receiver are not looked at', st, w)
        for x in ('numEntries_', 'numBlocks_'):
            v = st.read(field(Q + x))
            if v == TOP or st.truth(cmp_('==', v, ladd(const(5), st.store[('G', 'count')]))) is not True:
                self.report(x, 'deletions are not counted with what is queued', st, w)


class Build(Rule):
    """when deletions are queued: after discovery, with its result"""
    K = 8
    lock_havoc = False
    opaque = frozenset({Q + 'enqueueFilesToBeDeleted', Q + 'explore', Q + 'enqueueFiles'})

    def init(self):
        return ()

    def part(self, st):
        return st.rs

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in self.opaque

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in (Q + 'explore', Q + 'enqueueFiles'):
            self.count('discovery')
            bad = st.copy()
            bad.rs = tuple(sorted(set(bad.rs) | {'failed', 'discovered'}))
            st.rs = tuple(sorted(set(st.rs) | {'discovered'}))
            return [(bad, ZERO), (st, ONE)]
        if q == Q + 'enqueueFilesToBeDeleted':
            self.count('deletions')
            w = f.loc(nid)
            if 'discovered' not in st.rs:
                self.report('early', 'deletions are queued before discovery', st, w)
            v = st.read(field(Q + 'initFinished_'))
            if v == TOP or st.truth(cmp_('!=', v, ZERO)) is not True and st.truth(cmp_('!=', ('bool', v), ZERO)) is not True:
                self.report('dropped', 'deletions are considered before discovery counts as finished: they are never queued', st, w)
            v = st.read(field(Q + 'discoveryFailed_'))
            t = None if v == TOP else st.truth(cmp_('!=', v, ZERO))
            if t is None and v != TOP:
                t = st.truth(cmp_('!=', ('bool', v), ZERO))
            if 'failed' in st.rs and t is not True:
                self.report('incomplete', 'files may be deleted at the receiver although discovery was not complete', st, w)
            if 'failed' not in st.rs and t is not False:
                self.report('none', 'extra files are not deleted although discovery was complete', st, w)
            st.rs = tuple(sorted(set(st.rs) | {'deletions'}))
            return [(st, TOP)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if 'discovered' in st.rs and 'deletions' not in st.rs:
            self.report('never', 'extra files are never looked for after discovery', st, fn.loc())


class Option(Rule):
    """the sender queues deletions only if asked to, and decides that before discovery starts"""
    K = 6
    lock_havoc = False
    SET = Q + 'enableFileDeletion'
    BUILD = (Q + 'buildQueueAsynchronously', Q + 'buildQueueSynchronously')
    opaque = frozenset((SET,) + BUILD)

    def init(self):
        return ()

    def part(self, st):
        return st.rs

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in self.opaque

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'F' and loc[2] in self.given and st.read(loc) != const(self.given[loc[2]]):
            st.write(loc, const(self.given[loc[2]]))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q.endswith('::getProtocolVersion'):
            return [(st, const(self.version))]
        if q == self.SET:
            self.count('set')
            if not self.want:
                self.report('unwanted', 'files at the receiver may be deleted although %s' % self.why, st, f.loc(nid))
            if 'built' in st.rs:
                self.report('late', 'whether extra files are deleted is decided while discovery runs', st, f.loc(nid))
            st.rs = tuple(sorted(set(st.rs) | {'set'}))
            return [(st, TOP)]
        if q in self.BUILD:
            self.count('builds')
            if self.want and 'set' not in st.rs:
                self.report('ignored', 'extra files are not deleted although it was asked for', st, f.loc(nid))
            st.rs = tuple(sorted(set(st.rs) | {'built'}))
            return [(st, TOP)]
        return None


class Command(Rule):
    """the receiver opens a file to be deleted only if deletions are allowed, and only an empty one"""
    K = 8
    lock_havoc = False
    opaque = frozenset({'FileWriter::open'})
    BD = ('G', 'bd')

    def init(self):
        return ()

    def part(self, st):
        bd = st.store.get(self.BD)
        if bd is None:
            return None
        b = to_loc(bd)
        rd = lambda x: st.read(('F', b, 'BlockDetails::' + x))
        s = rd('allocationStatus')
        if s != TOP and st.truth(cmp_('!=', s, const(self.prog.enum('FileAllocationStatus')['TO_BE_DELETED']))) is True:
            return 'other'
        return all(v != TOP and st.truth(cmp_('==', v, ZERO)) is True for v in (rd('fileSize'), rd('dataSize')))

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') == 'FileWriter::open'

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] != 'F':
            return
        if loc[2] == 'WdtOptions::delete_extra_files' and st.read(loc) != const(self.allowed):
            st.write(loc, const(self.allowed))
        if loc[2] == 'BlockDetails::allocationStatus':
            st.store[self.BD] = to_addr(loc[1])
        if loc[2] in ('BlockDetails::allocationStatus', 'BlockDetails::fileSize', 'BlockDetails::dataSize') and loc not in st.store:
            st.store[loc] = st.read(loc)              # keeps what is known about it

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') != 'FileWriter::open':
            return None
        self.count('opens')
        w = f.loc(nid)
        bd = st.store.get(self.BD)
        tbd = const(self.prog.enum('FileAllocationStatus')['TO_BE_DELETED'])
        if bd is None:
            self.report('unchecked', 'a file is opened without looking whether it is to be deleted', st, w)
            return [(st, TOP)]
        bd = to_loc(bd)
        rd = lambda x: st.read(('F', bd, 'BlockDetails::' + x))
        s = rd('allocationStatus')
        if s != TOP and st.truth(cmp_('!=', s, tbd)) is True:
            return [(st, TOP)]
        if not self.allowed:
            self.report('not allowed', 'a file may be deleted although the receiver was not told to delete extra files', st, w)
            return [(st, TOP)]
        for x in ('fileSize', 'dataSize'):
            v = rd(x)
            if v == TOP or st.truth(cmp_('==', v, ZERO)) is not True:
                self.report('not empty', 'a file may be deleted on a command that announces data for it', st, w)
        return [(st, TOP)]


class Unlink(Rule):
    """the file named by a deletion is deleted, nothing else is, and nothing is opened for it"""
    K = 8
    lock_havoc = False
    SYS = ('unlink', 'unlinkat', 'remove', 'rmdir', 'std::filesystem::remove', 'std::filesystem::remove_all')
    OPEN = ('open', 'open64', 'creat', 'fopen', 'openat', 'mkdir')

    def init(self):
        return ()

    def part(self, st):
        return st.rs

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in self.SYS + self.OPEN

    def should_inline(self, k):
        return self.prog.F[k].qn != 'FileCreator::getFullPath' and super().should_inline(k)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        w = f.loc(nid)
        if q == 'FileCreator::getFullPath':
            i = [j for j, p in enumerate(self.prog.fn(q).params) if 'string' in p['t']][0]
            v = args[i]
            good = v != TOP and (v == ('addr', ('F', self.block, 'BlockDetails::fileName')) or v[0] == 'fld' and v[2] == 'BlockDetails::fileName')
            return [(st, sym('path') if good else TOP)]
        if q.endswith('::c_str') and obj is not None:
            return [(st, st.read(obj))]
        if q in self.SYS:
            self.count('deletes')
            self.seen.add((f.key, nid))
            if not self.deleting:
                self.report('deleted', 'a file may be deleted that is not marked for deletion', st, w)
            elif args[0] == TOP or args[0] != sym('path') and not (args[0][0] == 'addr' and st.read(args[0][1]) == sym('path')):
                self.report('other', 'what is deleted is not the file named in the command', st, w)
            elif 'gone' in st.rs:
                self.report('twice', 'more than the named file may be deleted', st, w)
            st.rs = tuple(sorted(set(st.rs) | {'gone'}))
            return None
        if q in self.OPEN and not n.get('repo'):
            self.count('opens')
            if self.deleting:
                self.report('created', 'a file is created or opened that is to be deleted', st, w)
            return None
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.deleting and 'gone' not in st.rs:
            self.report('kept', 'the file is not deleted', st, fn.loc())


class Log(Rule):
    """the log forgets a deleted file"""
    K = 8
    lock_havoc = False
    opaque = frozenset({'TransferLogManager::addFileInvalidationEntry', 'TransferLogManager::addBlockWriteEntry'})

    def init(self):
        return ()

    def part(self, st):
        return st.rs

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in self.opaque

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        w = f.loc(nid)
        if q.endswith('::isLogBasedResumption'):
            return [(st, ONE)]
        if q in self.opaque:
            self.count('entries')
            gone = q.endswith('addFileInvalidationEntry')
            if gone != self.deleting:
                self.report('entry', 'a deleted file is recorded as received' if self.deleting else 'a received block is recorded as gone', st, w)
            v = args[0]
            if v == TOP or v[0] != 'fld' or v[2] != 'BlockDetails::seqId':
                self.report('number', 'an entry of the log carries another number', st, w)
            st.rs = st.rs + ('entry',)
            return [(st, TOP)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if len(st.rs) != 1:
            self.report('missing', 'the log is not told exactly once what happened to the block', st, fn.loc())


def run(P, c):
    status = P.enum('FileAllocationStatus')
    f = P.fn(Q + 'enqueueFilesToBeDeleted')

    def enq(x, case):
        asked, over, complete, listed = case
        r = Enq(P)
        r.go_ahead = all(case)
        r.listed = listed
        r.why = 'it was not asked for' if not asked else 'discovery is not over' if not over else \
            'discovery was not complete' if not complete else 'nothing is known of the receiver'

        def setup(st, fn, fid):
            for k, v in (('deleteFiles_', asked), ('initFinished_', over), ('discoveryFailed_', not complete)):
                st.store[field(Q + k)] = const(int(v))
            for k in ('numEntries_', 'numBlocks_'):
                st.store[field(Q + k)] = const(5)
            st.store[('G', 'count')] = ZERO
            st.store[('G', 'pseq')] = sym('pseq')
            st.store[('G', ('size', PREV))] = sym(('size', PREV))
            st.assume(cmp_('>' if listed else '==', sym(('size', PREV)), ZERO))
        x.explore(r, f.key, setup=setup)
        tag = 'queued deletions (%s): ' % ('all set' if r.go_ahead else r.why)
        x.absorb(r, tag)
        x.need(r.stats.get('exits', 0) >= 1, 'queued deletions: no exit')
        if r.go_ahead:
            for k in ('deletions', 'lookups', 'compared'):
                x.need(r.stats.get(k, 0) >= 1, 'queued deletions: %s: nothing to judge' % k)
                x.count(k, r.stats[k])
        x.oblige(tag + str(case), not r.viol)
    cases = [(a, b, d, e) for a in (1, 0) for b in (1, 0) for d in (1, 0) for e in (1, 0) if d or b]
    c.parallel(enq, cases)

    def explored(r, fn, tag, needs, setup=None, floor=1):
        c.explore(r, fn.key, setup=setup)
        c.absorb(r, tag)
        for k in needs:
            c.need(r.stats.get(k, 0) >= 1, '%s%s: nothing to judge' % (tag, k))
        c.oblige(tag, not r.viol)

    r = Build(P)
    explored(r, P.fn(Q + 'buildQueueSynchronously'), 'discovery: ', ('exits', 'discovery', 'deletions'))

    # the option at the sender
    f = P.fn('Sender::start')

    def option(x, case):
        dr, res, dele, ver = case
        r = Option(P)
        r.given = {'WdtTransferRequest::downloadResumptionEnabled': dr, 'WdtOptions::enable_download_resumption': res,
                   'WdtOptions::delete_extra_files': dele}
        r.version = ver
        r.want = (dr or res) and (dr or dele) and ver >= 26
        r.why = 'the receiver may not know the command' if ver < 26 else 'it was not asked for'
        x.explore(r, f.key)
        tag = 'asked for (resumption in the request %d, option %d, deletion %d, protocol %d): ' % case
        x.absorb(r, tag)
        x.need(r.stats.get('builds', 0) >= 1, 'asked for: nothing to judge')
        x.oblige(tag, not r.viol)
    c.parallel(option, [(a, b, d, v) for a in (0, 1) for b in (0, 1) for d in (0, 1) for v in (25, 26)])

    f = P.fn('ReceiverThread::processFileCmd')
    for allowed in (0, 1):
        r = Command(P)
        r.allowed = allowed
        explored(r, f, 'command (deletions %s): ' % ('allowed' if allowed else 'not allowed'), ('opens',))

    f = P.fn('FileCreator::openForBlocks')
    seen = set()
    for deleting in (True, False):
        r = Unlink(P)
        r.deleting, r.seen, r.block = deleting, seen, ('P', sym('block'))

        def setup(st, fn, fid):
            i = [j for j, p in enumerate(fn.params) if 'BlockDetails' in p['t']][0]
            st.store[('L', fid, fn.params[i]['d'])] = to_addr(r.block)
            v = sym('status')
            st.store[('F', r.block, 'BlockDetails::allocationStatus')] = v
            st.assume(cmp_('==' if deleting else '!=', v, const(status['TO_BE_DELETED'])))
        explored(r, f, 'opening a file (%s): ' % ('to be deleted' if deleting else 'to be written'),
                 ('exits', 'deletes') if deleting else ('exits', 'opens'), setup)

    # no other code deletes files
    sites = 0
    for g in P.F.values():
        for nid, n in g.nodes.items():
            if n['k'] == 'call' and n.get('f') in Unlink.SYS:
                sites += 1
                mine = (g.key, nid) in seen or g.cls == 'TransferLogManager'
                c.check(mine, 'other deletion: ' + g.qn, 'files are deleted outside the deletion of extra files and of the log', g.loc(nid))
    c.count('deleting calls', sites)
    c.need(sites >= 2, 'deleting system calls not found')

    f = P.fn('ReceiverThread::markBlockVerified')
    for deleting in (True, False):
        r = Log(P)
        r.deleting = deleting

        def setup(st, fn, fid):
            i = [j for j, p in enumerate(fn.params) if 'BlockDetails' in p['t']][0]
            b = ('P', sym('block'))
            st.store[('L', fid, fn.params[i]['d'])] = to_addr(b)
            v = sym('status')
            st.store[('F', b, 'BlockDetails::allocationStatus')] = v
            st.assume(cmp_('==' if deleting else '!=', v, const(status['TO_BE_DELETED'])))
        explored(r, f, 'record (%s): ' % ('deleted' if deleting else 'received'), ('exits', 'entries'), setup)
