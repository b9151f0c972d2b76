"""C06: a failed or short disk I/O call is never reported as success."""
from wdtsa.engine import *
from wdtsa.iorule import IoRule, site

EXPLAIN = ('Every I/O system call reachable from the disk-facing entry points is '
           'forked into its success, short and failure outcome; on every path of '
           'the interprocedural control flow graph a pending failure must be '
           'visible in the entry point\'s result when it returns.')
RULE = ('typestate: pending failure set by the failing outcome of a call, cleared '
        'only by a later success of the same call (retry); an exit with a pending '
        'failure must return the failure value of the entry point')
ASSUME = ['errno is not modelled: both outcomes of every errno test are followed',
          'C++ exceptions thrown by the standard library are not modelled']


class Io(IoRule):
    ignore = frozenset({'close', 'stat', 'lstat', 'unlink', 'rename'})
    clears = {'open': ('mkdir', 'FileCreator::createDirRecursively')}
    entry = None
    ok = None
    recursive = frozenset({'FileCreator::createDirRecursively'})

    def is_event(self, fn, nid, n):
        return n['k'] == 'call' and n.get('f') in self.CALLS

    def on_other(self, en, st, f, fid, nid, n, obj, args):
        # a recursive call: its own failure result counts like a failed call
        if n.get('fk') in self.prog.F and any(fr[0] == n['fk'] for fr in st.stack):
            if n.get('t') == 'bool':
                bad = st.copy()
                self.pend(bad, n['f'], f, n)
                return [(st, ONE), (bad, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if not st.rs:
            return
        if not self.failing(en, st, fn, ret):
            for name, where in st.rs:
                self.report('%s: %s in %s' % (fn.qn, name, where),
                            '%s can report success although %s() in %s failed' %
                            (fn.qn, name, where), st, fn.loc())

    def failing(self, en, st, fn, ret):
        if ret is None or ret == TOP:
            return False
        kind = self.ok
        if kind == 'code':
            return st.truth(cmp_('==', ret, ZERO)) is False
        if kind == 'bool':
            return st.truth(en.boolean(st, ret)) is False
        if kind == 'fd':
            return st.truth(cmp_('<', ret, ZERO)) is True
        if kind == 'null':
            return st.truth(en.boolean(st, ret)) is False
        raise Broken('bad kind')


ENTRIES = [
    # entry point, failure convention, ignored calls
    ('FileWriter::open', 'code', ()),
    ('FileWriter::write', 'code', ()),
    ('FileWriter::sync', 'code', ()),
    ('FileWriter::close', 'code', ('-close',)),
    ('FileCreator::openForBlocks', 'fd', ()),
    ('FileByteSource::open', 'code', ('posix_fadvise',)),
    ('TransferLogManager::openLog', 'code', ()),
    ('TransferLogManager::writeEntriesToDiskNoLock', 'bool', ()),
    ('LogParser::writeFileInvalidationEntries', 'bool', ()),
    ('LogParser::truncateExtraBytesAtEnd', 'bool', ()),
]


class Source(Io):
    """FileByteSource::read: result null, and the error recorded"""
    ok = 'null'

    def on_exit(self, en, st, fn, ret):
        super().on_exit(en, st, fn, ret)
        if any(x[0] in ('pread', 'read') for x in st.rs) and st.store.get(('G', 'errset')) != ONE:
            self.report('FileByteSource::read: error not recorded',
                        'a failed read leaves the source without an error code', st, fn.loc())

    def on_other(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') == 'TransferStats::setLocalErrorCode' and args:
            if st.truth(cmp_('==', args[0], ZERO)) is False:
                st.store[('G', 'errset')] = ONE
            else:
                st.store.pop(('G', 'errset'), None)
        return None

    def on_eof(self, st, name, f, n):
        # unexpected end of file: must yield no data
        st.rs = tuple(sorted(set(st.rs) | {('eof', f.qn)}))


def run(P, c):
    sites = set()
    for qn, kind, ign in ENTRIES:
        r = Io(P)
        r.ok = kind
        r.ignore = frozenset((r.ignore | {i for i in ign if i[0] != '-'}) - {i[1:] for i in ign if i[0] == '-'})
        c.explore(r, P.fn(qn).key)
        c.need(r.stats.get('exits'), 'no exit of %s reached' % qn)
        sites |= r.sites
        c.oblige('%s never hides a failed I/O call' % qn, not r.viol)
        c.absorb(r)
    r = Source(P)
    r.ignore = frozenset(r.ignore | {'posix_fadvise'})

    def block(st, fn, fid):
        # the start of a block and the position in it are not negative
        for x in ('offset_', 'bytesRead_'):
            v = ('sym', x)
            st.store[('F', ('P', THIS), 'FileByteSource::' + x)] = v
            st.store[('G', x)] = v
            st.assume(cmp_('>=', v, ZERO))
            st.assume(cmp_('<', v, const(1 << 62)))
    c.explore(r, P.fn('FileByteSource::read').key, setup=block)
    c.oblige('FileByteSource::read never hides a failed read', not r.viol)
    c.absorb(r)
    sites |= r.sites
    c.floor('io_call_sites', len(sites), 15)
    for k, nid in sorted(sites):
        f = P.F[k]
        c.sample('%s() at %s' % (f.nodes[nid]['f'], f.loc(nid)))
