"""Forks every I/O call into its success and failure outcomes."""
from .engine import *


def site(f, n):
    return '%s:%d' % (f.file, n.get('l', 0))


class IoRule(Rule):
    """rs: tuple of pending failures (call, where). A pending failure must be
    visible in the entry function's result when it returns."""
    # name -> kind
    CALLS = {
        'write': 'rw', 'pwrite': 'rw',
        'read': 'read', 'pread': 'read',
        'open': 'fd', 'socket': 'fd',
        'fsync': 'zero', 'fdatasync': 'zero', 'close': 'zero',
        'ftruncate': 'zero', 'fstat': 'zero', 'stat': 'zero', 'lstat': 'zero',
        'mkdir': 'zero', 'unlink': 'zero', 'rename': 'zero',
        'flock': 'zero',
        'posix_fallocate': 'errno', 'posix_fadvise': 'errno',
        'fallocate': 'zero', 'sync_file_range': 'zero',
        'lseek': 'off',
    }
    ignore = frozenset()          # calls whose failure need not be reported
    clears = {}                   # call -> calls whose failure it makes moot

    def init(self):
        return ()

    def is_event(self, fn, nid, n):
        return n.get('f') in self.CALLS and n['k'] == 'call'

    def pend(self, st, name, f, n):
        st.rs = tuple(sorted(set(st.rs) | {(name, f.qn)}))
        st.note('%s %s() FAILS' % (site(f, n), name))

    def unpend(self, st, name):
        c = set(self.clears.get(name, ())) | {name}
        st.rs = tuple(x for x in st.rs if x[0] not in c)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        name = n.get('f', '')
        kind = self.CALLS.get(name)
        if kind is None or n.get('repo'):
            return self.on_other(en, st, f, fid, nid, n, obj, args)
        if name == 'open' and n.get('o'):
            return None
        self.count('io_call_sites')
        self.sites.add((f.key, nid))
        en.havoc_args(st, f, fid, nid, n, args)
        outs = []
        bad = st.copy()
        good = st
        if name not in self.ignore:
            self.pend(bad, name, f, n)
        self.unpend(good, name)
        if kind == 'rw':
            req = args[2] if len(args) > 2 else TOP
            if req != TOP:
                if not bad.assume(cmp_('>=', req, ZERO)):
                    bad = None
                outs.append((good, req))
                short = st.copy()
                self.pend(short, name, f, n)
                s = en.fresh(short, fid, nid, 'short')
                ok = short.assume(cmp_('>=', s, ZERO)) and short.assume(cmp_('<', s, req))
                if ok:
                    outs.append((short, s))
            else:
                outs.append((good, en.fresh(good, fid, nid, 'ret')))
            if bad is not None:
                outs.append((bad, const(-1)))
        elif kind == 'read':
            s = en.fresh(good, fid, nid, 'nread')
            good.assume(cmp_('>', s, ZERO))
            if len(args) > 2 and args[2] != TOP:
                good.assume(cmp_('<=', s, args[2]))
            eof = good.copy()
            eof.facts = bad.facts
            self.on_eof(eof, name, f, n)
            outs = [(good, s), (eof, ZERO), (bad, const(-1))]
        elif kind == 'fd':
            s = en.fresh(good, fid, nid, 'fd')
            good.assume(cmp_('>=', s, ZERO))
            outs = [(good, s), (bad, const(-1))]
        elif kind == 'errno':
            s = en.fresh(bad, fid, nid, 'err')
            bad.assume(cmp_('>', s, ZERO))
            outs = [(good, ZERO), (bad, s)]
        elif kind == 'off':
            s = en.fresh(good, fid, nid, 'off')
            good.assume(cmp_('>=', s, ZERO))
            outs = [(good, s), (bad, const(-1))]
        else:
            outs = [(good, ZERO), (bad, const(-1))]
        return outs

    def on_other(self, en, st, f, fid, nid, n, obj, args):
        return None

    def on_eof(self, st, name, f, n):
        pass

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = set()
