"""Forks every socket operation of the sender and receiver threads into full, short/failed outcomes."""
from .engine import *

SOCK = ('IClientSocket', 'IServerSocket', 'ISocket')


class SockRule(Rule):
    """rs: frozenset of tags. ('bad', kind, where) is a failure that still has to show in the result."""
    lock_havoc = True
    affine = True
    K = 12
    decode = True

    def init(self):
        return frozenset()

    def has(self, st, *t):
        return tuple(t) in st.rs

    def add(self, st, *t):
        st.rs = st.rs | {tuple(t)}

    def drop(self, st, p):
        st.rs = frozenset(x for x in st.rs if not p(x))

    def bads(self, st):
        return [x for x in st.rs if x[0] == 'bad']

    def part(self, st):
        return tuple(sorted((str(k), st.truth(cmp_('==', v, ZERO))) for k, v in st.store.items()
                            if k[0] == 'G' and isinstance(k[1], tuple) and k[1][0] == 'err'))

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return n['k'] == 'call' and (q.split('::')[0] in SOCK or q.startswith('Protocol::decode') or
                                     q in ('TransferStats::setLocalErrorCode', 'TransferStats::getLocalErrorCode'))

    # -- error codes kept in TransferStats objects ----------------------
    def who(self, obj):
        if obj and obj[0] == 'F':
            return obj[2]
        return 'local'

    def err(self, st, who='WdtThread::threadStats_'):
        return st.store.get(('G', ('err', who)))

    def set_err(self, st, who, v):
        st.store[('G', ('err', who))] = v

    def fail(self, st, f, n, kind):
        self.add(st, 'bad', kind, f.qn)
        st.note('%s:%d %s FAILS' % (f.file, n.get('l', 0), kind))

    def pick(self, st, *kinds):
        self.drop(st, lambda x: x[0] == 'bad' and x[1] in kinds)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        cls, _, base = q.rpartition('::')
        if cls in SOCK:
            r = self.sock(en, st, f, fid, nid, n, obj, args, base)
            if r is not None:
                return r
        if cls == 'Protocol' and base.startswith('decode') and self.decode:
            self.count('decodes')
            en.havoc_args(st, f, fid, nid, n, args)
            bad = st.copy()
            self.fail(bad, f, n, base)
            return [(st, ONE), (bad, ZERO)]
        if q == 'TransferStats::setLocalErrorCode':
            self.set_err(st, self.who(obj), args[0])
            return [(st, ZERO)]
        if q in ('TransferStats::getLocalErrorCode',):
            v = self.err(st, self.who(obj))
            if v is None:
                v = en.fresh(st, fid, nid, 'err')
                self.set_err(st, self.who(obj), v)
            return [(st, v)]
        return self.other_call(en, st, f, fid, nid, n, obj, args)

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        return None

    def moved(self, en, st, f, nid, n, base, args, v):
        """after a complete transfer"""

    def sock(self, en, st, f, fid, nid, n, obj, args, base):
        if base in ('read', 'readWithTimeout', 'write'):
            self.count(base)
            self.sites.add((f.qn, nid))
            req = args[1]
            if base != 'write':
                en.havoc_args(st, f, fid, nid, n, args)
                b = args[0]
                if b != TOP:
                    c = ('X', to_loc(b), ZERO)
                    st.write(c, en.fresh(st, fid, nid, 'byte'))
            full = not (base == 'read' and len(args) > 2 and args[2] == ZERO)
            if req == TOP:
                req = en.fresh(st, fid, nid, 'req')
            out = []
            kind = 'write' if base == 'write' else 'read1' if req == ONE else 'read'
            eof = st.copy() if base != 'write' else None
            bad = st.copy()
            # complete
            if full:
                ok = True
                v = req
            else:
                v = en.fresh(st, fid, nid, 'n')
                ok = st.assume(cmp_('>', v, ZERO)) and st.assume(cmp_('<=', v, req))
            if ok:
                if kind == 'read1':
                    self.drop(st, lambda x: x[:2] == ('bad', 'read1') and x[2] == f.qn)
                self.moved(en, st, f, nid, n, base, args, v)
                out.append((st, v))
            w = en.fresh(bad, fid, nid, 'bad')
            if bad.assume(cmp_('<', w, req if full else ZERO)):
                if eof is not None and bad.assume(cmp_('!=', w, ZERO)):
                    pass
                self.fail(bad, f, n, kind)
                out.append((bad, w))
            if eof is not None and eof.assume(cmp_('<', ZERO, req)):
                self.fail(eof, f, n, 'eof')
                out.append((eof, ZERO))
            return out
        if base in ('expectEndOfStream', 'acceptNextConnection', 'connect', 'listen', 'getNonRetryableErrCode'):
            self.count(base)
            en.havoc_args(st, f, fid, nid, n, args)
            bad = st.copy()
            v = en.fresh(bad, fid, nid, 'code')
            bad.assume(cmp_('!=', v, ZERO))
            self.fail(bad, f, n, base)
            self.pick(st, base)
            return [(st, ZERO), (bad, v)]
        return None

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = set()
