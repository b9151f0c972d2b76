"""C24: a transfer request survives being written as a URL."""
from wdtsa.foreach import ForEach
from wdtsa.engine import *
from wdtsa.program import Broken

EXPLAIN = ('The function that writes a request as a URL and the constructor that reads one are explored for every field: the parameter a '
           'field is written under must be the one it is read from, holding the whole field on every path. The escaping of text is decided '
           'by constant propagation through one round of each loop for all 256 byte values and all pairs of digits, the port list by the '
           'relation between neighbouring ports, the assembly and the splitting of the URL as string concatenations, and the handlers of '
           'malformed values by exploring each of them to the end of the parse.')
RULE = 'inverse pairing of written and read parameters; constant propagation per byte; error typestate of the parser'
ASSUME = ['number-to-text conversions of the library are inverse to each other',
          'the host name is not escaped and is taken to contain none of the characters that end it in a URL',
          'port numbers are positive; the directory and the list of files are not part of the URL given to the other side']

W, U = 'WdtTransferRequest::', 'WdtUri::'
WIDE = ('long', 'long long')
STRINGS = ('transferId', 'wdtNamespace', 'destIdentifier')
NUMBERS = ('protocolVersion', 'ivChangeInterval')
FLAGS = ('downloadResumptionEnabled', 'tls')
ENC = 'encryptionData'
PORTS = W + 'ports'
SPECIAL = set(map(ord, '&=?%#'))


def me(q):
    return ('F', ('P', THIS), q)


def loc_of(a):
    return to_loc(a) if a != TOP and a[0] == 'addr' else None


def is_range(n):
    return n.get('f', '').startswith('folly::Range<') or n.get('rec', '').split('<')[0] in ('folly::Range',)


def is_string(n):
    return n.get('f', '').startswith('std::basic_string<') or n.get('rec', '').split('<')[0] == 'std::basic_string'


def key_text(P, loc):
    """the text of a constant string"""
    g = P.globals.get(loc[1]) if loc and loc[0] == 'G' and isinstance(loc[1], str) else None
    if not g:
        return None
    for n in g.get('nodes', {}).values():
        if n.get('k') == 'str':
            return n.get('v', n.get('s'))
    return None


def more_interesting(st, a, b):
    """getMoreInterestingError: OK only if both are"""
    if TOP in (a, b):
        return None
    out = []
    for za in (True, False):
        for zb in (True, False):
            x = st.copy()
            ok = True
            for v, z in ((a, za), (b, zb)):
                t = x.truth(cmp_('==', v, ZERO))
                ok = ok and t in (None, z) and x.assume(cmp_('==' if z else '>', v, ZERO))
            if ok:
                x.store[('G', 'anyerr')] = ('sym', 'anyerr')
                x.assume(cmp_('>', ('sym', 'anyerr'), ZERO))
                out.append((x, ZERO if za and zb else ('sym', 'anyerr')))
    return out


class Text(Rule):
    """strings are copied as values; conversions are named after what they convert"""
    K = 10
    lock_havoc = False
    maxsteps = 400000

    def init(self):
        return frozenset()

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f', '').startswith((U, W))

    def add(self, st, x):
        st.rs = st.rs | {x}

    def val_of(self, en, st, f, a, e):
        l = loc_of(a)
        if l is not None:
            return st.read(l)
        return en.rv(st, f, a, e)

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] in ('std::basic_string', 'folly::Range') and args:
            a = args[0]
            real = [x for x, e in zip(args, n['a']) if not (f.nodes.get(e, {}).get('t') or '').startswith('std::allocator')]
            if len(real) == 1:
                v = self.val_of(en, st, f, a, n['a'][0])
                if v != TOP and a[0] != 'str':
                    return [(st, v)]
        return None

    def convert(self, en, st, f, n, args):
        q = n.get('f', '')
        if q in ('folly::to', 'std::to_string', 'folly::tryTo') and len(args) == 1:
            v = self.val_of(en, st, f, args[0], n['a'][0])
            if v != TOP and v[0] == 'uns':
                v = v[1]
            t = n.get('t', '')
            if v != TOP:
                return [(st, ('bool', ('sym', ('to', v))) if t == 'bool' else ('sym', ('to', v)) if t in WIDE or 'string' in t else ('sym', ('to', v, t)))]
        return None

    def assign(self, en, st, f, nid, n, obj, args):
        q = n.get('f', '')
        if obj and q.rsplit('::', 1)[-1] in ('operator=', 'assign') and (is_string(n) or is_range(n)) and len(args) == 1 and args[0] != TOP and args[0][0] != 'str':
            v = self.val_of(en, st, f, args[0], n['a'][0])
            self.on_write(en, st, f, nid, n, obj, v)
            st.write(obj, v)
            return [(st, to_addr(obj))]
        return None


def unw(v):
    while v != TOP and v[0] in ('bool', 'uns'):
        v = v[1]
    return v


# -- the request is written ------------------------------------------------
class Writer(ForEach, Text):
    K = 12
    over = (PORTS,)
    affine = True
    FIRST, CUR, PREV = ('sym', 'port0'), ('sym', 'port'), ('sym', 'port-1')
    SIZE = ('sym', ('size', PORTS))
    IDX = ('uns', ('sym', 'idx'))

    def __init__(self, P, field):
        super().__init__(P)
        self.field = field
        self.keys = {}

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'WdtTransferRequest'

    def is_event(self, f, nid, n):
        return Text.is_event(self, f, nid, n) or ForEach.is_event(self, f, nid, n)

    def part(self, st):
        x = cmp_('!=', ('bool', ('fld', ('cont', THIS), W + self.field)), ZERO) if self.field in FLAGS else cmp_('==', ('sym', 'encset'), ZERO)
        return (st.truth(x), st.truth(cmp_('==', st.read(me(W + 'errorCode')), ZERO)), st.truth(cmp_('==', self.SIZE, ZERO)),
                ('gap',) in st.rs, ('prev',) in st.rs, ('cur',) in st.rs)

    def flag(self, v):
        return cmp_('!=', ('bool', v), ZERO)

    def turn(self, st):
        """the port looked at becomes the one before the next"""
        if not any(x == ('cur',) for x in st.rs):
            return
        st.rs = frozenset(x for x in st.rs if x not in (('cur',), ('prev',)))
        for k, v in list(st.store.items()):          # what was decided about this port stays decided
            if v != TOP and v[0] in ('cmp', 'not'):
                t = st.truth(v)
                if t is not None:
                    st.store[k] = ONE if t else ZERO
        self.forget(st, self.PREV)
        ren = {self.CUR: self.PREV}
        for k, v in list(st.store.items()):
            if v == self.CUR:
                st.store[k] = self.PREV
        self.forget(st, self.CUR)
        self.add(st, ('prev',))

    def forget(self, st, s):
        for k, v in list(st.store.items()):
            if v != s and s in syms_in(v):
                st.store[k] = TOP
        st.facts = {k: v for k, v in st.facts.items() if not any(s in syms_in(t) for t, _ in k)}

    def on_branch(self, en, st, f, b, cond, took):
        ats = set()
        atoms_of(cond, ats)
        r = super().on_branch(en, st, f, b, cond, took)
        t = f.blocks[b].get('t') or {}
        if r and t.get('k') == 'BinaryOperator' and self.SIZE in ats and st.store.get(('G', 'idx'), TOP) != TOP:
            # the bound is one of several conditions of the loop
            i = self.other_side(cond, self.SIZE)
            if i is not None and st.truth(cmp_('==', i, ladd(st.store[('G', 'idx')], ONE))) is True:
                end = st.truth(cmp_('>=', i, self.SIZE)) is True
                self.add(st, ('idx', PORTS, tuple(sorted(self.locals_in(f, t.get('c'))))))
                (self.loop_end if end else self.elem_end)(en, st, f, t.get('c'), PORTS)
                self.go(st, PORTS, 'end' if end else 'next')
        if r and self.SIZE in ats and self.phase(st, PORTS) in ('next', 'end'):
            # one name for the index of the next port
            fid = st.stack[-1][1]
            g = st.store.get(('G', 'idx'), TOP)
            for x in sorted(st.rs, key=str):
                for d in x[2] if x[0] == 'idx' and g != TOP else ():
                    v = st.read(('L', fid, d))
                    if v == TOP or v == self.IDX or st.truth(cmp_('==', v, ladd(g, ONE))) is not True:
                        continue
                    end = st.truth(cmp_('>=', v, self.SIZE))
                    self.forget(st, self.IDX[1])
                    st.write(('L', fid, d), self.IDX)
                    st.store[('G', 'idx')] = ladd(self.IDX, ONE, -1)
                    st.assume(cmp_('>=', self.IDX, const(2)))
                    if end is not None:
                        st.assume(cmp_('>=' if end else '<', self.IDX, self.SIZE))
        return r

    def elem_end(self, en, st, f, nid, m):
        self.turn(st)

    def loop_end(self, en, st, f, nid, m):
        self.turn(st)
        self.add(st, ('all',))
        i = st.store.get(('G', 'idx'), TOP)
        if any(x == ('prev',) for x in st.rs) and (i == TOP or st.truth(cmp_('>=', ladd(i, ONE), self.SIZE)) is not True):
            self.add(st, ('gap',))
        elif not any(x == ('prev',) for x in st.rs) and st.truth(cmp_('<=', self.SIZE, ONE)) is not True:
            self.add(st, ('gap',))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = n.get('f', '').rsplit('::', 1)[-1]
        if obj == me(PORTS):
            if b in ('size', 'length'):
                st.store[('G', 'psize')] = self.SIZE
                st.assume(cmp_('>=', self.SIZE, ZERO))
                return [(st, self.SIZE)]
            if b == 'empty':
                st.store[('G', 'psize')] = self.SIZE
                st.assume(cmp_('>=', self.SIZE, ZERO))
                return [(st, cmp_('==', self.SIZE, ZERO))]
            if b in ('operator[]', 'at', 'front'):
                i = en.rv(st, f, args[0], n['a'][0]) if args else ZERO
                if i == ZERO:
                    st.store[('G', 'p0')] = self.FIRST
                    return [(st, ('addr', ('G', 'p0')))]
                was = st.store.get(('G', 'idx'), TOP)
                cur = any(x == ('cur',) for x in st.rs)
                if cur and was != TOP and st.truth(cmp_('==', i, was)) is True:
                    return [(st, ('addr', ('G', 'pi')))]
                if cur and was != TOP and st.truth(cmp_('==', i, ladd(was, ONE, -1))) is True:
                    prev = self.PREV if any(x == ('prev',) for x in st.rs) else self.FIRST
                    st.store[('G', 'pp')] = prev
                    return [(st, ('addr', ('G', 'pp')))]
                if not cur and was != TOP and st.truth(cmp_('==', i, was)) is True:
                    st.store[('G', 'pp')] = self.PREV
                    return [(st, ('addr', ('G', 'pp')))]
                if not cur:
                    if was == TOP:
                        good = st.truth(cmp_('==', i, ONE)) is True
                        if not good:             # ports[i - 1] is read first
                            good = False
                    else:
                        good = st.truth(cmp_('==', i, ladd(was, ONE))) is True
                    if not good:
                        self.add(st, ('gap',))
                    st.store[('G', 'idx')] = i
                    self.add(st, ('cur',))
                    self.go(st, PORTS, 'elem')
                    st.store[('G', 'pi')] = self.CUR
                    if not good:
                        return [(st, ('addr', ('G', 'pi')))]
                    prev = self.PREV if any(x == ('prev',) for x in st.rs) else self.FIRST
                    whole = not any(x == ('gap',) for x in st.rs)
                    out = []
                    for s, op in ((st, '=='), (st.copy(), '<'), (st.copy(), '>')):
                        if s.assume(cmp_(op, self.CUR, ladd(prev, ONE))):
                            if whole:
                                s.assume(cmp_(op, self.CUR, ladd(self.FIRST, i)))
                            if op != '==':
                                self.add(s, ('gap',))
                            out.append((s, ('addr', ('G', 'pi'))))
                    return out
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        r = self.convert(en, st, f, n, args) or self.assign(en, st, f, nid, n, obj, args)
        if r:
            return r
        if q == U + 'setHostName' and args:
            self.add(st, ('host', self.val_of(en, st, f, args[0], n['a'][0]) == ('fld', ('cont', THIS), W + 'hostName')))
            return [(st, ZERO)]
        if q == U + 'setPort':
            v = en.rv(st, f, args[0], n['a'][0])
            self.count('parameters')
            if v != self.FIRST:
                self.report('port: not the first', 'the port put into the URL is not the first of the ports', st, f.loc(nid))
            one = st.truth(cmp_('<=', self.SIZE, ONE)) is True
            if not one and (any(x == ('gap',) for x in st.rs) or not any(x == ('all',) for x in st.rs)):
                self.report('port: holes', 'ports are written as first port and count although they were not all found to follow each other', st, f.loc(nid))
            self.add(st, ('port',))
            return [(st, ZERO)]
        if q == U + 'setQueryParam' and len(args) == 2:
            self.count('parameters')
            k = key_text(self.prog, loc_of(args[0])) or (args[0][1] if args[0] != TOP and args[0][0] == 'str' else None)
            if k is None:
                v = self.val_of(en, st, f, args[0], n['a'][0])
                k = v[1] if v != TOP and v[0] == 'str' else None
            v = self.val_of(en, st, f, args[1], n['a'][1])
            st.rs = frozenset(x for x in st.rs if x[:2] != ('par', k))
            self.add(st, ('par', k, self.source(v)))
            return [(st, ZERO)]
        if q == U + 'generateUrl':
            self.finished(en, st, f, nid)
            return [(st, ('sym', 'URL'))]
        if q == 'EncryptionParams::isSet':
            st.store[('G', 'encset')] = ('sym', 'encset')
            return [(st, cmp_('!=', ('bool', ('sym', 'encset')), ZERO))]
        if q in ('EncryptionParams::getUrlSafeString', 'EncryptionParams::getLogSafeString') and obj == me(W + ENC):
            return [(st, ('sym', (q.rsplit('::', 1)[-1],)))]
        if q == W + 'getSerializedPortsList':
            return [(st, ('sym', ('portlist',)))]
        return None

    def source(self, v):
        v = unw(v)
        if v == TOP:
            return None
        if v[0] == 'fld' and v[1] == ('cont', THIS):
            return ('raw', v[2][len(W):])
        if v[0] == 'sym' and isinstance(v[1], tuple):
            if v[1][0] == 'to':
                x = unw(v[1][1])
                if x != TOP and x[0] == 'fld' and x[1] == ('cont', THIS):
                    return ('text', x[2][len(W):])
                if x == self.SIZE:
                    return ('count',)
                if x == self.FIRST:
                    return ('firstport',)
            if v[1][0] in ('getUrlSafeString', 'getLogSafeString', 'portlist'):
                return v[1]
        return ('other', str(v)[:40])

    def finished(self, en, st, f, nid):
        self.count('requests')
        fl = self.field
        par = {x[2]: x[1] for x in st.rs if x[0] == 'par'}
        where = f.loc(nid)

        def want(src):
            k = par.get(src)
            if k is None:
                self.report('%s: not written' % fl, 'the URL is built on a path on which it does not carry %s' % fl, st, where)
            else:
                self.keys.setdefault(fl, set()).add(k)
        if fl in STRINGS:
            want(('raw', fl))
        elif fl in NUMBERS:
            want(('text', fl))
        elif fl in FLAGS:
            if ('text', fl) in par:
                self.keys.setdefault(fl, set()).add(par[('text', fl)])
            elif st.truth(cmp_('!=', ('bool', ('fld', ('cont', THIS), W + fl)), ZERO)) is not False:
                want(('text', fl))
        elif fl == ENC:
            if st.truth(cmp_('!=', ('bool', ('sym', 'encset')), ZERO)) is not False:
                want(('getUrlSafeString',))
        elif fl == 'hostName':
            if ('host', True) not in st.rs:
                self.report('host: not written', 'the URL is built without the host name of the request', st, where)
        elif fl == 'ports':
            if ('portlist',) in par:
                self.keys.setdefault('list', set()).add(par[('portlist',)])
            elif any(x == ('port',) for x in st.rs):
                if ('count',) not in par:
                    self.report('ports: no count', 'the URL has the first port but not how many there are', st, where)
                else:
                    self.keys.setdefault('count', set()).add(par[('count',)])
            elif ('firstport',) in par and ('count',) in par:
                self.keys.setdefault('first', set()).add(par[('firstport',)])
                self.keys.setdefault('count', set()).add(par[('count',)])
            elif st.truth(cmp_('==', self.SIZE, ZERO)) is not True:
                self.report('ports: not written', 'the URL is built without the ports although there are some', st, where)

    def on_exit(self, en, st, fn, ret):
        if ret != ('sym', 'URL') and st.truth(cmp_('==', ('fld', ('cont', THIS), W + 'errorCode'), ZERO)) is True:
            self.report('url: not returned', 'a valid request is not turned into the URL that was built', st, fn.qn)


def syms_in(v):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'sym':
                out.add(x)
            for y in x:
                go(y)
    go(v)
    return out


class PortList(ForEach, Text):
    """the list of ports as text"""
    over = (PORTS,)
    K = 8
    SIZE = ('sym', ('size', PORTS))
    PORT = ('sym', 'port')

    def should_inline(self, k):
        return self.prog.F[k].cls == 'WdtTransferRequest'

    def is_event(self, f, nid, n):
        return True

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def elem_start(self, en, st, f, nid, m):
        self.begin(st)

    def begin(self, st):
        self.drop(st, lambda x: x == ('done',))
        self.add(st, ('open',))

    def elem_end(self, en, st, f, nid, m):
        if not self.has(st, ('done',)) and self.has(st, ('open',)):
            self.report('ports: one left out', 'the list of ports moves on from a port without having written it', st, f.loc(nid))
        if self.has(st, ('done',)):
            self.add(st, ('some',))
        self.drop(st, lambda x: x in (('done',), ('open',), ('comma',)))

    def loop_end(self, en, st, f, nid, m):
        self.add(st, ('all',))
        fid = st.stack[-1][1]
        ix = [st.read(('L', fid, d)) for x in st.rs if x[0] == 'idx' for d in x[2]]
        if ix and not any(v != TOP and st.truth(cmp_('>=', v, self.SIZE)) is True for v in ix):
            self.report('ports: loop left', 'the list of ports ends before the last port', st, f.loc(nid))

    def on_branch(self, en, st, f, b, cond, took):
        r = super().on_branch(en, st, f, b, cond, took)
        ats = set()
        atoms_of(cond, ats)
        if r and self.has(st, ('some',)) and self.phase(st, PORTS) == 'next' and self.SIZE in ats:
            # the index is past the first port
            fid = st.stack[-1][1]
            for x in st.rs:
                for d in x[2] if x[0] == 'idx' else ():
                    if st.truth(cmp_('==', st.read(('L', fid, d)), ZERO)) is not True:
                        st.write(('L', fid, d), ('uns', ('sym', 'idx')))
                        st.assume(cmp_('>=', ('uns', ('sym', 'idx')), ONE))
        return r

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        r = self.convert(en, st, f, n, args) or self.assign(en, st, f, nid, n, obj, args)
        if r:
            return r
        if b == 'empty' and is_string(n) and obj and obj[0] == 'L':
            return [(st, ZERO if self.has(st, ('some',)) or self.has(st, ('done',)) else ONE)]
        if b in ('toAppend', 'push_back', 'append', 'operator+=') and args:
            parts = args[:-1] if b == 'toAppend' else args[:1]
            for a in parts:
                v = unw(self.val_of(en, st, f, a, n['a'][0]) if a != TOP and a[0] == 'addr' else a)
                if v in (('str', ','), const(44)):
                    if self.has(st, ('comma',)) or not self.has(st, ('some',)):
                        self.report('ports: comma', 'a comma is written that does not separate two ports', st, f.loc(nid))
                    self.add(st, ('comma',))
                elif v in (self.PORT, ('sym', ('to', self.PORT))) or (a != TOP and a[0] == 'addr' and self.is_elem(st, a, PORTS)) or self.elemval(st, v):
                    if self.has(st, ('some',)) and not self.has(st, ('comma',)):
                        self.report('ports: no comma', 'two ports are written without a comma between them', st, f.loc(nid))
                    if self.has(st, ('done',)):
                        self.report('ports: twice', 'a port is written twice', st, f.loc(nid))
                    self.count('ports_written')
                    self.add(st, ('done',))
                else:
                    self.report('ports: other text', 'something other than a port or a comma is written into the list of ports', st, f.loc(nid))
            return [(st, ZERO)]
        return None

    def elemval(self, st, v):
        if v != TOP and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'to':
            v = unw(v[1][1])
        return v != TOP and v[0] == 'cont' and self.is_elem(st, ('addr', ('P', v[1])), PORTS)

    def on_exit(self, en, st, fn, ret):
        if not self.has(st, ('all',)):
            self.report('ports: loop left', 'the list of ports ends before the last port', st, fn.qn)


# -- the request is read -----------------------------------------------------
class Reader(Text):
    """the constructor that reads a URL, judged for one field"""
    K = 10
    over = ()

    def __init__(self, P, field, keys):
        super().__init__(P)
        self.field = field
        self.keys = keys

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'WdtTransferRequest' and f.name != 'genPortsVector'

    def length(self, k):
        return ('sym', ('len', k))

    def part(self, st):
        out = [st.truth(cmp_('==', self.length(k), ZERO)) for k in sorted(self.keys)]
        e = st.store.get(me(W + 'errorCode'), TOP)
        out.append(None if e == TOP else st.truth(cmp_('==', e, ZERO)))
        out.append(st.truth(cmp_('==', ('sym', 'unser'), ZERO)))
        out.append(st.truth(cmp_('==', ('sym', 'urierr'), ZERO)))
        return tuple(out) + tuple(sorted(map(str, st.rs)))

    def key_in(self, v):
        v = unw(v)
        while v != TOP and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'to':
            v = unw(v[1][1])
        if v != TOP and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'value':
            return v[1][1]
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        if q == U + 'getQueryParam' and args:
            self.count('parameters_read')
            k = key_text(self.prog, loc_of(args[0]))
            if k is None:
                v = self.val_of(en, st, f, args[0], n['a'][0])
                k = v[1] if v != TOP and v[0] == 'str' else None
            return [(st, ('sym', ('value', k)))]
        if q == U + 'getErrorCode':
            st.store[('G', 'urierr')] = ('sym', 'urierr')
            st.assume(cmp_('>=', ('sym', 'urierr'), ZERO))
            return [(st, ('sym', 'urierr'))]
        if q == U + 'getHostName':
            return [(st, ('sym', ('value', '<host>')))]
        if q == U + 'getPort':
            st.store[('G', 'urlport')] = ('sym', ('to', ('sym', ('value', '<port>'))))
            return [(st, ('sym', ('to', ('sym', ('value', '<port>')))))]
        if q == 'EncryptionParams::unserialize' and len(args) == 2:
            v = self.val_of(en, st, f, args[0], n['a'][0])
            if loc_of(args[1]) == me(W + ENC):
                st.rs = frozenset(x for x in st.rs if x[0] != 'enc')
                self.add(st, ('enc', self.key_in(v)))
            st.store[('G', 'unser')] = ('sym', 'unser')
            st.assume(cmp_('>=', ('sym', 'unser'), ZERO))
            return [(st, ('sym', 'unser'))]
        if q == 'getMoreInterestingError' and len(args) == 2:
            return more_interesting(st, *[en.rv(st, f, x, y) for x, y in zip(args, n['a'])])
        r = self.convert(en, st, f, n, args) or self.assign(en, st, f, nid, n, obj, args)
        if r:
            return r
        if b in ('empty', 'size', 'length') and obj is not None:
            v = st.read(obj)
            k = self.key_in(v)
            if k is not None and (is_string(n) or is_range(n)):
                z = self.length(k)
                st.store[('G', ('len', k))] = z
                st.assume(cmp_('>=', z, ZERO))
                return [(st, cmp_('==', z, ZERO) if b == 'empty' else z)]
        if q == W + 'genPortsVector' and len(args) == 2:
            self.count('ports_generated')
            vs = [en.rv(st, f, x, y) for x, y in zip(args, n['a'])]
            self.add(st, ('gen',) + tuple(self.key_in(v) for v in vs))
            return [(st, ('sym', ('gen',)))]
        if b == 'operator=' and obj == me(PORTS):
            st.write(obj, ('sym', ('gen',)))
            return [(st, to_addr(obj))]
        if is_range(n) and b == 'split_step' and obj is not None:
            k = self.key_in(st.read(obj))
            sep = args[0]
            return [(st, ('sym', ('value', ('piece', k, sep))) if k else TOP)]
        if b in ('push_back', 'emplace_back') and obj == me(PORTS):
            v = unw(self.val_of(en, st, f, args[0], n['a'][0]))
            k = self.key_in(v)
            self.count('ports_read')
            if not (isinstance(k, tuple) and k[0] == 'piece' and k[2] == const(44)):
                self.report('ports: pushed', 'a port is taken from something other than a piece of the port list', st, f.loc(nid))
            elif self.field == 'list' and k[1] not in self.keys:
                self.report('ports: list', 'the list of ports is read from the parameter "%s" but written as %s' % (k[1], sorted(self.keys)), st, f.loc(nid))
            self.add(st, ('listed',))
            return [(st, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('requests_read')
        fl = self.field
        e = st.store.get(me(W + 'errorCode'), TOP)
        ok = e != TOP and st.truth(cmp_('==', e, ZERO)) is not False
        if not ok and e != TOP:
            return
        if fl == 'errors':
            if st.truth(cmp_('==', ('sym', 'urierr'), ZERO)) is not True:
                self.report('error: url', 'a URL that could not be parsed can leave the request without an error', st, fn.qn)
            u = st.store.get(('G', 'unser'))
            if u is not None and st.truth(cmp_('==', u, ZERO)) is not True:
                self.report('error: encryption', 'encryption data that could not be read leave the request without an error', st, fn.qn)
            if not any(x[0] in ('gen', 'listed') for x in st.rs):
                self.report('error: ports', 'a request without ports is accepted', st, fn.qn)
            return
        if fl == 'count':
            for x in st.rs:
                if x[0] == 'gen' and x[2] not in self.keys:
                    self.report('ports: count', 'the number of ports is read from "%s" but written as %s' % (x[2], sorted(self.keys)), st, fn.qn)
                if x[0] == 'gen' and x[1] is None:
                    self.part_first(st, fn)
            return
        if fl == 'list':
            return
        k = next(iter(self.keys))
        empty = fl != 'hostName' and st.truth(cmp_('==', self.length(k), ZERO)) is True
        if fl == ENC:
            got = [x[1] for x in st.rs if x[0] == 'enc']
            if not empty and got != [k]:
                self.report('%s: not read' % fl, '%s is written as "%s" but not read from it' % (fl, k), st, fn.qn)
            return
        v = st.read(me(W + fl))
        if fl in STRINGS or fl == 'hostName':
            if self.key_in(v) != k or unw(v)[1][0] != 'value':
                self.report('%s: not read' % fl, '%s is written as "%s" but the value read there is not what the request gets' % (fl, k), st, fn.qn)
        elif not empty and (self.key_in(v) != k or fl in NUMBERS and len(unw(v)[1]) != 2):
            self.report('%s: not read' % fl, '%s is written as "%s" but the value read there is not what the request gets' % (fl, k), st, fn.qn)

    def part_first(self, st, fn):
        pass


class Ports(ForEach):
    """ports generated from the first and their number"""
    K = 8
    affine = True
    lock_havoc = False

    def is_event(self, f, nid, n):
        return True

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = n.get('f', '').rsplit('::', 1)[-1]
        if b in ('push_back', 'emplace_back') and args:
            self.count('ports_generated')
            l = loc_of(args[0])
            v = st.read(l) if l is not None else en.rv(st, f, args[0], n['a'][0])
            done = st.store.get(('G', 'made'), ZERO)
            if v == TOP or st.truth(cmp_('==', v, ladd(('sym', 'arg:startPort'), done))) is not True:
                self.report('ports: generated', 'the ports generated from the first one do not follow each other', st, f.loc(nid))
            st.store[('G', 'made')] = ladd(done, ONE)
            return [(st, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        if st.truth(cmp_('>=', st.store.get(('G', 'made'), ZERO), ('sym', 'arg:numPorts'))) is not True or \
           st.truth(cmp_('<=', st.store.get(('G', 'made'), ZERO), ('sym', 'arg:numPorts'))) is False:
            self.report('ports: number', 'not as many ports are generated as the URL says', st, fn.qn)


# -- characters --------------------------------------------------------------
WIDTH = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'int': (32, True), 'unsigned int': (32, False),
         'long': (64, True), 'unsigned long': (64, False), 'short': (16, True), 'unsigned short': (16, False)}


class Chars(Rule):
    K = 4
    exact = True
    lock_havoc = False
    maxsteps = 20000

    def init(self):
        return ()

    def is_event(self, f, nid, n):
        return True

    def part(self, st):
        return st.rs

    def cast(self, st, f, n, v):
        t = n.get('t', '').replace('const ', '')
        if v[0] == 'c' and t in WIDTH and n.get('ck') == 'IntegralCast':
            return const(wrap(v[1], t))
        return v

    def should_inline(self, k):
        return self.prog.F[k].cls == 'WdtUri' or self.prog.F[k].cls is None or not self.prog.F[k].cls

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        return None


def wrap(v, t):
    bits, signed = WIDTH[t]
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


class Escape(Chars):
    """one character through the loop that escapes"""
    def __init__(self, P, k):
        super().__init__(P)
        self.k = k
        self.out = set()

    def src(self, l):
        return l == ('P', ('sym', 'arg:' + self.pname))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = n.get('f', '').rsplit('::', 1)[-1]
        if self.src(obj) and b in ('length', 'size'):
            return [(st, const(2))]
        if self.src(obj) and b in ('begin', 'cbegin', 'end', 'cend'):
            return [(st, ('sym', ('it', b.lstrip('c'))))]
        if b in ('operator!=', 'operator==') and len(args) + (1 if obj else 0) == 2:
            vs = [st.read(l) for l in ([obj] if obj else []) + [loc_of(a) for a in args] if l is not None]
            if any(v == ('sym', ('it', 'end')) for v in vs):
                more = any(v == ('sym', ('it', 'begin')) for v in vs)
                return [(st, ONE if more == (b == 'operator!=') else ZERO)]
        if b == 'operator++' and obj and st.read(obj) != TOP and st.read(obj)[:1] == ('sym',) and st.read(obj)[1][0] == 'it':
            nxt = {'begin': 'next', 'next': 'end'}[st.read(obj)[1][1]]
            st.write(obj, ('sym', ('it', nxt)))
            st.rs = st.rs + ('|',)
            return [(st, to_addr(obj))]
        if b == 'operator*' and obj and st.read(obj) != TOP and st.read(obj)[:1] == ('sym',) and st.read(obj)[1][0] == 'it':
            st.store[('G', 'ch')] = const(wrap(self.k, 'char'))
            return [(st, ('addr', ('G', 'ch')))]
        if self.src(obj) and b in ('operator[]', 'at'):
            i = unw(en.rv(st, f, args[0], n['a'][0]))
            if i == ONE and '|' not in st.rs:
                st.rs = st.rs + ('|',)
            st.store[('G', 'ch')] = const(wrap(self.k, 'char'))
            return [(st, ('addr', ('G', 'ch')))]
        if b in ('push_back', 'operator+=', 'append') and obj and obj[0] == 'L':
            v = args[-1] if args else TOP
            l = loc_of(v)
            v = st.read(l) if l is not None else v
            if v != TOP and v[0] == 'c':
                st.rs = st.rs + (v[1] & 255,)
            elif v != TOP and v[0] == 'str':
                st.rs = st.rs + tuple(map(ord, v[1]))
            else:
                st.rs = st.rs + ('?',)
            return [(st, to_addr(obj))]
        return None

    def on_exit(self, en, st, fn, ret):
        self.out.add(st.rs)


class Unescape(Chars):
    """one character, and the two after it, through the loop that unescapes"""
    K = 40

    def __init__(self, P, chars):
        super().__init__(P)
        self.chars = chars
        self.out = set()

    def src(self, l):
        return l is not None and (l == self.ploc or l == ('P', ('sym', 'arg:' + self.pname)))

    def dst(self, l):
        return l == ('P', ('sym', 'arg:' + self.dname))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = n.get('f', '').rsplit('::', 1)[-1]
        if self.src(obj):
            if b in ('size', 'length'):
                return [(st, const(len(self.chars)))]
            if b == 'empty':
                return [(st, ZERO if self.chars else ONE)]
            if b in ('operator[]', 'at'):
                i = unw(en.rv(st, f, args[0], n['a'][0]))
                if i == TOP or i[0] != 'c' or not 0 <= i[1] < len(self.chars):
                    self.report('unescape: outside', 'a character behind the end of the text is read', st, f.loc(nid))
                    return [(st, TOP)]
                st.store[('G', ('ch', i[1]))] = const(wrap(self.chars[i[1]], 'char'))
                return [(st, ('addr', ('G', ('ch', i[1]))))]
        if self.dst(obj) and b in ('push_back', 'operator+=', 'append'):
            v = args[-1]
            l = loc_of(v)
            v = st.read(l) if l is not None else v
            st.rs = st.rs + (v[1] & 255 if v != TOP and v[0] == 'c' else '?',)
            return [(st, to_addr(obj))]
        return None

    def on_exit(self, en, st, fn, ret):
        ok = ret[1] if ret != TOP and ret[0] == 'c' else None
        self.out.add((ok, st.rs))


def escaping(P, c):
    esc, une = P.fn(U + 'escape'), P.fn(U + 'unescape')
    if len(esc.params) != 1 or len(une.params) != 2:
        raise Broken('the functions that escape text have other parameters')
    safe = {}
    for k in range(256):
        r = Escape(P, k)
        r.pname = esc.params[0]['n']
        c.explore(r, esc.key)
        outs = set()
        for o in r.out:
            i = o.index('|') if '|' in o else len(o)
            outs.add(o[:i])
        if len(outs) != 1 or not r.out:
            c.violation('escape: %d' % k, 'escaping the byte %d does not give one certain text' % k, esc.loc_of_body() if hasattr(esc, 'loc_of_body') else esc.qn)
            continue
        safe[k] = outs.pop()
        c.absorb(r)
    c.count('bytes_escaped', 256)
    dec = decoder(P, c, une)
    for k, o in sorted(safe.items()):
        text = '"%s"' % ''.join(chr(x) if isinstance(x, int) and 32 < x < 127 else '\\x%02x' % x if isinstance(x, int) else '?' for x in o)
        raw = [x for x in o if x in SPECIAL and not (x == 37 and len(o) == 3 and o[0] == 37)]
        c.oblige('escape of a byte', not raw and dec(o) == (1, (k,)))
        if raw:
            c.violation('escape: raw', 'the byte %d is written as %s, which has a meaning in the URL' % (k, text), esc.qn)
        elif dec(o) != (1, (k,)):
            c.violation('escape: inverse', 'the byte %d is written as %s, which is not read back as that byte' % (k, text), esc.qn)
    hexd = set(range(48, 58)) | set(range(97, 103))
    for bad in ((37,), (37, 52), (37, 103, 49), (37, 49, 103), (37, 37, 49), (37, 49, 37), (37, 47, 49), (37, 58, 49), (37, 49, 96)):
        d = dec(bad)
        c.oblige('malformed escape', d is not None and d[0] == 0)
        if d is None or d[0] != 0:
            c.violation('unescape: accepted', 'the malformed sequence "%s" is accepted' % ''.join(map(chr, bad)), une.qn)


def decoder(P, c, une):
    memo = {}

    def dec(chars):
        if chars not in memo:
            if any(not isinstance(x, int) for x in chars):
                memo[chars] = None
                return None
            r = Unescape(P, chars)
            r.dname, r.pname = une.params[0]['n'], une.params[1]['n']
            r.ploc = None

            def setup(st, fn, fid):
                r.ploc = ('L', fid, fn.params[1]['d'])
            c.explore(r, une.key, setup=setup)
            c.absorb(r)
            c.count('sequences_read_back')
            memo[chars] = next(iter(r.out)) if len(r.out) == 1 else None
        return memo[chars]
    return dec


# -- the URL itself ------------------------------------------------------------
PARAMS = U + 'queryParams_'


class Build(ForEach, Text):
    """the URL is put together"""
    over = (PARAMS,)
    K = 8
    opaque = frozenset({U + 'escape'})
    HOST, PORT, PREFIX = [('fld', ('cont', THIS), U + x) for x in ('hostName_', 'port_', 'WDT_URL_PREFIX')]

    def should_inline(self, k):
        return self.prog.F[k].cls == 'WdtUri' and self.prog.F[k].name != 'escape'

    def is_event(self, f, nid, n):
        return True

    def part(self, st):
        return tuple(sorted(map(str, st.rs))) + (st.truth(cmp_('>', self.PORT, ZERO)), st.truth(cmp_('==', ('sym', 'vlen'), ZERO)))

    def so_far(self, st):
        return next((x[1] for x in st.rs if x[0] == 'text'), ())

    def put(self, st, parts):
        t = self.so_far(st)
        self.drop(st, lambda x: x[0] == 'text')
        self.add(st, ('text', (t + tuple(parts))[:9]))

    def elem_start(self, en, st, f, nid, m):
        if not self.has(st, ('head',)):
            self.head(st, f, nid)
        self.drop(st, lambda x: x[0] == 'text')
        st.store[('G', 'vlen')] = ('sym', 'vlen')
        st.store.pop(('G', 'vlen'))

    def head(self, st, f, nid):
        self.add(st, ('head',))
        t = self.so_far(st)
        v6 = self.has(st, ('v6',))
        host = ('[', 'HOST', ']') if v6 else ('HOST',)
        p = st.truth(cmp_('>', self.PORT, ZERO))
        full = ('PREFIX',) + host + (':', 'PORT')
        if t != full and not (p is False and t == ('PREFIX',) + host):
            self.report('url: head', 'the URL does not begin with its prefix, the host and the port', st, f.loc(nid))

    def elem_end(self, en, st, f, nid, m):
        t = self.so_far(st)
        first = not self.has(st, ('some',))
        empty = st.truth(cmp_('==', ('sym', 'vlen'), ZERO))
        if t:
            if t != ('?' if first else '&', 'KEY', '=', 'ESCAPED'):
                self.report('url: parameter', 'a parameter is not written as separator, name, equal sign and escaped value', st, f.loc(nid))
            self.add(st, ('some',))
        elif empty is not True:
            self.report('url: left out', 'a parameter with a value is left out of the URL', st, f.loc(nid))
        self.drop(st, lambda x: x[0] == 'text')

    def loop_end(self, en, st, f, nid, m):
        if not self.has(st, ('head',)):
            self.head(st, f, nid)
        self.add(st, ('all',))

    def tok(self, en, st, f, a, e):
        if a == TOP:
            return None
        if a[0] == 'str':
            return a[1]
        l = loc_of(a)
        if l is not None and l[0] == 'F' and l[2].endswith('::first') and self.is_elem(st, l, PARAMS):
            return 'KEY'
        if l is not None and l[0] == 'F' and l[2].endswith('::second') and self.is_elem(st, l, PARAMS):
            return 'RAW'
        v = unw(st.read(l) if l is not None else a)
        if v == TOP:
            return None
        if v[0] == 'c':
            return chr(v[1]) if 0 < v[1] < 128 else None
        if v[0] == 'str':
            return v[1]
        for x, y in ((self.HOST, 'HOST'), (self.PORT, 'PORT'), (self.PREFIX, 'PREFIX')):
            if v in (x, ('sym', ('to', x))):
                return y
        if v == ('sym', 'escaped'):
            return 'ESCAPED'
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] == 'std::basic_string' and args and self.tok(en, st, f, args[0], n['a'][0]) == 'PREFIX':
            self.put(st, ['PREFIX'])
            return [(st, ('sym', 'url'))]
        return Text.on_ctor(self, en, st, f, fid, nid, n, args)

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        r = self.convert(en, st, f, n, args)
        if r:
            return r
        if b == 'find' and obj == me(U + 'hostName_'):
            if args and args[0] in (const(58), ('str', ':')):
                o = st.copy()
                o.rs = o.rs | {('v6',)}
                return [(st, const(2 ** 64 - 1)), (o, const(3))]
        if obj and obj[0] == 'F' and obj[2].endswith('::second') and self.is_elem(st, obj, PARAMS) and b in ('empty', 'size', 'length'):
            st.store[('G', 'vlen')] = ('sym', 'vlen')
            st.assume(cmp_('>=', ('sym', 'vlen'), ZERO))
            return [(st, cmp_('==', ('sym', 'vlen'), ZERO) if b == 'empty' else ('sym', 'vlen'))]
        if q == U + 'escape' and args:
            t = self.tok(en, st, f, args[0], n['a'][0])
            return [(st, ('sym', 'escaped') if t == 'RAW' else TOP)]
        if b == 'toAppend' and len(args) >= 2:
            self.count('appends')
            self.put(st, [self.tok(en, st, f, a, e) for a, e in zip(args[:-1], n['a'])])
            return [(st, ZERO)]
        if b in ('push_back', 'append', 'operator+=') and obj and obj[0] == 'L' and args:
            self.count('appends')
            self.put(st, [self.tok(en, st, f, args[0], n['a'][0])])
            return [(st, to_addr(obj))]
        if b == 'operator=' and is_string(n) and obj and obj[0] == 'L' and args:
            v = self.tok(en, st, f, args[0], n['a'][0])
            st.write(obj, ('sym', 'escaped') if v == 'ESCAPED' else TOP)
            return [(st, to_addr(obj))]
        return None

    def on_exit(self, en, st, fn, ret):
        if not self.has(st, ('all',)):
            self.report('url: loop left', 'the URL ends before its last parameter', st, fn.qn)


class Store(Text):
    """a parameter is kept under its name, and found there"""
    def is_event(self, f, nid, n):
        return True

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def should_inline(self, k):
        return self.prog.F[k].cls == 'WdtUri'

    def param(self, a):
        l = loc_of(a)
        return l[1][1] if l and l[0] == 'P' and l[1][0] == 'sym' else a[1] if a != TOP and a[0] == 'sym' else None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = n.get('f', '').rsplit('::', 1)[-1]
        if obj == me(PARAMS):
            if b in ('operator[]', 'at') and args:
                self.add(st, ('slot', self.param(args[0])))
                return [(st, ('addr', ('G', 'slot')))]
            if b in ('insert_or_assign', 'emplace') and len(args) == 2:
                self.count('stored')
                self.add(st, ('put', self.param(args[0]), self.param(args[1])))
                return [(st, TOP)]
            if b in ('find', 'count') and args:
                o = st.copy()
                self.add(st, ('found', self.param(args[0])))
                return [(st, ('sym', 'it') if b == 'find' else ONE), (o, ('sym', 'noit') if b == 'find' else ZERO)]
            if b in ('end', 'cend'):
                return [(st, ('sym', 'noit'))]
        if b in ('operator==', 'operator!=') and len(args) + (1 if obj else 0) == 2:
            ls = ([obj] if obj else []) + [loc_of(a) for a in args]
            vs = [st.read(l) if l is not None else a for l, a in zip(ls, ([TOP] if obj else []) + list(args))]
            if all(v in (('sym', 'it'), ('sym', 'noit')) for v in vs):
                return [(st, ONE if (vs[0] == vs[1]) == (b == 'operator==') else ZERO)]
        if b in ('operator->', 'operator*') and obj and st.read(obj) == ('sym', 'it'):
            return [(st, ('addr', ('G', 'pair')))]
        if b == 'operator=' and obj == ('G', 'slot') and args:
            self.count('stored')
            k = next((x[1] for x in st.rs if x[0] == 'slot'), None)
            self.add(st, ('put', k, self.param(args[0])))
            return [(st, to_addr(obj))]
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] == 'std::basic_string' and args:
            l = loc_of(args[0])
            if l and l[0] == 'F' and l[1] == ('G', 'pair') and l[2].endswith('::second') or l == ('G', 'slot'):
                return [(st, ('sym', 'second'))]
        return None

    def on_exit(self, en, st, fn, ret):
        if fn.name == 'setQueryParam':
            names = [p['n'] for p in fn.params]
            want = ('put',) + tuple('arg:' + x for x in names)
            if want not in st.rs:
                self.report('set: not kept', 'a parameter that is set is not kept under its name', st, fn.qn)
        else:
            want = 'arg:' + fn.params[0]['n']
            got = [x[1] for x in st.rs if x[0] in ('found', 'slot')]
            if got and not (got[-1] == want and ret == ('sym', 'second')):
                self.report('get: not found', 'a parameter that was kept is not what is returned for its name', st, fn.qn)
            self.count('lookups')


class Parse(Text):
    """the URL is taken apart"""
    K = 8
    ERR = ('sym', 'piece')

    def should_inline(self, k):
        return self.prog.F[k].cls == 'WdtUri' and self.prog.F[k].name != 'unescape'

    def is_event(self, f, nid, n):
        return True

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] == 'folly::Range':
            if len(args) == 1:
                return Text.on_ctor(self, en, st, f, fid, nid, n, args)
            return [(st, ('sym', 'rest'))]
        return Text.on_ctor(self, en, st, f, fid, nid, n, args)

    def kind(self, st, l):
        v = st.read(l) if l is not None else TOP
        return v[1] if v != TOP and v[0] == 'sym' and isinstance(v[1], str) else None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        r = self.assign(en, st, f, nid, n, obj, args)
        if r:
            return r
        if b in ('operator!=', 'operator==') and len(args) == 2 and q.startswith('folly::'):
            st.store[('G', 'prefix')] = ('sym', 'samefix')
            x = cmp_('!=', ('bool', ('sym', 'samefix')), ZERO)
            return [(st, x if b == 'operator==' else ('not', x))]
        if is_range(n) and obj is not None and b == 'split_step':
            sep = args[0]
            if sep == const(38):
                self.count('pairs')
                st.rs = frozenset(x for x in st.rs if x[0] not in ('key', 'stored', 'unescaped'))
                return [(st, ('sym', 'rest'))]
            if sep == const(61):
                was = self.kind(st, obj)
                st.write(obj, ('sym', 'val' if was == 'rest' else 'odd'))
                st.rs = frozenset(x for x in st.rs if x[0] not in ('key', 'stored', 'unescaped'))
                self.add(st, ('key',))
                return [(st, ('sym', 'key' if was == 'rest' else 'odd'))]
            return [(st, ('sym', 'odd'))]
        if is_range(n) and obj is not None and b == 'empty':
            k = self.kind(st, obj)
            if k == 'key':
                a, z = st, st.copy()
                z.rs = z.rs | {('nokey',)}
                return [(a, ZERO), (z, ONE)]
            return None
        if is_range(n) and obj is not None and b == 'advance':
            return [(st, ZERO)]
        if is_range(n) and obj is not None and b in ('toString', 'str'):
            v = st.read(obj)
            return [(st, v)]
        if q == U + 'unescape' and len(args) == 2:
            dst = loc_of(args[0])
            k = self.kind(st, loc_of(args[1])) if loc_of(args[1]) else args[1][1] if args[1] != TOP and args[1][0] == 'sym' else None
            self.count('unescaped')
            ok = st
            bad = st.copy()
            if dst is not None:
                ok.write(dst, ('sym', 'plain' if k == 'val' else 'odd'))
                bad.write(dst, ('sym', 'plain'))
            bad.rs = bad.rs | {('malformed',)}
            return [(ok, ONE), (bad, ZERO)]
        if b in ('operator[]', 'at') and obj == me(PARAMS) and args:
            k = self.kind(st, loc_of(args[0])) if loc_of(args[0]) else args[0][1] if args[0] != TOP and args[0][0] == 'sym' else None
            return [(st, ('addr', ('G', ('slot', k))))]
        return None

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc and loc[0] == 'G' and isinstance(loc[1], tuple) and loc[1][0] == 'slot':
            self.count('stored')
            if loc[1][1] != 'key':
                self.report('parse: name', 'a parameter is not kept under the text before the equal sign', st, f.loc(nid))
            if v == TOP or v[0] != 'sym' or v[1] != 'plain':
                self.report('parse: value', 'what is kept as the value of a parameter is not its unescaped text', st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        good = ret == TOP or st.truth(cmp_('==', ret, ZERO)) is not False
        if good:
            if ('malformed',) in st.rs:
                self.report('parse: malformed', 'a URL with a malformed escape sequence is accepted', st, fn.qn)
            if ('nokey',) in st.rs:
                self.report('parse: no name', 'a URL with a parameter without a name is accepted', st, fn.qn)
            if st.truth(cmp_('!=', ('bool', ('sym', 'samefix')), ZERO)) is not True:
                self.report('parse: protocol', 'a URL of another protocol is accepted', st, fn.qn)


class Handler(Text):
    """a handler for a malformed value, to the end of the parse"""
    def __init__(self, P, line, field):
        super().__init__(P)
        self.line, self.field = line, field

    def should_inline(self, k):
        return False

    def is_event(self, f, nid, n):
        return True

    def part(self, st):
        if not self.field:
            return ()
        e = st.store.get(me(self.field), TOP)
        return None if e == TOP else st.truth(cmp_('==', e, ZERO))

    def on_exit(self, en, st, fn, ret):
        v = st.store.get(me(self.field), TOP) if self.field else ret
        self.count('handlers')
        if v == TOP or st.truth(cmp_('==', v, ZERO)) is not False:
            self.report('handler in %s' % fn.qn, 'a value that could not be parsed leaves no error behind', st, '%s:%s' % (fn.file if hasattr(fn, 'file') else fn.qn, self.line))


def handlers(P, c, f, field):
    n = 0
    for b, blk in enumerate(f.blocks):
        t = blk.get('t') or {}
        if t.get('k') != 'CXXTryStmt':
            continue
        for h in blk['s']:
            if h is None or h == f.exit or h < 0:
                continue
            if not reaches(f, h):
                continue
            r = Handler(P, t.get('l'), field)

            def setup(st, fn, fid, h=h):
                fr = st.stack[-1]
                st.stack = ((fr[0], fr[1], h, 0, 0),)
            c.explore(r, f.key, setup=setup)
            c.absorb(r)
            n += 1
    return n


def reaches(f, b):
    return bool(f.blocks[b]['e'] or f.blocks[b]['s'])


def run(P, c):
    ctor = [f for f in P.F.values() if f.cls == 'WdtTransferRequest' and f.ctor and len(f.params) == 1 and 'basic_string' in f.params[0]['t']]
    c.need(len(ctor) == 1, 'the constructor that parses a URL was not found')
    ctor = ctor[0]
    gen = P.fn(W + 'generateUrlInternal')
    keys = {}
    for fl in STRINGS + NUMBERS + FLAGS + (ENC, 'hostName', 'ports'):
        r = Writer(P, fl)

        def setup(st, fn, fid):
            for p, v in zip(fn.params, (ZERO, ZERO)):
                st.store[('L', fid, p['d'])] = v
        c.explore(r, gen.key, setup=setup)
        c.absorb(r)
        c.oblige('written: ' + fl, not r.viol)
        for k, v in r.keys.items():
            keys.setdefault(k, set()).update(v)
    for fl in STRINGS + NUMBERS + FLAGS + (ENC,):
        c.check(len(keys.get(fl, ())) == 1, '%s: parameter' % fl, '%s is not written under one certain parameter: %s' % (fl, sorted(map(str, keys.get(fl, ())))), gen.qn)
    owner = {}
    for fl, ks in sorted(keys.items()):
        for k in ks:
            c.check(owner.setdefault(k, fl) == fl, 'parameter %s' % k, 'the parameter "%s" is used for %s and for %s' % (k, owner[k], fl), gen.qn)
            bad = [x for x in str(k) if x in '&=?%#'] or not k
            c.check(not bad, 'parameter name %s' % k, 'the name of the parameter "%s" cannot be told from the rest of the URL' % k, gen.qn)
    for f in P.fns(W + 'getSerializedPortsList'):
        r = PortList(P)
        c.explore(r, f.key)
        c.absorb(r)
        c.oblige('port list', not r.viol)
    keys['hostName'] = {'<host>'}
    for fl in STRINGS + NUMBERS + FLAGS + (ENC, 'hostName', 'list', 'count', 'errors'):
        if fl != 'errors' and not keys.get(fl):
            continue
        r = Reader(P, fl, keys.get(fl, set()))
        c.explore(r, ctor.key)
        c.absorb(r)
        c.oblige('read: ' + fl, not r.viol)
    r = Ports(P)
    g = P.fn(W + 'genPortsVector')
    c.need([p['n'] for p in g.params] is not None and len(g.params) == 2, 'genPortsVector has other parameters')

    def setup(st, fn, fid):
        for p, v in zip(fn.params, ('startPort', 'numPorts')):
            st.store[('L', fid, p['d'])] = ('sym', 'arg:' + v)
    c.explore(r, g.key, setup=setup)
    c.absorb(r)
    c.oblige('ports from first and count', not r.viol)
    escaping(P, c)
    r = Build(P)
    c.explore(r, P.fn(U + 'generateUrl').key)
    c.absorb(r)
    c.oblige('assembly of the URL', not r.viol)
    for q in ('setQueryParam', 'getQueryParam'):
        for f in P.fns(U + q):
            r = Store(P)
            c.explore(r, f.key)
            c.absorb(r)
            c.oblige(q, not r.viol)
    r = Parse(P)
    c.explore(r, P.fn(U + 'process').key)
    c.absorb(r)
    c.oblige('taking the URL apart', not r.viol)
    n = handlers(P, c, ctor, W + 'errorCode') + handlers(P, c, P.fn(U + 'process'), None)
    c.count('handlers_explored', n)
    c.oblige('handlers of malformed values', True)
