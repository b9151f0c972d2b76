"""C03: encoders and decoders never leave the bytes they were given."""
from wdtsa.engine import *
from wdtsa.codec import ENC, DEC, base, RANGE

EXPLAIN = ('Every serialization primitive, every encode/decode function of the protocol and of the transfer log is explored path by path '
           'with the input bytes, the offset and the capacity unconstrained. Every load, store, copy and range operation must be provably '
           'inside the given bytes, from the comparisons the code made; integer conversions that change a value are not trusted. '
           'On return the offset is between its start and the capacity, a failed step is not returned as success, and a number decoded '
           'as unsigned is not negative. Primitives are checked once and used by that contract elsewhere.')
RULE = 'obligation at every raw buffer access, decided with linear facts along all paths; exact integer conversions'
ASSUME = ['callers give an offset between 0 and the capacity (checked by C04)', 'WDT_CHECK ends the process',
          'strings and containers are smaller than 2^62']

WIDTH = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1),
         'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1),
         'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1)}
PRIM = set(ENC) | set(DEC) | {'decodeVarU64', 'decodeVarI64', 'encodeVarI64', 'encodeVarU64'}
RES = {'decodeInt64C': (0, 2**63 - 1), 'decodeInt32C': (0, 2**31 - 1), 'decodeInt16FixedLength': (0, 2**15 - 1),
       'decodeInt32FixedLength': (0, 2**31 - 1), 'decodeInt64FixedLength': (0, 2**63 - 1), 'decodeUInt64': (0, 2**64 - 1),
       'decodeVarU64': (0, 2**64 - 1)}
FIXED = {p + 'codeInt%dFixedLength' % (8 * w): w for p in ('en', 'de') for w in (2, 4, 8)}
RNG = 'folly::Range'
BIG = 2**62


def plain(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return t


def is_range(t):
    return 'folly::Range<const unsigned char *>' in t and '(' not in t and 'std::' not in t


def is_ptr(t):
    return plain(t).replace(' ', '') in ('char*', 'unsignedchar*', 'signedchar*')


def part_of(loc, w):
    return ('F', loc, w)


def layout(f):
    """-> (buffer param, capacity param, offset param) or None"""
    ps = f.params
    i = next((i for i, p in enumerate(ps) if is_ptr(p['t'])), None)
    if i is None:
        return None
    num = lambda p: plain(p['t']) in WIDTH and plain(p['t']) != 'bool'
    off = cap = None
    for p in ps[i + 1:i + 3]:
        if not num(p):
            break
        if p.get('ref') and not p['t'].startswith('const'):
            if cap and f.cls:
                break
            off = off or p
        elif not p.get('ref'):
            cap = cap or p
    return (ps[i], cap, off) if cap else None


class Bytes(Rule):
    K = 24
    maxdepth = 6
    affine = True
    exact = True
    lock_havoc = False

    def __init__(self, P, f):
        super().__init__(P)
        self.f = f
        self.sites = set()
        self.memo = {}

    def init(self):
        return frozenset()

    def part(self, st):
        r = [st.store.get(('G', 'steps'))]
        if st.stack:
            fk, fid = st.stack[-1][:2]
            for i in self.flags_of(fk):
                v = st.env.get((fid, i)) if isinstance(i, int) else st.store.get(('L', fid, i))
                r.append(None if v is None or v == TOP else st.truth(cmp_('!=', v, ZERO)))
        return tuple(r)

    def hints(self, st):
        r = []
        o = st.store.get(('P', ('sym', 'offp')), TOP)
        if ('G', 'off') in st.store:
            r += [ZERO, ZERO] if o == TOP else [cmp_('<=', st.store[('G', 'off')], o), cmp_('<=', o, ('sym', 'cap'))]
        ls = sorted((l[1] for l in st.store if l[0] == 'F' and l[2] == 'start'), key=repr)[:4]
        for i in range(4):
            if i < len(ls):
                s, e = self.rng(st, ls[i])
                r.append(ZERO if TOP in (s, e) else cmp_('<=', s, e))
                b = ladd(('sym', 'dest'), ('sym', 'off'))
                r.append(ZERO if s == TOP else cmp_('<=', b, s))
            else:
                r += [ZERO, ZERO]
            for j in range(4):
                if j < len(ls) and i < len(ls):
                    a, b = self.rng(st, ls[i])[0], self.rng(st, ls[j])[0]
                    r.append(ZERO if TOP in (a, b) else cmp_('<=', a, b))
                else:
                    r.append(ZERO)
        return r

    def flags_of(self, k):
        if k not in self.memo:
            f = self.prog.F[k]
            r = [i for i, n in f.nodes.items() if n['k'] == 'call' and n.get('t') == 'bool' and n.get('f') and base(n['f']).startswith(('encode', 'decode'))]
            r += [d['d'] for n in f.nodes.values() if n['k'] == 'decl' for d in n['ds'] if d.get('t') == 'bool']
            self.memo[k] = sorted(r, key=str)
        return self.memo[k]

    def limits(self, st):
        return tuple(st.store.get(('G', k), TOP) for k in ('end', 'cap'))

    def is_event(self, f, nid, n):
        q = n.get('f', '')
        return base(q) in PRIM or q.startswith(RANGE) or q in ('memcpy', 'memmove', 'folly::loadUnaligned', 'folly::storeUnaligned')

    def should_inline(self, k):
        f = self.prog.F[k]
        if self.is_prim(f):
            return False
        return super().should_inline(k)

    def is_prim(self, f):
        return f is not self.f and base(f.qn) in PRIM and (layout(f) or any(is_range(p['t']) for p in f.params)) \
            and (not f.cls or f.cls == '')

    # -- regions ---------------------------------------------------
    def where(self, st, v):
        """-> (region, offset)"""
        if v == TOP:
            return None
        off = ZERO
        while v[0] == 'addr' and v[1][0] in ('X', 'P'):
            if v[1][0] == 'P':
                v = v[1][1]
                continue
            off = ladd(off, v[1][2]) if off != TOP and v[1][2] != TOP else TOP
            v = to_addr(v[1][1])
        if off == TOP or v == TOP:
            return None
        ts, c = lin(v)
        for a, k in ts:
            if k == 1 and ('G', ('cap', a)) in st.store:
                return a, ladd(ladd(v, a, -1), off)
        if v[0] in ARITH:
            for l in sorted((l for l in st.store if l[0] == 'G' and isinstance(l[1], tuple) and l[1][0] == 'cap'), key=repr):
                if self.sure(st, cmp_('<=', l[1][1], v)):
                    return l[1][1], ladd(ladd(v, l[1][1], -1), off)
        return None

    def foreign(self, v):
        """memory of a string or other object, not the bytes given"""
        return v == TOP or v[0] not in ARITH or v[0] == 'pure' and v[1] == 'data'

    def sure(self, st, x):
        return st.truth(x) is True

    def inside(self, st, f, nid, what, p, n, size=None):
        self.count('accesses')
        self.sites.add((f.qn, nid))
        if n == ZERO:
            return
        w = self.where(st, p)
        key = '%s: %s' % (f.qn, what)
        if w is None:
            self.report(key + ' unknown', 'the bytes of a %s cannot be told' % what, st, f.loc(nid))
            return
        cap = st.store[('G', ('cap', w[0]))]
        if n == TOP or TOP in w:
            self.report(key, 'the extent of a %s is not bounded by the bytes it is given' % what, st, f.loc(nid))
            return
        if not self.sure(st, cmp_('<=', ZERO, w[1])):
            self.report(key + ' start', 'a %s may start before the bytes it is given' % what, st, f.loc(nid))
        elif not self.sure(st, cmp_('<=', ZERO, n)):
            self.report(key + ' length', 'the length of a %s may be negative' % what, st, f.loc(nid))
        elif not self.sure(st, cmp_('<=', ladd(w[1], n), cap)):
            self.report(key, 'a %s may go beyond the bytes it is given' % what, st, f.loc(nid))

    def byte(self, st, f, nid, what, loc):
        if loc and loc[0] in ('X', 'P'):
            a = to_addr(loc)
            if loc[0] == 'P' and loc[1][0] == 'addr':
                return
            if self.where(st, a) is None and loc[0] == 'P' and loc[1][0] == 'sym':
                return
            if loc[0] == 'X' and self.where(st, a) is None and not self.ours(st, a):
                return
            g = st.store.get(('G', 'steps'), ZERO)
            self.inside(st, f, nid, what, a, ONE)
            st.store[('G', 'steps')] = const(min(g[1] + 1, 14)) if g[0] == 'c' else g

    def ours(self, st, v):
        return any(('G', ('cap', a)) in st.store for a in _syms(v))

    def on_read(self, en, st, f, nid, n, loc):
        self.byte(st, f, nid, 'byte read', loc)

    def on_write(self, en, st, f, nid, n, loc, v):
        if n['k'] in ('call', 'ctor'):
            return
        self.byte(st, f, nid, 'byte store', loc)

    # -- conversions -------------------------------------------------
    def cast(self, st, f, n, v):
        if n.get('ck') != 'IntegralCast':
            return v
        src, dst = plain(f.nodes.get(n['e'], {}).get('t', '')), plain(n.get('t', ''))
        if src not in WIDTH or dst not in WIDTH or v[0] == 'c':
            return v
        a, b = WIDTH[src], WIDTH[dst]
        if b[0] <= a[0] and a[1] <= b[1]:
            return v
        x = st.concrete(v) if hasattr(st, 'concrete') else v
        if all(_small(t) for t in _syms(v)):
            a = (-BIG, BIG)
        lo = a[0] >= b[0] or self.sure(st, cmp_('<=', const(b[0]), x))
        hi = a[1] <= b[1] or self.sure(st, cmp_('<=', x, const(b[1])))
        if lo and hi:
            return v
        self.count('narrowing_conversions')
        w = ('pure', 'as ' + dst, v)
        st.assume(cmp_('<=', const(b[0]), w))
        st.assume(cmp_('<=', w, const(b[1])))
        return w

    # -- ranges ------------------------------------------------------
    def rng(self, st, loc):
        if part_of(loc, 'start') not in st.store:
            g = ('G', ('rng', st.read(loc)))
            if g + ('start',) in st.store:
                return st.store[g + ('start',)], st.store[g + ('end',)]
        return st.read(part_of(loc, 'start')), st.read(part_of(loc, 'end'))

    def put(self, st, loc, s, e):
        st.store[part_of(loc, 'start')] = s
        st.store[part_of(loc, 'end')] = e

    def step(self, st, f, nid, loc, n, what):
        s, e = self.rng(st, loc)
        self.count('accesses')
        self.sites.add((f.qn, nid))
        if TOP in (s, e, n) or not self.sure(st, cmp_('<=', ZERO, n)) or not self.sure(st, cmp_('<=', ladd(s, n), e)):
            self.report('%s: %s' % (f.qn, what), '%s may go beyond the bytes received' % what, st, f.loc(nid))
            n2 = en_fresh = ('sym', 'adv:%s:%s' % (f.qn, nid))
            return s
        return s

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').startswith('std::basic_string') and len(args) >= 2 and TOP not in args[:2] and not self.foreign(args[0]) and self.where(st, args[0]):
            self.inside(st, f, nid, 'string copy', args[0], ladd(args[1], args[0], -1) if '*' in f.nodes[n['a'][1]].get('t', '') else args[1])
            return None
        if n.get('rec') != RNG:
            return None
        t = ('T', fid, nid)
        if n.get('copy') and args and args[0] != TOP:
            s, e = self.rng(st, to_loc(args[0]))
        elif len(args) == 2 and TOP not in args:
            a1 = plain(f.nodes.get(n['a'][1], {}).get('t', ''))
            s = args[0]
            e = args[1] if '*' in a1 else ladd(args[0], args[1])
            self.inside(st, f, nid, 'range', s, ladd(e, s, -1))
        else:
            s = e = ZERO
        st.kill_children(t)
        v = en.fresh(st, fid, nid, 'rng')
        st.store[t] = v
        self.put(st, t, s, e)
        st.store[('G', ('rng', v), 'start')], st.store[('G', ('rng', v), 'end')] = s, e
        if n.get('copy'):
            return [(st, ('addr', t))]
        return [(st, v)]

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = base(q)
        if q.startswith(RANGE):
            return self.range_call(en, st, f, fid, nid, n, obj, args, b)
        if q in ('folly::loadUnaligned', 'folly::storeUnaligned'):
            w = _size(n['fk'])
            self.inside(st, f, nid, 'load' if 'load' in q else 'store', args[0], const(w))
            return [(st, en.fresh(st, fid, nid, 'v'))]
        if b == 'offset' and len(args) == 2 and TOP not in args and n.get('repo'):
            x, y = self.rng(st, to_loc(args[0])), self.rng(st, to_loc(args[1]))
            if TOP not in x + y and x[1] == y[1]:
                self.count('offsets')
                return [(st, ladd(x[0], y[0], -1))]
            return None
        if b in ('memcpy', 'memmove'):
            for a, what in ((args[0], 'copy'), (args[1], 'copy')):
                if not self.foreign(a):
                    self.inside(st, f, nid, what, a, args[2])
            if not any(self.where(st, a) for a in args[:2]):
                self.report('%s: copy unknown' % f.qn, 'the bytes of a copy cannot be told', st, f.loc(nid))
            if args[1] != TOP and args[1][0] == 'pure' and args[1][1] == 'data':
                self.covers(st, f, nid, args[1][2], args[2])
            return [(st, args[0])]
        if q.startswith('std::basic_string<'):
            if b in ('assign', 'append') and len(args) == 2 and args[0] != TOP:
                if not self.foreign(args[0]):
                    self.inside(st, f, nid, 'string copy', args[0], args[1])
            if b in ('data', 'c_str') and obj:
                return [(st, ('pure', 'data', st.read(obj)))]
        g = self.prog.F.get(n.get('fk')) if n.get('fk') else None
        if g is not None and self.is_prim(g):
            return self.prim(en, st, f, fid, nid, n, args, g, b)
        return None

    def covers(self, st, f, nid, s, n):
        z = ('uns', ('pure', 'size', s))
        if n == TOP or not self.sure(st, cmp_('<=', n, z)):
            self.report('%s: copy source' % f.qn, 'a copy may read beyond the end of the string it copies', st, f.loc(nid))

    def range_call(self, en, st, f, fid, nid, n, obj, args, b):
        if b == 'operator=':
            s, e = self.rng(st, to_loc(args[0])) if args and args[0] != TOP else (TOP, TOP)
            self.put(st, obj, s, e)
            return [(st, ('addr', obj))]
        s, e = self.rng(st, obj) if obj else (TOP, TOP)
        if b in ('start', 'begin', 'data', 'cbegin'):
            return [(st, s)]
        if b in ('end', 'cend'):
            return [(st, e)]
        if b in ('size', 'walk_size'):
            return [(st, ladd(e, s, -1) if TOP not in (s, e) else TOP)]
        if b == 'empty':
            return [(st, cmp_('==', s, e) if TOP not in (s, e) else TOP)]
        if b in ('front', 'operator[]', 'at', 'back'):
            i = args[0] if args else ZERO
            d = TOP if TOP in (s, e, i) else ladd(s, i)
            self.count('accesses')
            self.sites.add((f.qn, nid))
            if d == TOP or not self.sure(st, cmp_('<=', ZERO, i)) or not self.sure(st, cmp_('<', d, e)):
                self.report('%s: byte read' % f.qn, 'a byte may be read beyond the bytes received', st, f.loc(nid))
            v = en.fresh(st, fid, nid, 'byte')
            t = ('T', fid, nid)
            st.kill_children(t)
            st.store[t] = v
            return [(st, ('addr', t) if n.get('lv') else v)]
        if b in ('advance', 'uncheckedAdvance', 'pop_front', 'subtract', 'pop_back', 'uncheckedSubtract'):
            k = args[0] if args else ONE
            self.step(st, f, nid, obj, k, b)
            if TOP in (s, e, k):
                k = ZERO
            if b in ('subtract', 'pop_back', 'uncheckedSubtract'):
                self.put(st, obj, s, ladd(e, k, -1))
            else:
                x = ladd(s, k)
                st.assume(cmp_('<=', x, e))
                self.put(st, obj, x, e)
            return [(st, ZERO)]
        if b in ('clear', 'reset'):
            raise Broken('range method %s in %s is not modelled' % (b, f.loc(nid)))
        return None

    # -- contracts of the primitives -----------------------------------
    def prim(self, en, st, f, fid, nid, n, args, g, b):
        self.count('primitive_calls')
        L = layout(g)
        r = next((i for i, p in enumerate(g.params) if is_range(p['t'])), None)
        loc = offl = None
        ok, bad = None, None
        if r is not None:
            loc = to_loc(args[r])
            s, e = self.rng(st, loc)
        else:
            ix = [g.params.index(p) if p else None for p in L]
            buf, cap = args[ix[0]], args[ix[1]]
            offl = to_loc(args[ix[2]]) if ix[2] is not None else None
            old = st.read(offl) if offl else ZERO
            w = self.where(st, buf)
            key = '%s: %s' % (f.qn, b)
            if w is None or cap == TOP or w[1] == TOP or old == TOP:
                self.report(key, 'the capacity given to %s cannot be told' % b, st, f.loc(nid))
                return None
            z = st.store[('G', ('cap', w[0]))]
            if not self.sure(st, cmp_('<=', ZERO, w[1])) or not self.sure(st, cmp_('<=', ladd(w[1], cap), z)):
                self.report(key, '%s is given more room than there is' % b, st, f.loc(nid))
            if not self.sure(st, cmp_('<=', ZERO, old)) and 'Var' not in b:
                self.report(key + ' start', '%s may start at a negative offset' % b, st, f.loc(nid))
        ranges = [self.rng(st, loc)] if loc else []
        en.havoc_args(st, f, fid, nid, n, args)
        outs = []
        for v in (ONE, ZERO):
            x = st.copy()
            if v == ZERO:
                x.rs = x.rs | {('failed',)}
                x.note('%s:%d %s fails' % (f.file, n.get('l', 0), b))
            if v == ONE and (loc and TOP not in (s, e) and self.sure(x, cmp_('<=', e, s)) or
                             offl and TOP not in (old, cap) and self.sure(x, cmp_('<=', cap, old))):
                continue
            if loc:
                if TOP not in (s, e):
                    if b in FIXED and v == ONE:
                        y = ladd(s, const(FIXED[b]))
                        if not x.assume(cmp_('<=', y, e)):
                            continue
                    else:
                        y = en.fresh(x, fid, nid, 'pos')
                        self.after(x, s, y, v == ONE)
                        x.assume(cmp_('<=', y, e))
                    self.put(x, loc, y, e)
                else:
                    self.put(x, loc, TOP, TOP)
            if offl:
                y = en.fresh(x, fid, nid, 'off')
                if v == ZERO and b != 'encodeString':
                    y = old
                elif b in FIXED:
                    y = ladd(old, const(FIXED[b]))
                elif not self.after(x, old, y, v == ONE):
                    continue
                if v == ONE:
                    x.assume(cmp_('<=', y, cap))
                else:
                    x.assume(cmp_('<=', y, cap)) if self.sure(x, cmp_('<=', old, cap)) else None
                    x.assume(cmp_('<=', ZERO, y)) if self.sure(x, cmp_('<=', ZERO, old)) else None
                x.write(offl, y)
            if v == ONE and b in RES:
                i = next((i for i, p in enumerate(g.params) if p.get('ref') and p is not (L or (0, 0, 0))[2] and not is_range(p['t'])), None)
                if i is not None and args[i] != TOP:
                    y = en.fresh(x, fid, nid, 'num')
                    x.assume(cmp_('<=', const(RES[b][0]), y))
                    x.assume(cmp_('<=', y, const(RES[b][1])))
                    x.write(to_loc(args[i]), y)
            outs.append((x, v))
        return outs

    def after(self, st, old, y, strict):
        """y comes after old, and so after everything that old comes after"""
        anchors = {old} | {v for l, v in st.store.items() if l[0] == 'F' and l[2] == 'start' or l[0] == 'G' and l[1] in ('off', 'r0')} | \
            {l[1][1] for l in st.store if l[0] == 'G' and isinstance(l[1], tuple) and l[1][0] == 'cap'}
        ok = True
        for a in sorted(anchors, key=lambda a: (a == old, repr(a))):
            if a == old:
                ok = st.assume(cmp_('<' if strict else '<=', old, y)) and ok
            elif self.sure(st, cmp_('<=', a, old)):
                st.assume(cmp_('<' if strict else '<=', a, y))
        return ok

    # -- end of the entry ------------------------------------------------
    def on_exit(self, en, st, fn, ret):
        self.count('paths')
        v = st.truth(cmp_('!=', ret, ZERO)) if ret and ret != TOP and plain(fn.ret) == 'bool' else None
        key = fn.qn + ': '
        if v is not False and ('failed',) in st.rs and plain(fn.ret) == 'bool':
            self.report(key + 'failure hidden', '%s reports success although a step of it did not fit' % fn.qn, st, fn.qn)
        a = st.store
        if ('G', 'off') in a:
            o = st.read(('P', ('sym', 'offp')))
            if o == TOP or o != a[('G', 'off')] and not (self.sure(st, cmp_('<=', a[('G', 'off')], o)) and
                                                         self.sure(st, cmp_('<=', o, a[('G', 'cap')]))):
                self.report(key + 'offset', 'the offset %s leaves is not between its start and the capacity' % fn.qn, st, fn.qn)
        if ('G', 'r0') in a:
            s, e = self.rng(st, ('P', ('sym', 'rngp')))
            if TOP in (s, e) or e != a[('G', 'end')] or not self.sure(st, cmp_('<=', a[('G', 'r0')], s)) or \
                    not self.sure(st, cmp_('<=', s, e)):
                self.report(key + 'range', 'the range %s leaves is not inside the one it was given' % fn.qn, st, fn.qn)
            elif v and base(fn.qn) in PRIM and not self.sure(st, cmp_('<', a[('G', 'r0')], s)):
                self.report(key + 'no progress', '%s succeeds without consuming anything' % fn.qn, st, fn.qn)
        b = base(fn.qn)
        if v is not False and b in RES and RES[b][1] < 2**63 and ('G', 'res') in a:
            x = st.read(('P', ('sym', 'resp')))
            lo, hi = RES[b]
            if x == TOP or not self.sure(st, cmp_('<=', const(lo), x)):
                self.report(key + 'negative', '%s succeeds with a negative number' % fn.qn, st, fn.qn)
        self.count('exits')


def _syms(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] in ('sym', 'fld', 'pure', 'elt', 'cont', 'ini'):
            out.add(v)
            if v[0] == 'pure' and v[1] != 'size':
                for x in v[2:]:
                    _syms(x, out)
            return out
        for x in v:
            _syms(x, out)
    return out


def _small(a):
    """sizes of containers and positions inside the given bytes"""
    return a[0] == 'pure' and a[1] == 'size' or a[0] == 'sym' and (str(a[1]) in ('start', 'r0', 'end', 'cap', 'off', 'dest') or ':pos' in str(a[1]))


def _size(fk):
    t = fk.rsplit('<', 1)[-1].split(',')[0].strip()
    return {'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4}.get(t, 8)


class Locals(Bytes):
    """users of the log encoding: the arrays they encode into, read into and decode from"""
    follow = frozenset()

    def __init__(self, P, f):
        super().__init__(P, f)
        self.types = {(k, d['d']): d['t'] for k, g in P.F.items() if g.cls == f.cls for n in g.nodes.values() if n['k'] == 'decl' for d in n['ds']}

    def part(self, st):
        return None

    def hints(self, st):
        return []

    def is_event(self, f, nid, n):
        return n.get('f', '').startswith('LogEncoderDecoder::') or n.get('f') in ('read', 'write', 'pread', 'pwrite') and f.cls in USERS

    def should_inline(self, k):
        return self.prog.F[k].cls == self.f.cls and Rule.should_inline(self, k)

    def on_node(self, en, st, f, fid, nid, n):
        if n['k'] == 'decl':
            for d in n['ds']:
                t = d['t'].replace('const ', '')
                if t.startswith(('char[', 'char [', 'unsigned char[')):
                    st.store[('G', ('cap', ('addr', ('L', fid, d['d']))))] = const(int(t[t.index('[') + 1:-1]))

    def where(self, st, v):
        if v != TOP and v[0] == 'addr' and v[1][0] == 'L':
            c = st.store.get(('G', ('cap', v)))
            t = self.types.get((st.stack[-1][0], v[1][2]))
            if c is None and plain(t or '') in WIDTH:
                w = {'char': 1, 'bool': 1, 'short': 2, 'int': 4}.get(plain(t).replace('unsigned ', '').replace('signed ', ''), 8)
                st.store[('G', ('cap', v))] = const(w)
            return (v, ZERO) if ('G', ('cap', v)) in st.store else None
        off = ZERO
        x = v
        while x != TOP and x[0] == 'addr' and x[1][0] == 'X':
            off = ladd(off, x[1][2]) if TOP not in (off, x[1][2]) else TOP
            x = to_addr(x[1][1])
        if x == TOP or off == TOP:
            return None
        if x != v and ('G', ('cap', x)) in st.store:
            return x, off
        if x[0] == 'lin':
            for a, k in lin(x)[0]:
                if k == 1 and ('G', ('cap', a)) in st.store:
                    return a, ladd(ladd(x, a, -1), off)
        return None

    def byte(self, st, f, nid, what, loc):
        if loc and loc[0] in ('X', 'P'):
            a = to_addr(loc) if loc[0] == 'X' else loc[1]
            if self.where(st, a):
                self.inside(st, f, nid, what, a, ONE)

    def on_ctor(self, en, st, f, fid, nid, n, args):
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = base(q)
        g = self.prog.F.get(n.get('fk')) if n.get('fk') else None
        if q.startswith('LogEncoderDecoder::') and g is not None and layout(g):
            self.count('codec_calls')
            L = layout(g)
            p, c = args[g.params.index(L[0])], args[g.params.index(L[1])]
            self.inside(st, f, nid, b, p, c)
            en.havoc_args(st, f, fid, nid, n, args)
            v = en.fresh(st, fid, nid, 'len', n.get('t', ''))
            if b.startswith('encode'):
                st.assume(cmp_('<=', const(-1), v))
                if c != TOP:
                    st.assume(cmp_('<=', v, c))
            return [(st, v)]
        if b in ('emplace_back', 'emplace', 'push_back') and len(args) == 2 and 'vector<std::' in q and 'string' in q and self.where(st, args[0]):
            self.count('entries_stored')
            v = args[1]
            self.inside(st, f, nid, 'log entry', args[0], st.read(v[1]) if v != TOP and v[0] == 'addr' else v)
            return None
        if q in ('read', 'write', 'pread', 'pwrite') and len(args) >= 3:
            if self.where(st, args[1]):
                self.count('transfers')
                self.inside(st, f, nid, q, args[1], args[2])
            en.havoc_args(st, f, fid, nid, n, args)
            v = en.fresh(st, fid, nid, 'n')
            st.assume(cmp_('<=', const(-1), v))
            if args[2] != TOP:
                st.assume(cmp_('<=', v, args[2]))
            return [(st, v)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('paths')


USERS = ('LogParser', 'TransferLogManager')


def users(P):
    out = set()
    for k, f in P.F.items():
        if f.cls in USERS and any(d['t'].replace('const ', '').startswith('char[') for n in f.nodes.values() if n['k'] == 'decl' for d in n['ds']):
            out.add(k)
    return sorted(out)


def setup(self):
    def s(st, fn, fid):
        L = layout(fn)
        prim = base(fn.qn) in PRIM
        r = next((p for p in fn.params if is_range(p['t']) and p.get('ref')), None)
        if L:
            buf, cap, off = L
            st.store[('L', fid, buf['d'])] = ('sym', 'dest')
            st.store[('G', ('cap', ('sym', 'dest')))] = ('sym', 'cap')
            st.store[('L', fid, cap['d'])] = ('sym', 'cap')
            st.store[('G', 'cap')] = ('sym', 'cap')
            st.store[('G', 'end')] = ladd(('sym', 'dest'), ('sym', 'cap'))
            st.assume(cmp_('<', ZERO, ('sym', 'dest')))
            st.assume(cmp_('<=', ZERO, ('sym', 'cap')))
            if off:
                st.store[('L', fid, off['d'])] = ('addr', ('P', ('sym', 'offp')))
                st.store[('P', ('sym', 'offp'))] = ('sym', 'off')
                st.store[('G', 'off')] = ('sym', 'off')
                if 'Var' not in base(fn.qn):
                    st.assume(cmp_('<=', ZERO, ('sym', 'off')))
                    st.assume(cmp_('<=', ('sym', 'off'), ('sym', 'cap')))
        if r:
            st.store[('L', fid, r['d'])] = ('addr', ('P', ('sym', 'rngp')))
            st.store[('P', ('sym', 'rngp'))] = ('sym', 'rngv')
            n = ('sym', 'cap')
            s0 = ('sym', 'start')
            st.assume(cmp_('<=', ZERO, n))
            st.store[('G', ('cap', s0))] = n
            self.put(st, ('P', ('sym', 'rngp')), s0, ladd(s0, n))
            st.store[('G', 'r0')] = s0
            st.store[('G', 'end')] = ladd(s0, n)
        res = [p for p in fn.params if p.get('ref') and not p['t'].startswith('const') and plain(p['t']) in WIDTH and p is not (L or (0, 0, 0))[2]]
        if base(fn.qn) in RES and res:
            st.store[('L', fid, res[0]['d'])] = ('addr', ('P', ('sym', 'resp')))
            st.store[('P', ('sym', 'resp'))] = ('sym', 'res0')
            st.store[('G', 'res')] = ONE
    return s


def entries(P):
    codec = lambda f: f.file.endswith(('SerializationUtil.h', 'SerializationUtil.cpp')) or \
        f.cls in ('Protocol', 'LogEncoderDecoder')
    out = []
    callers = P.callers()
    for k, f in P.F.items():
        if not codec(f) or not (layout(f) or any(is_range(p['t']) for p in f.params)):
            continue
        b = base(f.qn)
        if b in ('offset',):
            continue
        if b in PRIM or f.cls and b.startswith(('encode', 'decode')) and \
                any(P.F[c].cls != f.cls for c in callers.get(k, ()) if c in P.F):
            out.append(k)
    return sorted(set(out))


def run(P, c):
    ks = entries(P)
    c.counts['functions'] = len(ks)

    def one(ctx, k):
        r = Bytes(P, P.F[k])
        ctx.explore(r, k, setup=setup(r))
        ctx.absorb(r)
        for k2, v2 in r.stats.items():
            ctx.count(k2, v2)
        ctx.oblige('%s: %d accesses inside' % (P.F[k].qn, len(r.sites)), not r.viol)
    c.parallel(one, ks)

    def two(ctx, k):
        r = Locals(P, P.F[k])
        ctx.explore(r, k)
        ctx.absorb(r)
        for k2, v2 in r.stats.items():
            ctx.count(k2, v2)
        ctx.oblige('%s: %d uses of arrays inside' % (P.F[k].qn, len(r.sites)), not r.viol)
    us = users(P)
    c.parallel(two, us)
    c.floor('log_users', len(us), 6)
    c.floor('codec_calls', c.counts.get('codec_calls', 0), 12)
    c.floor('functions', len(ks), 30)
    c.floor('accesses', c.counts.get('accesses', 0), 60)
