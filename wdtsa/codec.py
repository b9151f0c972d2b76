"""Extracts the field sequence an encoder writes / a decoder reads."""
import itertools
from .engine import *

# primitive -> wire kind
ENC = {'encodeVarI64C': 'U', 'encodeVarU64': 'U', 'encodeVarI64': 'S',
       'encodeString': 'str', 'encodeInt16FixedLength': 'F16',
       'encodeInt32FixedLength': 'F32', 'encodeInt64FixedLength': 'F64'}
DEC = {'decodeInt64C': 'U', 'decodeInt32C': 'U', 'decodeUInt64': 'U',
       'decodeInt64': 'S', 'decodeInt32': 'S', 'decodeString': 'str',
       'decodeInt16FixedLength': 'F16', 'decodeInt32FixedLength': 'F32',
       'decodeInt64FixedLength': 'F64'}
MAXLEN = {'U': 9, 'S': 9, 'F16': 2, 'F32': 4, 'F64': 8, 'byte': 1}
RANGE = 'folly::Range<const unsigned char *>::'


def base(qn):
    return qn.rsplit('::', 1)[-1].split('<')[0]


def layout(f):
    """-> (version param or None, payload params)"""
    ps = f.params
    i = 0
    ver = None
    while i < len(ps) and 'char *' not in ps[i]['t'] and 'Range<' not in ps[i]['t']:
        if ps[i]['t'] in ('int', 'const int'):
            ver = ps[i]
        i += 1
    if i == len(ps):
        raise Broken('%s: cannot find the buffer parameter' % f.qn)
    off = None
    if 'Range<' in ps[i]['t']:
        return ver, ps[i + 1:], None, ps[i]
    buf = ps[i]
    i += 1
    if i < len(ps) and ps[i].get('ref') and ps[i]['t'].startswith('long'):
        off = ps[i]
        i += 1
    i += 1
    return ver, ps[i:], off, buf


LOOP = 2          # iterations of a loop that are compared


class Codec(Rule):
    K = 40
    small_blocks = 30
    maxdepth = 6

    def __init__(self, P, f, side, feed=None, fail='bool'):
        super().__init__(P)
        self.f = f
        self.side = side
        self.feed = feed or {}
        self.fail = fail
        self.seqs = set()
        self.finals = []
        self.ver, self.payload, self.off, self.buf = layout(f)
        self.sites = 0

    def init(self):
        # (events, failed, absolute position expected next, consumed-at, prefix)
        return ((), None, None, None, None)

    def is_event(self, fn, nid, n):
        b = base(n.get('f', ''))
        return b in ENC or b in DEC or n.get('f', '').startswith(RANGE) or b in ('storeUnaligned',)

    def should_inline(self, k):
        f = self.prog.F[k]
        b = base(f.qn)
        if b in ENC or b in DEC or f.qn in ('offset', 'makeByteRange'):
            return False
        return super().should_inline(k)

    # ---- names ----
    def name(self, v):
        if v is None or v == TOP:
            return None
        k = v[0]
        if k in ('bool', 'uns'):
            return self.name(v[1])
        if k == 'fld':
            return v[2]
        if k == 'F':
            return v[2] if isinstance(v[2], str) else None
        if k == 'addr':
            return self.name(v[1])
        if k == 'P':
            return self.name(v[1])
        if k == 'cont':
            return self.name(v[1])
        if k == 'pure' and v[1] in ('size', 'length'):
            return '#%s' % self.name(v[2])
        if k == 'sym' and isinstance(v[1], str) and v[1].startswith('arg:'):
            nm = v[1][4:]
            for i, p in enumerate(self.payload):
                if p['n'] == nm:
                    return 'p%d' % i
        return None

    def event(self, st, site, kind, name=None, cv=None, sym=None):
        """False when the path is beyond the loop bound"""
        ev, failed, pos, used, pre = st.rs
        st.rs = (ev + ((kind, name, cv, None if name else sym, site),), failed, pos, used, pre)
        return sum(1 for e in ev if e[4] == site) < LOOP

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = base(q)
        if b in ENC and self.side == 'enc' and len(args) == 4:
            self.sites += 1
            a = args[3]
            nm = self.name(a)
            cv = None
            if nm is None and a != TOP and f.nodes.get(n['a'][3], {}).get('lv'):
                nm = self.name(st.read(to_loc(a)))
            pos = None
            offloc = to_loc(args[2]) if args[2] != TOP else None
            if args[0] != TOP and offloc is not None:
                o = st.read(offloc)
                if o != TOP:
                    pos = ladd(args[0], o)
            if st.rs[2] is not None and st.rs[2] != pos:
                self.report('gap:%s' % b, '%s does not write right after the previous field' % b, st, f.loc(nid))
            bad = st.copy()
            bad.rs = (bad.rs[0], b, None, None, None)
            bad.note('%s %s() does not fit' % (f.loc(nid), b))
            new = en.fresh(st, fid, nid, 'off')
            if offloc is not None:
                st.write(offloc, new)
                bw = en.fresh(bad, fid, nid, 'offbad')
                bad.write(offloc, bw)
            ok = self.event(st, (fid, nid), ENC[b], nm)
            ev, failed, _, used, pre = st.rs
            st.rs = (ev, failed, ladd(args[0], new) if args[0] != TOP else None, used, pre)
            return [(st, ONE), (bad, ZERO)] if ok else [(bad, ZERO)]
        if b in DEC and self.side == 'dec' and len(args) == 2:
            self.sites += 1
            if args[1] == TOP:
                raise Broken('%s: target of %s unknown' % (f.loc(nid), b))
            loc = to_loc(args[1])
            nm = self.name(loc)
            s = en.fresh(st, fid, nid, 'dec')
            if ('count', len(st.rs[0])) in self.feed and DEC[b] == 'U':
                s = const(self.feed[('count', len(st.rs[0]))])
            elif DEC[b] in ('U', 'F16', 'F32', 'F64'):
                st.assume(cmp_('>=', s, ZERO))
                st.assume(cmp_('<=', s, const(2 ** 63 - 1)))
                st.assume(cmp_('>=', ('uns', s), ZERO))
                st.assume(cmp_('<=', ('uns', s), const(2 ** 63 - 1)))
            bad = st.copy()
            bad.rs = (bad.rs[0], b, None, None, None)
            bad.note('%s %s() fails' % (f.loc(nid), b))
            st.write(loc, s)
            if args[0] != TOP:
                st.write(to_loc(args[0]), en.fresh(st, fid, nid, 'br'))
            ok = self.event(st, (fid, nid), DEC[b], nm, None, s)
            return [(st, ONE), (bad, ZERO)] if ok else [(bad, ZERO)]
        if 'Range<const unsigned char *>' in q and self.side == 'dec':
            if b == 'front':
                i = len(st.rs[0])
                if i in self.feed:
                    v = const(self.feed[i])
                else:
                    v = ('uns', ('sym', ('front', i)))
                loc = ('T', fid, nid)
                st.write(loc, v)
                return [(st, ('addr', loc))]
            if b == 'pop_front':
                i = len(st.rs[0])
                ok = self.event(st, (fid, nid), 'byte', None, self.feed.get(i), ('sym', ('front', i)))
                return [(st, ZERO)] if ok else []
            if b in ('advance', 'uncheckedAdvance'):
                k = args[0]
                if k == ONE:
                    i = len(st.rs[0])
                    ok = self.event(st, (fid, nid), 'byte', None, self.feed.get(i), ('sym', ('front', i)))
                else:
                    ok = self.event(st, (fid, nid), 'skip')
                return [(st, ZERO)] if ok else []
            if b in ('empty', 'size', 'start', 'end', 'begin', 'data'):
                v = en.fresh(st, fid, nid, b, n.get('t', ''))
                if b == 'size':
                    st.assume(cmp_('>=', v, ZERO))
                return [(st, v)]
        if q == 'offset' and self.side == 'dec':
            ev, failed, pos, used, pre = st.rs
            st.rs = (ev, failed, pos, len(ev), pre)
            return [(st, ('sym', ('consumed', 0)))]
        if q == 'makeByteRange':
            v = en.fresh(st, fid, nid, 'range')
            return [(st, v)]
        if b == 'storeUnaligned' and self.side == 'enc':
            ev, failed, pos, used, pre = st.rs
            st.rs = (ev, failed, pos, used, (args[0], args[1]))
            return [(st, ZERO)]
        return None

    def on_write(self, en, st, fn, nid, n, loc, v):
        if self.side == 'enc':
            if loc[0] == 'X' and n.get('t', '') in ('char', 'unsigned char', 'signed char'):
                base_ = loc[1][1] if loc[1][0] == 'P' else None
                if base_ is None or base_ == TOP or loc[2] == TOP:
                    return
                if ('sym', 'arg:' + self.buf['n']) not in _atoms(base_):
                    return
                pos = ladd(base_, loc[2])
                if st.rs[2] is not None and st.rs[2] != pos:
                    self.report('gap:byte', 'a byte is not written right after the previous field', st, fn.loc(nid))
                cv = v[1] if v != TOP and v[0] == 'c' else None
                self.event(st, (0, nid), 'byte', self.name(v) if v != TOP else None, cv)
                ev, failed, _, used, pre = st.rs
                st.rs = (ev, failed, ladd(pos, ONE), used, pre)
                self.sites += 1
            return
        nm = self.name(loc)
        if nm is None or v == TOP:
            return
        x = v
        while x[0] in ('bool', 'uns'):
            x = x[1]
        ev = st.rs[0]
        for i, e in enumerate(ev):
            if e[1] is None and e[3] == x:
                ev = ev[:i] + ((e[0], nm, e[2], None, e[4]),) + ev[i + 1:]
                st.rs = (ev,) + st.rs[1:]
        if x[0] == 'sym' and isinstance(x[1], tuple) and x[1][0] == 'front' and x[1][1] == len(ev):
            # assigned before pop_front
            st.store[('G', ('peeked', x[1][1]))] = ('str', nm)

    def failing(self, st, en, ret):
        if ret is None or ret == TOP:
            return None
        if self.fail == 'bool':
            t = st.truth(en.boolean(st, ret))
            return None if t is None else not t
        t = st.truth(cmp_('<', ret, ZERO))      # encoded length or -1
        if t is None and ret != const(-1):
            return False
        return t

    def on_exit(self, en, st, fn, ret):
        ev, failed, pos, used, pre = st.rs
        fl = self.failing(st, en, ret)
        if failed is not None:
            if fl is not True:
                self.report('fail:%s' % failed, '%s can report success although %s() failed' % (fn.qn, failed), st, fn.loc())
            return
        if fl is True:
            return
        out = []
        for i, e in enumerate(ev):
            nm = e[1]
            if e[0] == 'byte' and nm is None:
                s = st.store.get(('G', ('peeked', i)))
                if s is not None:
                    nm = s[1]
            out.append((e[0], nm, e[2]))
        self.seqs.add(tuple(out))
        fin = {}
        for p in self.payload:
            for l, v in st.store.items():
                if l[0] == 'F' and l[1] == ('P', ('sym', 'arg:' + p['n'])):
                    fin[l[2]] = v
        self.finals.append(fin)
        buf = ('sym', 'arg:' + self.buf['n'])
        if self.side == 'enc':
            end = None
            if self.off is not None:
                o = st.read(('P', ('sym', 'arg:' + self.off['n'])))
                end = ladd(buf, o) if o != TOP else None
            elif self.fail == 'len' and ret not in (None, TOP):
                end = ladd(buf, ret)
            if pos is not None and end is not None and end != pos:
                self.report('end', '%s does not report the end of what it wrote' % fn.qn, st, fn.loc())
            if self.fail == 'len' and pos is not None:
                if pre is None or pre[0] == TOP or pre[1] == TOP:
                    self.report('prefix', '%s does not store the entry size' % fn.qn, st, fn.loc())
                elif pre[0] != buf or ladd(ladd(buf, pre[1]), const(2)) != pos:
                    self.report('prefix', '%s stores a size prefix that is not the entry size' % fn.qn, st, fn.loc())
        elif self.off is not None and ev:
            l = ('P', ('sym', 'arg:' + self.off['n']))
            o = st.read(l)
            if used != len(ev) or o == TOP or o != ladd(('ini', l) if False else ('cont', ('sym', 'arg:' + self.off['n'])), ('sym', ('consumed', 0))):
                self.report('consume', '%s does not advance the offset by what it read' % fn.qn, st, fn.loc())


def _atoms(v):
    s = set()
    atoms_of(v, s)
    return s


def finite_fields(P, f):
    """[(field qname, loc, values)] of bool/enum members of record payloads"""
    out = []
    _, payload, _, _ = layout(f)
    for p in payload:
        t = p['t'].replace('const ', '').replace(' &', '').replace('facebook::wdt::', '').strip()
        r = P.records.get(t)
        if not r:
            continue
        for fd in r['fields']:
            ft = fd['t'].replace('facebook::wdt::', '')
            vals = None
            if ft == 'bool':
                vals = [0, 1]
            elif ft in P.enums and len(P.enums[ft]['v']) <= 8:
                vals = sorted({e['v'] for e in P.enums[ft]['v']})
            if vals:
                out.append((fd['q'], ('F', ('P', ('sym', 'arg:' + p['n'])), fd['q']), vals))
    return out


def reads_field(P, f, q):
    for k in P.transitive_callees(f.key):
        for n in P.F[k].nodes.values():
            if n['k'] == 'm' and n.get('f') == q:
                return True
    return False


def run_side(c, P, f, side, version, assign, feed, fail):
    r = Codec(P, f, side, feed, fail)

    def setup(st, fn, fid):
        if r.ver is not None and version is not None:
            st.store[('L', fid, r.ver['d'])] = const(version)
        for loc, v in assign:
            st.store[loc] = const(v)
    c.explore(r, f.key, setup=setup)
    return r
