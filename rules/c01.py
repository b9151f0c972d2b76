"""C01: encoder and decoder of every wire message agree at every version."""
import itertools
from wdtsa.engine import *
from wdtsa.codec import *

EXPLAIN = ('For each wire message, the encoder and the decoder(s) are explored along every '
           'path with the protocol version fixed to each version interval and every '
           'boolean/enumerated field fixed to each of its values; the sets of '
           '(encoding, field) sequences of their successful paths must be equal, and a '
           'failed primitive must make the routine fail.')
RULE = ('sequence typestate: each primitive appends (encoding, field); failure of a primitive '
        'forks into a path that must return failure; each write must follow the previous one '
        'without a gap; the decoder must advance the offset by what it read')
ASSUME = ['the integer primitives of SerializationUtil are inverse to each other (their '
          'arithmetic is not decided here)',
          'fields the encoder writes are non-negative where an unsigned encoding is used']

PAIRS = [
    ('Protocol::encodeHeader', ['Protocol::decodeHeader']),
    ('Protocol::encodeCheckpoints', ['Protocol::decodeCheckpoints']),
    ('Protocol::encodeDone', ['Protocol::decodeDone']),
    ('Protocol::encodeSize', ['Protocol::decodeSize']),
    ('Protocol::encodeAbort', ['Protocol::decodeAbort']),
    ('Protocol::encodeChunksCmd', ['Protocol::decodeChunksCmd']),
    ('Protocol::encodeFileChunksInfo', ['Protocol::decodeFileChunksInfo']),
    ('Protocol::encodeChunkInfo', ['Protocol::decodeChunkInfo']),
    ('Protocol::encodeSettings', ['Protocol::decodeVersion', 'Protocol::decodeSettings']),
    ('Protocol::encodeEncryptionSettings', ['Protocol::decodeEncryptionSettings']),
    ('Protocol::encodeFooter', ['Protocol::decodeFooter']),
]


def show(seq):
    return ' '.join('%s:%s%s' % (k, n.rsplit('::', 1)[-1] if isinstance(n, str) else '?',
                                 '' if cv is None else '=%d' % cv) for k, n, cv in seq) or '(nothing)'


def same(e, d, shift=0):
    if len(e) != len(d):
        return False
    for x, y in zip(e, d):
        if x[0] != y[0]:
            return False
        if x[0] == 'byte' and x[2] is not None:
            continue                # its meaning is compared value by value
        a, b = x[1], y[1]
        if a is not None and a.startswith('#'):
            a = None
            if b is None:
                continue
        if a is None and b is None:
            continue
        if a == b:
            continue
        if shift and a and b and a[0] == 'p' and b[0] == 'p' and a[1:].isdigit() and b[1:].isdigit() \
                and int(a[1:]) + shift == int(b[1:]):
            continue
        if shift and a is None and b and b[0] == 'p' and b[1:].isdigit() and int(b[1:]) < shift:
            continue
        return False
    return True


def compare(P, c, enc, decs, versions, fail='bool', drop=0, shift=None, skipver=False):
    fe = P.fn(enc)
    fd = [P.fn(d) for d in decs]
    ff = [x for x in finite_fields(P, fe) if reads_field(P, fe, x[0])]
    c.need(len(ff) <= 6, 'too many finite fields in ' + enc)
    nseq = 0
    vs = versions if layout(fe)[0] is not None or any(layout(d)[0] is not None for d in fd) else [None]
    for v in vs:
        table = {}
        for combo in itertools.product(*[x[2] for x in ff]):
            assign = [(x[1], val) for x, val in zip(ff, combo)]
            re = run_side(c, P, fe, 'enc', v, assign, None, fail)
            c.absorb(re, enc + ' ')
            c.need(re.sites, 'no encoding primitive found in ' + enc)
            c.need(re.seqs, 'no successful path in %s' % enc)
            feeds = {tuple((i - drop, e[2]) for i, e in enumerate(s) if i >= drop and e[0] == 'byte' and e[2] is not None)
                     for s in re.seqs}
            es = {s[drop:] for s in re.seqs}
            table[combo] = feeds
            want = {x[0]: val for x, val in zip(ff, combo)}
            for feed in feeds:
                seqs = {()}
                finals = []
                for d in fd:
                    out = set()
                    for pre in seqs:
                        fmap = {i - len(pre): b for i, b in feed if i >= len(pre)}
                        rd = run_side(c, P, d, 'dec', v, [], fmap, 'bool')
                        c.absorb(rd, d.qn + ' ')
                        c.need(rd.sites or any('byte' == x[0] for s in rd.seqs for x in s),
                               'no decoding primitive found in ' + d.qn)
                        own = {x[0] for x in finite_fields(P, d)}
                        finals += [(own, x) for x in rd.finals]
                        for s in rd.seqs:
                            out.add(pre + s)
                    seqs = out
                ef = {s for s in es if tuple((i, e[2]) for i, e in enumerate(s) if e[0] == 'byte' and e[2] is not None) == feed}
                nseq += len(ef) + len(seqs)
                vt = '' if v is None else ' at version %d' % v
                for s in ef:
                    if skipver:
                        s = (('U', None, None),) + s[1:]
                    ok = any(same(s, t, shift or 0) for t in seqs)
                    if skipver:
                        ok = any(len(t) == len(s) and t[:1] and t[0][0] == s[0][0] and same(s[1:], t[1:]) for t in seqs)
                    c.check(ok, '%s is read back field by field%s' % (enc, vt),
                            '%s writes [%s] but %s reads [%s]%s' %
                            (enc, show(s), '+'.join(decs), '] or ['.join(show(t) for t in list(seqs)[:3]), vt),
                            fe.loc())
                for t in seqs:
                    ok = any(same(s, t, shift or 0) or skipver and len(s) == len(t) and same(s[1:], t[1:]) for s in ef)
                    c.check(ok, '%s reads only what %s writes%s' % ('+'.join(decs), enc, vt),
                            '%s can read [%s] which %s does not write%s' % ('+'.join(decs), show(t), enc, vt),
                            fd[-1].loc())
                if feed:
                    for own, fin in finals:
                        for q, val in want.items():
                            if q not in own:
                                continue
                            g = fin.get(q)
                            if g is not None and g != TOP and g[0] == 'c':
                                c.check(g[1] == val, '%s survives the wire%s' % (q, vt),
                                        '%s=%d is encoded by %s but decoded as %d%s' % (q, val, enc, g[1], vt), fd[-1].loc())
                            elif _depends(table, ff, q):
                                c.violation('%s survives the wire%s' % (q, vt),
                                            '%s is encoded in a flag byte by %s but not decoded%s' % (q, enc, vt), fd[-1].loc())
            counts(P, c, enc, fe, fd[-1], v, es)
            if v == versions[-1] or v is None:
                for s in list(es)[:1]:
                    c.sample('%s: %s' % (enc, show(s)))
        # a finite field whose value never reaches the wire is only fine if
        # the decoder does not claim to decode it
    c.count('sequences_compared', nseq)
    c.count('message_versions', len(vs))
    return nseq


def counts(P, c, enc, fe, d, v, es):
    """an element count of k makes the decoder read exactly k elements"""
    idx = {i for s in es for i, e in enumerate(s) if isinstance(e[1], str) and e[1].startswith('#')}
    lens = sorted({len(s) for s in es})
    if len(idx) != 1 or len(lens) < 2:
        return
    i = idx.pop()
    for k, n in enumerate(lens):
        rd = run_side(c, P, d, 'dec', v, [], {('count', i): k}, 'bool')
        got = {len(s) for s in rd.seqs}
        c.check(got == {n} or (k == len(lens) - 1 and got <= {n}),
                '%s reads as many elements as announced' % d.qn,
                '%s reads %s field(s) when %d element(s) are announced, %s writes %d' %
                (d.qn, sorted(got), k, enc, n), d.loc())


def _depends(table, ff, q):
    idx = [i for i, x in enumerate(ff) if x[0] == q][0]
    for combo, feeds in table.items():
        for other, f2 in table.items():
            if combo != other and all(a == b for i, (a, b) in enumerate(zip(combo, other)) if i != idx) and feeds != f2:
                return True
    return False


def versions(P, c):
    """the ends of every interval on which the version tests cannot change"""
    vs = set()
    for k in P.globals:
        if k.startswith('::Protocol::') and (k.endswith('_VERSION') or k.endswith('VARINT_CHANGE')) \
                and P.globals[k].get('cv') is not None:
            vs |= {P.globals[k]['cv'], P.globals[k]['cv'] - 1}
    cur = P.globals.get('::Protocol::protocol_version', {}).get('cv')
    c.need(cur, 'Protocol::protocol_version not found')
    c.need(len(vs) >= 10, 'version constants not found')
    return sorted(v for v in vs | {10, cur} if 10 <= v <= cur)


def gval(P, name):
    g = P.globals.get('::' + name)
    if not g or g.get('cv') is None:
        raise Broken('constant %s not found' % name)
    return g['cv']


def run(P, c):
    vs = versions(P, c)
    if c.tier == 'thorough':
        vs = list(range(10, vs[-1] + 1))
    for enc, decs in PAIRS:
        compare(P, c, enc, decs, vs, skipver=(enc == 'Protocol::encodeSettings'))
    primitives(P, c)
    lists(P, c)
    lengths(P, c, vs)
    call_sites(P, c)


class Prim(Rule):
    """failure of an inner routine must be failure of the outer one"""
    K = 30
    small_blocks = 30

    def __init__(self, P, inner, fail='bool'):
        super().__init__(P)
        self.inner = inner
        self.sites = 0
        self.ok_exits = 0

    def init(self):
        return None

    def is_event(self, fn, nid, n):
        return base(n.get('f', '')) in self.inner and not n['k'] == 'dtor'

    def should_inline(self, k):
        return base(self.prog.F[k].qn) not in self.inner and super().should_inline(k)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = base(n.get('f', ''))
        if b not in self.inner or n.get('t') != 'bool':
            return None
        self.sites += 1
        en.havoc_args(st, f, fid, nid, n, args)
        bad = st.copy()
        bad.rs = b
        bad.note('%s %s() fails' % (f.loc(nid), b))
        return [(st, ONE), (bad, ZERO)]

    def on_exit(self, en, st, fn, ret):
        t = None if ret in (None, TOP) else st.truth(en.boolean(st, ret))
        if st.rs is not None and t is not False:
            self.report('fail:%s' % st.rs, '%s can report success although %s() failed' % (fn.qn, st.rs), st, fn.loc())
        if t is not False:
            self.ok_exits += 1
            self.success(en, st, fn)

    def success(self, en, st, fn):
        pass


class Narrow(Prim):
    lo = hi = None

    def success(self, en, st, fn):
        out = fn.params[-1]['n']
        v = st.read(('P', ('sym', 'arg:' + out)))
        ok = v != TOP and st.truth(cmp_('<=', v, const(self.hi))) and \
            (self.lo is None or st.truth(cmp_('>=', v, const(self.lo))))
        if not ok:
            self.report('range', '%s can report success for a value that does not fit' % fn.qn, st, fn.loc())


RAW = {'decodeVarU64', 'decodeVarI64', 'encodeVarU64'}
I32 = 2 ** 31 - 1


def primitives(P, c):
    allp = set(ENC) | set(DEC) | RAW | {'decodeIntFixedLength', 'encodeIntFixedLength'}
    n = 0
    for b in sorted((set(ENC) | set(DEC) | {'decodeVarI64'}) - {'encodeVarU64'}):
        for f in P.by_qn.get(b, []):
            if not f.ret == 'bool':
                continue
            r = Narrow(P, allp) if b in ('decodeInt32', 'decodeInt32C', 'decodeInt64C') else Prim(P, allp)
            if b == 'decodeInt32':
                r.lo, r.hi = -I32 - 1, I32
            if b == 'decodeInt32C':
                r.lo, r.hi = 0, I32
            if b == 'decodeInt64C':
                r.lo, r.hi = None, 2 ** 63 - 1
            c.explore(r, f.key)
            c.need(r.sites, 'no inner primitive in ' + b)
            c.oblige('%s fails when the primitive it uses fails' % b, not r.viol)
            c.absorb(r, b + ' ')
            n += 1
            # family: zigzag only in the signed family, fixed width where named
            reach = {base(P.F[k].qn) for k in P.transitive_callees(f.key)}
            kind = ENC.get(b) or DEC.get(b)
            zig = 'encodeZigZag' in reach or 'decodeZigZag' in reach
            if kind in ('U', 'S', 'str'):
                c.check(zig == (kind == 'S'), '%s uses the %s varint' % (b, 'signed' if kind == 'S' else 'unsigned'),
                        '%s %s the signed (zigzag) encoding' % (b, 'uses' if zig else 'does not use'), f.loc())
    c.floor('primitives', n, 13)
    # fixed width: same byte order and width on both sides
    widths = {}
    for b in ('encodeIntFixedLength', 'decodeIntFixedLength'):
        fs = P.by_qn.get(b, [])
        c.need(fs, b + ' not found')
        for f in fs:
            swaps, width = 0, None
            for k in P.transitive_callees(f.key):
                g = P.F[k]
                for nid, n_ in g.calls():
                    q = n_.get('f', '')
                    if q.startswith('folly::Endian::little'):
                        swaps += 1
                    elif q.startswith('folly::Endian::'):
                        swaps += 100
                    if base(q) in ('storeUnaligned', 'loadUnaligned'):
                        width = n_['fk'][n_['fk'].rfind('<'):] if 'fk' in n_ else None
            last = [p for p in f.params if p['n'] != 'off'][-1]['t'].replace('const ', '').replace(' &', '')
            widths.setdefault(last, []).append((b, swaps, f))
    for t, l in widths.items():
        c.check(len(l) == 2 and l[0][1] == l[1][1], 'fixed length %s has one byte order' % t,
                'fixed length %s is written and read with different byte order conversions (%s)' %
                (t, ', '.join('%s:%d' % (b, s) for b, s, _ in l)), l[0][2].loc())


def lists(P, c):
    """the chunk-list decoder fails when an element does not decode"""
    f = P.fn('Protocol::decodeFileChunksInfoList')
    r = Prim(P, {'decodeFileChunksInfo'})
    c.explore(r, f.key)
    c.need(r.sites, 'no element decoder called in decodeFileChunksInfoList')
    c.oblige('decodeFileChunksInfoList fails when an element does not decode', not r.viol)
    c.absorb(r, 'decodeFileChunksInfoList ')
    f = P.fn('Protocol::encodeFileChunksInfoList')
    reach = {P.F[k].qn for k in P.transitive_callees(f.key)}
    c.check('Protocol::encodeFileChunksInfo' in reach, 'chunk list elements are encoded with their own encoder',
            'encodeFileChunksInfoList does not encode its elements with encodeFileChunksInfo', f.loc())


def call_sites(P, c):
    """both ends pass the negotiated version, never a fixed one"""
    n = 0
    codecs = {x for e, ds in PAIRS for x in [e] + ds}
    for k, f in sorted(P.F.items()):
        for nid, node in f.calls():
            q = node.get('f')
            if q not in codecs or f.qn in codecs:
                continue
            ver = layout(P.fn(q))[0]
            if ver is None:
                continue
            i = [p['n'] for p in P.fn(q).params].index(ver['n'])
            a = f.nodes[node['a'][i]]
            fixed = any('cv' in f.nodes[x] or f.nodes[x]['k'] == 'v' and f.nodes[x].get('d', '').startswith('::Protocol::')
                        for x in f.subnodes(node['a'][i]))
            n += 1
            c.check(not fixed, '%s called with a negotiated version in %s' % (q, f.qn),
                    '%s is called with a fixed protocol version' % q, f.loc(nid))
    c.floor('versioned_call_sites', n, 6)


class ConstRet(Rule):
    def __init__(self, P):
        super().__init__(P)
        self.vals = []

    def on_exit(self, en, st, fn, ret):
        self.vals.append(ret[1] if ret not in (None, TOP) and ret[0] == 'c' else None)


def lengths(P, c, vs):
    """fixed-size messages have exactly, bounded ones at most, the declared size"""
    def longest(enc, v, s=None, extra=None):
        f = P.fn(enc)
        ff = [x for x in finite_fields(P, f) if reads_field(P, f, x[0])]
        best = 0
        for combo in itertools.product(*[x[2] for x in ff]):
            r = run_side(c, P, f, 'enc', v, [(x[1], val) for x, val in zip(ff, combo)], None, 'bool')
            for q in r.seqs:
                t = 0
                for kind, nm, _ in q:
                    t += s if kind == 'str' else (extra or {}).get(nm, MAXLEN[kind])
                best = max(best, t)
        return best
    pathmax = 4096
    tid = gval(P, 'Protocol::kMaxTransferIdLength')
    obligations = [
        ('Protocol::kAbortLength', longest('Protocol::encodeAbort', None), 'exact'),
        ('Protocol::kChunksCmdLen', longest('Protocol::encodeChunksCmd', None), 'exact'),
        ('Protocol::kMaxDone', 2 + longest('Protocol::encodeDone', vs[-1]), 'max'),
        ('Protocol::kMaxSize', 1 + longest('Protocol::encodeSize', None), 'max'),
        ('Protocol::kMaxFooter', 1 + longest('Protocol::encodeFooter', None), 'max'),
        ('Protocol::kMaxHeader', 1 + longest('Protocol::encodeHeader', vs[-1], 2 + pathmax), 'max'),
        ('Protocol::kMaxSettings', 1 + longest('Protocol::encodeSettings', vs[-1], tid), 'max'),
        ('Protocol::kMaxVersion', MAXLEN['U'], 'max'),
        ('Protocol::kMaxChunkEncodeLen', longest('Protocol::encodeChunkInfo', None), 'max'),
        ('Protocol::kEncryptionCmdLen',
         1 + longest('Protocol::encodeEncryptionSettings', None, 1 + gval(P, 'kAESBlockSize'), {'p0': 1}), 'exact'),
    ]
    # the local checkpoint has a fixed length on the wire, one checkpoint long
    for v in vs:
        f = P.fn('Protocol::encodeCheckpoints')
        r = run_side(c, P, f, 'enc', v, [], None, 'bool')
        one = [len(q) for q in r.seqs]
        one = sorted(set(one))
        c.need(len(one) >= 2, 'checkpoint loop not recognised')
        need = 1 + MAXLEN['U'] * (one[1] - one[0])
        g = P.fn('Protocol::getMaxLocalCheckpointLength')
        cr = ConstRet(P)
        c.explore(cr, g.key, setup=lambda st, fn, fid: st.store.__setitem__(('L', fid, fn.params[0]['d']), const(v)))
        c.need(cr.vals and all(x is not None for x in cr.vals), 'getMaxLocalCheckpointLength is not a constant per version')
        c.check(min(cr.vals) >= need, 'local checkpoint length at version %d' % v,
                'a local checkpoint can take %d bytes at version %d but %d are exchanged' % (need, v, min(cr.vals)), g.loc())
    for name, need, kind in obligations:
        have = gval(P, name)
        ok = have == need if kind == 'exact' else have >= need
        c.check(ok, '%s matches the encoding' % name,
                '%s is %d but the encoding takes %s%d bytes' % (name, have, '' if kind == 'exact' else 'up to ', need),
                'Protocol.h')
