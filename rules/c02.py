"""C02: transfer-log entries are parsed back as written; the parser knows every kind."""
from wdtsa.engine import *
from wdtsa.codec import *
from rules.c01 import compare, gval

EXPLAIN = ('Field sequences of each log entry encoder and decoder are extracted along every path and '
           'compared; the parser is explored once per entry kind (its type byte fixed) and the decoders '
           'it reaches must be exactly the one of the encoder that writes that kind.')
RULE = ('sequence typestate per entry codec (as C01) plus size-prefix obligation; dispatch: per entry type, '
        'set of decoders called == {decoder of its encoder}, failure of the decoder => INVALID_LOG, '
        'unknown type => INVALID_LOG without decoding')
ASSUME = ['the integer primitives are inverse to each other', 'file names fit PATH_MAX']

E = 'LogEncoderDecoder::'
PAIRS = [('encodeLogHeader', 'decodeLogHeader'),
         ('encodeFileCreationEntry', 'decodeFileCreationEntry'),
         ('encodeBlockWriteEntry', 'decodeBlockWriteEntry'),
         ('encodeFileResizeEntry', 'decodeFileResizeEntry'),
         ('encodeFileInvalidationEntry', 'decodeFileInvalidationEntry'),
         ('encodeDirectoryInvalidationEntry', 'decodeDirectoryInvalidationEntry')]


KEYED = {'LogParser::fileInfoMap_', 'LogParser::seqIdToSizeMap_', 'LogParser::invalidSeqIds_'}
SEQ = {E + 'decodeFileCreationEntry': 2, E + 'decodeBlockWriteEntry': 1,
       E + 'decodeFileResizeEntry': 1, E + 'decodeFileInvalidationEntry': 1}


class Dispatch(Rule):
    """parse one entry of a fixed type, then end of file"""
    K = 8
    small_blocks = 20
    maxdepth = 5

    def __init__(self, P, typ, decs, invalid):
        super().__init__(P)
        self.typ = typ
        self.decs = decs
        self.invalid = invalid
        self.called = set()
        self.exits = 0
        self.keys = set()
        self.seq = None

    def init(self):
        # (entries read, decoder that failed, pending length)
        return (0, None)

    def is_event(self, fn, nid, n):
        return n.get('f') in self.decs or n.get('f') in ('read', 'pread')

    def should_inline(self, k):
        return self.prog.F[k].qn not in self.decs and super().should_inline(k)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in ('read', 'pread') and not n.get('o') and len(args) >= 3:
            i, bad = st.rs
            if args[1] == TOP or args[2] == TOP:
                raise Broken('%s: unknown read of the log' % f.loc(nid))
            if i >= 2:
                return [(st, ZERO)]                      # end of file
            loc = to_loc(args[1])
            if i == 0:
                st.write(loc, en.fresh(st, fid, nid, 'len'))
            else:
                st.write(('X', loc, ZERO), const(self.typ))
                st.store[('G', 'buf')] = to_addr(loc)
                st.store[('G', 'len')] = args[2]
            st.rs = (i + 1, bad)
            return [(st, args[2])]
        if q in self.decs:
            self.called.add(q)
            b, ln = args[0], args[1]
            buf, tot = st.store.get(('G', 'buf')), st.store.get(('G', 'len'))
            okb = b != TOP and buf is not None and self.off(b, buf) == 1
            if not okb or ln == TOP or ladd(ln, ONE) != tot:
                self.report('extent:%s' % q, '%s is not given exactly the bytes after the type byte' % q, st, f.loc(nid))
            en.havoc_args(st, f, fid, nid, n, args)
            bad = st.copy()
            bad.rs = (bad.rs[0], q)
            bad.note('%s %s fails' % (f.loc(nid), q))
            for k, a in enumerate(args[2:]):
                if a != TOP:
                    v = ('sym', 'dec:%d' % k)
                    st.assume(cmp_('>=', v, ZERO))
                    st.write(to_loc(a), v)
            return [(st, ONE), (bad, ZERO)]
        if obj is not None and obj[0] == 'F' and obj[2] in KEYED and base(q) in ('find', 'emplace', 'insert', 'erase', 'count', 'operator[]', 'at', 'try_emplace') and args and st.rs[0] == 2:
            k = en.rv(st, f, args[0], n['a'][0])
            if 'dec:' in repr(k):
                self.keys.add((obj[2], base(q)))
                if k != ('sym', 'dec:%d' % self.seq):
                    self.report('key:%s' % obj[2], '%s of the parsed entry is looked up with a field that is not its sequence id' % obj[2], st, f.loc(nid))
            if obj[2].endswith('seqIdToSizeMap_') and base(q) == 'emplace' and len(args) > 1:
                v = en.rv(st, f, args[1], n['a'][1])
                if v != ('sym', 'dec:3'):
                    self.report('size', 'the file size kept for a created file is not the logged one', st, f.loc(nid))
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        q = n.get('f', '')
        if q == 'Interval::Interval' and len(args) == 2 and st.rs[0] == 2:
            a, b = ('sym', 'dec:2'), ladd(('sym', 'dec:2'), ('sym', 'dec:3'))
            self.keys.add('Interval')
            if args[0] != a or args[1] != b:
                self.report('interval', 'a logged block is not recorded as [offset, offset + size)', st, f.loc(nid))
        return None

    def off(self, v, base_):
        d = ladd(v, base_, -1)
        if d[0] == 'c':
            return d[1]
        # &buf[k]
        if v[0] == 'addr' and v[1][0] == 'X' and to_addr(v[1][1]) == base_ and v[1][2][0] == 'c':
            return v[1][2][1]
        return None

    def on_exit(self, en, st, fn, ret):
        i, bad = st.rs
        self.exits += 1
        if bad is not None and ret != const(self.invalid):
            self.report('fail:%s' % bad, 'an entry that %s rejects does not make the log invalid' % bad, st, fn.loc())
        if self.want is None and i >= 2 and ret != const(self.invalid):
            self.report('unknown', 'an entry of unknown type %d does not make the log invalid' % self.typ, st, fn.loc())


def run(P, c):
    n = 0
    writes = {}
    for e, d in PAIRS:
        fe, fd = P.fn(E + e), P.fn(E + d)
        shift = len(layout(fd)[1]) - len(layout(fe)[1])
        c.need(shift >= 0, 'parameters of %s not understood' % e)
        n += compare(P, c, E + e, [E + d], [0], fail='len', drop=1, shift=shift)
        r = run_side(c, P, fe, 'enc', None, [], None, 'len')
        first = {s[0] for s in r.seqs if s}
        ok = len(first) == 1 and next(iter(first))[0] == 'byte' and next(iter(first))[2] is not None
        c.check(ok, '%s starts with its type byte' % e, '%s does not start with a fixed type byte' % e, fe.loc())
        if ok:
            writes.setdefault(next(iter(first))[2], []).append((E + e, E + d))
        # decoders must consume the whole entry
    types = P.enum('TransferLogManager::EntryType')
    invalid = P.enum('ErrorCode').get('INVALID_LOG')
    c.need(invalid is not None, 'INVALID_LOG not found')
    parse = P.fn('LogParser::parseLog')
    decs = {E + d for _, d in PAIRS}
    for name, v in sorted(types.items()):
        w = writes.get(v, [])
        if not c.check(len(w) == 1, 'entry type %s has one writer' % name,
                       'entry type %s is written by %d encoders' % (name, len(w)), parse.loc()):
            continue
        r = Dispatch(P, v, decs, invalid)
        r.want = w[0][1]
        r.seq = SEQ.get(r.want)
        c.explore(r, parse.key)
        if r.seq is not None:
            c.need(r.keys, 'the parsed data of %s entries is not recorded by sequence id' % name)
        c.need(r.exits, 'parser has no exit')
        c.check(r.called == {r.want}, 'entry type %s is parsed with %s' % (name, r.want),
                'an entry of type %s (written by %s) is parsed by %s' % (name, w[0][0], sorted(r.called) or 'nothing'), parse.loc())
        c.absorb(r, name + ' ')
    for v in writes:
        c.check(v in types.values(), 'type byte %d is an entry type' % v, 'type byte %d is not an entry type' % v, parse.loc())
    for v in (max(types.values()) + 1, 127, -1):
        r = Dispatch(P, v, decs, invalid)
        r.want = None
        c.explore(r, parse.key)
        c.check(not r.called, 'unknown entry type %d is not decoded' % v,
                'an entry of unknown type %d is decoded by %s' % (v, sorted(r.called)), parse.loc())
        c.absorb(r, 'type %d ' % v)
    need = 2 + 1 + 3 * 9 + (2 + 4095)
    have = gval(P, 'TransferLogManager::kMaxEntryLength')
    c.check(have >= need, 'the longest entry fits kMaxEntryLength',
            'kMaxEntryLength is %d but an entry can take %d bytes' % (have, need), 'TransferLogManager.h')
