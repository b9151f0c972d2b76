"""C18: the receiver serves only a sender that proved the transfer id on this connection."""
from wdtsa.sock import *

EXPLAIN = ('Every state function of the receiver is explored from an unknown value of its verified mark (known only in the '
           'states that may be entered with a verified connection). A path to a state that acts on a command needs the '
           'mark; a path that accepted a connection must leave it cleared; the mark may be set only where the '
           'sender\'s settings were decoded, both versions are equal and both transfer ids were compared equal.')
RULE = 'inductive state invariant over the state table; typestate of the verification'
ASSUME = ['transfer ids are not known to strangers (they are generated at random or chosen by the application)']

MARK = ('F', ('P', THIS), 'ReceiverThread::curConnectionVerified_')
VERSION = ('F', ('P', THIS), 'WdtThread::threadProtocolVersion_')
SERVED = ('PROCESS_FILE_CMD', 'PROCESS_DONE_CMD', 'PROCESS_SIZE_CMD', 'SEND_FILE_CHUNKS')


def is_set(st, v):
    """True, False or None"""
    if v == TOP:
        return None
    for x in (v, ('bool', v)):
        t = st.truth(cmp_('!=', x, ZERO))
        if t is not None:
            return t
    return None


class Verified(SockRule):
    K = 12
    follow = frozenset({'readAtLeast', 'readAtMost'})

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or self.cmp_call(n) or n.get('f', '').endswith('::getTransferId')

    def cmp_call(self, n):
        q = n.get('f', '')
        return n['k'] == 'call' and (q in ('std::operator==', 'std::operator!=') or q.startswith('std::basic_string<') and q.endswith('::compare'))

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.name == 'getTransferId' or f.cls in ('FileWriter', 'FileCreator', 'TransferLogManager', 'Throttler', 'TransferStats', 'Receiver', 'WdtBase', 'Protocol'):
            return False
        return super().should_inline(k)

    def part(self, st):
        v = st.read(MARK)
        return v, is_set(st, v), st.store.get(('G', 'id')), st.store.get(('G', 'settings')), st.store.get(('G', 'accepted')), st.store.get(('G', 'version'))

    def tag(self, st, v):
        if v == TOP:
            return None
        if v[0] == 'addr':
            if v[1][0] == 'F' and v[1][2] == 'Settings::transferId':
                return 'peer'
            v = st.read(v[1])
        if v == TOP:
            return None
        if v[0] == 'pure' and v[1] in ('own', 'peer'):
            return v[1]
        if v[0] == 'fld' and v[2] == 'Settings::transferId':
            return 'peer'
        return None

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q.endswith('::getTransferId'):
            return [(st, ('pure', 'own', ZERO))]
        if self.cmp_call(n):
            xs = ([('addr', obj)] if obj else []) + list(args)
            t = {self.tag(st, x) for x in xs}
            same = ONE if q.endswith('operator==') else ZERO
            if t == {'own', 'peer'} and len(xs) == 2:
                self.count('id_comparisons')
                a = st.copy()
                a.store[('G', 'id')] = ONE
                if q.endswith('compare'):
                    v = en.fresh(st, fid, nid, 'order')
                    st.assume(cmp_('!=', v, ZERO))
                    return [(a, ZERO), (st, v)]
                return [(a, same), (st, ZERO if same == ONE else ONE)]
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q == 'Protocol::decodeSettings':
            r = super().on_call(en, st, f, fid, nid, n, obj, args)
            for s, v in r:
                s.store[('G', 'settings')] = v
                s.store[('G', 'id')] = ZERO
            return r
        if q == 'Protocol::decodeVersion':
            r = super().on_call(en, st, f, fid, nid, n, obj, args)
            i = 3
            for s, v in r:
                if len(args) > i and args[i] != TOP:
                    x = en.fresh(s, fid, nid, 'version')
                    s.write(to_loc(args[i]), x)
                    s.store[('G', 'version')] = x if v == ONE else ZERO
            return r
        r = super().on_call(en, st, f, fid, nid, n, obj, args)
        if q.endswith('::acceptNextConnection') and r:
            self.count('accepts')
            r[0][0].store[('G', 'accepted')] = ONE
        return r

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] == 'std::basic_string' and len(args) == 1:
            t = self.tag(st, args[0])
            if t:
                st.env[(fid, nid)] = ('pure', t, ZERO)
                return [(st, ('pure', t, ZERO))]
        return None

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc != MARK or v == ZERO:
            return
        self.count('marks_set')
        g = st.store
        if g.get(('G', 'settings')) != ONE:
            self.report('%s: settings' % f.qn, 'a connection is marked verified without the sender\'s settings', st, f.loc(nid))
        if g.get(('G', 'id')) != ONE:
            self.report('%s: transfer id' % f.qn, 'a connection is marked verified although the transfer ids were not compared equal', st, f.loc(nid))
        x = g.get(('G', 'version'))
        if x is None or x == TOP or st.truth(cmp_('==', x, st.read(VERSION))) is not True:
            self.report('%s: version' % f.qn, 'a connection is marked verified although the protocol versions may differ', st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        v = st.read(MARK)
        for k, x in self.enum.items():
            if ret != TOP and st.truth(cmp_('==', ret, const(x))) is False:
                continue
            if k in SERVED and is_set(st, v) is not True:
                self.report('%s: %s' % (fn.qn, k), 'a command is served (%s) on a connection whose sender was not verified' % k, st, fn.loc())
            if st.store.get(('G', 'accepted')) == ONE and k not in ('END', 'FINISH_WITH_ERROR') and is_set(st, v) is not False:
                self.report('%s: accepted' % fn.qn, 'a new connection is taken as verified because an earlier one was', st, fn.loc())


def run(P, c):
    E = P.enum('ReceiverState')
    table = P.table('ReceiverThread::stateMap_')
    fs = sorted({f.key: f for f in P.F.values() if f.cls == 'ReceiverThread' and f.ret.rsplit('::', 1)[-1] == 'ReceiverState' and not f.params}.values(),
                key=lambda f: f.qn)
    c.need(len(fs) >= 13, 'only %d state functions found' % len(fs))
    seen = set()
    for f in fs:
        name = [k for k, v in E.items() if v < len(table) and table[v] == f.qn]
        if name and all(k in SERVED for k in name) and MARK[2] not in P.mods(f.key) and \
                not any(n.get('f', '').endswith('::acceptNextConnection') for k in P.transitive_callees(f.key) if k in P.F for _, n in P.F[k].calls()):
            c.oblige('%s serves only verified senders' % f.qn)          # entered with the mark and leaves it alone
            c.count('states_leaving_the_mark')
            continue
        r = Verified(P)
        r.enum = E

        def setup(st, fn, fid):
            if name and all(k in SERVED for k in name):
                st.store[MARK] = ONE
            else:
                st.store[MARK] = ('sym', 'mark')
        c.explore(r, f.key, setup=setup)
        c.need(r.stats.get('exits') or r.viol, 'no exit of %s reached' % f.qn)
        c.oblige('%s serves only verified senders' % f.qn, not r.viol)
        c.absorb(r)
        for k, v in r.stats.items():
            c.count(k, v)
    c.need(c.counts.get('id_comparisons'), 'no comparison of transfer ids found')
    c.need(c.counts.get('marks_set') , 'the verified mark is never set')
    c.need(c.counts.get('accepts', 0) >= 2, 'no accepted connection found')
    ok = {f.qn for f in fs} | {'ReceiverThread::reset'}
    for f in P.F.values():
        if MARK[2] in P.direct_mods(f) and f.name != f.cls:
            c.count('writers')
            c.check(f.qn in ok, '%s: mark' % f.qn, 'the verified mark is changed outside of the analysed functions', f.loc())
    f = P.fn('ReceiverThread::reset')
    r = Verified(P)
    r.enum = {}
    c.explore(r, f.key)
    c.absorb(r)
