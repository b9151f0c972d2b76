"""Path-sensitive typestate dataflow over the clang CFGs of /repo.

A rule's automaton state is carried along every control-flow path of an entry
function together with a small abstract store; helper functions of /repo are
followed interprocedurally (call-string cloning).  Branch conditions refine
interval facts over linear forms (wdtsa.values); states at one program point
with the same rule state are joined when there are more than K of them (as in
ESP).  Nothing is executed and no solver is involved."""
import heapq
import os
from .values import *
from .program import Broken

TOP = ('top',)
THIS = ('sym', 'this')


class Budget(Broken):
    pass


class Trace:
    __slots__ = ('prev', 'txt')

    def __init__(self, prev, txt):
        self.prev = prev
        self.txt = txt

    def lines(self, limit=40):
        out = []
        t = self
        while t and len(out) < limit:
            out.append(t.txt)
            t = t.prev
        return out[::-1]


class State:
    __slots__ = ('stack', 'store', 'facts', 'env', 'rs', 'syms', 'trace')

    def __init__(self):
        self.stack = ()
        self.store = {}
        self.facts = {}
        self.env = {}
        self.rs = None
        self.syms = {}
        self.trace = None

    def copy(self):
        s = State()
        s.stack = self.stack
        s.store = dict(self.store)
        s.facts = self.facts
        s.env = dict(self.env)
        s.rs = self.rs
        s.syms = dict(self.syms)
        s.trace = self.trace
        return s

    def note(self, txt):
        self.trace = Trace(self.trace, txt)

    # ---- facts ----
    def assume(self, v, want=True):
        if v == TOP:
            return True
        f = assume(v, want, self.facts)
        if f is None:
            return False
        self.facts = f
        return True

    def truth(self, v):
        if v == TOP:
            return None
        return truth(v, self.facts)

    # ---- store ----
    def read(self, loc):
        v = self.store.get(loc)
        if v is not None:
            return v
        k = loc[0]
        if k == 'F':
            b = self.read(loc[1])
            return TOP if b == TOP else ('fld', b, loc[2])
        if k == 'X':
            b = self.read(loc[1])
            if b == TOP or loc[2] == TOP:
                return TOP
            return ('elt', b, loc[2])
        if k == 'P':
            return TOP if loc[1] == TOP else ('cont', loc[1])
        return ('ini', loc)

    def kill_children(self, loc):
        dead = [l for l in self.store if _is_under(l, loc)]
        for l in dead:
            del self.store[l]

    def write(self, loc, v):
        self.kill_children(loc)
        if loc[0] == 'X' and loc[2][0] != 'c':
            base = loc[1]
            for l in [l for l in self.store if l[0] == 'X' and l[1] == base]:
                del self.store[l]
        self.store[loc] = v

    def copy_obj(self, src, dst):
        subs = [(l, v) for l, v in self.store.items() if _is_under(l, src)]
        self.write(dst, self.read(src))
        for l, v in subs:
            self.store[_rebase(l, src, dst)] = v


def _is_under(l, loc):
    while l[0] in ('F', 'X'):
        l = l[1]
        if l == loc:
            return True
        if l[0] == 'P' and l[1][0] == 'addr' and l[1][1] == loc:
            return True
    return False


def _rebase(l, src, dst):
    if l == src:
        return dst
    return (l[0], _rebase(l[1], src, dst), l[2])


def loc_frame(l):
    while True:
        k = l[0]
        if k in ('F', 'X'):
            l = l[1]
        elif k == 'P' and l[1][0] == 'addr':
            l = l[1][1]
        elif k in ('L', 'T', 'this', 'cap'):
            return l[1]
        else:
            return None


def to_loc(addr):
    """location an address value denotes"""
    if addr[0] == 'addr':
        return addr[1]
    return ('P', addr)


def to_addr(loc):
    if loc[0] == 'P':
        return loc[1]
    return ('addr', loc)


STREAM = 'std::basic_ostream<'
STD_PASS = {'std::move', 'std::forward', 'std::__addressof', 'std::addressof'}
CONTAINERS = ('std::basic_string<', 'std::vector<', 'std::deque<', 'std::set<', 'std::map<',
              'std::unordered_map<', 'std::unordered_set<', 'std::priority_queue<', 'std::list<')
DEBUG = os.environ.get('WDTSA_DBG')
ARITH = ('c', 'sym', 'lin', 'fld', 'elt', 'cont', 'pure', 'uns')
GROUPED = ('sym', 'lin', 'fld', 'elt', 'cont', 'pure', 'uns', 'bool', 'op')
NONNUM = ('addr', 'clos', 'str', 'guard')
UPTR_GET = ('operator->', 'operator*', 'get')


NEVER_CLS = frozenset({'PerfStatCollector', 'PerfStatReport'})


def equalities(st):
    """known equations, each solved for one atom"""
    out = []
    for t, (lo, hi, _) in st.facts.items():
        if lo == hi and len(t) > 1:
            ats = [x for x in t if abs(x[1]) == 1 and x[0][0] not in ('bool', 'cmp')]
            if not ats:
                continue
            at, c = max(ats, key=lambda x: (x[0][0] == 'sym', skey(x[0])))
            e = lmul(mk(tuple(x for x in t if x[0] != at), -lo), -c)
            out.append((at, e))
    return out


def canon(v, eqs):
    for _ in range(4):
        hit = False
        for at, e in eqs:
            c = dict(lin(v)[0]).get(at)
            if c:
                v = ladd(ladd(v, lmul(at, c), -1), lmul(e, c))
                if v[0] == 'op':
                    return v
                hit = True
        if not hit:
            break
    return v


class Rule:
    """Base class of the typestate rules."""
    name = ''
    opaque = frozenset()      # qualified names never followed
    follow = frozenset()      # qualified names always followed
    small_blocks = 12
    maxdepth = 14
    K = 24
    maxsteps = 400000
    lock_havoc = True
    flags = ()                # ghost flags that are never merged
    exact = False             # rule.cast decides what integer conversions yield
    affine = False            # joins keep v = +-w + c relations

    def __init__(self, prog):
        self.prog = prog
        self.viol = {}
        self.stats = {}
        self._rel = None
        self._small = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def report(self, key, msg, st=None, where=''):
        if key not in self.viol:
            if DEBUG and st:
                print('==== %s %s\n  rs %s' % (key, where, st.rs))
                for l, v in st.store.items():
                    print('   S %s = %s' % (l, v))
                for t, x in st.facts.items():
                    print('   F %s in %s' % (t, x))
            self.viol[key] = {'msg': msg, 'where': where,
                              'path': st.trace.lines() if st and st.trace else []}

    # -- hooks --
    def init(self):
        return ()

    def is_event(self, fn, nid, n):
        """does this call/ctor/dtor node matter to the rule?"""
        return False

    def on_call(self, en, st, fn, fid, nid, n, obj, args):
        """None: default. Otherwise list of (state, value)."""
        return None

    def on_ctor(self, en, st, fn, fid, nid, n, args):
        return None

    def on_dtor(self, en, st, fn, fid, nid, n, loc):
        return None

    def on_write(self, en, st, fn, nid, n, loc, v):
        pass

    def on_read(self, en, st, fn, nid, n, loc):
        pass

    def on_branch(self, en, st, fn, b, cond, took):
        return True

    def on_node(self, en, st, fn, fid, nid, n):
        pass

    def on_enter(self, en, st, callee, fid):
        pass

    def on_leave(self, en, st, callee, fid, ret):
        pass

    def on_exit(self, en, st, fn, ret):
        """path of the entry function ended with value ret"""
        pass

    def on_end(self, en, st, fn, why):
        """path ended in a throw / noreturn call"""
        pass

    def part(self, st):
        """states with different values of this are never joined"""
        return None

    thresholds = ()         # interval ends kept by joins, besides 1, 0 and -1

    def limits(self, st):
        """values that joined variables are compared with"""
        return ()

    def hints(self, st):
        """comparisons worth keeping when states are joined: a fixed-length
        list of values; what both sides agree on holds afterwards"""
        return ()

    # -- inlining policy --
    def relevant(self):
        if self._rel is None:
            P = self.prog
            rel = set()
            callers = {}
            work = []
            for k, f in P.F.items():
                for nid, n in f.calls():
                    for t in P.targets(n):
                        callers.setdefault(t, set()).add(k)
                    if self.is_event(f, nid, n):
                        if k not in rel:
                            rel.add(k)
                            work.append(k)
                for n in f.nodes.values():
                    if n['k'] == 'lam':
                        callers.setdefault(n['fk'], set()).add(k)
            for k in self.extra_relevant():
                if k in P.F and k not in rel:
                    rel.add(k)
                    work.append(k)
            while work:
                k = work.pop()
                f = P.F[k]
                if f.qn in self.opaque:
                    continue
                for c in callers.get(k, ()):
                    if c not in rel:
                        rel.add(c)
                        work.append(c)
            self._rel = rel
        return self._rel

    def extra_relevant(self):
        return ()

    def small(self, k, depth=0):
        key = (k, depth > 2)
        if key in self._small:
            return self._small[key]
        self._small[key] = False
        f = self.prog.F[k]
        r = len(f.reachable()) <= self.small_blocks
        if r:
            for _, n in f.calls():
                for t in self.prog.targets(n):
                    if depth >= 2 or n.get('virt') or not self.small(t, depth + 1):
                        r = False
                        break
                if not r:
                    break
        self._small[key] = r
        return r

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.qn in self.opaque or f.cls in NEVER_CLS:
            return False
        if f.qn in self.follow:
            return True
        return k in self.relevant() or self.small(k)


class Engine:
    def __init__(self, prog, rule):
        self.P = prog
        self.rule = rule
        self.fids = {}
        self.steps = 0
        self.visited = set()       # (fkey, block)
        self.funcs = set()

    # ---- frame ids ----
    def fid(self, path):
        if path not in self.fids:
            self.fids[path] = len(self.fids) + 1
        return self.fids[path]

    def run(self, entry, this=THIS, setup=None):
        f = self.P.F[entry] if entry in self.P.F else self.P.fn(entry)
        st = State()
        fid = self.fid((f.key,))
        st.stack = ((f.key, fid, f.entry, 0, 0),)
        st.store[('this', fid)] = this
        for p in f.params:
            if p.get('ref'):
                st.store[('L', fid, p['d'])] = ('sym', 'arg:' + p['n'])
            else:
                st.store[('L', fid, p['d'])] = ('sym', 'arg:' + p['n'])
        st.rs = self.rule.init()
        if setup:
            setup(st, f, fid)
        self.explore(st)
        return self

    def explore(self, st0):
        self.heap = []
        self.seq = 0
        self.seen = {}
        self.joined = {}
        self.push_mid(st0)
        while self.heap:
            _, _, st = heapq.heappop(self.heap)
            self.steps += 1
            if self.steps > self.rule.maxsteps:
                raise Budget('budget exceeded analysing %s' % st0.stack[0][0])
            self.process(st)

    def prio(self, stack):
        return tuple((self.P.F[fr[0]].rpo().get(fr[2], 0), fr[3]) for fr in stack)

    def push_mid(self, st):
        self.seq += 1
        heapq.heappush(self.heap, (self.prio(st.stack), self.seq, st))

    def rskey(self, st):
        """states that differ here are never joined"""
        rets = tuple(sorted(((k[0], v if v[0] == 'c' else st.truth(cmp_('<=', v, ZERO)) is True) for k, v in st.env.items()
                             if k[1] == 'ret' and v[0] not in NONNUM), key=repr))
        fl = tuple(st.store.get(('G', x)) == ONE for x in self.rule.flags)
        return st.rs, self.rule.part(st), rets, fl

    def choices(self, st):
        """the outcome of ?: conditions whose value is taken in this block"""
        k, fid, blk = st.stack[-1][:3]
        f = self.P.F.get(k)
        if f is None:
            return ()
        m = getattr(f, '_choices', None)
        if m is None:
            m = f._choices = {}
            for b in f.reachable():
                cs = [f.nodes[e]['c'] for e in f.blocks[b]['e'] if f.nodes[e]['k'] == 'cond' and f.nodes[e].get('c')]
                if cs:
                    m[b] = cs
        r = []
        for c in m.get(blk, ()):
            v = self.val(st, f, fid, c)
            r.append(st.truth(self.boolean(st, v)) if v != TOP else None)
        return (tuple(r),) if r else ()

    def enqueue(self, st):
        """st is at a block entry: clean, dedupe, join"""
        self.clean(st)
        point = st.stack
        rsk = self.rskey(st) + self.choices(st)
        key = (frozenset(st.store.items()), frozenset(st.facts.items()),
               frozenset(st.env.items()))
        d = self.seen.setdefault((point, rsk), set())
        if key in d:
            return
        jk = (point, rsk)
        K = self.rule.K
        if jk in self.joined or len(d) >= K:
            old = self.joined.get(jk)
            if old is not None:
                st = self.join(old, st)
                key = (frozenset(st.store.items()),
                       frozenset(st.facts.items()),
                       frozenset(st.env.items()))
                okey = (frozenset(old.store.items()),
                        frozenset(old.facts.items()),
                        frozenset(old.env.items()))
                if key == okey:
                    return
            self.joined[jk] = st
            if key in d:
                return
            d.add(key)
            # drop queued states of this point: the joined one covers later ones
        else:
            d.add(key)
        self.push_mid(st.copy() if jk in self.joined else st)

    def join(self, a, b):
        s = State()
        s.stack = a.stack
        s.rs = a.rs
        s.trace = b.trace
        s.syms = dict(a.syms)
        for kk, vv in b.syms.items():
            s.syms[kk] = s.syms.get(kk, frozenset()) | vv
        fid = a.stack[-1][1]
        blk = a.stack[-1][2]
        a = self.env_in(a, b)
        b = self.env_in(b, a)
        a = self.fields_in(a, b)
        b = self.fields_in(b, a)
        diff = {}
        for l, v in a.store.items():
            w = b.store.get(l)
            if w != v:
                diff.setdefault((v, w), []).append(l)
        for l, w in b.store.items():
            if l not in a.store:
                diff.setdefault((None, w), []).append(l)
        names = {}
        groups = []
        for (v, w), ls in diff.items():
            if v is None or w is None:
                for l in ls:
                    names[l] = ('sym', ('join', fid, blk, l))
            else:
                # locations equal in both states stay equal
                l0 = ls[0] if len(ls) == 1 else min(ls, key=skey)
                groups.append((l0, v, w, ls))
        for l0, v, w, ls in groups:
            j = ('sym', ('join', fid, blk, l0))
            for l in ls:
                names[l] = j
        a = self.age_joins(a, names, fid, blk)
        b = self.age_joins(b, names, fid, blk)
        if self.rule.affine:
            self.affine(a, b, groups, names)
        redef = {j for j in names.values() if j[0] == 'sym'}
        for l, v in a.store.items():
            if l in names:
                s.store[l] = names[l]
            else:
                w = b.store.get(l)
                if w == v:
                    s.store[l] = v
                else:       # differs only after ageing
                    redef.add(('sym', ('join', fid, blk, l)))
                    s.store[l] = ('sym', ('join', fid, blk, l))
        for l in b.store:
            if l not in a.store:
                s.store[l] = names.get(l) or ('sym', ('join', fid, blk, l))
                if s.store[l][0] == 'sym':
                    redef.add(s.store[l])
        for l in [l for l in s.store if l[0] == 'E']:
            s.env[l[1]] = s.store.pop(l)
        for n, v in a.env.items():
            if b.env.get(n) == v:
                s.env[n] = v
            elif n in b.env:
                s.env[n] = TOP
        # values re-introduced under a join symbol must not inherit facts
        fa = {}
        for t, (lo, hi, ex) in a.facts.items():
            g = b.facts.get(t)
            if not g:
                continue
            if any(_mentions(x, redef) for x, _ in t):
                continue
            l2, h2, e2 = g
            lo2 = _down(min(lo, l2), self.rule.thresholds) if lo != l2 else lo
            hi2 = _up(max(hi, h2)) if hi != h2 else hi
            ex2 = tuple(x for x in ex if x in e2 or x < l2 or x > h2)
            ex2 = tuple(sorted(set(ex2) | {x for x in e2 if x < lo or x > hi}))
            ex2 = tuple(x for x in ex2 if lo2 <= x <= hi2)
            if lo2 == -INF and hi2 == INF and not ex2:
                continue
            fa[t] = (lo2, hi2, ex2)
        self.transfer(a, b, names, fa)
        s.facts = fa
        if self.rule.affine:
            for l, j in names.items():
                v, w = a.store.get(l), b.store.get(l)
                if j[0] != 'sym' or v is None or w is None or TOP in (v, w):
                    continue
                t = a.truth(self.boolean(a, v))
                if t is None and v[0] != 'c':
                    t = a.truth(('bool', v))
                u = b.truth(self.boolean(b, w))
                if u is None and w[0] != 'c':
                    u = b.truth(('bool', w))
                if t is not None and t == u:
                    s.assume(cmp_('!=' if t else '==', j, ZERO))
        la, lb, lz = self.rule.limits(a), self.rule.limits(b), self.rule.limits(s)
        for l0, v, w, ls in groups if la else ():
            j = names[l0]
            v, w = a.store.get(l0), b.store.get(l0)
            if v is None or w is None or TOP in (v, w) or v[0] not in ARITH or w[0] not in ARITH or j[0] not in ARITH:
                continue
            for x, y, z in zip(la, lb, lz):
                if TOP in (x, y, z):
                    continue
                for op in ('<=', '>='):
                    if a.truth(cmp_(op, v, x)) is True and b.truth(cmp_(op, w, y)) is True and s.truth(cmp_(op, j, z)) is None:
                        s.assume(cmp_(op, j, z))
        for x, y, z in zip(self.rule.hints(a), self.rule.hints(b), self.rule.hints(s)):
            t = a.truth(x)
            if t is not None and t == b.truth(y) and s.truth(z) is None:
                s.assume(z, t)
        return s

    @staticmethod
    def fields_in(st, other):
        """a field that one side has not touched has its initial value there"""
        ls = [l for l in other.store if l[0] == 'F' and l not in st.store]
        if not ls:
            return st
        st = st.copy()
        for l in ls:
            v = st.read(l)
            if v != TOP:
                st.store[l] = v
        return st

    @staticmethod
    def env_in(st, other):
        """pending expression results join like variables"""
        ns = [n for n, v in st.env.items() if v != TOP and (n in other.env or ('E', n) in other.store)]
        if not ns:
            return st
        st = st.copy()
        for n in ns:
            st.store[('E', n)] = st.env.pop(n)
        return st

    @staticmethod
    def affine(a, b, groups, names):
        """affine hull of two states: a merged value whose change is a
        combination of other changes is expressed by them"""
        basis = []
        ea, eb = equalities(a), equalities(b)
        jset = {j for j in names.values() if j[0] == 'sym'}
        for l0, _, _, ls in sorted(groups, key=lambda g: skey(g[0])):
            v, w = a.store.get(l0), b.store.get(l0)
            if v is None or w is None or v[0] not in ARITH or w[0] not in ARITH:
                continue
            same = None
            for x, y, s in ((v, w, b), (w, v, a)):
                if s.truth(cmp_('==', x, y)) is True and not _mentions(x, jset):
                    same = x
                    break
            if same is not None and same[0] != 'op':
                for l in ls:
                    names[l] = same
                continue
            if ea:
                v = canon(v, ea)
            if eb:
                w = canon(w, eb)
            if v[0] == 'op' or w[0] == 'op':
                continue
            d = dict(lin(v)[0])
            tw, cw = lin(w)
            for at, c in tw:
                d[at] = d.get(at, 0) - c
            d[None] = lin(v)[1] - cw
            e, ok = w, True
            used = []
            for piv, row, j, w1 in basis:
                c = d.get(piv, 0)
                if not c:
                    continue
                if c % row[piv]:
                    ok = False
                    break
                k = c // row[piv]
                for at, x in row.items():
                    d[at] = d.get(at, 0) - k * x
                used.append((k, j, w1))
            d = {at: x for at, x in d.items() if x}
            if not ok:
                continue
            if not d:
                for k, j, w1 in used:
                    e = ladd(ladd(e, lmul(w1, k), -1), lmul(j, k))
                    if e[0] == 'op':
                        break
                if e[0] != 'op' and len(lin(e)[0]) <= 4:
                    for l in ls:
                        names[l] = e
                continue
            if len(basis) >= 40:
                continue
            j = names[l0]
            for k, j1, w1 in used:
                j = ladd(j, lmul(j1, k), -1)
                w = ladd(w, lmul(w1, k), -1)
            if j[0] == 'op' or w[0] == 'op':
                continue
            piv = min(d, key=lambda x: (abs(d[x]), x is None, skey(x) if x else ()))
            basis.append((piv, d, j, w))

    def transfer(self, a, b, names, fa):
        """linear facts about values merged under one join symbol"""
        pairs = {}
        for l, j in names.items():
            v, w = a.store.get(l), b.store.get(l)
            if v is None or w is None or v == w or TOP in (v, w):
                continue
            if v[0] in NONNUM or w[0] in NONNUM:
                continue
            pairs[j] = (v, w)
        if not pairs or len(pairs) > 40:
            return
        for j, (v, w) in pairs.items():
            if v[0] == 'c' and w[0] == 'c' and j[0] == 'sym' and ((j, 1),) not in fa:
                fa[((j, 1),)] = (min(v[1], w[1]), max(v[1], w[1]), ())
        for x, y, side in ((a, b, 0), (b, a, 1)):
            ps = [(j, p[side], p[1 - side], lin(p[side])) for j, p in pairs.items()]
            ps = [q for q in ps if q[3][0]]
            if not ps:
                continue
            for t, (lo, hi, ex) in x.facts.items():
                # t as a combination of merged values plus a rest
                rest = dict(t)
                tj, ty = [], ZERO
                off = 0
                for j, v, w, (tv, cv) in ps:
                    r = rest.get(tv[0][0])
                    if not r or r % tv[0][1]:
                        continue
                    k = r // tv[0][1]
                    if any(rest.get(at, 0) != k * c for at, c in tv):
                        continue
                    for at, _ in tv:
                        del rest[at]
                    tj.append((j, k))
                    ty = ladd(ty, lmul(w, k))
                    off += k * cv
                if not tj or side and any(pairs[j][0] == j for j, _ in tj):
                    continue
                # x: sum(k*j) + rest = t + off   y: ty + rest
                rv = mk(tuple(sorted(rest.items(), key=lambda z: skey(z[0]))), 0)
                ty = ladd(ty, rv)
                l2, h2, e2 = vbounds(ty, y.facts)
                lo1, hi1 = lo + off, hi + off
                nl, nh = min(lo1, l2), max(hi1, h2)
                if nl < lo1:
                    nl = _down(nl)
                if nh > hi1:
                    nh = _up(nh)
                if nl == -INF and nh == INF:
                    continue
                tn = rv
                for j, k in tj:
                    tn = ladd(tn, lmul(j, k))
                tt, c = lin(tn)
                if not tt or len(tt) > 4:
                    continue
                nl, nh = nl - c, nh - c
                c2 = tt
                if tt[0][1] < 0:
                    c2 = tuple((at, -k) for at, k in tt)
                    nl, nh = -nh, -nl
                g = fa.get(c2)
                if g:
                    nl, nh = max(nl, g[0]), min(nh, g[1])
                    if nl > nh:
                        continue
                fa[c2] = (nl, nh, g[2] if g else ())

    def age_joins(self, st, names, fid, blk):
        """a join symbol about to be redefined must not be mentioned elsewhere"""
        m = {}
        for l, j in names.items():
            if j[0] == 'sym' and st.store.get(l) != j:
                m[j] = ('sym', ('joinold',) + j[1][1:])
        if not m:
            return st
        used = set()
        for v in st.store.values():
            atoms_of(v, used)
        for v in st.env.values():
            atoms_of(v, used)
        m = {k: v for k, v in m.items() if k in used}
        if not m:
            return st
        for v in list(m.values()):
            if v in used:
                m[v] = TOP
        st = st.copy()
        # the locations that hold the symbol keep it under its new meaning
        keep = {l: st.store[l] for l, j in names.items() if st.store.get(l) == j}
        self.rename(st, m)
        st.store.update(keep)
        return st

    def clean(self, st):
        fkey, fid, b, i, _ = st.stack[-1]
        f = self.P.F[fkey]
        live, pinned = liveness(f)
        lv = live[b]
        dead = []
        for l in st.store:
            r = l
            while r[0] in ('F', 'X'):
                r = r[1]
            if r[0] == 'L' and r[1] == fid and r[2] not in lv and r[2] not in pinned:
                dead.append(l)
            elif r[0] == 'T' and r[1] == fid and r[2] not in pinned:
                pass
        for l in dead:
            del st.store[l]
        cross = cross_nodes(f)
        for k in [k for k in st.env if k[0] == fid and k[1] not in cross]:
            del st.env[k]
        # facts about dead symbols
        if st.facts:
            alive = set()
            for l, v in st.store.items():
                atoms_of(l, alive)
                atoms_of(v, alive)
            for v in st.env.values():
                atoms_of(v, alive)
            if st.rs:
                atoms_of(st.rs, alive)
            nf = {}
            for t, x in st.facts.items():
                s = set()
                atoms_of(t, s)
                if all(a in alive or a[1] == 'this' or isinstance(a[1], str) for a in s):
                    nf[t] = x
            if len(nf) != len(st.facts):
                st.facts = nf

    # ---- fresh symbols ----
    def retire(self, st, fid, nid):
        """a node is about to be re-evaluated: its old results get aged names"""
        tags = st.syms.get((fid, nid))
        if not tags:
            return
        m = {}
        new = set()
        for tag in tags:
            if isinstance(tag, tuple) and tag[:1] == ('old',):
                m[('sym', (fid, nid, tag))] = TOP
            else:
                m[('sym', (fid, nid, tag))] = ('sym', (fid, nid, ('old', tag)))
                new.add(('old', tag))
        self.rename(st, m)
        st.syms[(fid, nid)] = frozenset(new)

    def fresh(self, st, fid, nid, tag='', t=''):
        s = ('sym', (fid, nid, tag))
        st.syms[(fid, nid)] = st.syms.get((fid, nid), frozenset()) | {tag}
        if t == 'bool':
            return ('bool', s)
        if t.startswith('unsigned'):
            return ('uns', s)
        return s

    def rename(self, st, m):
        exp = {k for k, v in m.items() if v == TOP}
        names = {}
        if exp:
            # values that lose a symbol get one of their own, shared by all
            # locations that hold the same value
            for _ in range(8):
                groups = {}
                for l, v in st.store.items():
                    if v[0] in GROUPED and _mentions(v, exp):
                        groups.setdefault(v, []).append(l)
                names = {v: ('sym', ('exp', ls[0] if len(ls) == 1 else min(ls, key=skey)))
                         for v, ls in groups.items()}
                if not names:
                    break
                used = set()
                for v in st.store.values():
                    if v not in names:
                        atoms_of(v, used)
                for v in st.env.values():
                    atoms_of(v, used)
                if st.rs is not None:
                    atoms_of(st.rs, used)
                for v in names:
                    atoms_of(v, used)
                stale = {e for v, e in names.items() if e in used and e != v} - exp
                if not stale:
                    break
                exp |= stale
            else:
                names = {}
            m = dict(m)
            for e in exp:
                m[e] = TOP

        def sb(v):
            r = subst(v, m)
            return _detop(r) if r is not v else v
        st.store = {sb(l): names[v] if v in names else sb(v) for l, v in st.store.items()}
        st.env = {k: sb(v) for k, v in st.env.items()}
        nf = {}
        gl = [(e, lin(v)) for v, e in names.items()]
        gone = set(names.values())
        for t, x in st.facts.items():
            v = mk(t, 0)
            if gl:
                # rewrite in terms of the new symbols
                rest = dict(t)
                acc = ZERO
                hit = False
                for e, (tv, cv) in gl:
                    r = rest.get(tv[0][0]) if tv else None
                    if not r or r % tv[0][1]:
                        continue
                    k = r // tv[0][1]
                    if any(rest.get(at, 0) != k * c for at, c in tv):
                        continue
                    for at, _ in tv:
                        del rest[at]
                    acc = ladd(acc, lmul(('c', -cv), k))
                    acc = ladd(acc, lmul(e, k))
                    hit = True
                rv = mk(tuple(sorted(rest.items(), key=lambda z: skey(z[0]))), 0)
                rv = subst(rv, m)
                if _has_top(rv):
                    continue
                v2 = ladd(acc, rv) if hit else rv
            else:
                v2 = subst(v, m)
            if v2 is v or v2 == v:
                nf[t] = x
                continue
            if _has_top(v2):
                continue
            tt, s, c = norm(v2)
            if not tt:
                continue
            lo, hi, ex = x
            if s == 1:
                x = (lo - c, hi - c, tuple(e - c for e in ex))
            else:
                x = (c - hi, c - lo, tuple(sorted(c - e for e in ex)))
            if tt in nf:
                l2, h2, e2 = nf[tt]
                x = (max(l2, x[0]), min(h2, x[1]), tuple(sorted(set(e2) | set(x[2]))))
            nf[tt] = x
        st.facts = nf
        if st.rs is not None:
            st.rs = subst(st.rs, m)

    # ---- evaluation ----
    def val(self, st, f, fid, nid):
        """value of a node; recomputes effect-free nodes that are no elements"""
        if not nid:
            return TOP
        v = st.env.get((fid, nid))
        if v is not None:
            return v
        n = f.nodes.get(nid)
        if n is None:
            return TOP
        if n['k'] in ('call', 'assign', 'cassign', 'incdec', 'new', 'decl',
                      'delete', 'throw'):
            if 'cv' in n:
                return const(int(n['cv']))
            return TOP
        return self.pure_eval(st, f, fid, nid, n)

    def pure_eval(self, st, f, fid, nid, n):
        k = n['k']
        if 'cv' in n:
            return const(int(n['cv']))
        if k == 'c':
            return const(int(n['v']))
        if k == 'str':
            return ('str', n['v'])
        if k == 'fl':
            return ('flt', n['v'])
        if k == 'v':
            if n.get('g'):
                if n.get('ref'):
                    return st.read(('G', n['d']))
                return ('addr', ('G', n['d']))
            if n.get('cap'):
                c = st.store.get(('cap', fid, n['d']))
                if c is not None:
                    return c
            loc = ('L', fid, n['d'])
            if n.get('ref'):
                return st.read(loc)
            return ('addr', loc)
        if k == 'bind':
            return self.val(st, f, fid, n.get('e'))
        if k == 'this':
            return st.store.get(('this', fid), THIS)
        if k == 'm':
            b = self.val(st, f, fid, n['b'])
            if b == TOP:
                return TOP
            bn = f.nodes.get(n['b'], {})
            if not n.get('ar') and not bn.get('lv') and bn.get('k') not in ('m', 'v', 'idx', 'deref'):
                loc = ('F', ('P', ('tmp', b)), n['f'])
                if ('P', ('tmp', b)) not in st.store:
                    st.store[('P', ('tmp', b))] = b
            else:
                loc = ('F', to_loc(b), n['f'])
            if n.get('ref'):
                return st.read(loc)
            return ('addr', loc)
        if k == 'deref':
            return self.val(st, f, fid, n['e'])
        if k == 'addr':
            return self.val(st, f, fid, n['e'])
        if k == 'idx':
            b = self.val(st, f, fid, n['b'])
            i = self.val(st, f, fid, n['i'])
            if b == TOP:
                return TOP
            return ('addr', ('X', to_loc(b), i))
        if k == 'load':
            a = self.val(st, f, fid, n['e'])
            if a == TOP:
                return TOP
            if a[0] == 'fn':
                return a
            if a[0] == 'addr' and a[1][0] == 'G' and a[1] not in st.store:
                g = self.P.globals.get(a[1][1]) if isinstance(a[1][1], str) else None
                if g and 'cv' in g and g.get('t', '').startswith('const '):
                    return const(g['cv'])
            v = st.read(to_loc(a))
            if self.rule.exact and v[0] in ARITH and n.get('t', '').startswith('unsigned') and st.truth(cmp_('<=', ZERO, v)):
                return v
            return typed(v, n.get('t', ''))
        if k == 'fn':
            return ('fn', n.get('fk'))
        if k == 'mf':
            return ('fn', n.get('fk'))
        if k == 'un':
            v = self.val(st, f, fid, n['e'])
            if v == TOP:
                return TOP
            if n['op'] == '!':
                return self.boolean(st, v, True)
            if n['op'] == '-':
                return lmul(v, -1) if v[0] != 'flt' else ('op', 'neg', v)
            return ('op', n['op'], v)
        if k == 'bin':
            a = self.val(st, f, fid, n['a'])
            b = self.val(st, f, fid, n['b'])
            return self.binop(st, f, n['op'], a, b, n)
        if k == 'logic':
            a = self.val(st, f, fid, n['a'])
            t = st.truth(self.boolean(st, a)) if a != TOP else None
            if n['op'] == '&&':
                if t is False:
                    return ZERO
            else:
                if t is True:
                    return ONE
            b = self.val(st, f, fid, n['b'])
            if b == TOP:
                return TOP
            if t is None:
                return TOP
            return self.boolean(st, b)
        if k == 'cond':
            c = self.val(st, f, fid, n['c'])
            t = st.truth(self.boolean(st, c)) if c != TOP else None
            if t is None:
                return TOP
            return self.val(st, f, fid, n['a'] if t else n['b'])
        if k == 'comma':
            return self.val(st, f, fid, n['b'])
        if k == 'cast':
            v = self.val(st, f, fid, n['e'])
            ck = n.get('ck', '')
            if v == TOP:
                return TOP
            if ck.endswith('ToBoolean'):
                return self.boolean(st, v)
            if ck == 'NullToPointer':
                return ZERO
            if ck == 'ToVoid':
                return ZERO
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                return v if v[0] == 'flt' else ('op', ck, v)
            if self.rule.exact:
                return self.rule.cast(st, f, n, v)
            return v
        if k == 'zero':
            return ZERO
        if k == 'sizeof':
            return TOP
        if k == 'il':
            return ('il',) + tuple(self.val(st, f, fid, x) for x in n['a'])
        if k == 'ctor':
            return TOP
        return TOP

    def boolean(self, st, v, negate=False):
        if v == TOP:
            return TOP
        if v[0] in ('cmp', 'not', 'bool', 'fcmp'):
            r = v
        elif v[0] == 'c':
            r = const(v[1] != 0)
        elif v[0] in ('str', 'addr', 'clos'):
            r = ONE
        else:
            r = cmp_('!=', v, ZERO)
        return neg(r) if negate else r

    def binop(self, st, f, op, a, b, n):
        if a == TOP or b == TOP:
            return TOP
        if op in ('==', '!=', '<', '>', '<=', '>='):
            ta = f.nodes.get(n['a'], {}).get('t', '') if n else ''
            if ta in ('double', 'float', 'long double') or 'flt' in (a[0], b[0]):
                if op == '>':
                    return ('fcmp', '<', b, a)
                if op == '>=':
                    return neg(('fcmp', '<', a, b))
                if op == '<=':
                    return neg(('fcmp', '<', b, a))
                if op == '!=':
                    return neg(('fcmp', '==', a, b))
                return ('fcmp', op, a, b)
            if a[0] == 'str' or b[0] == 'str':
                return ('fcmp', op, a, b)
            if {a[0], b[0]} == {'addr', 'c'} and ZERO in (a, b):
                return const(op == '!=') if op in ('==', '!=') else TOP
            return cmp_(op, a, b)
        t = n.get('t', '') if n else ''
        if t in ('double', 'float') or 'flt' in (a[0], b[0]):
            return ('op', op, a, b)
        if op == '+':
            return ladd(a, b)
        if op == '-':
            return ladd(a, b, -1)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == '*':
                    return const(x * y)
                if op == '/':
                    return const(int(x / y)) if y else TOP
                if op == '%':
                    return const(x - int(x / y) * y) if y else TOP
                if op == '&':
                    return const(x & y)
                if op == '|':
                    return const(x | y)
                if op == '^':
                    return const(x ^ y)
                if op == '<<' and 0 <= y < 64:
                    return const(x << y)
                if op == '>>' and 0 <= y < 64:
                    return const(x >> y)
            except Exception:
                return TOP
        if op == '*' and a[0] == 'c':
            return lmul(b, a[1])
        if op == '*' and b[0] == 'c':
            return lmul(a, b[1])
        if op == '/' and b == ONE:
            return a
        v = ('op', op, a, b)
        if op == '%' and b[0] == 'c' and b[1] > 0 and st.truth(cmp_('>=', a, ZERO)) is True:
            st.assume(cmp_('>=', v, ZERO))
            st.assume(cmp_('<', v, b))
        return v

    # ---- block processing ----
    def process(self, st):
        work = [st]
        while work:
            st = work.pop()
            res = self.run_block(st, work)

    def run_block(self, st, work):
        P = self.P
        fkey, fid, b, i, cn = st.stack[-1]
        f = P.F[fkey]
        blk = f.blocks[b]
        if i == 0:
            self.visited.add((fkey, b))
            self.funcs.add(fkey)
        el = blk['e']
        while i < len(el):
            nid = el[i]
            n = f.nodes[nid]
            st.stack = st.stack[:-1] + ((fkey, fid, b, i + 1, cn),)
            r = self.step(st, f, fid, nid, n)
            if r is not None:
                # forks or frame change; each resumes from its own stack top
                for s in r:
                    work.append(s)
                return
            i += 1
        self.leave_block(st, f, fid, b, blk, work)

    def leave_block(self, st, f, fid, b, blk, work):
        if b == f.exit:
            self.leave_frame(st, f, fid, work)
            return
        t = blk.get('t')
        succ = blk['s']
        if blk.get('nr'):
            self.rule.on_end(self, st, f, 'noreturn')
            return
        live = [s for s in succ if s >= 0]
        if not live:
            # e.g. infinite loop without exit
            self.rule.on_end(self, st, f, 'end')
            return
        if t and t['k'] == 'SwitchStmt':
            v = self.val(st, f, fid, t.get('c'))
            cases = []
            for s in succ:
                if s < 0:
                    continue
                sb = f.blocks[s]
                if 'case' in sb:
                    cases.append((s, sb['case'], sb.get('casehi', sb['case'])))
            for s in succ:
                if s < 0:
                    continue
                sb = f.blocks[s]
                s2 = st.copy()
                ok = True
                if v != TOP:
                    if 'case' in sb:
                        lo, hi = sb['case'], sb.get('casehi', sb['case'])
                        if lo == hi:
                            ok = s2.assume(self.cmpv(v, '==', lo))
                        else:
                            ok = s2.assume(self.cmpv(v, '>=', lo)) and s2.assume(self.cmpv(v, '<=', hi))
                    else:
                        for _, lo, hi in cases:
                            if lo == hi:
                                ok = ok and s2.assume(self.cmpv(v, '==', lo), False)
                if not ok:
                    continue
                s2.note('%s:%d switch -> %s' % (f.file, t['l'], sb.get('case', 'default')))
                if self.rule.on_branch(self, s2, f, b, v, sb.get('case')) is False:
                    continue
                self.goto(s2, s)
            return
        if t and len(succ) == 2 and t.get('c'):
            v = self.val(st, f, fid, t['c'])
            bv = self.boolean(st, v)
            tr = st.truth(bv)
            outs = []
            if succ[0] >= 0 and tr is not False:
                outs.append((succ[0], True))
            if succ[1] >= 0 and tr is not True:
                outs.append((succ[1], False))
            for j, (s, w) in enumerate(outs):
                s2 = st.copy() if j + 1 < len(outs) else st
                if not s2.assume(bv, w):
                    continue
                ln = f.nodes.get(t['c'], {}).get('l', t['l'])
                if tr is None:
                    s2.note('%s:%d branch %s' % (f.file, ln, 'taken' if w else 'not taken'))
                if self.rule.on_branch(self, s2, f, b, bv, w) is False:
                    continue
                self.goto(s2, s)
            return
        for j, s in enumerate(live):
            s2 = st.copy() if j + 1 < len(live) else st
            self.goto(s2, s)

    def cmpv(self, v, op, c):
        return cmp_(op, v, const(c))

    def goto(self, st, s):
        fkey, fid, b, i, cn = st.stack[-1]
        st.stack = st.stack[:-1] + ((fkey, fid, s, 0, cn),)
        self.enqueue(st)

    def leave_frame(self, st, f, fid, work):
        ret = st.env.pop((fid, 'ret'), None)
        cn = st.stack[-1][4]
        if len(st.stack) == 1:
            self.rule.on_exit(self, st, f, ret)
            return
        self.rule.on_leave(self, st, f, fid, ret)
        for l in [l for l in st.store if loc_frame(l) == fid]:
            del st.store[l]
        for k in [k for k in st.env if k[0] == fid]:
            del st.env[k]
        st.stack = st.stack[:-1]
        cf = self.P.F[st.stack[-1][0]]
        cfid = st.stack[-1][1]
        if cn:
            n = cf.nodes.get(cn)
            if n is not None and n['k'] in ('call',):
                st.env[(cfid, cn)] = ret if ret is not None else TOP
            if cn < 0:
                st.env[(cfid, -cn)] = ret if ret is not None else TOP
        # merge states that return to the same point
        self.enqueue_mid(st, ret)

    def enqueue_mid(self, st, got=None):
        """dedupe after a callee returned (mid-block point)"""
        point = ('mid',) + st.stack
        key = (frozenset(st.store.items()), frozenset(st.facts.items()),
               frozenset(st.env.items()))
        rsk = self.rskey(st) + (got if got is not None and got[0] == 'c' else None,)
        d = self.seen.setdefault((point, rsk), set())
        if key in d:
            return
        jk = (point, rsk)
        if jk in self.joined or len(d) >= self.rule.K:
            old = self.joined.get(jk)
            if old is not None:
                st = self.join(old, st)
                key = (frozenset(st.store.items()), frozenset(st.facts.items()),
                       frozenset(st.env.items()))
                if key in d:
                    return
            self.joined[jk] = st.copy()
        d.add(key)
        self.push_mid(st)

    # ---- element semantics ----
    def step(self, st, f, fid, nid, n):
        """None: continue in the same state; otherwise list of states"""
        k = n['k']
        rule = self.rule
        if (fid, nid) in st.syms:
            self.retire(st, fid, nid)
        rule.on_node(self, st, f, fid, nid, n)
        if k == 'call':
            return self.do_call(st, f, fid, nid, n)
        if k == 'ctor':
            return self.do_ctor(st, f, fid, nid, n)
        if k == 'dtor':
            return self.do_dtor(st, f, fid, nid, n)
        if k == 'decl':
            for d in n['ds']:
                if d.get('st'):
                    continue
                self.do_decl(st, f, fid, nid, n, d)
            return None
        if k == 'assign':
            a = self.val(st, f, fid, n['a'])
            b = self.val(st, f, fid, n['b'])
            loc = to_loc(a) if a != TOP else None
            if loc:
                rule.on_write(self, st, f, nid, n, loc, b)
                st.write(loc, b)
            st.env[(fid, nid)] = a
            return None
        if k == 'cassign' or k == 'incdec':
            a = self.val(st, f, fid, n['a'] if k == 'cassign' else n['e'])
            if a == TOP:
                st.env[(fid, nid)] = TOP
                return None
            loc = to_loc(a)
            old = st.read(loc)
            if k == 'cassign':
                rhs = self.val(st, f, fid, n['b'])
                new = self.binop(st, f, n['op'], old, rhs, {'t': n.get('t', ''), 'a': n['a'], 'b': n['b']})
            else:
                new = TOP if old == TOP else ladd(old, const(n['d']))
            if new[0] == 'c' and abs(new[1]) > (64 if rule.affine else 3) and k == 'incdec':
                s = self.fresh(st, fid, nid, 'cnt')
                st.assume(cmp_('>=' if new[1] > 0 else '<=', s, const(4 if new[1] > 0 else -4)))
                new = s
            elif new[0] in ('lin', 'op') and _depth(new) > 8:
                new = TOP
            if new == TOP:
                new = self.fresh(st, fid, nid, 'acc')
            elif new[0] in ('lin', 'sym') and self.looped(f, nid):
                new2 = self.rebase_acc(st, fid, nid, new)
                if new2 != new:
                    old = st.read(loc)      # under its new name
                new = new2
            rule.on_write(self, st, f, nid, n, loc, new)
            st.write(loc, new)
            if k == 'incdec' and n.get('post'):
                st.env[(fid, nid)] = old
            else:
                st.env[(fid, nid)] = a if n.get('lv') else new
            return None
        if k == 'ret':
            v = None
            if n.get('e'):
                e = n['e']
                en = f.nodes.get(e, {})
                v = self.val(st, f, fid, e)
                src = None
                if en.get('k') == 'ctor' and en.get('copy') and (fid, e) in st.env:
                    v = st.env[(fid, e)]
                    if en['a'] and len(st.stack) > 1:
                        a0 = self.val(st, f, fid, en['a'][0])
                        if a0 != TOP and (f.nodes[en['a'][0]].get('lv')):
                            src = to_loc(a0)
                elif en.get('k') == 'call' and ('T', fid, e) in st.store:
                    src = ('T', fid, e)
                if src is not None and len(st.stack) > 1 and any(_is_under(l, src) for l in st.store):
                    cfid, cn = st.stack[-2][1], st.stack[-1][4]
                    st.copy_obj(src, ('T', cfid, cn))
            st.env[(fid, 'ret')] = v if v is not None else TOP
            return None
        if k == 'lam':
            caps = []
            for c in n['caps']:
                if c.get('this'):
                    continue
                e = c.get('e')
                if c['ref']:
                    ln = {'k': 'v', 'd': c['d']}
                    cap = st.store.get(('cap', fid, c['d']))
                    if cap is not None:
                        caps.append((c['d'], cap))
                        continue
                    v = self.val(st, f, fid, e) if e else ('addr', ('L', fid, c['d']))
                    if v == TOP:
                        v = ('addr', ('L', fid, c['d']))
                    caps.append((c['d'], v))
                else:
                    loc = ('L', ('cl', fid, nid), c['d'])
                    v = self.val(st, f, fid, e) if e else TOP
                    en = f.nodes.get(e, {})
                    if en.get('k') == 'ctor' and en.get('copy') and en['a']:
                        src = self.val(st, f, fid, en['a'][0])
                        if src != TOP:
                            st.copy_obj(to_loc(src), loc)
                        else:
                            st.write(loc, TOP)
                    else:
                        st.write(loc, v)
                    caps.append((c['d'], ('addr', loc)))
            st.env[(fid, nid)] = ('clos', n['fk'], tuple(caps),
                                  st.store.get(('this', fid), THIS))
            return None
        if k == 'new':
            s = self.fresh(st, fid, nid, 'new')
            st.assume(cmp_('>', s, ZERO))
            st.env[(fid, nid)] = s
            r = rule.on_call(self, st, f, fid, nid, dict(n, f='new'), None, [])
            if r is not None:
                return self.finish(r, fid, nid)
            return None
        if k == 'delete':
            r = rule.on_call(self, st, f, fid, nid, dict(n, f='delete'), None,
                             [self.val(st, f, fid, n['e'])])
            if r is not None:
                return self.finish(r, fid, nid)
            return None
        if k == 'throw':
            rule.on_end(self, st, f, 'throw')
            return []
        if k == 'minit':
            this = st.store.get(('this', fid), THIS)
            loc = ('F', to_loc(this), n['f'])
            v = self.val(st, f, fid, n['e'])
            self.init_loc(st, f, fid, loc, n['e'], v, n.get('ref'))
            return None
        if k == 'binit':
            return None
        if k == 'load':
            a = self.val(st, f, fid, n['e'])
            if a != TOP and a[0] != 'fn':
                rule.on_read(self, st, f, nid, n, to_loc(a))
        v = self.pure_eval(st, f, fid, nid, n)
        if v == TOP and n.get('t') == 'bool' and k in ('logic', 'cond'):
            v = self.fresh(st, fid, nid, 'b', 'bool')
        st.env[(fid, nid)] = v
        return None

    @staticmethod
    def looped(f, nid):
        """the expression is in a loop"""
        m = getattr(f, '_loops', None)
        if m is None:
            m = set()
            for b in f.reachable():
                seen = set()
                todo = [x for x in f.blocks[b]['s'] if x >= 0]
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += [y for y in f.blocks[x]['s'] if y >= 0]
                if b in seen:
                    m.update(f.blocks[b]['e'])
            f._loops = m
        return nid in m

    def rebase_acc(self, st, fid, nid, new):
        """change of variable: name an accumulated sum, eliminating one call
        result from it, so that facts survive the next loop iteration"""
        for a, k in lin(new)[0]:
            if abs(k) == 1 and a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] == fid \
                    and a[1][1] != nid and not (isinstance(a[1][2], tuple) and a[1][2][:1] == ('old',)):
                lo, hi, _ = vbounds(new, st.facts)
                acc = self.fresh(st, fid, nid, 'acc')
                rest = ladd(new, lmul(a, k), -1)
                # new = k*a + rest = acc  =>  a = k*(acc - rest)
                self.rename(st, {a: lmul(ladd(acc, rest, -1), k)})
                if lo != -INF:
                    st.assume(cmp_('>=', acc, const(lo)))
                if hi != INF:
                    st.assume(cmp_('<=', acc, const(hi)))
                return acc
        return new

    def init_loc(self, st, f, fid, loc, e, v, ref):
        en = f.nodes.get(e, {})
        if ref:
            if v == TOP:
                st.write(loc, TOP)
            elif en.get('lv'):
                st.write(loc, v)
            else:
                t = ('T', fid, e)
                st.write(t, v)
                st.write(loc, ('addr', t))
            return
        if en.get('k') == 'ctor' and en.get('copy') and en['a'] and 'unique_ptr' not in en.get('rec', ''):
            src = self.val(st, f, fid, en['a'][0])
            an = f.nodes.get(en['a'][0], {})
            if src != TOP and (an.get('lv') or an.get('k') == 'call' and an.get('f') in STD_PASS):
                st.copy_obj(to_loc(src), loc)
                return
            if src != TOP:
                st.write(loc, src)
                return
        t = ('T', fid, e)
        if en.get('k') in ('call', 'ctor') and t in st.store and not en.get('lv'):
            st.copy_obj(t, loc)
            st.kill_children(t)
            del st.store[t]
            return
        st.write(loc, v)

    def do_decl(self, st, f, fid, nid, n, d):
        loc = ('L', fid, d['d'])
        e = d.get('e')
        if not e:
            st.kill_children(loc)
            st.store[loc] = ('ini', loc)
            return
        v = self.val(st, f, fid, e)
        self.init_loc(st, f, fid, loc, e, v, d.get('ref'))
        self.rule.on_write(self, st, f, nid, n, loc, st.read(loc))

    def finish(self, outs, fid, nid):
        r = []
        for s, v in outs:
            if v is not None:
                s.env[(fid, nid)] = v
            r.append(s)
        return r

    def do_ctor(self, st, f, fid, nid, n):
        args = [self.val(st, f, fid, a) for a in n['a']]
        r = self.rule.on_ctor(self, st, f, fid, nid, n, args)
        if r is not None:
            return self.finish(r, fid, nid)
        if n.get('copy') and args:
            an = f.nodes.get(n['a'][0], {})
            if args[0] == TOP:
                st.env[(fid, nid)] = TOP
            elif an.get('lv') or an.get('k') == 'call' and an.get('f') in STD_PASS:
                st.env[(fid, nid)] = st.read(to_loc(args[0]))
            else:
                st.env[(fid, nid)] = args[0]
            if n.get('move') and args[0] != TOP and 'unique_ptr' in n.get('rec', '') and \
                    (an.get('lv') or an.get('k') == 'call' and an.get('f') in STD_PASS):
                st.write(to_loc(args[0]), ZERO)
            return None
        if self.rule.lock_havoc and is_lock_type(n.get('rec', '')):
            self.shared_havoc(st, fid, nid)
        self.havoc_args(st, f, fid, nid, n, args)
        s = self.fresh(st, fid, nid, 'ctor')
        if n.get('rec', '').split('<')[0] == 'std::basic_string' and args and args[0][0] == 'str':
            st.env[(fid, nid)] = args[0]
            return None
        if not args and (n.get('rec', '').split('<')[0] + '<').startswith(CONTAINERS):
            st.assume(cmp_('==', ('uns', ('pure', 'size', s)), ZERO))
        if n.get('rec', '').split('<')[0] in ('std::unique_ptr', 'std::shared_ptr'):
            if not args:
                st.env[(fid, nid)] = ZERO
                return None
            if args[0] != TOP:
                # owning pointer: value is the pointee address
                an = f.nodes.get(n['a'][0], {})
                st.env[(fid, nid)] = st.read(to_loc(args[0])) if an.get('lv') else args[0]
                return None
        fk = n.get('fk')
        if fk in self.P.F and self.can_inline(st, fk):
            # run the constructor body on a temporary object
            loc = ('T', fid, nid)
            st.kill_children(loc)
            st.store[loc] = s
            st.env[(fid, nid)] = s
            return [self.push_frame(st, fk, nid, f, fid, n, ('addr', loc), args, n['a'], neg_=True)]
        st.env[(fid, nid)] = s
        return None

    def shared_havoc(self, st, fid, nid):
        this = st.store.get(('this', fid))
        if this is None:
            return
        loc = to_loc(this)
        if loc in st.store or any(_is_under(l, loc) for l in st.store):
            st.write(loc, self.fresh(st, fid, nid, 'shared'))
        else:
            st.write(loc, self.fresh(st, fid, nid, 'shared'))

    def do_dtor(self, st, f, fid, nid, n):
        loc = ('L', fid, n['d'])
        r = self.rule.on_dtor(self, st, f, fid, nid, n, loc)
        if r is not None:
            return self.finish(r, fid, nid)
        v = st.read(loc)
        if v[0] == 'guard':
            c = v[1]
            if c[0] == 'clos' and c[1] in self.P.F:
                return [self.push_closure(st, c, nid, f, fid, [], [])]
        return None

    def havoc_args(self, st, f, fid, nid, n, args):
        am = n.get('am', [])
        for i, v in enumerate(args):
            m = am[i] if i < len(am) else 0
            if m in (2, 3) and v != TOP and v[0] not in ('c', 'str', 'fn', 'clos'):
                an = f.nodes.get(n['a'][i], {})
                if m == 3 and not an.get('lv') and not (an.get('k') == 'call' and an.get('f') in STD_PASS):
                    continue
                loc = to_loc(v)
                w = self.fresh(st, fid, nid, ('out', i))
                self.rule.on_write(self, st, f, nid, n, loc, w)
                st.write(loc, w)

    def can_inline(self, st, k):
        if len(st.stack) > self.rule.maxdepth:
            return False
        if any(fr[0] == k for fr in st.stack):
            return False
        return self.rule.should_inline(k)

    def push_frame(self, st, k, nid, f, fid, n, this, args, argn, neg_=False):
        g = self.P.F[k]
        nf = self.fid((k, fid, nid))
        for l in [l for l in st.store if loc_frame(l) == nf]:
            del st.store[l]
        for i, p in enumerate(g.params):
            loc = ('L', nf, p['d'])
            v = args[i] if i < len(args) else TOP
            e = argn[i] if i < len(argn) else 0
            en = f.nodes.get(e, {})
            if p.get('ref'):
                if v != TOP and not en.get('lv') and not (en.get('k') == 'call' and en.get('f') in STD_PASS):
                    t = ('T', nf, 'a%d' % i)
                    st.store[t] = v
                    v = ('addr', t)
                st.store[loc] = v
            else:
                if e:
                    self.init_loc(st, f, fid, loc, e, v, 0)
                else:
                    st.store[loc] = v
        if this is not None:
            st.store[('this', nf)] = this
        st.stack = st.stack + ((k, nf, g.entry, 0, -nid if neg_ and False else nid),)
        st.note('%s:%d -> %s' % (f.file, n.get('l', 0), g.qn))
        self.rule.on_enter(self, st, g, nf)
        return st

    def push_closure(self, st, c, nid, f, fid, args, argn):
        n = f.nodes[nid]
        s = self.push_frame(st, c[1], nid, f, fid, n, c[3], args, argn)
        nf = s.stack[-1][1]
        for d, a in c[2]:
            s.store[('cap', nf, d)] = a
        return s

    def do_call(self, st, f, fid, nid, n):
        rule = self.rule
        name = n.get('f', '')
        if not name and n.get('ce'):
            # call through a function pointer whose value is known
            cv = self.val(st, f, fid, n['ce'])
            if cv != TOP and cv[0] == 'addr':
                cv = st.read(cv[1])
            if cv != TOP and cv[0] == 'fn' and cv[1]:
                n = dict(n, fk=cv[1], f=cv[1].split('(', 1)[0])
                name = n['f']
        # object
        obj = None
        if n.get('o'):
            ov = self.val(st, f, fid, n['o'])
            on = f.nodes.get(n['o'], {})
            if ov != TOP:
                if n.get('op') or on.get('lv'):
                    obj = to_loc(ov)
                elif on.get('k') == 'call' and on.get('f') in STD_PASS:
                    obj = to_loc(ov)
                elif ('T', fid, n['o']) in st.store:
                    obj = ('T', fid, n['o'])
                else:
                    obj = ('P', ('tmp', ov))
                    if obj not in st.store:
                        st.store[obj] = ov
        args = [self.val(st, f, fid, a) for a in n['a']]
        r = rule.on_call(self, st, f, fid, nid, n, obj, args)
        if r is not None:
            return self.finish(r, fid, nid)
        # streams
        t = n.get('t', '')
        if t.startswith(STREAM):
            st.env[(fid, nid)] = ('sym', 'stream')
            return None
        if n.get('nr'):
            rule.on_end(self, st, f, 'noreturn')
            return []
        if name in STD_PASS and args:
            st.env[(fid, nid)] = args[0]
            return None
        # closures
        if n.get('oc') and obj is not None and name.endswith('operator()') or n.get('lamcall'):
            cv = st.read(obj) if obj else TOP
            if cv[0] == 'clos' and cv[1] in self.P.F and len(st.stack) < rule.maxdepth and not any(fr[0] == cv[1] for fr in st.stack):
                return [self.push_closure(st, cv, nid, f, fid, args, n['a'])]
        # scope guards
        base = name.rsplit('::', 1)[-1]
        if base == 'makeGuard' and args:
            c = args[0]
            if c != TOP and c[0] != 'clos':
                c = st.read(to_loc(c))
            st.env[(fid, nid)] = ('guard', c)
            return None
        if 'ScopeGuardOnExit' in n.get('fk', '') and base == 'operator+' and len(args) == 2:
            c = args[1]
            if c != TOP and c[0] != 'clos':
                c = st.read(to_loc(c))
            st.env[(fid, nid)] = ('guard', c)
            return None
        if base == 'dismiss' and 'ScopeGuardImpl' in name and obj:
            st.write(obj, ('c', 0))
            st.env[(fid, nid)] = ZERO
            return None
        if name.startswith('std::'):
            r = self.std_call(st, f, fid, nid, n, name, base, obj, args)
            if r is not None:
                st.env[(fid, nid)] = r
                return None
        # implicit copy/move assignment of a class object
        if n.get('oc') and base == 'operator=' and obj is not None and args and n.get('fk') not in self.P.F:
            an = f.nodes.get(n['a'][0], {})
            if args[0] != TOP and (an.get('lv') or an.get('k') == 'call' and an.get('f') in STD_PASS):
                rule.on_write(self, st, f, nid, n, obj, st.read(to_loc(args[0])))
                st.copy_obj(to_loc(args[0]), obj)
                if n.get('am', [0])[:1] == [3]:
                    src = to_loc(args[0])
                    st.write(src, ZERO if 'unique_ptr' in name else self.fresh(st, fid, nid, 'moved'))
            else:
                rule.on_write(self, st, f, nid, n, obj, args[0])
                st.write(obj, args[0])
            st.env[(fid, nid)] = to_addr(obj)
            return None
        tg = self.P.targets(n)
        if tg:
            inl = [k for k in tg if self.can_inline(st, k)]
            if inl and len(inl) == len(tg) and len(tg) <= 4:
                outs = []
                for j, k in enumerate(inl):
                    s2 = st.copy() if j + 1 < len(inl) else st
                    this = to_addr(obj) if obj is not None else None
                    outs.append(self.push_frame(s2, k, nid, f, fid, n, this, args, n['a']))
                return outs
        # opaque
        self.havoc_args(st, f, fid, nid, n, args)
        if obj is not None and not n.get('cm') and n.get('o'):
            body = [k for k in tg if k in self.P.F]
            if body and len(body) == len(tg):
                mods = set()
                for k in body:
                    mods |= self.P.mods(k)
                rec = self.P.F[body[0]].cls or n.get('rec')
                for q in self.P.touched(rec, mods):
                    st.write(('F', obj, q), self.fresh(st, fid, nid, ('obj', q)))
            else:
                st.write(obj, self.fresh(st, fid, nid, 'obj'))
        v = self.fresh(st, fid, nid, 'ret', t)
        st.env[(fid, nid)] = v
        clos = []
        for a in args:
            c = a
            if c != TOP and c[0] == 'addr':
                c = st.read(c[1])
            if c[0] == 'clos' and c[1] in self.P.F and c[1] in rule.relevant():
                clos.append(c)
        if clos and len(st.stack) < rule.maxdepth and not any(fr[0] == clos[0][1] for fr in st.stack):
            s2 = st.copy()
            return [st, self.push_closure_keep(s2, clos[0], nid, f, fid)]
        return None

    def push_closure_keep(self, st, c, nid, f, fid):
        v = st.env.get((fid, nid))
        s = self.push_frame(st, c[1], nid, f, fid, f.nodes[nid], c[3], [], [])
        nf = s.stack[-1][1]
        for d, a in c[2]:
            s.store[('cap', nf, d)] = a
        g = self.P.F[c[1]]
        for p in g.params:
            s.store[('L', nf, p['d'])] = self.fresh(s, nf, 0, p['d'])
        return s

    def std_call(self, st, f, fid, nid, n, name, base, obj, args):
        t = n.get('t', '')
        if name in ('std::min', 'std::max') and len(args) == 2 and TOP not in args:
            a = st.read(to_loc(args[0])) if f.nodes[n['a'][0]].get('lv') else args[0]
            b = st.read(to_loc(args[1])) if f.nodes[n['a'][1]].get('lv') else args[1]
            if TOP in (a, b):
                return self.fresh(st, fid, nid, 'mm')
            op = '<=' if name == 'std::min' else '>='
            tr = st.truth(cmp_(op, a, b))
            if tr is True:
                v = a
            elif tr is False:
                v = b
            else:
                v = self.fresh(st, fid, nid, 'mm') if self.rule.affine else (name[5:], a, b)
                st.assume(cmp_(op, v, a))
                st.assume(cmp_(op, v, b))
                (la, ca), (lb, cb) = lin(a), lin(b)
                ba = bounds(la, st.facts) if la else (0, 0)
                bb = bounds(lb, st.facts) if lb else (0, 0)
                if op == '<=' and -INF not in (ba[0], bb[0]):
                    st.assume(cmp_('>=', v, const(min(ba[0] + ca, bb[0] + cb))))
                if op == '>=' and INF not in (ba[1], bb[1]):
                    st.assume(cmp_('<=', v, const(max(ba[1] + ca, bb[1] + cb))))
            if n.get('lv'):
                loc = ('T', fid, nid)
                st.write(loc, v)
                return ('addr', loc)
            return v
        if obj is None:
            if name in ('std::make_unique', 'std::make_shared'):
                self.havoc_args(st, f, fid, nid, n, args)
                s = self.fresh(st, fid, nid, 'new')
                st.assume(cmp_('>', s, ZERO))
                return s
            if n.get('oc') and base in ('operator==', 'operator!=') and len(args) == 2:
                vals = []
                for a, e in zip(args, n['a']):
                    if a == TOP:
                        return None
                    vals.append(st.read(to_loc(a)) if f.nodes[e].get('lv') and a[0] != 'str' else a)
                if TOP in vals:
                    return None
                if 'unique_ptr' in n.get('fk', '') or 'shared_ptr' in n.get('fk', '') or 'nullptr_t' in n.get('fk', ''):
                    return cmp_(base[8:], vals[0], vals[1])
                v = ('fcmp', '==') + tuple(sorted(vals, key=skey))
                return v if base == 'operator==' else neg(v)
            return None
        ov = st.read(obj)
        if ('std::unique_ptr<' in name or 'std::shared_ptr<' in name or 'std::__shared_ptr' in name):
            if base in UPTR_GET:
                return ov
            if base == 'operator bool':
                return self.boolean(st, ov)
            if base == 'reset':
                v = args[0] if args else ZERO
                self.rule.on_write(self, st, f, nid, n, obj, v)
                st.write(obj, v)
                return ZERO
            if base == 'release':
                st.write(obj, ZERO)
                return ov
            if base == 'operator=' and args and args[0] != TOP:
                an = f.nodes.get(n['a'][0], {})
                if an.get('lv') or an.get('k') == 'call' and an.get('f') in STD_PASS:
                    src = to_loc(args[0])
                    v = st.read(src)
                    if n.get('am', [0])[:1] == [3]:
                        st.write(src, ZERO)
                else:
                    v = args[0]
                self.rule.on_write(self, st, f, nid, n, obj, v)
                st.write(obj, v)
                return to_addr(obj)
        if 'std::atomic<' in name or 'std::__atomic_base<' in name:
            if base in ('load', 'store', 'exchange') or base.startswith('operator'):
                if base == 'store' or base == 'operator=':
                    v = args[0] if args else TOP
                    self.rule.on_write(self, st, f, nid, n, obj, v)
                    st.write(obj, v)
                    return v
                if base in ('load',) or base.startswith('operator ') or base == 'operator bool':
                    return self.fresh(st, fid, nid, 'atom', t)
            return None
        if base in ('operator[]', 'at', 'front', 'back') and t:
            if ov != TOP and TOP not in args:
                idx = tuple(self.rv(st, f, a, e) for a, e in zip(args, n['a']))
                loc = ('F', obj, ('elem', base if base != 'at' else 'operator[]') + idx)
                if n.get('lv'):
                    return ('addr', loc)
            return None
        if base == 'operator=' and obj is not None and 'basic_string' in name and args and args[0][0] == 'str':
            st.write(obj, args[0])
            return to_addr(obj)
        if name.startswith(CONTAINERS):
            if base in ('size', 'length') and ov != TOP:
                return ('uns', ('pure', 'size', ov))
            if base == 'empty' and ov != TOP:
                return cmp_('==', ('uns', ('pure', 'size', ov)), ZERO)
            if base in ('resize', 'clear'):
                w = self.fresh(st, fid, nid, 'obj')
                self.rule.on_write(self, st, f, nid, n, obj, w)
                st.write(obj, w)
                sz = ZERO if base == 'clear' else self.rv(st, f, args[0], n['a'][0]) if args else TOP
                if sz != TOP:
                    st.assume(cmp_('==', ('uns', ('pure', 'size', w)), sz))
                    lo, hi, _ = vbounds(sz, st.facts)
                    for op, x in (('>=', lo), ('<=', hi)):
                        if x not in (-INF, INF):
                            st.assume(cmp_(op, ('uns', ('pure', 'size', w)), const(x)))
                return ZERO
        if n.get('cm') and ov != TOP and TOP not in args:
            # deterministic observer of the object's current version
            subs = tuple(sorted(((l, v) for l, v in st.store.items() if _is_under(l, obj)), key=repr)) if False else ()
            v = ('pure', base, ov) + tuple(self.rv(st, f, a, e) for a, e in zip(args, n['a']))
            if _depth(v) > 8:
                return None
            if n.get('lv'):
                return None
            return typed(v, t)
        return None

    def rv(self, st, f, a, e):
        if a != TOP and f.nodes.get(e, {}).get('lv') and a[0] != 'str':
            return st.read(to_loc(a))
        return a


def typed(v, t):
    if v[0] in ('sym', 'fld', 'elt', 'cont', 'ini', 'pure'):
        if t == 'bool':
            return ('bool', v)
        if t.startswith('unsigned'):
            return ('uns', v)
    return v


def is_lock_type(rec):
    return rec.startswith(('std::lock_guard<', 'std::unique_lock<',
                           'std::scoped_lock<', 'folly::SpinLockGuard')) or \
        rec in ('folly::RWSpinLock::ReadHolder', 'folly::RWSpinLock::WriteHolder')


def _mentions_join(x, fid, blk):
    s = set()
    atoms_of(x, s)
    return any(isinstance(a[1], tuple) and a[1][:3] == ('join', fid, blk) for a in s)


def _mentions(x, syms):
    if x in syms:
        return True
    if isinstance(x, tuple):
        return any(isinstance(y, tuple) and _mentions(y, syms) for y in x)
    return False


def _down(x, more=()):
    for t in more + (1, 0, -1):
        if x >= t:
            return t
    return -INF


def _up(x):
    for t in (-1, 0, 1):
        if x <= t:
            return t
    return INF


def _depth(v):
    if not isinstance(v, tuple):
        return 0
    if v[:1] == ('sym',):
        return 1
    return 1 + max((_depth(x) for x in v), default=0)


def _has_top(v):
    if v == TOP:
        return True
    return isinstance(v, tuple) and any(_has_top(x) for x in v)


def _detop(v):
    """a value any part of which became TOP is TOP; locations keep shape"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ('lin', 'cmp', 'not', 'bool', 'uns', 'op', 'fcmp', 'fld', 'elt',
                'cont', 'pure', 'min', 'max', 'tmp') and _has_top(v):
        return TOP
    return v


def liveness(f):
    if f._live is not None:
        return f._live
    uses = {}
    defs = {}
    pinned = set()
    elem_set = set()
    for b in f.reachable():
        for e in f.blocks[b]['e']:
            elem_set.add(e)
    for b in f.reachable():
        u = set()
        d = set()
        seq = list(f.blocks[b]['e'])
        t = f.blocks[b].get('t')
        if t and t.get('c'):
            seq.append(t['c'])
        for e in seq:
            n = f.nodes[e]
            todo = [e]
            seen = set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                m = f.nodes.get(x)
                if m is None:
                    continue
                if m['k'] == 'v' and not m.get('g'):
                    if m['d'] not in d:
                        u.add(m['d'])
                if m['k'] == 'dtor':
                    if m['d'] not in d:
                        u.add(m['d'])
                if m['k'] == 'lam':
                    for c in m['caps']:
                        if 'd' in c:
                            pinned.add(c['d'])
                if m['k'] == 'addr':
                    y = f.nodes.get(m['e'], {})
                    if y.get('k') == 'v':
                        pinned.add(y['d'])
                if m['k'] == 'decl':
                    for dd in m['ds']:
                        if dd.get('ref') and dd.get('e'):
                            for y in f.subnodes(dd['e']):
                                if f.nodes[y]['k'] == 'v':
                                    pinned.add(f.nodes[y]['d'])
                for c in f.children(x):
                    if c not in elem_set or c == x:
                        todo.append(c)
                    elif f.nodes.get(c, {}).get('k') == 'v':
                        todo.append(c)
            if n['k'] == 'decl':
                for dd in n['ds']:
                    d.add(dd['d'])
        uses[b] = u
        defs[b] = d
    # arrays decay to pointers
    for n in f.nodes.values():
        if n['k'] == 'cast' and n.get('ck') == 'ArrayToPointerDecay':
            y = f.nodes.get(n['e'], {})
            if y.get('k') == 'v':
                pinned.add(y['d'])
    live = {b: set(uses[b]) for b in f.reachable()}
    ch = True
    while ch:
        ch = False
        for b in f.reachable():
            out = set()
            for s in f.blocks[b]['s']:
                if s >= 0 and s in live:
                    out |= live[s]
            new = uses[b] | (out - defs[b])
            if new != live[b]:
                live[b] = new
                ch = True
    f._live = (live, pinned)
    return f._live


def cross_nodes(f):
    if f._cross is not None:
        return f._cross
    owner = {}
    for b in f.reachable():
        for e in f.blocks[b]['e']:
            owner.setdefault(e, b)
    cross = {'ret'}
    for b in f.reachable():
        seq = list(f.blocks[b]['e'])
        t = f.blocks[b].get('t')
        if t:
            for kk in ('c', 'n'):
                if t.get(kk):
                    seq.append(t[kk])
        for e in seq:
            if owner.get(e, b) != b:
                cross.add(e)
            todo = f.children(e)
            seen = set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in owner:
                    if owner[x] != b:
                        cross.add(x)
                    # logic/cond operands are consulted lazily
                    if f.nodes[x]['k'] in ('logic', 'cond', 'un', 'cast'):
                        todo += f.children(x)
                else:
                    todo += f.children(x)
    f._cross = cross
    return cross
