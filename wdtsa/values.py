"""Abstract values: constants, opaque atoms, linear forms over atoms, and
comparisons; plus interval facts about linear forms (a branch-condition domain,
decided by table lookup - there is no solver)."""

INF = float('inf')
ZERO = ('c', 0)
ONE = ('c', 1)


def const(n):
    return ('c', int(n))


def is_const(v):
    return v[0] == 'c'


def lin(v):
    """-> (terms tuple sorted, const)"""
    if v[0] == 'c':
        return (), v[1]
    if v[0] == 'lin':
        return v[1], v[2]
    return ((v, 1),), 0


_skey = {}


def skey(v):
    k = _skey.get(v)
    if k is None:
        k = repr(v)
        if len(_skey) > 200000:
            _skey.clear()
        _skey[v] = k
    return k


def mk(terms, c):
    if not terms:
        return ('c', c)
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return ('lin', terms, c)


def ladd(a, b, sb=1):
    ta, ca = lin(a)
    tb, cb = lin(b)
    if not tb:
        return mk(ta, ca + sb * cb)
    d = dict(ta)
    for t, k in tb:
        n = d.get(t, 0) + sb * k
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    if len(d) > 6:
        return ('op', '+' if sb == 1 else '-', a, b)
    return mk(tuple(sorted(d.items(), key=lambda x: skey(x[0]))), ca + sb * cb)


def lmul(a, k):
    ta, ca = lin(a)
    if k == 0:
        return ZERO
    return mk(tuple((t, c * k) for t, c in ta), ca * k)


def neg(v):
    """boolean negation"""
    if v[0] == 'c':
        return const(not v[1])
    if v[0] == 'not':
        return v[1]
    return ('not', v)


def norm(v):
    """linear form -> (canonical positive terms, sign, const)"""
    t, c = lin(v)
    if t and t[0][1] < 0:
        return tuple((a, -k) for a, k in t), -1, c
    return t, 1, c


def cmp_(op, a, b):
    """boolean value of an integer comparison"""
    if op == '!=':
        return neg(cmp_('==', a, b))
    if op == '>':
        return cmp_('<', b, a)
    if op == '>=':
        return cmp_('<=', b, a)
    d = ladd(a, b, -1)
    if op == '<':
        d = ladd(d, ONE)
        op = '<='
    if d[0] == 'c':
        return const(d[1] <= 0 if op == '<=' else d[1] == 0)
    if op == '==':
        # boolean compared with 0/1
        t, c = lin(d)
        if len(t) == 1 and abs(t[0][1]) == 1 and t[0][0][0] in ('cmp', 'not', 'bool'):
            val = -c * t[0][1]
            if val == 1:
                return t[0][0]
            if val == 0:
                return neg(t[0][0])
        tt, s, c = norm(d)
        d = mk(tt, c * s)
    return ('cmp', op, d)


# ---- facts: dict terms -> (lo, hi, excl) ----

def bounds(terms, facts, depth=1):
    """interval of a canonical-terms linear part"""
    f = facts.get(terms)
    lo, hi = -INF, INF
    excl = ()
    if f:
        lo, hi, excl = f
    if len(terms) == 1:
        a, k = terms[0]
        if k != 1:
            l, h, _ = bounds(((a, 1),), facts, depth)
            if k > 0:
                lo, hi = max(lo, l * k), min(hi, h * k)
            else:
                lo, hi = max(lo, h * k), min(hi, l * k)
        elif a[0] in ('cmp', 'not', 'bool'):
            lo, hi = max(lo, 0), min(hi, 1)
        elif a[0] == 'uns':
            lo = max(lo, 0)
        return lo, hi, excl
    if depth:
        l = h = 0
        for a, k in terms:
            al, ah, _ = bounds(((a, 1),), facts, 0)
            if k > 0:
                l += al * k if al != -INF else -INF
                h += ah * k if ah != INF else INF
            else:
                l += ah * k if ah != INF else -INF
                h += al * k if al != -INF else INF
        lo, hi = max(lo, l), min(hi, h)
        if lo == -INF or hi == INF:
            # combine with one known multi-term fact
            for ft, (fl, fh, _) in facts.items():
                if len(ft) < 2 or ft == terms:
                    continue
                fa = {a for a, _ in ft}
                if not any(a in fa for a, _ in terms):
                    continue
                for s in (1, -1):
                    d = dict(terms)
                    for a, k in ft:
                        n = d.get(a, 0) - s * k
                        if n:
                            d[a] = n
                        else:
                            d.pop(a, None)
                    if len(d) >= len(terms):
                        if len(d) > len(terms) + 1 or len(d) >= len(terms) + len(ft):
                            continue
                        # the rest is looked up: T = s*F + rest
                        nt = tuple(sorted(d.items(), key=lambda x: skey(x[0])))
                        sg = 1
                        if nt[0][1] < 0:
                            nt = tuple((a, -k) for a, k in nt)
                            sg = -1
                        g = facts.get(nt)
                        if not g:
                            continue
                        gl, gh = (g[0], g[1]) if sg == 1 else (-g[1], -g[0])
                        ql, qh = (fl, fh) if s == 1 else (-fh, -fl)
                        lo, hi = max(lo, gl + ql), min(hi, gh + qh)
                        continue
                    rl = rh = 0
                    for a, k in d.items():
                        al, ah, _ = bounds(((a, 1),), facts, 0)
                        if k > 0:
                            rl += al * k if al != -INF else -INF
                            rh += ah * k if ah != INF else INF
                        else:
                            rl += ah * k if ah != INF else -INF
                            rh += al * k if al != -INF else INF
                    gl, gh = (fl, fh) if s == 1 else (-fh, -fl)
                    lo = max(lo, gl + rl if gl != -INF and rl != -INF else -INF)
                    hi = min(hi, gh + rh if gh != INF and rh != INF else INF)
    return lo, hi, excl


def vbounds(v, facts):
    t, c = lin(v)
    if not t:
        return c, c, ()
    t2, s, _ = norm(v)
    lo, hi, ex = bounds(t2, facts)
    if s == 1:
        return lo + c, hi + c, tuple(e + c for e in ex)
    return -hi + c, -lo + c, tuple(-e + c for e in ex)


def truth(v, facts):
    k = v[0]
    if k == 'c':
        return v[1] != 0
    if k == 'not':
        t = truth(v[1], facts)
        return None if t is None else not t
    if k == 'cmp':
        op, d = v[1], v[2]
        lo, hi, ex = vbounds(d, facts)
        if op == '<=':
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if op == '==':
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0 or 0 in ex:
                return False
            return None
    if k in ('str', 'addr', 'clos', 'guard'):
        return True
    if k == 'fcmp':
        f = facts.get(((v, 1),))
        if f:
            return f[0] == 1 if f[0] == f[1] else None
        return None
    lo, hi, ex = vbounds(v, facts)
    if lo == hi == 0:
        return False
    if lo > 0 or hi < 0 or 0 in ex:
        return True
    return None


def _set(facts, terms, lo, hi, excl):
    while excl:
        n = tuple(e for e in excl if lo <= e <= hi)
        if lo in n and lo != -INF:
            lo += 1
            excl = n
            continue
        if hi in n and hi != INF:
            hi -= 1
            excl = n
            continue
        excl = n
        break
    if lo > hi:
        return None
    f = dict(facts)
    f[terms] = (lo, hi, tuple(sorted(set(excl)))[:40])
    return f


def _tighten(facts, tt):
    """bounds of single atoms implied by a new fact about their sum"""
    lo, hi, _ = facts[tt]
    b = [bounds(((a, 1),), facts, 0) for a, _ in tt]
    for i, (a, k) in enumerate(tt):
        l, h = lo, hi
        for j, (_, kj) in enumerate(tt):
            if j == i:
                continue
            x, y = b[j][0] * kj, b[j][1] * kj
            if kj < 0:
                x, y = y, x
            l = -INF if l == -INF or y == INF else l - y
            h = INF if h == INF or x == -INF else h - x
        if k < 0:
            l, h = -h, -l
        k = abs(k)
        if k != 1:
            l = l if l == -INF else -((-l) // k)
            h = h if h == INF else h // k
        if l > b[i][0] or h < b[i][1]:
            o = facts.get(((a, 1),), (-INF, INF, ()))
            facts = _set(facts, ((a, 1),), max(l, o[0]), min(h, o[1]), o[2])
            if facts is None:
                return None
    return facts


def assume(v, want, facts):
    """-> new facts, or None when contradictory"""
    t = truth(v, facts)
    if t is not None:
        return facts if t == want else None
    k = v[0]
    if k == 'not':
        return assume(v[1], not want, facts)
    if k == 'cmp':
        op, d = v[1], v[2]
        tt, s, c = norm(d)
        lo, hi, ex = facts.get(tt, (-INF, INF, ()))
        # d = s*T + c
        if op == '<=':
            if want:   # s*T <= -c
                if s == 1:
                    hi = min(hi, -c)
                else:
                    lo = max(lo, c)
            else:      # s*T >= 1-c
                if s == 1:
                    lo = max(lo, 1 - c)
                else:
                    hi = min(hi, c - 1)
        else:
            val = -c * s
            if want:
                lo, hi = max(lo, val), min(hi, val)
                if val in ex:
                    return None
            else:
                ex = ex + (val,)
        r = _set(facts, tt, lo, hi, ex)
        return r if r is None or not 2 <= len(tt) <= 3 else _tighten(r, tt)
    if k == 'fcmp':
        f = dict(facts)
        f[((v, 1),)] = (1, 1, ()) if want else (0, 0, ())
        return f
    if k == 'bool':
        return _set(facts, ((v, 1),), *((1, 1) if want else (0, 0)), ())
    return assume(cmp_('==', v, ZERO), not want, facts)


def atoms_of(v, out):
    """all hashable sub-tuples that are symbols"""
    if isinstance(v, tuple):
        if v and v[0] == 'sym':
            out.add(v)
            # a symbol may be derived from others (its id is opaque)
            return
        for x in v:
            if isinstance(x, tuple):
                atoms_of(x, out)


def subst(v, m):
    """replace symbols per dict m anywhere inside v"""
    if not isinstance(v, tuple):
        return v
    r = m.get(v)
    if r is not None:
        return r
    if v and v[0] == 'sym':
        return v
    ch = False
    out = []
    for x in v:
        y = subst(x, m) if isinstance(x, tuple) else x
        if y is not x:
            ch = True
        out.append(y)
    if not ch:
        return v
    if v and v[0] == 'lin' and len(v) == 3:
        acc = ('c', v[2])
        for a, k in out[1]:
            acc = ladd(acc, lmul(a, k))
        return acc
    return tuple(out)
