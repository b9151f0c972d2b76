"""Loops over a member container: every element visited, none skipped."""
from .engine import *


class ForEach(Rule):
    """rs: frozenset of facts. ('loop', m, phase) with phase start|elem|next|end.
    Subclasses name the containers and say what must happen to each element."""
    lock_havoc = False
    K = 8
    over = ()                # container members (or local variable names)

    def init(self):
        return frozenset()

    # -- facts -------------------------------------------------------
    def has(self, st, x):
        return x in st.rs

    def add(self, st, x):
        st.rs = st.rs | {x}

    def drop(self, st, pred):
        st.rs = frozenset(x for x in st.rs if not pred(x))

    def phase(self, st, m):
        for x in st.rs:
            if x[0] == 'loop' and x[1] == m:
                return x[2]
        return None

    def go(self, st, m, ph):
        self.drop(st, lambda x: x[0] == 'loop' and x[1] == m)
        self.add(st, ('loop', m, ph))

    # -- to override -------------------------------------------------
    def elem_start(self, en, st, f, nid, m):
        pass

    def elem_end(self, en, st, f, nid, m):
        """the loop moves on from an element"""

    def loop_end(self, en, st, f, nid, m):
        pass

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        return None

    def on_branch(self, en, st, f, b, cond, took):
        # loops that count up to the size of a container
        t = f.blocks[b].get('t') or {}
        if t.get('k') not in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return True
        ats = set()
        atoms_of(cond, ats)
        for x in ats:
            if isinstance(x[1], tuple) and x[1][0] == 'size':
                m = x[1][1]
                i = self.other_side(cond, x)
                if i is None:
                    continue
                if st.truth(cmp_('>=', i, x)) is True:
                    if self.phase(st, m) == 'elem':
                        self.elem_end(en, st, f, t.get('c'), m)
                    if self.phase(st, m) != 'end':
                        self.go(st, m, 'end')
                        self.loop_end(en, st, f, t.get('c'), m)
                else:
                    self.drop(st, lambda y: y[0] == 'idx' and y[1] == m)
                    self.add(st, ('idx', m, tuple(sorted(self.locals_in(f, t.get('c'))))))
                    if self.phase(st, m) == 'elem':
                        self.elem_end(en, st, f, t.get('c'), m)
                        self.go(st, m, 'next')
        return True

    def locals_in(self, f, nid, depth=8):
        """local variables read in an expression"""
        n = f.nodes.get(nid)
        if n is None or depth == 0:
            return set()
        if n['k'] == 'v':
            return {n['d']}
        out = set()
        for x in ('e', 'a', 'b', 'o'):
            y = n.get(x)
            for z in y if isinstance(y, list) else [y]:
                if isinstance(z, int):
                    out |= self.locals_in(f, z, depth - 1)
        return out

    def other_side(self, cond, size):
        c = cond
        strict = 0
        while c and c[0] == 'not':
            c = c[1]
        if c[0] != 'cmp':
            return None
        terms, k = lin(c[2])
        s = dict(terms).get(size)
        if s not in (1, -1):
            return None
        rest = ladd(c[2], lmul(size, s), -1)          # c[2] = s*size + rest
        rest = lmul(rest, -s)
        if c[1] == '<=':                              # i + 1 - size <= 0, or size - i <= 0
            return ladd(rest, ONE, -1) if s == -1 else rest
        return rest

    def is_event(self, f, nid, n):
        if n['k'] == 'call' and n.get('o') and n.get('f', '').rsplit('::', 1)[-1] in ('begin', 'size'):
            o = f.nodes.get(n['o'], {})
            return o.get('f') in self.over
        return False

    # -- recognition -------------------------------------------------
    def container(self, st, obj):
        if obj and obj[0] == 'F' and obj[2] in self.over:
            return obj[2]
        return None

    def iter_of(self, st, loc):
        if loc is None or loc == TOP:
            return None
        v = st.read(loc)
        if v != TOP and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'iter':
            return v[1][1]
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        base = q.rsplit('::', 1)[-1]
        if not n.get('repo'):
            if base in ('begin', 'cbegin'):
                m = self.container(st, obj)
                if m:
                    self.count('loops')
                    self.go(st, m, 'start')
                    return [(st, ('sym', ('iter', m)))]
            if base in ('operator!=', 'operator=='):
                locs = ([obj] if obj else []) + [to_loc(a) for a in args if a != TOP]
                ms = [self.iter_of(st, l) for l in locs]
                m = next((x for x in ms if x), None)
                if m:
                    ph = self.phase(st, m)
                    if ph == 'elem':
                        self.elem_end(en, st, f, nid, m)
                    size = ('sym', ('size', m))
                    st.store[('G', ('size', m))] = size
                    st.assume(cmp_('>=', size, ZERO))
                    a, b = st, st.copy()
                    out = []
                    yes = base == 'operator!='
                    some = st.truth(cmp_('>', size, ZERO))
                    if ph != 'start' or some is not False:
                        a.assume(cmp_('>', size, ZERO))
                        self.go(a, m, 'elem')
                        self.elem_start(en, a, f, nid, m)
                        out.append((a, ONE if yes else ZERO))
                    if ph != 'start' or some is not True:
                        if ph == 'start':
                            b.assume(cmp_('==', size, ZERO))
                        self.go(b, m, 'end')
                        self.loop_end(en, b, f, nid, m)
                        out.append((b, ZERO if yes else ONE))
                    return out
            if base in ('size', 'empty', 'operator[]', 'at', 'front', 'back') and n['k'] == 'call':
                m = self.container(st, obj)
                if m:
                    size = ('sym', ('size', m))
                    st.store[('G', ('size', m))] = size        # keeps what is known about it
                    st.assume(cmp_('>=', size, ZERO))
                    if base in ('size', 'empty'):
                            return [(st, size if base == 'size' else cmp_('==', size, ZERO))]
                    if base in ('operator[]', 'at') and len(args) == 1:
                        i = en.rv(st, f, args[0], n['a'][0])
                        cur = next((y[2] for y in st.rs if y[0] == 'idx' and y[1] == m), None)
                        if cur is not None:
                            x = self.locals_in(f, n['a'][0])
                            hit = len(x) == 1 and x <= set(cur)
                        else:
                            hit = i != TOP and st.truth(cmp_('<', i, size)) is True
                        if hit:
                            if self.phase(st, m) != 'elem':
                                first = self.phase(st, m) is None
                                self.count('loops')
                                if first and st.truth(cmp_('>', i, ZERO)) is True:      # starts late
                                    self.go(st, m, 'elem')
                                    self.elem_start(en, st, f, nid, m)
                                    self.elem_end(en, st, f, nid, m)
                                self.go(st, m, 'elem')
                                self.elem_start(en, st, f, nid, m)
                            return [(st, ('addr', ('P', ('sym', ('elem', m)))))]
            if base in ('operator*', 'operator->') and obj:
                m = self.iter_of(st, obj)
                if m:
                    loc = ('P', ('sym', ('elem', m)))
                    return [(st, ('addr', loc))]
            if base == 'operator++' and obj:
                m = self.iter_of(st, obj)
                if m:
                    return [(st, st.read(obj))]
        return self.other_call(en, st, f, fid, nid, n, obj, args)

    def is_elem(self, st, v, m):
        """value or address that designates the current element"""
        e = ('sym', ('elem', m))
        for _ in range(4):
            if v == TOP:
                return False
            if v == ('addr', ('P', e)) or v == ('P', e):
                return True
            if v[0] == 'cont':
                v = ('P', v[1])
                continue
            if v[0] == 'P' and v[1] != TOP and v[1][0] == 'cont':
                v = v[1]
                continue
            if v[0] == 'addr':
                x = v[1]
                if x[0] == 'F' or x[0] == 'X':
                    v = x[1]
                    continue
                v = st.read(x)
                continue
            if v[0] in ('F', 'X', 'fld', 'elt'):
                v = v[1]
                continue
            if v[0] in ('L', 'T'):
                v = st.read(v)
                continue
            return False
        return False
