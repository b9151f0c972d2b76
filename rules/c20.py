"""C20: the receiver only touches files below its own directory."""
from wdtsa.sock import *

EXPLAIN = ('The name in a file command is untrusted until a check of that name has succeeded; every path of the receiver to '
           'the point where the file is opened, created or deleted must pass such a check. The check itself is explored: it '
           'may accept only names that are not empty, do not start or end with a slash and whose every component was '
           'compared with "..". In FileCreator every path given to the system is the root directory followed by that name or '
           'a leading part of it.')
RULE = 'taint typestate on the received name; string-position typestate on the validator; origin tracking of paths'
ASSUME = ['symbolic links below the root directory are placed there by the owner of the directory']

NAME = 'BlockDetails::fileName'
SYS = {'open': (0,), 'creat': (0,), 'mkdir': (0,), 'unlink': (0,), 'rename': (0, 1), 'rmdir': (0,), 'truncate': (0,), 'chmod': (0,), 'chown': (0,),
       'link': (0, 1), 'symlink': (0, 1), 'remove': (0,), 'openat': (1,), 'unlinkat': (1,), 'mkdirat': (1,), 'fopen': (0,), 'stat': (0,), 'lstat': (0,)}


def smeth(n):
    q = n.get('f', '')
    if n['k'] == 'call' and q.startswith('std::basic_string<'):
        return q.rsplit('::', 1)[-1]
    return None


def plain(v):
    if v is None or v == TOP:
        return TOP
    ts, c = lin(v)
    r = const(c)
    for a, k in ts:
        while a[0] == 'uns':
            a = a[1]
        r = ladd(r, a, k)
    return r


class Validator(Rule):
    """a function that says whether a relative name is safe"""
    K = 24
    affine = True

    def init(self):
        return ()

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        m = smeth(n)
        if m is None:
            return None
        self.count('string_ops')
        g = st.store
        if m == 'empty':
            a = st.copy()
            a.store[('G', 'empty')] = ZERO
            return [(st, ONE), (a, ZERO)]
        if m in ('size', 'length'):
            return [(st, ('sym', 'size'))]
        if m in ('front', 'back') or m in ('operator[]', 'at') and args and args[0] == ZERO:
            loc = ('T', fid, nid)
            st.write(loc, ('sym', 'back' if m == 'back' else 'front'))
            return [(st, ('addr', loc))]
        if m == 'find' and args and args[0] == const(47):
            pos = plain(args[1]) if len(args) > 1 else ZERO
            npos = st.copy()
            v = en.fresh(st, fid, nid, 'slash')
            for x in (v, ('uns', v)):
                st.assume(cmp_('>=', x, ZERO))
                st.assume(cmp_('<=', x, const(2 ** 62)))
            st.store[('G', 'from')] = pos
            st.store[('G', 'to')] = v
            npos.store[('G', 'from')] = pos
            npos.store[('G', 'to')] = self.npos
            return [(st, v), (npos, self.npos)]
        if m == 'compare' and len(args) == 3:
            if args[2] != ('str', '..'):
                return [(st, en.fresh(st, fid, nid, 'cmp'))]
            eq = st.copy()
            fr, to, nxt = g.get(('G', 'from')), g.get(('G', 'to')), g.get(('G', 'next'), ZERO)
            args = [plain(args[0]), plain(args[1])]
            ok = TOP not in (args[0], args[1]) and fr is not None and TOP not in (fr, to) and \
                st.truth(cmp_('==', args[0], fr)) is True and st.truth(cmp_('==', fr, nxt)) is True and \
                (to == self.npos or st.truth(cmp_('==', args[1], ladd(to, fr, -1))) is True)
            if ok:
                self.count('components')
                if to == self.npos:
                    st.store[('G', 'all')] = ONE
                else:
                    st.store[('G', 'next')] = ladd(to, ONE)
            w = en.fresh(st, fid, nid, 'cmp')
            st.assume(cmp_('!=', w, ZERO))
            return [(st, w), (eq, ZERO)]
        return None

    npos = const(2 ** 64 - 1)

    def part(self, st):
        g = st.store
        return g.get(('G', 'all')), g.get(('G', 'to')) == self.npos

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        t = st.truth(ret) if ret != TOP else None
        if t is False:
            return
        self.count('accepts')
        g = st.store
        bad = []
        if g.get(('G', 'empty')) != ZERO:
            bad.append('empty')
        for x in ('front', 'back'):
            if st.truth(cmp_('!=', ('sym', x), const(47))) is not True:
                bad.append('slash at the ' + x)
        if g.get(('G', 'all')) != ONE:
            bad.append('".." component')
        if bad:
            self.report('accepts', 'a name is accepted although it may have: ' + ', '.join(bad), st, fn.loc())


class Taint(SockRule):
    K = 12
    opaque = frozenset({'ReceiverThread::sendHeartBeat'})
    validators = frozenset()

    def fail(self, st, f, n, kind):
        pass

    def should_inline(self, k):
        f = self.prog.F[k]
        if f.cls in ('FileWriter', 'FileCreator', 'TransferStats', 'WdtBase', 'Receiver', 'Protocol', 'Throttler', 'Funnel'):
            return False
        return super().should_inline(k)

    def part(self, st):
        return st.store.get(('G', 'valid'))

    def is_event(self, f, nid, n):
        return super().is_event(f, nid, n) or n.get('f', '') in self.validators or n.get('f', '') in SINKS

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if q in self.validators:
            if args and self.named(st, args[-1]):
                self.count('checks')
                bad = st.copy()
                st.store[('G', 'valid')] = ONE
                return [(st, ONE), (bad, ZERO)]
            return [(st, ONE), (st.copy(), ZERO)]
        if q == 'Protocol::decodeHeader':
            st.store[('G', 'valid')] = ZERO
        if q in SINKS:
            self.count('sinks')
            self.sites.add((f.qn, nid))
            if st.store.get(('G', 'valid')) != ONE:
                self.report('%s: unchecked name' % f.qn, 'a file is opened or deleted by the name the peer sent, without checking the name', st, f.loc(nid))
        return super().on_call(en, st, f, fid, nid, n, obj, args)

    def named(self, st, a):
        if a == TOP:
            return False
        if a[0] == 'addr' and not self.is_name(a[1]):
            a = st.read(a[1])
        return a != TOP and (a[0] == 'addr' and self.is_name(a[1]) or a[0] == 'fld' and a[2] == NAME)

    def is_name(self, loc):
        return loc[0] == 'F' and loc[2] == NAME

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc and self.is_name(loc):
            st.store[('G', 'valid')] = ZERO

    def on_exit(self, en, st, fn, ret):
        self.count('exits')


SINKS = ('FileWriter::open', 'FileCreator::openForBlocks')


class Paths(Rule):
    K = 8
    maxdepth = 9

    def init(self):
        return ()

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and (n.get('f') in SYS and not n.get('repo') or n.get('f') == 'std::operator+')

    def tag(self, st, v):
        if v == TOP:
            return None
        if v[0] == 'addr':
            l = v[1]
            if l[0] == 'F' and l[2] == NAME:
                return 'name'
            if l[0] == 'F' and l[2] == 'FileCreator::rootDir_':
                return 'root'
            v = st.read(l)
            if v == TOP:
                return None
        if v[0] in ('pure', 'fld') and v[1] in ('name', 'full', 'root'):
            return v[1]
        if v[0] == 'fld' and v[2] == NAME:
            return 'name'
        if v[0] == 'fld' and v[2] == 'FileCreator::rootDir_':
            return 'root'
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        m = smeth(n)
        if q == 'std::operator+' and len(args) == 2:
            if (self.tag(st, args[0]), self.tag(st, args[1])) == ('root', 'name'):
                self.count('full_paths')
                return [(st, ('pure', 'full', ZERO))]
            return [(st, TOP)]
        if m and obj:
            t = self.tag(st, ('addr', obj))
            if m in ('c_str', 'data') and t:
                return [(st, ('pure', t, ZERO))]
            if m == 'substr' and t == 'name' and args and args[0] == ZERO:
                return [(st, ('pure', 'name', ZERO))]
            if m == 'assign' and args:
                st.write(obj, ('pure', 'name', ZERO) if self.tag(st, args[0]) == 'name' and args[0][0] == 'pure' else TOP)
                return [(st, to_addr(obj))]
            if m in ('append', 'operator+=') and len(args) == 1 and t == 'root' and self.tag(st, args[0]) == 'name':
                self.count('full_paths')
                st.write(obj, ('pure', 'full', ZERO))
                return [(st, to_addr(obj))]
            if not n.get('cm') and m in ('append', 'operator+=', 'push_back', 'insert', 'replace', 'erase'):
                st.write(obj, TOP)
                return [(st, to_addr(obj))]
        if n['k'] == 'call' and q in SYS and not n.get('repo'):
            self.count('path_calls')
            self.sites.add((f.qn, nid))
            for i in SYS[q]:
                a = args[i] if i < len(args) else TOP
                if self.tag(st, a) != 'full':
                    self.report('%s: %s path' % (f.qn, q), '%s() is given a path that is not the root directory followed by the received name' % q, st, f.loc(nid))
            bad = st.copy()
            v = en.fresh(st, fid, nid, 'fd')
            st.assume(cmp_('>=', v, ZERO))
            return [(st, v), (bad, const(-1))]
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] == 'std::basic_string' and len(args) <= 1:
            t = self.tag(st, args[0]) if args else 'name'      # the empty leading part
            if t:
                st.env[(fid, nid)] = ('pure', t, ZERO)
                return [(st, ('pure', t, ZERO))]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')


class Root(Rule):
    """the kept root directory is the given one and ends with a slash"""
    K = 8
    maxdepth = 4

    def init(self):
        return ()

    def should_inline(self, k):
        return self.prog.F[k].name == 'addTrailingSlash' or super().should_inline(k) and not self.prog.F[k].name.startswith('create')

    def tag(self, st, v):
        if v != TOP and v[0] == 'addr':
            v = st.read(v[1])
        return v[1] if v != TOP and v[0] == 'pure' and v[1] in ('given', 'slashed') else None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        m = smeth(n)
        if not m or not obj:
            return None
        t = self.tag(st, ('addr', obj))
        if m == 'back' and t == 'given':
            yes = st.copy()
            yes.write(obj, ('pure', 'slashed', ZERO))
            l = ('T', fid, nid)
            yes.write(l, const(47))
            v = en.fresh(st, fid, nid, 'char')
            st.assume(cmp_('!=', v, const(47)))
            st.write(l, v)
            return [(yes, ('addr', l)), (st, ('addr', l))]
        if m in ('push_back', 'append', 'operator+=') and len(args) == 1 and t and args[0] in (const(47), ('str', '/')):
            st.write(obj, ('pure', 'slashed', ZERO))
            return [(st, to_addr(obj))]
        if m in ('operator=', 'assign') and args:
            x = self.tag(st, args[0])
            st.write(obj, ('pure', x, ZERO) if x else TOP)
            return [(st, to_addr(obj))]
        if not n.get('cm') and m not in ('back', 'front', 'begin', 'end', 'operator[]'):
            st.write(obj, TOP)
        return None

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if n.get('rec', '').split('<')[0] == 'std::basic_string' and args:
            t = self.tag(st, args[0])
            if t:
                st.env[(fid, nid)] = ('pure', t, ZERO)
                return [(st, ('pure', t, ZERO))]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('constructions')
        if self.tag(st, ('addr', ('F', ('P', THIS), fn.cls + '::rootDir_'))) != 'slashed':
            self.report('%s: root directory' % fn.qn, 'the root directory kept may not end with a slash, so files may be placed next to it', st, fn.loc())


def run(P, c):
    for cls in ('FileCreator', 'TransferLogManager'):
        for f in sorted({f.key: f for f in P.F.values() if f.qn == '%s::%s' % (cls, cls) and len(f.params) >= 2}.values(), key=lambda f: f.key):
            r = Root(P)

            def root(st, fn, fid):
                for p in fn.params:
                    if 'basic_string' in p['t'] or 'std::string' in p['t']:
                        st.store[('L', fid, p['d'])] = ('addr', ('P', ('sym', 'root')))
                        st.store[('P', ('sym', 'root'))] = ('pure', 'given', ZERO)
            c.explore(r, f.key, setup=root)
            c.oblige('%s keeps a root directory that ends with a slash' % cls, not r.viol)
            c.absorb(r)
            c.count('constructions', r.stats.get('constructions', 0))
    c.need(c.counts.get('constructions'), 'no constructor with a root directory found')
    for f in P.F.values():
        if f.name != f.cls and {'FileCreator::rootDir_', 'TransferLogManager::rootDir_'} & P.direct_mods(f):
            c.violation('%s: root changed' % f.qn, 'the root directory is changed after construction', f.loc())
    # validators: explored one by one, only sound ones count
    val = set()
    for f in sorted({f.key: f for f in P.F.values()}.values(), key=lambda f: f.key):
        if f.ret != 'bool' or len(f.params) != 1 or 'basic_string' not in f.params[0]['t'] and 'std::string' not in f.params[0]['t'] or f.cls not in ('FileCreator', None, '', 'ReceiverThread', 'Protocol'):
            continue
        if not any(smeth(n) == 'compare' or smeth(n) == 'find' for _, n in f.calls()):
            continue
        r = Validator(P)
        c.explore(r, f.key)
        c.counts['candidates'] = c.counts.get('candidates', 0) + 1
        if not r.viol and r.stats.get('accepts') and r.stats.get('components'):
            val.add(f.qn)
        elif f.cls == 'FileCreator':
            c.absorb(r)
    c.oblige('names are checked by a function that rejects empty, absolute and ".." names', bool(val))
    r = Taint(P)
    r.validators = frozenset(val)
    f = P.fn('ReceiverThread::processFileCmd')
    c.explore(r, f.key)
    c.need(r.stats.get('sinks') or r.viol, 'no file is opened in processFileCmd')
    c.oblige('the received name is checked before it is used', not r.viol)
    c.absorb(r)
    for k, v in r.stats.items():
        c.counts[k] = c.counts.get(k, 0) + v
    # nothing else opens files for blocks
    for g in P.F.values():
        for nid, n in g.calls():
            if n.get('f') in SINKS and (g.qn, nid) not in r.sites and g.qn != 'FileWriter::open':
                c.violation('%s: other sink' % g.qn, '%s opens files for blocks outside of the analysed path' % g.qn, g.loc(nid))
    # root + name
    r = Paths(P)
    r.sites = set()
    e = P.fn('FileCreator::openForBlocks')
    def setup(st, fn, fid):
        for p in fn.params:
            if 'basic_string' in p['t'] or 'std::string' in p['t']:
                st.store[('L', fid, p['d'])] = ('pure', 'name', ZERO)
    c.explore(r, e.key, setup=setup)
    c.need(r.stats.get('path_calls', 0) >= 4 or r.viol, 'only %d path calls seen' % r.stats.get('path_calls', 0))
    c.oblige('files are opened, created and deleted below the root directory', not r.viol)
    c.absorb(r)
    for k, v in r.stats.items():
        c.counts[k] = c.counts.get(k, 0) + v
    for g in P.F.values():
        if g.cls in ('FileCreator', 'FileWriter'):
            for nid, n in g.calls():
                if n.get('f') in SYS and not n.get('repo') and not n.get('o'):
                    c.check((g.qn, nid) in r.sites, '%s: unseen path' % g.qn, 'a path given to the system in %s is outside the analysed paths' % g.qn, g.loc(nid))
