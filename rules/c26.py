"""C26: directory discovery finds exactly the files it should."""
from wdtsa.foreach import *

EXPLAIN = ('The directory walk is explored for every kind of directory entry (names with leading dots, regular file, directory, '
           'link, other, unknown type), every outcome of the calls that examine it and every answer of the patterns. When the '
           'walk moves on from an entry the entry must have been queued, put on the list of directories to visit, or left out, '
           'exactly as its kind and the options say, under the path built from the directory and the entry name; an entry or '
           'directory that could not be examined must make the walk report failure. Path strings are tracked as '
           'concatenations of the root, the directory being read and the entry name.')
RULE = 'case split per directory entry over an abstract file system; string concatenation domain; pending-failure typestate'
ASSUME = ['a regular-expression match is judged by which pattern and which path it is given']

ROOT, REL = '<root>', '<dir/>'
IFMT = {'REG': 0o100644, 'DIR': 0o040755, 'LNK': 0o120777, 'OTHER': 0o010644}
DT = {'DIR': 4, 'REG': 8, 'UNKNOWN': 0, 'LNK': 10, 'OTHER': 6}
NAMES = [('.', ('DIR', 'UNKNOWN')), ('..', ('DIR', 'UNKNOWN')), ('x', tuple(DT)), ('.x', ('REG', 'DIR')), ('..x', ('REG', 'UNKNOWN'))]
CLS = 'DirectorySourceQueue::'
PATS = {CLS + 'includePattern_': 'include', CLS + 'excludePattern_': 'exclude', CLS + 'pruneDirPattern_': 'prune'}
STR = 'std::basic_string<char'


def S(t):
    return ('sym', ('S', t))


def is_str(n):
    return n.get('rec', '').split('<')[0] == 'std::basic_string' or n.get('f', '').startswith('std::basic_string<')


class Strings:
    """strings as concatenations of named parts"""
    def part_of(self, st, loc):
        return None

    def txt(self, st, v, depth=6):
        if v is None or v == TOP or depth == 0:
            return None
        if v[0] == 'str':
            return v[1]
        if v[0] == 'c':
            return chr(v[1]) if 0 < v[1] < 128 else None
        if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'S':
            return v[1][1]
        if v[0] == 'fld' and v[2] == CLS + 'rootDir_':
            return ROOT
        if v[0] == 'addr':
            l = v[1]
            if l[0] == 'X' and l[2] == ZERO:
                l = l[1]
            if l[0] == 'F' and l[2] == CLS + 'rootDir_':
                return ROOT
            t = self.part_of(st, l)
            if t is not None:
                return t
            return self.txt(st, st.read(l), depth - 1)
        return None

    def string_ctor(self, st, f, n, args):
        rec = n.get('rec', '').split('<')[0]
        if rec == 'std::basic_string':
            if len(args) == 2 and (f.nodes.get(n['a'][1], {}).get('t') or '').startswith('std::allocator'):
                args = args[:1]
            if not args:
                return [(st, S(''))]
            t = self.txt(st, args[0])
            if t is not None and len(args) == 1:
                return [(st, S(t))]
            if len(args) == 2 and args[0] == ONE and self.txt(st, args[1]):
                return [(st, S(self.txt(st, args[1])))]
        return None

    def string_call(self, st, q, b, n, obj, args):
        if q in ('strcmp', '__builtin_strcmp') and len(args) == 2:
            a, c = self.txt(st, args[0]), self.txt(st, args[1])
            if a is not None and c is not None and '<' not in a + c:
                return [(st, const((a > c) - (a < c)))]
            return None
        if q in ('strncmp',) and len(args) == 3 and args[2][0] == 'c':
            a, c = self.txt(st, args[0]), self.txt(st, args[1])
            if a is not None and c is not None and '<' not in a + c:
                a, c = a[:args[2][1]], c[:args[2][1]]
                return [(st, const((a > c) - (a < c)))]
            return None
        if b in ('operator==', 'operator!=') and len(args) + (1 if obj else 0) == 2:
            vs = ([('addr', obj)] if obj else []) + list(args)
            a, c = self.txt(st, vs[0]), self.txt(st, vs[1])
            if a is not None and c is not None:
                eq = a == c if '<' not in a + c else (False if '' in (a, c) else (True if a == c else None))
                if eq is not None:
                    return [(st, ONE if eq == (b == 'operator==') else ZERO)]
        if q == 'std::operator+' and len(args) == 2:
            a, c = self.txt(st, args[0]), self.txt(st, args[1])
            return [(st, S(a + c) if a is not None and c is not None else TOP)]
        return None

    def string_method(self, st, b, n, obj, args):
        t = self.txt(st, ('addr', obj))
        if t is not None:
            if b in ('c_str', 'data'):
                return [(st, S(t))]
            if b == 'empty':
                return [(st, ZERO if t else ONE)]
            if b in ('size', 'length') and '<' not in t:
                return [(st, const(len(t)))]
            if b == 'compare' and len(args) == 1 and self.txt(st, args[0]) is not None:
                return [(st, ZERO if self.txt(st, args[0]) == t else ONE)]
        if b in ('append', 'operator+=', 'push_back'):
            a = self.txt(st, args[0]) if args else None
            if len(args) == 2:
                a = self.txt(st, args[1]) if args[0] == ONE else None
            st.write(obj, S(t + a) if t is not None and a is not None else TOP)
            return [(st, to_addr(obj))]
        if b in ('operator=', 'assign') and args:
            a = self.txt(st, args[0]) if len(args) == 1 else None
            st.write(obj, S(a) if a is not None else TOP)
            return [(st, to_addr(obj))]
        if b == 'clear':
            st.write(obj, S(''))
            return [(st, TOP)]
        if not n.get('cm') and b not in ('back', 'front', 'begin', 'end', 'operator[]', 'at', 'reserve', 'swap'):
            st.write(obj, TOP)
        return None


class Walk(Strings, Rule):
    K = 6
    small_blocks = 16
    maxsteps = 600000
    lock_havoc = False
    opaque = frozenset({CLS + 'createIntoQueue'})
    SYSCALLS = ('opendir', 'readdir', 'closedir', 'lstat', 'stat', 'realpath', 'std::regex_match')

    def init(self):
        return ()

    def is_event(self, f, nid, n):
        return n['k'] in ('call', 'ctor') and (n.get('f') in self.SYSCALLS or n.get('f') == CLS + 'createIntoQueue')

    # -- facts in rs ---------------------------------------------------
    def get(self, st, k, d=None):
        return dict(st.rs).get(k, d)

    def put(self, st, **kw):
        d = dict(st.rs)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.rs = tuple(sorted(d.items()))

    def err(self, st, what):
        if not self.get(st, 'errs'):
            self.put(st, errs=('something in it could not be examined',))
        st.note(what)

    def part_of(self, st, l):
        return self.get(st, 'name') if l[0] == 'F' and l[2] == 'dirent::d_name' else None

    def pattern(self, st, v):
        for _ in range(3):
            if v == TOP or v is None:
                return None
            if v[0] == 'addr' and v[1][0] == 'F' and v[1][2] in PATS:
                return PATS[v[1][2]]
            if v[0] == 'fld' and v[2] in PATS:
                return PATS[v[2]]
            if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 're':
                return v[1][1]
            if v[0] != 'addr':
                return None
            v = st.read(v[1])
        return None

    def fork(self, st, key, vals):
        """one state per value of a fact that is decided once per entry"""
        cur = self.get(st, key)
        if cur is not None:
            return [(st, cur)]
        out = []
        for v in vals:
            s = st.copy()
            self.put(s, **{key: v})
            out.append((s, v))
        return out

    # -- the model -----------------------------------------------------
    def on_read(self, en, st, f, nid, n, loc):
        pass

    def on_ctor(self, en, st, f, fid, nid, n, args):
        rec = n.get('rec', '').split('<')[0]
        if rec == 'std::basic_regex' and args:
            p = self.pattern(st, args[0])
            if p:
                self.count('regexes')
                return [(st, ('sym', ('re', p)))]
        return self.string_ctor(st, f, n, args)

    def bools(self, st, key):
        return [(s, ONE if v else ZERO) for s, v in self.fork(st, key, (True, False))]

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        g = self.get
        if q.endswith('::shouldAbort'):
            if g(st, 'aborted'):
                return [(st, ONE)]
            a = st.copy()
            self.put(a, aborted=True)
            return [(a, ONE), (st, ZERO)]
        if q == '__errno_location':
            return [(st, ('addr', ('G', 'errno')))]
        if q == CLS + 'createIntoQueue' or n['k'] == 'call' and not n.get('repo') and q in self.SYSCALLS:
            self.count('calls')
            return getattr(self, 'do_' + q.rsplit('::', 1)[-1])(en, st, f, fid, nid, n, args)
        if n.get('repo') or n['k'] != 'call':
            return None
        r = self.string_call(st, q, b, n, obj, args)
        if r is not None:
            return r
        if b in ('operator==', 'operator!=') and len(args) + (1 if obj else 0) == 2:
            vs = ([('addr', obj)] if obj else []) + list(args)
            its = []
            for v in vs:
                while v != TOP and v[0] == 'addr':
                    v = st.read(v[1])
                its.append(v)
            if all(v[0] == 'sym' and v[1] in ('v:hit', 'v:end') for v in its if v != TOP) and TOP not in its:
                return [(st, ONE if (its[0] == its[1]) == (b == 'operator==') else ZERO)]
            return None
        if q == 'std::move' or q == 'std::forward':
            return None
        if obj is not None and is_str(n):
            t = self.txt(st, ('addr', obj))
            p = self.pattern(st, ('addr', obj))
            if b == 'empty' and p:
                return self.bools(st, 'pe_' + p)
            if b in ('size', 'length') and p:
                return [(s, ZERO if v else ONE) for s, v in self.fork(st, 'pe_' + p, (True, False))]
            r = self.string_method(st, b, n, obj, args)
            if r is not None:
                return r
            return None
        if obj is not None and obj[0] != 'F' and STR in q:
            c = q.split('<')[0]
            if c in ('std::deque', 'std::vector', 'std::list', 'std::queue', 'std::stack'):
                return self.todo(en, st, f, fid, nid, n, b, args)
            if c in ('std::set', 'std::unordered_set'):
                return self.visited(en, st, f, fid, nid, n, b, args)
        if obj is not None and obj[0] == 'F' and obj[2] == CLS + 'failedDirectories_' and b in ('push_back', 'emplace_back'):
            if self.txt(st, args[0]) == ROOT + g(st, 'rel', '?'):
                self.put(st, faildir=True)
            return [(st, TOP)]
        return None

    # -- list of directories to visit ------------------------------------
    def todo(self, en, st, f, fid, nid, n, b, args):
        g = self.get
        if b in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front'):
            t = self.txt(st, args[0]) if args else ''
            if g(st, 'rel') is None:
                if t != '':
                    self.report('%s: start' % f.qn, 'the walk does not start at the root directory', st, f.loc(nid))
                self.put(st, started=True)
                return [(st, TOP)]
            self.put(st, pushed=g(st, 'pushed', ()) + (t,))
            return [(st, TOP)]
        if b in ('front', 'back', 'top'):
            self.left_dir(st, f, nid)
            self.count('directories')
            a = st.copy()
            self.put(st, rel=REL, popped=0, opened=None, faildir=None, closed=None)
            self.put(a, rel='', popped=0, opened=None, faildir=None, closed=None)
            out = []
            for s, t in ((st, REL), (a, '')):
                l = ('T', fid, nid)
                s.write(l, S(t))
                out.append((s, ('addr', l)))
            return out
        if b.startswith('pop'):
            if g(st, 'popped') != 0:
                self.report('%s: dropped directory' % f.qn, 'a directory is taken off the list without being visited', st, f.loc(nid))
            self.put(st, popped=1)
            return [(st, TOP)]
        if b in ('empty', 'size'):
            if g(st, 'started') is None:
                self.report('%s: start' % f.qn, 'the walk does not start at the root directory', st, f.loc(nid))
            self.left_dir(st, f, nid)
            a = st.copy()
            self.put(a, todo_empty=True)
            self.put(st, todo_empty=None)
            return [(a, ONE if b == 'empty' else ZERO), (st, ZERO if b == 'empty' else ONE)]
        return None

    def left_dir(self, st, f, nid):
        """the walk is done with one directory"""
        g = self.get
        if g(st, 'rel') is None or g(st, 'aborted'):
            return
        if g(st, 'popped') == 0:
            self.report('%s: list' % f.qn, 'a directory stays on the list after it was visited', st, f.loc(nid))
        o = g(st, 'opened')
        if o is None:
            self.report('%s: unvisited' % f.qn, 'a directory is not read at all', st, f.loc(nid))
        if o == 'failed' and not g(st, 'faildir'):
            self.report('%s: failed directory' % f.qn, 'a directory that cannot be opened is not recorded as failed', st, f.loc(nid))
        if o == 'error' and not g(st, 'faildir'):
            self.report('%s: unread directory' % f.qn, 'a directory that cannot be read to its end is not recorded as failed', st, f.loc(nid))
        if o == 'reading':
            self.report('%s: partial' % f.qn, 'the walk leaves a directory before its end', st, f.loc(nid))
        self.put(st, rel=None, opened=None, popped=None, faildir=None, closed=None)

    def visited(self, en, st, f, fid, nid, n, b, args):
        if b in ('end', 'cend'):
            return [(st, ('sym', 'v:end'))]
        if b in ('find', 'count', 'contains'):
            t = self.txt(st, args[0])
            out = []
            for s, v in self.fork(st, 'seen', (True, False)):
                self.put(s, key=t)
                out.append((s, ('sym', 'v:hit' if v else 'v:end') if b == 'find' else ONE if v else ZERO))
            return out
        if b in ('insert', 'emplace'):
            t = self.txt(st, args[0])
            out = []
            for s, v in self.fork(st, 'seen', (True, False)):
                self.put(s, inserted=t, key=t)
                l = ('T', fid, nid)
                out.append((s, TOP))
                for fn in ('second',):
                    for r in ('std::pair<std::_Rb_tree_const_iterator<std::basic_string<char, std::char_traits<char>, std::allocator<char>>>, bool>',):
                        s.write(('F', l, '%s::%s' % (r, fn)), ZERO if v else ONE)
            return out
        return None

    # -- file system -----------------------------------------------------
    def path_ok(self, st, f, nid, q, t, want, key='path'):
        if t != want:
            self.report('%s: %s path' % (f.qn, q), '%s() is not given the path of the %s but "%s"' % (q, key, t), st, f.loc(nid))

    def do_opendir(self, en, st, f, fid, nid, n, args):
        self.path_ok(st, f, nid, 'opendir', self.txt(st, args[0]), ROOT + self.get(st, 'rel', '?'), 'directory taken from the list')
        bad = st.copy()
        self.put(bad, opened='failed')
        self.err(bad, 'opendir() fails')
        self.put(st, opened='reading')
        return [(bad, ZERO), (st, ('sym', 'dir'))] if st.assume(cmp_('!=', ('sym', 'dir'), ZERO)) is not False else []

    def do_readdir(self, en, st, f, fid, nid, n, args):
        self.settle(st, f, nid)
        if self.get(st, 'opened') in ('end', 'error'):
            self.report('%s: readdir' % f.qn, 'reading continues after the end of a directory', st, f.loc(nid))
        base = st
        out = []
        e = base.copy()
        self.put(e, opened='end')
        out.append((e, ZERO))
        if e.read(('G', 'errno')) != ZERO:
            self.report('%s: errno' % f.qn, 'the end of a directory cannot be told from an error: errno is not reset before readdir()', e, f.loc(nid))
        e = base.copy()
        e.store[('G', 'errno')] = const(5)
        self.put(e, opened='error')
        self.err(e, 'readdir() fails')
        out.append((e, ZERO))
        ent = ('sym', 'entry')
        for name, kinds in NAMES:
            for k in kinds:
                s = base.copy()
                self.put(s, name=name, dtype=k)
                self.count('entries')
                s.note('entry "%s" of type %s' % (name, k))
                dn = ('F', ('P', ent), 'dirent::d_name')
                for x in list(s.store):
                    if x[0] in ('F', 'X') and (x[1] == ('P', ent) or x[1] == dn):
                        del s.store[x]
                s.store[('F', ('P', ent), 'dirent::d_type')] = const(DT[k])
                for i, ch in enumerate(name + '\0'):
                    s.store[('X', dn, const(i))] = const(ord(ch))
                s.store[('G', 'entry')] = ent
                s.assume(cmp_('!=', ent, ZERO))
                out.append((s, ent))
        return out

    def do_closedir(self, en, st, f, fid, nid, n, args):
        self.settle(st, f, nid)
        return [(st, ZERO)]

    def set_stat(self, en, st, f, fid, nid, arg, kind, size):
        loc = arg[1] if arg != TOP and arg[0] == 'addr' else None
        if loc is None:
            return
        en_size = ('sym', size)
        st.store[('G', size)] = en_size
        st.write(('F', loc, 'stat::st_mode'), const(IFMT[kind]))
        st.write(('F', loc, 'stat::st_size'), en_size)

    def do_lstat(self, en, st, f, fid, nid, n, args):
        want = ROOT + self.get(st, 'rel', '?') + self.get(st, 'name', '?')
        self.path_ok(st, f, nid, 'lstat', self.txt(st, args[0]), want, 'entry')
        dt = self.get(st, 'dtype')
        kinds = ('REG', 'DIR', 'LNK', 'OTHER') if dt == 'UNKNOWN' else (dt,)
        out = []
        for s, k in self.fork(st, 'mode', kinds + ('fail',)):
            if k == 'fail':
                self.err(s, 'lstat() fails')
                out.append((s, const(-1)))
                continue
            self.put(s, size='link_size' if k == 'LNK' else 'file_size')
            self.set_stat(en, s, f, fid, nid, args[1], k, 'link_size' if k == 'LNK' else 'file_size')
            out.append((s, ZERO))
        return out

    def do_stat(self, en, st, f, fid, nid, n, args):
        want = ROOT + self.get(st, 'rel', '?') + self.get(st, 'name', '?')
        t = self.txt(st, args[0])
        if t != '<real:%s>' % want:
            self.path_ok(st, f, nid, 'stat', t, want, 'entry')
        dt = self.get(st, 'dtype')
        m = self.get(st, 'mode')
        out = []
        link = dt == 'LNK' or m == 'LNK' or dt == 'UNKNOWN' and m is None
        for s, k in self.fork(st, 'target', ('REG', 'DIR', 'OTHER', 'fail') if link else (m or dt, 'fail')):
            if k == 'fail':
                self.err(s, 'stat() fails')
                out.append((s, const(-1)))
                continue
            self.put(s, size='file_size')
            self.set_stat(en, s, f, fid, nid, args[1], k, 'file_size')
            out.append((s, ZERO))
        return out

    def do_realpath(self, en, st, f, fid, nid, n, args):
        t = self.txt(st, args[0])
        out = []
        for s, ok in self.fork(st, 'real', ('ok', 'fail')):
            if ok == 'fail':
                self.err(s, 'realpath() fails')
                out.append((s, ZERO))
            else:
                v = S('<real:%s>' % t)
                s.store[('G', 'real')] = v
                s.assume(cmp_('!=', v, ZERO))
                out.append((s, v))
        return out

    def do_regex_match(self, en, st, f, fid, nid, n, args):
        p = self.pattern(st, args[1])
        t = self.txt(st, args[0])
        if p is None:
            return [(st, en.fresh(st, fid, nid, 'match'))]
        rel = self.get(st, 'rel', '?') + self.get(st, 'name', '?')
        want = rel + '/' if p == 'prune' else rel
        if t != want:
            self.report('%s: %s pattern' % (f.qn, p), 'the %s pattern is matched against "%s", not the relative path' % (p, t), st, f.loc(nid))
        self.count('matches')
        return self.bools(st, 'm_' + p)

    def do_createIntoQueue(self, en, st, f, fid, nid, n, args):
        full = self.txt(st, args[0])
        loc = args[1][1] if args[1] != TOP and args[1][0] == 'addr' else None
        rel = size = direct = None
        if loc:
            rel = self.txt(st, st.read(('F', loc, 'WdtFileInfo::fileName')))
            size = st.read(('F', loc, 'WdtFileInfo::fileSize'))
            direct = st.read(('F', loc, 'WdtFileInfo::directReads'))
            fd = st.read(('F', loc, 'WdtFileInfo::fd'))
            if fd not in (const(-1), None):
                self.report('%s: descriptor' % f.qn, 'a discovered file is queued with a file descriptor', st, f.loc(nid))
        self.put(st, queued=self.get(st, 'queued', ()) + ((full, rel, size, direct != TOP and 'directReads_' in str(direct)),))
        return [(st, TOP)]

    # -- what must have happened to an entry -------------------------------
    def settle(self, st, f, nid):
        g = self.get
        name = g(st, 'name')
        if name is None:
            return
        self.count('settled')
        entry = 'entry "%s" (%s)' % (name, ', '.join(str(x) for x in (g(st, 'dtype'), g(st, 'mode'), g(st, 'target')) if x))
        queued, pushed = g(st, 'queued', ()), g(st, 'pushed', ())
        rel = g(st, 'rel', '?') + name
        full = ROOT + rel
        kind = g(st, 'dtype')
        key = '%s: ' % f.qn
        where = f.loc(nid)
        follow = st.truth(cmp_('!=', st.read(('F', ('P', THIS), CLS + 'followSymlinks_')), ZERO))
        want = None                     # 'file', 'dir', 'nothing', 'unknown'
        if name in ('.', '..'):
            want = 'nothing'
        elif g(st, 'mode') == 'fail' or g(st, 'target') == 'fail' or g(st, 'real') == 'fail':
            want = 'nothing'            # the error is pending
        else:
            if kind == 'UNKNOWN':
                kind = g(st, 'mode') or (g(st, 'target') if follow else None)
            if kind == 'LNK':
                if follow:
                    kind = g(st, 'target')
                    full = '<real:%s>' % full if g(st, 'real') else None
                else:
                    kind = 'OTHER'
            want = {'REG': 'file', 'DIR': 'dir', 'OTHER': 'nothing', None: 'unknown'}[kind]
            if want in ('file', 'dir') and full is None:
                full = ROOT + rel       # not resolved
        if want == 'unknown':
            if not g(st, 'aborted'):
                self.report(key + 'unexamined entry', 'the walk moves on without finding out what the %s is' % entry, st, where)
        elif want == 'nothing':
            if queued or pushed:
                self.report(key + 'unwanted entry', 'the %s is queued or walked' % entry, st, where)
        elif want == 'file':
            self.file(st, entry, queued, pushed, full, rel, key, where)
        else:
            self.dir(st, entry, queued, pushed, full, rel, key, where, follow)
        drop = ('name', 'dtype', 'mode', 'target', 'size', 'real', 'queued', 'pushed', 'seen', 'key', 'inserted') + \
            tuple(x + p for x in ('pe_', 'm_') for p in PATS.values())
        self.put(st, **{k: None for k in drop})

    def file(self, st, entry, queued, pushed, full, rel, key, where):
        g = self.get
        if pushed:
            self.report(key + 'file walked', 'the regular %s is put on the list of directories' % entry, st, where)
        pe_x, m_x, pe_i, m_i = (g(st, k) for k in ('pe_exclude', 'm_exclude', 'pe_include', 'm_include'))
        if queued:
            if len(queued) > 1:
                self.report(key + 'file queued twice', 'the %s is queued more than once' % entry, st, where)
            if pe_x is not True and m_x is not False:
                self.report(key + 'exclude', 'the %s is queued although the exclude pattern %s' % (entry, 'matches' if m_x else 'was not consulted'), st, where)
            if pe_i is not True and m_i is not True:
                self.report(key + 'include', 'the %s is queued although the include pattern %s' % (
                    entry, 'does not match' if m_i is False else 'was not consulted'), st, where)
            qf, qr, qs, qd = queued[0]
            if qr != rel:
                self.report(key + 'queued name', 'the %s is queued under the name "%s"' % (entry, qr), st, where)
            if qf != full:
                self.report(key + 'queued path', 'the %s is queued to be read from "%s"' % (entry, qf), st, where)
            if qs != ('sym', 'file_size'):
                self.report(key + 'queued size', 'the %s is not queued with its size' % entry, st, where)
            if not qd:
                self.report(key + 'queued direct', 'the %s is not queued with the direct-read option' % entry, st, where)
        else:
            out_x = m_x is True and pe_x is not True
            out_i = m_i is False and pe_i is False
            if not out_x and not out_i:
                self.report(key + 'file dropped', 'the regular %s is left out although no pattern says so' % entry, st, where)

    def dir(self, st, entry, queued, pushed, full, rel, key, where, follow):
        g = self.get
        if queued:
            self.report(key + 'directory queued', 'the directory %s is queued as a file' % entry, st, where)
        pe, m = g(st, 'pe_prune'), g(st, 'm_prune')
        if pushed:
            if pe is not True and m is not False:
                self.report(key + 'prune', 'the %s is walked although the prune pattern %s' % (entry, 'matches' if m else 'was not consulted'), st, where)
            if len(pushed) > 1:
                self.report(key + 'walked twice', 'the %s is put on the list more than once' % entry, st, where)
            if pushed[0] != rel + '/':
                self.report(key + 'walked path', 'the %s is put on the list as "%s"' % (entry, pushed[0]), st, where)
            if follow and (g(st, 'seen') is not False or g(st, 'key') != full or g(st, 'inserted') != full):
                self.report(key + 'loop', 'with links followed, the %s is walked without making sure it was not walked before' % entry, st, where)
        else:
            if follow and g(st, 'seen') is True and g(st, 'key') == full:
                self.err(st, 'a directory is reached twice')
                return
            if not (m is True and pe is not True):
                self.report(key + 'directory dropped', 'the %s is not walked although no pattern says so' % entry, st, where)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.get(st, 'name') is not None:
            self.settle(st, fn, None) if False else None
        self.left_dir(st, fn, None)
        t = st.truth(ret) if ret != TOP else None
        if self.get(st, 'aborted'):
            if t is not False:
                self.report('%s: abort' % fn.qn, 'a walk that was aborted may be reported as complete', st, fn.loc())
            return
        if t is not True and not self.get(st, 'errs'):
            self.report('%s: failure' % fn.qn, 'the walk reports failure although nothing failed', st, fn.loc())
        for e in self.get(st, 'errs', ()):
            if t is not False:
                self.report('%s: %s' % (fn.qn, e), 'the walk may report success although %s' % e, st, fn.loc())
        if not self.get(st, 'todo_empty'):
            self.report('%s: stops' % fn.qn, 'the walk ends although there are directories left to visit', st, fn.loc())


class List(Strings, ForEach):
    """a given list of files: every one of them is queued"""
    over = ('files',)
    K = 8
    opaque = frozenset({CLS + 'createIntoQueue'})

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in (CLS + 'createIntoQueue', 'stat', 'lstat')

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def container(self, st, obj):
        if obj == self.param or obj and st.read(obj) == ('addr', self.param):
            return 'files'
        return None

    def part_of(self, st, l):
        if l[0] == 'F' and l[2] == 'WdtFileInfo::fileName' and self.is_elem(st, l[1], 'files'):
            return '<name>'
        return None

    def txt(self, st, v, depth=6):
        if v != TOP and v and v[0] == 'fld' and v[2] == 'WdtFileInfo::fileName' and self.is_elem(st, v[1], 'files'):
            return '<name>'
        return super().txt(st, v, depth)

    def elem_start(self, en, st, f, nid, m):
        e = ('P', ('sym', ('elem', 'files')))
        self.drop(st, lambda x: x[0] in ('queued', 'known', 'stat'))
        for k in ('given', 'stated'):
            st.store.pop(('G', k), None)
        st.forget_sym(('sym', 'given')) if hasattr(st, 'forget_sym') else None
        st.store[('F', e, 'WdtFileInfo::fileSize')] = ('sym', 'given')
        st.store[('G', 'given')] = ('sym', 'given')

    def elem_end(self, en, st, f, nid, m):
        if not self.has(st, ('queued',)):
            self.report('%s: skipped' % f.qn, 'a file of the given list is not queued', st, f.loc(nid))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        if q.endswith('::shouldAbort'):
            a = st.copy()
            self.add(a, ('aborted',))
            return [(a, ONE), (st, ZERO)]
        if n['k'] == 'call' and q in ('stat', 'lstat') and not n.get('repo'):
            self.count('stats')
            if self.txt(st, args[0]) != ROOT + '<name>':
                self.report('%s: %s path' % (f.qn, q), '%s() is not given the path of the file' % q, st, f.loc(nid))
            bad = st.copy()
            self.add(bad, ('failed',))
            loc = args[1][1] if args[1] != TOP and args[1][0] == 'addr' else None
            if loc:
                st.write(('F', loc, 'stat::st_size'), ('sym', 'stated'))
                st.store[('G', 'stated')] = ('sym', 'stated')
            if q == 'stat':
                self.add(st, ('stat',))
            return [(bad, const(-1)), (st, ZERO)]
        if q == CLS + 'createIntoQueue':
            self.count('queued')
            loc = args[1][1] if args[1] != TOP and args[1][0] == 'addr' else None
            key = '%s: ' % f.qn
            if loc is None or not (self.is_elem(st, loc, 'files') or self.txt(st, st.read(('F', loc, 'WdtFileInfo::fileName'))) == '<name>'):
                self.report(key + 'other file', 'what is queued is not the file of the list', st, f.loc(nid))
            if self.txt(st, args[0]) != ROOT + '<name>':
                self.report(key + 'queued path', 'a listed file is queued to be read from "%s"' % self.txt(st, args[0]), st, f.loc(nid))
            if self.has(st, ('queued',)):
                self.report(key + 'queued twice', 'a listed file is queued twice', st, f.loc(nid))
            self.add(st, ('queued',))
            size = st.read(('F', loc, 'WdtFileInfo::fileSize')) if loc else TOP
            if self.has(st, ('failed',)):
                self.report(key + 'failed', 'a file that could not be examined is queued', st, f.loc(nid))
            g = ('sym', 'given')
            if st.truth(cmp_('<', g, ZERO)) is not False:
                if size != ('sym', 'stated') and not (size == g and st.truth(cmp_('<', g, ZERO)) is False):
                    self.report(key + 'size', 'a file whose size was not given is queued without its real size', st, f.loc(nid))
                elif size == ('sym', 'stated') and st.truth(cmp_('<', g, ZERO)) is not True:
                    self.report(key + 'size', 'a file whose size was given may not be queued with it', st, f.loc(nid))
            elif size != g:
                self.report(key + 'size', 'a file whose size was given is not queued with it', st, f.loc(nid))
            return [(st, TOP)]
        if n.get('repo') or n['k'] != 'call':
            return None
        if obj is not None and obj[0] == 'F' and obj[2] == CLS + 'failedSourceStats_' and b in ('push_back', 'emplace_back'):
            self.add(st, ('recorded',))
            return [(st, TOP)]
        r = self.string_call(st, q, b, n, obj, args)
        if r is None and obj is not None and is_str(n):
            r = self.string_method(st, b, n, obj, args)
        return r

    def on_ctor(self, en, st, f, fid, nid, n, args):
        return self.string_ctor(st, f, n, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        t = st.truth(ret) if ret != TOP else None
        if self.has(st, ('failed',)):
            if t is not False or not self.has(st, ('recorded',)):
                self.report('%s: stat' % fn.qn, 'a listed file that cannot be examined is not recorded as failed', st, fn.loc())
        elif self.has(st, ('aborted',)):
            if t is not False:
                self.report('%s: abort' % fn.qn, 'success is reported although the list was not finished', st, fn.loc())
        else:
            if self.phase(st, 'files') != 'end':
                self.report('%s: incomplete' % fn.qn, 'files of the list are left over', st, fn.loc())
            if t is not True:
                self.report('%s: success' % fn.qn, 'failure is reported although all files were queued', st, fn.loc())


class Meta(Strings, Rule):
    """what is queued for a file describes that file"""
    K = 16
    lock_havoc = False
    opaque = frozenset({CLS + 'createIntoQueueInternal'})
    follow = frozenset({'SourceMetaData::SourceMetaData'})
    FIELDS = (('relPath', 'fileName'), ('size', 'fileSize'))

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') in (CLS + 'createIntoQueueInternal', 'FileUtil::openForRead')

    def should_inline(self, k):
        return self.prog.F[k].qn != 'FileUtil::openForRead' and self.prog.F[k].name != 'verifyAndFixFlags' and super().should_inline(k)

    def part_of(self, st, l):
        if l == self.path:
            return '<path>'
        if l[0] == 'F' and l[2] == 'WdtFileInfo::fileName' and l[1] == self.info:
            return '<name>'
        return None

    def txt(self, st, v, depth=6):
        if v and v != TOP and v[0] == 'fld':
            if v[2] == 'WdtFileInfo::fileName':
                return '<name>'
        return super().txt(st, v, depth)

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        if q == 'new':
            new = st.env[(fid, nid)]
            old = ('T', fid, n.get('e'))
            for l, v in list(st.store.items()):
                if l[0] == 'F' and l[1] == old:
                    st.store[('F', ('P', new), l[2])] = v
            return None
        if q == 'FileUtil::openForRead':
            self.count('opens')
            i = [j for j, p in enumerate(self.prog.fn(q).params) if 'string' in p['t']][0]
            if self.txt(st, args[i]) != '<path>':
                self.report('%s: opened path' % f.qn, 'the file that is opened is not the one that is queued', st, f.loc(nid))
            bad = st.copy()
            bad.rs = bad.rs + ('closed',)
            v = ('sym', 'fd')
            st.store[('G', 'fd')] = v
            st.assume(cmp_('>=', v, ZERO))
            st.rs = st.rs + ('open',)
            return [(bad, const(-1)), (st, v)]
        if q == 'WdtFileInfo::verifyAndFixFlags':
            return [(st, TOP)]
        if obj is not None and obj[0] == 'F' and obj[2] == CLS + 'sharedFileData_' and b in ('push_back', 'emplace_back'):
            st.store[('G', 'kept')] = args[0] if args[0] == TOP or args[0][0] != 'addr' else st.read(args[0][1])
            return [(st, TOP)]
        if q == CLS + 'createIntoQueueInternal':
            self.count('queued')
            self.judge(en, st, f, nid, args[0])
            st.rs = st.rs + ('queued',)
            return [(st, TOP)]
        if n.get('repo') or n['k'] != 'call':
            return None
        r = self.string_call(st, q, b, n, obj, args)
        if r is None and obj is not None and is_str(n):
            r = self.string_method(st, b, n, obj, args)
        return r

    def on_ctor(self, en, st, f, fid, nid, n, args):
        return self.string_ctor(st, f, n, args)

    def judge(self, en, st, f, nid, p):
        w = f.loc(nid)
        k = '%s: ' % f.qn
        if p == TOP:
            self.report(k + 'unknown', 'what is queued is not what was made for the file', st, w)
            return
        m = ('P', p)
        rd = lambda x: st.read(('F', m, 'SourceMetaData::' + x))
        if self.txt(st, rd('fullPath')) != '<path>':
            self.report(k + 'fullPath', 'the path to read from is not the one of the file', st, w)
        if self.txt(st, rd('relPath')) != '<name>':
            self.report(k + 'relPath', 'the name sent is not the one of the file', st, w)
        for a, b in (('size', 'fileSize'), ('directReads', 'directReads')):
            v = rd(a)
            if v != st.read(('F', self.info, 'WdtFileInfo::' + b)) and not (v != TOP and v[0] in ('bool',) and v[1] == st.read(('F', self.info, 'WdtFileInfo::' + b))):
                self.report(k + a, 'the %s of the queued file is not the one of the file' % a, st, w)
        fd, need = rd('fd'), rd('needToClose')
        if 'open' in st.rs:
            if fd != ('sym', 'fd') or st.truth(need) is not True:
                self.report(k + 'fd', 'a file opened during discovery is not kept or will not be closed', st, w)
        else:
            given = st.read(('F', self.info, 'WdtFileInfo::fd'))
            if fd != given and not (st.truth(cmp_('<', given, ZERO)) is True and fd == const(-1)):
                self.report(k + 'fd', 'the file descriptor given for the file is not kept', st, w)
            if need != TOP and st.truth(need) is not False or need == TOP:
                self.report(k + 'fd', 'a file descriptor that was given may be closed', st, w)
        if st.store.get(('G', 'kept')) != p:
            self.report(k + 'kept', 'the queued file is not kept with the others', st, w)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if st.rs.count('queued') != 1:
            self.report('%s: queue' % fn.qn, 'a file is not queued exactly once', st, fn.loc())


class Dir(Strings, Rule):
    """the root directory kept is the given one and ends with a slash"""
    K = 8
    lock_havoc = False
    FIELD = CLS + 'rootDir_'

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and n.get('f') == 'realpath'

    def txt(self, st, v, depth=6):
        if v in (to_addr(self.given), ('cont', self.given[1])):
            return '<given>'
        return super().txt(st, v, depth)

    def part_of(self, st, l):
        if l == self.given:
            return '<given>'
        if l[0] == 'F' and l[2] == self.FIELD:
            return self.txt(st, st.read(l)) if st.read(l) != TOP and st.read(l)[0] == 'sym' else '<old>'
        return None

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = q.rsplit('::', 1)[-1]
        if q == 'realpath' and not n.get('repo'):
            t = self.txt(st, args[0])
            bad = st.copy()
            v = S('<real:%s>' % t)
            st.store[('G', 'real')] = v
            st.assume(cmp_('!=', v, ZERO))
            return [(bad, ZERO), (st, v)]
        if n.get('repo') or n['k'] != 'call':
            return None
        vs = ([('addr', obj)] if obj else []) + list(args)
        if b in ('operator==', 'operator!=') and len(vs) == 2:
            a, c = self.txt(st, vs[0]), self.txt(st, vs[1])
            if ROOT in (a, c):
                o = st.copy()
                o.rs = o.rs + (c if a == ROOT else a,)
                return [(st, ONE if b == 'operator!=' else ZERO), (o, ZERO if b == 'operator!=' else ONE)]
        if obj is not None and is_str(n):
            t = self.txt(st, ('addr', obj))
            if b == 'empty' and t == '<given>':
                o = st.copy()
                o.rs = o.rs + ('empty',)
                return [(st, ZERO), (o, ONE)]
            if (b == 'back' or b == 'operator[]') and t:
                l = ('T', fid, nid)
                if t.endswith('/'):
                    st.write(l, const(47))
                    return [(st, ('addr', l))]
                o = st.copy()
                o.rs = o.rs + ('slash',)
                o.write(l, const(47))
                v = en.fresh(st, fid, nid, 'char')
                st.assume(cmp_('!=', v, const(47)))
                st.write(l, v)
                return [(o, ('addr', l)), (st, ('addr', l))]
            if obj[0] == 'F' and obj[2] == self.FIELD and b in ('assign', 'operator=', 'append', 'push_back', 'operator+=', 'clear'):
                self.count('assigned')
        r = self.string_call(st, q, b, n, obj, args)
        if r is None and obj is not None and is_str(n):
            r = self.string_method(st, b, n, obj, args)
        return r

    def on_ctor(self, en, st, f, fid, nid, n, args):
        return self.string_ctor(st, f, n, args)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        t = st.truth(ret) if ret != TOP else None
        if t is False:
            return
        if 'empty' in st.rs:
            self.report('%s: empty' % fn.qn, 'an empty root directory is accepted', st, fn.loc())
            return
        x = self.part_of(st, ('F', ('P', THIS), self.FIELD))
        if x == '<old>':
            x = next((y for y in st.rs if y not in ('slash', 'empty')), '<old>')
        fo = st.truth(cmp_('!=', st.read(('F', ('P', THIS), CLS + 'followSymlinks_')), ZERO))
        base = '<real:<given>>' if fo else '<given>'
        want = (base + '/',) + ((base,) if 'slash' in st.rs else ())
        if x not in want:
            self.report('%s: root' % fn.qn, 'the root directory kept is "%s" instead of the given one with a slash at its end' % x, st, fn.loc())


def run(P, c):
    def one(x, follow):
        r = Walk(P)

        def setup(st, fn, fid, v=follow):
            st.store[('F', ('P', THIS), CLS + 'followSymlinks_')] = v
        x.explore(r, P.fn(CLS + 'explore').key, setup=setup)
        x.absorb(r, 'walk, links %s: ' % ('followed' if follow == ONE else 'not followed'))
        for k, least in (('entries', 10), ('settled', 10), ('exits', 1), ('matches', 2)):
            x.need(r.stats.get(k, 0) >= least, 'directory walk: %s: nothing to judge' % k)
            x.count('walk_' + k, r.stats[k])
        for name, kinds in NAMES:
            for k in kinds:
                x.oblige('walk, links %s: entry "%s" of type %s' % ('followed' if follow == ONE else 'not followed', name, k))
    c.parallel(one, [ZERO, ONE])

    f = P.fn(CLS + 'enqueueFiles')
    r = List(P)

    def setup(st, fn, fid):
        i = [j for j, p in enumerate(fn.params) if 'vector' in p['t']][0]
        r.param = ('P', ('sym', 'list'))
        st.store[('L', fid, fn.params[i]['d'])] = ('addr', r.param)
    c.explore(r, f.key, setup=setup)
    c.absorb(r, 'list: ')
    c.oblige('list: %s' % f.qn, not r.viol)
    for k in ('queued', 'exits', 'loops'):
        c.need(r.stats.get(k, 0) >= 1, 'list of files: %s: nothing to judge' % k)

    f = P.fn(CLS + 'createIntoQueue')
    r = Meta(P)

    def setup(st, fn, fid):
        r.path, r.info = ('P', ('sym', 'path')), ('P', ('sym', 'info'))
        for p in fn.params:
            st.store[('L', fid, p['d'])] = ('addr', r.info if 'WdtFileInfo' in p['t'] else r.path)
    c.explore(r, f.key, setup=setup)
    c.absorb(r, 'file: ')
    c.oblige('file: %s' % f.qn, not r.viol)
    for k in ('queued', 'exits'):
        c.need(r.stats.get(k, 0) >= 1, 'queued file: %s: nothing to judge' % k)

    for follow in (ZERO, ONE):
        f = P.fn(CLS + 'setRootDir')
        r = Dir(P)

        def setup(st, fn, fid):
            r.given = ('P', ('sym', 'given'))
            st.store[('L', fid, fn.params[0]['d'])] = ('addr', r.given)
            st.store[('F', ('P', THIS), CLS + 'followSymlinks_')] = follow
        c.explore(r, f.key, setup=setup)
        c.absorb(r, 'root: ')
        c.oblige('root: %s' % f.qn, not r.viol)
        for k in ('assigned', 'exits'):
            c.need(r.stats.get(k, 0) >= 1, 'root directory: %s: nothing to judge' % k)
