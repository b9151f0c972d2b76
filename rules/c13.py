"""C13: nobody who waits for another thread is left waiting."""
from wdtsa.foreach import ForEach
from wdtsa.engine import *

EXPLAIN = ('The coordination primitives (barrier, funnel, once-only execution, controller) are explored from every abstract state of their counters; every user of a funnel '
           'and every thread body is explored path by path with the answers of the funnel forked, so that whoever was given the work reports its end and every thread '
           'leaves the barriers on every path. For each condition variable, every path that makes the awaited condition true must notify it while the lock is held or after, '
           'and every untimed wait must re-check its condition.')
RULE = 'typestate of barriers, funnels and condition variables; must-notify on every path; CFG cycle through every untimed wait'
ASSUME = ['the system wakes every thread that was notified', 'work done between entering and leaving a funnel ends (socket time limits, C14)',
          'WDT_CHECK failures end the process', 'files received earlier are handed to the queue before any thread takes sources from it']
LIMITS = ['fairness and the length of waits are not decided']

TC = 'ThreadsController::'


def me(q):
    return ('F', ('P', THIS), q)


def last(q):
    return q.rsplit('::', 1)[-1]


def true(st, v):
    if v is None or v == TOP:
        return False
    return st.truth(v) is True or st.truth(cmp_('!=', v, ZERO)) is True or v[0] in ('fld', 'sym') and st.truth(cmp_('!=', ('bool', v), ZERO)) is True


def false(st, v):
    if v is None or v == TOP:
        return False
    return st.truth(v) is False or st.truth(cmp_('==', v, ZERO)) is True or v[0] in ('fld', 'sym') and st.truth(cmp_('==', ('bool', v), ZERO)) is True


def eq(st, a, b):
    if a in (None, TOP) or b in (None, TOP):
        return None
    return True if a == b else st.truth(cmp_('==', a, b))


class Locked(Rule):
    """rs: frozenset of facts; ('locks', (mutexes held))"""
    lock_havoc = False
    K = 12

    def init(self):
        return frozenset()

    def has(self, st, *x):
        return x in st.rs

    def add(self, st, *x):
        st.rs = st.rs | {x}

    def drop(self, st, *x):
        st.rs = frozenset(y for y in st.rs if y[:len(x)] != x)

    def part(self, st):
        return tuple(sorted(map(str, st.rs)))

    def locks(self, st):
        return next((x[1] for x in st.rs if x[0] == 'locks'), ())

    def setlocks(self, st, ls):
        self.drop(st, 'locks')
        if ls:
            self.add(st, 'locks', ls)

    def held(self, st, m=None):
        ls = self.locks(st)
        return bool(ls) if m is None else any(x == m or last(str(x)) == m for x in ls)

    @staticmethod
    def islock(rec):
        return rec.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')) or rec == 'ConditionGuardImpl'

    def on_ctor(self, en, st, f, fid, nid, n, args):
        if self.islock(n.get('rec', '')) and args and args[0] != TOP:
            l = to_loc(args[0])
            if l is not None and not (l[0] == 'F' and 'lock' in str(l[2]).lower() and l[2].startswith('std::')):
                self.setlocks(st, self.locks(st) + (l[2] if l[0] == 'F' else str(l),))
                self.locked(st, f, nid)
                return [(st, en.fresh(st, fid, nid, 'lock'))]
        return None

    def on_dtor(self, en, st, f, fid, nid, n, loc):
        if self.islock(n.get('rec', '')):
            self.setlocks(st, self.locks(st)[:-1])

    def locked(self, st, f, nid):
        pass


class Prim(Locked):
    """a primitive, from one abstract state"""
    cls = ''
    opaque_names = ()

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == self.cls and not f.name.startswith('~')

    def is_event(self, f, nid, n):
        return 'condition_variable' in n.get('f', '')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if 'condition_variable' in q or 'ConditionGuardImpl' in q:
            if b in ('notify_all', 'notifyAll'):
                self.add(st, 'all')
                self.add(st, 'one')
                self.snap(st)
                return [(st, ZERO)]
            if b in ('notify_one', 'notifyOne'):
                self.add(st, 'one')
                self.snap(st)
                return [(st, ZERO)]
            if b.startswith('wait'):
                self.count('waits')
                self.waiting(en, st, f, nid)
                return [(st, en.fresh(st, fid, nid, 'w'))]
        return self.other(en, st, f, fid, nid, n, obj, args)

    def other(self, en, st, f, fid, nid, n, obj, args):
        return None

    def snap(self, st):
        pass

    def waiting(self, en, st, f, nid):
        pass

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc[0] == 'F' and loc[1] == ('P', THIS) and loc[2].startswith(self.cls + '::'):
            if f.ctor or f.name == last(self.cls):
                return
            if not self.held(st):
                self.report('%s: lock' % f.qn, '%s changes without the lock' % last(loc[2]), st, f.loc(nid))
            self.drop(st, 'all')
            self.drop(st, 'one')


class BarrierRule(Prim):
    cls = 'Barrier'
    H, N, D = (me('Barrier::' + x) for x in ('numHits_', 'numThreads_', 'isComplete_'))

    def waiting(self, en, st, f, nid):
        self.add(st, 'waited')
        if not self.held(st):
            self.report('%s: lock' % f.qn, 'the barrier waits without the lock', st, f.loc(nid))
        if not false(st, st.read(self.D)):
            self.report('%s: late' % f.qn, 'a thread waits at a barrier that is already complete', st, f.loc(nid))
        for x in (self.H, self.N, self.D):
            st.store[x] = ('sym', ('after', x[2]))

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc == self.D and true(st, v):
            Prim.on_write(self, en, st, f, nid, n, loc, v)
            return
        if loc == self.D:
            self.report('%s: reopened' % f.qn, 'a complete barrier is closed again', st, f.loc(nid))
        keep = [x for x in st.rs if x[0] in ('all', 'one')]
        Prim.on_write(self, en, st, f, nid, n, loc, v)
        for x in keep:
            self.add(st, *x)
        if loc == self.H:
            self.add(st, 'hit', eq(st, v, ladd(('sym', 'h'), ONE)) is True and not self.has(st, 'waited'))
        if loc == self.N:
            self.add(st, 'left', eq(st, v, ladd(('sym', 'n'), const(-1))) is True)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        done, was = st.read(self.D), true(st, st.store.get(('G', 'd0')))
        ex = fn.name == 'execute'
        hits = sorted(x[1] for x in st.rs if x[0] == 'hit')
        left = sorted(x[1] for x in st.rs if x[0] == 'left')
        if ex:
            if hits != [True] or left:
                self.report('%s: count' % fn.qn, 'a thread that comes to the barrier is not counted once', st, fn.loc())
            if not true(st, done):
                self.report('%s: early' % fn.qn, 'a thread passes the barrier before all the others came or left', st, fn.loc())
        elif not was and (left != [True] or hits):
            self.report('%s: count' % fn.qn, 'a thread that leaves the barrier is not counted once', st, fn.loc())
        if not self.has(st, 'waited') and not was:
            full = st.truth(cmp_('==', ladd(('sym', 'h'), ONE), ('sym', 'n'))) is True
            if full:
                self.count('completions')
                if not true(st, done) or not self.has(st, 'all'):
                    self.report('%s: forgotten' % fn.qn, 'the last thread does not release the ones that wait', st, fn.loc())
            elif true(st, done):
                self.report('%s: too soon' % fn.qn, 'the barrier opens although threads are missing', st, fn.loc())


class FunnelRule(Prim):
    cls = 'Funnel'
    S = me('Funnel::status_')
    vals = {}
    before = None

    def waiting(self, en, st, f, nid):
        if eq(st, st.read(self.S), const(self.vals['FUNNEL_PROGRESS'])) is not True:
            self.report('%s: pointless' % f.qn, 'a thread waits at a funnel in which nobody works', st, f.loc(nid))
        if not self.held(st):
            self.report('%s: lock' % f.qn, 'the funnel waits without the lock', st, f.loc(nid))
        self.add(st, 'waited')
        st.store[self.S] = ('sym', 'later')

    def should_inline(self, k):
        return self.prog.F[k].cls == 'Funnel'

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        V, now = self.vals, st.read(self.S)
        b = self.before
        if fn.name == 'getStatus':
            if eq(st, ret, const(V[b])) is not True:
                self.report('%s: answer' % fn.qn, 'the status told is not the one found', st, fn.loc())
            want = 'FUNNEL_PROGRESS' if b == 'FUNNEL_START' else b
            if eq(st, now, const(V[want])) is not True:
                self.report('%s: state' % fn.qn, 'the work of the funnel is given to no thread or to two', st, fn.loc())
        elif fn.name == 'notifySuccess':
            if eq(st, now, const(V['FUNNEL_END'])) is not True or not self.has(st, 'all'):
                self.report('%s: success' % fn.qn, 'not every thread that waits learns that the work is done', st, fn.loc())
        elif fn.name == 'notifyFail':
            if eq(st, now, const(V['FUNNEL_START'])) is not True or not self.has(st, 'one'):
                self.report('%s: failure' % fn.qn, 'no other thread takes the work over after a failure', st, fn.loc())
        elif fn.name == 'wait':
            if not self.has(st, 'waited') and b == 'FUNNEL_PROGRESS':
                self.report('%s: no wait' % fn.qn, 'a thread does not wait although another one is at work', st, fn.loc())


class OnceRule(Prim):
    """the function runs for exactly one of the threads"""
    cls = 'ExecuteOnceFunc'
    H = me('ExecuteOnceFunc::numHits_')

    def should_inline(self, k):
        return False

    def is_event(self, f, nid, n):
        return n['k'] == 'call' and ('operator()' in n.get('f', '') or n.get('f', 'lambda@').startswith('lambda@'))

    def other(self, en, st, f, fid, nid, n, obj, args):
        if last(n.get('f', '')) == 'operator()' or n.get('f', '').startswith('lambda@'):
            self.add(st, 'ran')
            if not self.held(st):
                self.report('ExecuteOnceFunc::execute: lock', 'the work runs without the lock, so other threads do not wait for it', st, f.loc(nid))
            return [(st, ZERO)]
        return None

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if eq(st, st.read(self.H), ladd(('sym', 'h'), ONE)) is not True:
            self.report('ExecuteOnceFunc::execute: count', 'a thread is not counted once', st, fn.loc())
        first = true(st, ('sym', 'first'))
        now = st.truth(cmp_('==', ('sym', 'h'), ZERO)) if first else st.truth(cmp_('==', ladd(('sym', 'h'), ONE), ('sym', 'n')))
        if self.has(st, 'ran') != (now is True):
            self.report('ExecuteOnceFunc::execute: once', 'the work of %s thread is done by another, or not at all' % ('the first' if first else 'the last'), st, fn.loc())


class Leave(ForEach):
    """a thread that ends leaves every barrier"""
    over = (TC + 'barriers_',)
    vals = {}

    def should_inline(self, k):
        return self.prog.F[k].cls == 'ThreadsController'

    def is_event(self, f, nid, n):
        return ForEach.is_event(self, f, nid, n) or n.get('f') == 'Barrier::deRegister'

    def elem_start(self, en, st, f, nid, m):
        self.drop(st, lambda x: x == ('left',))

    def elem_end(self, en, st, f, nid, m):
        if ('left',) not in st.rs:
            self.add(st, ('missed',))

    def loop_end(self, en, st, f, nid, m):
        self.add(st, ('all',))

    def other_call(self, en, st, f, fid, nid, n, obj, args):
        if n.get('f') == 'Barrier::deRegister':
            if ('left',) in st.rs:
                self.report('%s: twice' % f.qn, 'a thread leaves a barrier twice', st, f.loc(nid))
            self.add(st, ('left',))
            return [(st, ZERO)]
        q = n.get('f', '')
        if last(q) in ('operator->', 'operator*', 'get') and 'shared_ptr' in q and obj:
            return [(st, ('addr', ('P', ('sym', ('elem', self.over[0])))))] if last(q) != 'get' else None
        if last(q) == 'operator[]' and obj and obj == me(TC + 'threadStateMap_'):
            return [(st, ('addr', ('X', obj, ZERO)))]
        if last(q) in ('find', 'at') and obj and obj == me(TC + 'threadStateMap_'):
            return [(st, ('addr', ('X', obj, ZERO)) if last(q) == 'at' else ('sym', 'slot'))]
        if last(q) in ('operator==', 'operator!=') and 'iterator' in n.get('fk', ''):
            return [(st, ZERO if last(q) == 'operator==' else ONE)]
        if last(q) in ('operator->', 'operator*') and 'iterator' in q:
            return [(st, ('addr', ('P', ('sym', 'slot'))))]
        return None

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc[0] == 'X' and loc[1] == me(TC + 'threadStateMap_') or loc == ('F', ('P', ('sym', 'slot')), 'std::pair::second') or \
                loc[0] == 'F' and loc[1] == ('P', ('sym', 'slot')):
            self.drop(st, lambda x: x[0] == 'state')
            k = next((k for k, x in self.vals.items() if v == const(x)), '?')
            self.add(st, ('state', k))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if ('state', 'FINISHED') not in st.rs:
            self.report('%s: state' % fn.qn, 'a thread that ended does not count as finished', st, fn.loc())
        if ('all',) not in st.rs or ('missed',) in st.rs:
            self.report('%s: barrier' % fn.qn, 'a thread that ended is still waited for at a barrier', st, fn.loc())


class User(Locked):
    """whoever got the work of a funnel reports its end"""
    vals = {}
    lock_havoc = True
    K = 8

    def should_inline(self, k):
        return False

    def is_event(self, f, nid, n):
        return n.get('f', '').startswith(('Funnel::', 'Barrier::'))

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        if not q.startswith('Funnel::'):
            return None
        b = last(q)
        if b == 'getStatus':
            self.count('entries')
            self.leave(st, f, nid)
            self.drop(st, 'waited')
            out = []
            for k, v in sorted(self.vals.items()):
                s = st.copy()
                self.drop(s, 'at')
                self.add(s, 'at', k)
                out.append((s, const(v)))
            return out
        if b in ('notifySuccess', 'notifyFail'):
            if not self.has(st, 'at', 'FUNNEL_START'):
                self.report('%s: %s' % (f.qn, b), 'a thread that does not have the work of a funnel reports its end', st, f.loc(nid))
            self.drop(st, 'at')
            self.add(st, 'at', b)
            return [(st, ZERO)]
        if b == 'wait':
            if not self.has(st, 'at', 'FUNNEL_PROGRESS'):
                self.report('%s: wait' % f.qn, 'a thread waits at a funnel for its own work, or for work that is done', st, f.loc(nid))
            self.add(st, 'waited')
            return [(st, ZERO)]
        return None

    def leave(self, st, f, nid):
        if self.has(st, 'at', 'FUNNEL_START'):
            self.report('%s: kept' % f.qn, 'a thread that got the work of a funnel leaves without reporting its end, so the others wait for ever', st, f.loc(nid) if nid else f.loc())

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        self.leave(st, fn, None)
        if self.has(st, 'waited'):
            self.report('%s: unchecked' % fn.qn, 'a thread that waited at a funnel goes on without looking at its status again', st, fn.loc())


class Body(Locked):
    """a thread's body"""
    lock_havoc = True
    K = 8
    sender = False

    def should_inline(self, k):
        return False

    def is_event(self, f, nid, n):
        return last(n.get('f', '')) in ('deRegisterThread', 'executeAtEnd', 'executeAtStart', 'markNotInUse') or n['k'] == 'call' and not n.get('f')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = last(n.get('f', ''))
        if not n.get('f') and 'ce' in n:
            self.count('steps')
            self.step(st, f, nid)
            return None
        if b == 'deRegisterThread':
            self.count('leaves')
            v = en.rv(st, f, args[0], n['a'][0]) if args and args[0] != TOP else TOP
            if v == TOP or 'threadIndex_' not in str(v):
                self.report('%s: other' % f.qn, 'another thread than the one that ends leaves the barriers', st, f.loc(nid))
            if self.has(st, 'left'):
                self.report('%s: twice' % f.qn, 'a thread leaves twice', st, f.loc(nid))
            self.add(st, 'left')
            return [(st, ZERO)]
        if b == 'markNotInUse':
            self.add(st, 'unused')
            return [(st, ZERO)]
        if b == 'executeAtEnd':
            if not self.has(st, 'left'):
                self.report('%s: order' % f.qn, 'the end of the session is counted before the thread left', st, f.loc(nid))
            if self.has(st, 'ended'):
                self.report('%s: ended twice' % f.qn, 'a thread is counted twice at the end of the session', st, f.loc(nid))
            self.add(st, 'ended')
            return [(st, ZERO)]
        if b == 'executeAtStart':
            self.add(st, 'started')
            return [(st, ZERO)]
        return None

    def step(self, st, f, nid):
        for x, why in (('left', 'left the barriers'), ('unused', 'released its history'), ('ended', 'was counted as ended')):
            if self.has(st, x):
                self.report('%s: after' % f.qn, 'a thread goes on working after it ' + why, st, f.loc(nid))

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        for x, why in (('left', 'is still waited for at the barriers'), ('ended', 'is not counted as ended, so the session never ends')) + (
                (('unused', 'still seems to use its history'),) if self.sender else ()):
            if not self.has(st, x):
                self.report('%s: %s' % (fn.qn, x), 'a thread that ended ' + why, st, fn.loc())


class Notify(Locked):
    """every release of a waiting thread is followed by a notification"""
    # (class, variable, awaited field, releasing write, lock, all needed)
    cv = field = cls = mutex = None
    all = False
    released = None

    def should_inline(self, k):
        return self.prog.F[k].cls == self.cls

    def is_event(self, f, nid, n):
        return last(n.get('f', '')) in ('notify_all', 'notify_one')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = last(n.get('f', ''))
        if b in ('notify_all', 'notify_one') and obj and self.is_cv(st, obj):
            self.count('notifies')
            if b == 'notify_all' or not self.all:
                self.drop(st, 'pending')
            return [(st, ZERO)]
        return self.extra(en, st, f, fid, nid, n, obj, args)

    def extra(self, en, st, f, fid, nid, n, obj, args):
        return None

    def is_cv(self, st, obj):
        return obj[0] == 'F' and obj[2] == self.cls + '::' + self.cv

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc[0] == 'F' and loc[2] == self.cls + '::' + self.field and self.released(st, v):
            self.release(st, f, nid)

    def release(self, st, f, nid):
        self.count('releases')
        if not self.held(st):
            self.report('%s: lock' % f.qn, 'what other threads wait for changes without the lock, so they may miss it', st, f.loc(nid))
        self.add(st, 'pending')

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        if self.has(st, 'pending') and self.field and not self.released(st, st.read(me(self.cls + '::' + self.field))):
            return
        if self.has(st, 'pending'):
            self.report('%s: not notified' % fn.qn, 'threads that wait on %s are not told that what they wait for is there' % self.cv, st, fn.loc())


class Queue(Notify):
    """the end of the queue"""
    Q = 'DirectorySourceQueue::sourceQueue_'
    cls, cv, field, all = 'DirectorySourceQueue', 'conditionNotEmpty_', 'initFinished_', True
    released = staticmethod(lambda st, v: not false(st, v))

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == self.cls and f.name in ('smartNotify', 'enqueueFilesToBeDeleted') or f.cls == self.cls and self.small(k)

    def is_event(self, f, nid, n):
        return Notify.is_event(self, f, nid, n) or n.get('o') and f.nodes.get(n['o'], {}).get('f') == self.Q

    def extra(self, en, st, f, fid, nid, n, obj, args):
        b = last(n.get('f', ''))
        if obj and obj[0] == 'F' and obj[2] == self.Q:
            if b == 'empty':
                o = st.copy()
                self.drop(o, 'pending')       # not empty: nobody is stuck
                self.add(st, 'emptied')
                self.drop(o, 'emptied')
                return [(st, ONE), (o, ZERO)]
            if b == 'pop':
                self.count('releases')
                self.drop(st, 'emptied')
                self.add(st, 'pending')
                return [(st, ZERO)]
            if b in ('push', 'emplace'):
                self.drop(st, 'emptied')
                return [(st, ZERO)]
        return None

    def on_branch(self, en, st, f, b, cond, took):
        if self.has(st, 'pending') and false(st, st.read(me(self.cls + '::initFinished_'))):
            self.drop(st, 'pending')
        return True


class Alloc(Notify):
    """the end of an allocation"""
    cls, cv, mutex = 'FileCreator', 'threadConditionVariables_', 'allocationMutex_'
    vals = {}
    released = None

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == self.cls and f.name not in ('openAndSetSize', 'openExistingFile', 'createFile', 'waitForAllocationFinish', 'getFullPath')

    def is_cv(self, st, obj):
        return True

    def is_event(self, f, nid, n):
        return Notify.is_event(self, f, nid, n) or last(n.get('f', '')) in ('openAndSetSize', 'waitForAllocationFinish')

    def extra(self, en, st, f, fid, nid, n, obj, args):
        b = last(n.get('f', ''))
        q = n.get('f', '')
        if b == 'openAndSetSize':
            self.count('allocations')
            o = st.copy()
            v = en.fresh(st, fid, nid, 'fd')
            st.assume(cmp_('>=', v, ZERO))
            self.add(st, 'alloc', True)
            self.add(o, 'alloc', False)
            return [(st, v), (o, const(-1))]
        if b == 'operator[]' and obj and obj[0] == 'F' and obj[2].endswith('threadConditionVariables_') and args:
            i = en.rv(st, f, args[0], n['a'][0])
            st.store[('G', 'cvidx')] = i
            return [(st, ('addr', ('X', obj, ZERO)))]
        if b in ('insert', 'emplace', 'operator[]') and obj and obj[0] == 'F' and obj[2].endswith('fileStatusMap_'):
            self.add(st, 'owned')
            return None
        return None

    def on_write(self, en, st, f, nid, n, loc, v):
        if loc[0] == 'F' and loc[2].startswith('std::pair<') and loc[2].endswith('::second') or loc[0] == 'X' and 'fileStatusMap_' in str(loc):
            if v in self.vals.values() and (self.has(st, 'alloc', True) or self.has(st, 'alloc', False)):
                self.count('releases')
                if self.has(st, 'alloc', v == self.vals['FAILED']):
                    self.report('%s: outcome' % f.qn, 'the threads that wait for a file are told the opposite of what happened', st, f.loc(nid))
                self.add(st, 'told')
                self.add(st, 'pending')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        b = last(n.get('f', ''))
        if b in ('notify_all', 'notify_one') and self.has(st, 'pending'):
            self.count('notifies')
            if b == 'notify_one':
                self.report('%s: one' % f.qn, 'only one of the threads that wait for a file is woken', st, f.loc(nid))
            if not self.has(st, 'since') and not self.held(st, self.mutex):
                self.report('%s: missed' % f.qn, 'a thread may begin to wait for a file just after it was notified', st, f.loc(nid))
            self.drop(st, 'pending')
            return [(st, ZERO)]
        return self.extra(en, st, f, fid, nid, n, obj, args)

    def locked(self, st, f, nid):
        if self.has(st, 'pending') and self.held(st, self.mutex):
            self.add(st, 'since')

    def on_exit(self, en, st, fn, ret):
        Notify.on_exit(self, en, st, fn, ret)
        if any(x[0] == 'alloc' for x in st.rs) and not self.has(st, 'told'):
            self.report('%s: silent' % fn.qn, 'the end of an allocation is not recorded, so other threads wait for ever', st, fn.loc())


def cyclic(f, nid):
    """the node lies on a cycle of its function"""
    start = next((i for i, x in enumerate(f.blocks) if nid in x['e']), None)
    if start is None:
        return None
    seen, todo = set(), list(f.blocks[start]['s'])
    while todo:
        b = todo.pop()
        b = b['b'] if isinstance(b, dict) else b
        if b == start:
            return True
        if b is None or b < 0 or b in seen:
            continue
        seen.add(b)
        todo += f.blocks[b]['s']
    return False


class Waiter(Locked):
    """a thread that waits for an allocation looks again under the lock"""
    vals = {}
    mutex = 'allocationMutex_'

    def should_inline(self, k):
        f = self.prog.F[k]
        return f.cls == 'FileCreator' and self.small(k)

    def is_event(self, f, nid, n):
        return 'condition_variable' in n.get('f', '')

    def on_call(self, en, st, f, fid, nid, n, obj, args):
        q = n.get('f', '')
        b = last(q)
        if 'condition_variable' in q and b.startswith('wait'):
            self.count('waits')
            if not self.held(st, self.mutex):
                self.report('%s: lock' % f.qn, 'a thread waits for an allocation without its lock', st, f.loc(nid))
            if not self.has(st, 'pending'):
                self.report('%s: unchecked' % f.qn, 'a thread waits for an allocation without having seen, under the same lock, that it still goes on', st, f.loc(nid))
            self.drop(st, 'pending')
            self.drop(st, 'saw')
            return [(st, en.fresh(st, fid, nid, 'w'))]
        if b in ('find', 'at', 'operator[]') and obj and obj[0] == 'F' and obj[2].endswith('fileStatusMap_'):
            self.count('looks')
            inlock = self.held(st, self.mutex)
            out = []
            for k in ('ALLOCATED', 'FAILED', None):
                s = st.copy()
                self.drop(s, 'pending')
                self.drop(s, 'saw')
                self.add(s, 'saw', k)
                if k is None and inlock:
                    self.add(s, 'pending')
                v = self.vals[k] if k else ('sym', 'owner')
                s.store[('G', 'status')] = v
                if k is None:
                    for x in self.vals.values():
                        s.assume(cmp_('!=', v, x))
                l = ('P', ('sym', 'slot'))
                s.store[('X', obj, ZERO)] = v
                s.store[('G', 'cur')] = v
                out.append((s, ('sym', 'slot') if b == 'find' else ('addr', ('X', obj, ZERO))))
            return out
        if b in ('operator==', 'operator!=') and 'iterator' in n.get('fk', ''):
            return [(st, ZERO if b == 'operator==' else ONE)]
        if b in ('operator->', 'operator*') and 'iterator' in q:
            return [(st, ('addr', ('P', ('sym', 'slot'))))]
        return None

    def on_read(self, en, st, f, nid, n, loc):
        if loc[0] == 'F' and loc[1] == ('P', ('sym', 'slot')) and loc[2].endswith('::second'):
            st.store[loc] = st.store.get(('G', 'cur'), TOP)

    def on_exit(self, en, st, fn, ret):
        self.count('exits')
        saw = next((x[1] for x in st.rs if x[0] == 'saw'), None)
        if ret == TOP or st.truth(ret) is None or saw is None or st.truth(ret) is not (saw == 'ALLOCATED'):
            self.report('%s: answer' % fn.qn, 'a thread that waited for an allocation takes %s for the outcome' % (
                'an allocation still going on' if saw is None else 'the opposite'), st, fn.loc())


def run(P, c):
    en = P.enum('FunnelStatus')
    ths = P.enum('ThreadStatus')

    def go(r, f, setup=None, floor=('exits',)):
        c.explore(r, f.key, setup=setup)
        for x in floor:
            c.need(r.stats.get(x) or r.viol, 'no %s in %s' % (x, f.qn))
        c.oblige('%s: %s' % (f.qn, (type(r).__doc__ or '').strip()), not r.viol)
        c.absorb(r, '')
        for k, v in r.stats.items():
            c.count(k, v)

    # -- primitives ----------------------------------------------------
    h, n = ('sym', 'h'), ('sym', 'n')

    def counters(H, N):
        def s(st):
            st.store[H], st.store[N] = h, n
            st.store[('G', 'h0')], st.store[('G', 'n0')] = h, n
            st.assume(cmp_('>=', h, ZERO))
        return s
    for name in ('execute', 'deRegister'):
        for case in ('full', 'some', 'done'):
            if case == 'done' and name == 'execute':
                continue
            r = BarrierRule(P)

            def s(st, f, fid):
                counters(r.H, r.N)(st)
                st.assume(cmp_('==' if case == 'full' else '<', ladd(h, ONE), n))
                st.store[r.D] = st.store[('G', 'd0')] = const(int(case == 'done'))
            go(r, P.fn('Barrier::' + name), s, ('exits',) + (('completions',) if case == 'full' else ()))
    for f in P.fns('Funnel::wait') + [P.fn('Funnel::' + x) for x in ('getStatus', 'notifySuccess', 'notifyFail')]:
        for b in sorted(en):
            r = FunnelRule(P)
            r.vals, r.before = en, b

            def s(st, f, fid):
                st.store[r.S] = const(en[b])
            go(r, f, s)
    once = [f for f in P.F.values() if f.qn.startswith('ExecuteOnceFunc::execute')]
    c.floor('once', len(once), 1)
    for f in sorted(once, key=lambda f: f.key):
        for first in (0, 1):
            for now in (0, 1):
                r = OnceRule(P)

                def s(st, f, fid):
                    st.store[r.H], st.store[me('ExecuteOnceFunc::numThreads_')], st.store[me('ExecuteOnceFunc::execFirst_')] = h, n, const(first)
                    st.store[('G', 'h0')], st.store[('G', 'n0')], st.store[('G', 'f')] = h, n, ('sym', 'first')
                    st.assume(cmp_('==' if first else '!=', ('sym', 'first'), ZERO) if False else cmp_('!=' if first else '==', ('sym', 'first'), ZERO))
                    st.assume(cmp_('>=', h, ZERO))
                    if first:
                        st.assume(cmp_('==' if now else '>', h, ZERO))
                    else:
                        st.assume(cmp_('==' if now else '<', ladd(h, ONE), n))
                go(r, f, s)
    r = Leave(P)
    r.vals = ths
    go(r, P.fn(TC + 'deRegisterThread'), None, ('exits', 'loops'))

    # -- users -------------------------------------------------------------
    users = [f for f in P.F.values() if f.cls != 'Funnel' and any(x.get('f') == 'Funnel::getStatus' for x in f.nodes.values())]
    c.floor('funnel_users', len(users), 3)
    for f in sorted(users, key=lambda f: f.key):
        r = User(P)
        r.vals = en
        go(r, f, None, ('exits', 'entries'))
    for cls in ('SenderThread', 'ReceiverThread'):
        r = Body(P)
        r.sender = cls == 'SenderThread'
        go(r, P.fn(cls + '::start'), None, ('exits', 'leaves', 'steps'))

    # -- condition variables -------------------------------------------------
    joined = P.enum('WdtBase::TransferStatus')['THREADS_JOINED']
    for cls, cv, field, name, rel, al in (
            ('WdtBase', 'conditionFinished_', 'transferStatus_', 'setTransferStatus', lambda st, v: v == TOP or st.truth(cmp_('==', v, const(joined))) is not False, False),
            ('ThreadTransferHistory', 'conditionInUse_', 'inUse_', 'markNotInUse', lambda st, v: not true(st, v), True)):
        ws = [f for f in P.F.values() if cls + '::' + field in P.direct_mods(f) and not f.ctor and f.name not in (cls, '~' + cls)]
        c.need(ws, 'nobody writes %s::%s' % (cls, field))
        for f in sorted(ws, key=lambda f: f.key):
            r = Notify(P)
            r.cls, r.cv, r.field, r.released, r.all = cls, cv, field, rel, al
            go(r, f)
            if f.name == name:
                c.need(r.stats.get('releases') or r.viol, 'no release in %s' % f.qn)
    for name in ('buildQueueSynchronously', 'getNextSource'):
        go(Queue(P), P.fn('DirectorySourceQueue::' + name), None, ('exits', 'releases'))
    r = Alloc(P)
    r.vals = {k: ('sym', k) for k in ('ALLOCATED', 'FAILED')}

    def s(st, f, fid):
        for k, v in r.vals.items():
            st.store[me('FileCreator::' + k)] = st.store[('G', k)] = v
    go(r, P.fn('FileCreator::openForFirstBlock'), s, ('exits', 'releases', 'allocations'))
    r = Waiter(P)
    r.vals = {k: ('sym', k) for k in ('ALLOCATED', 'FAILED')}

    def s(st, f, fid):
        for k, v in r.vals.items():
            st.store[me('FileCreator::' + k)] = st.store[('G', k)] = v
        st.assume(cmp_('!=', r.vals['ALLOCATED'], r.vals['FAILED']))
    go(r, P.fn('FileCreator::waitForAllocationFinish'), s, ('exits', 'waits', 'looks'))
    for f in sorted(P.F.values(), key=lambda f: f.key):
        for nid, n in sorted(f.nodes.items()):
            if n['k'] == 'call' and 'std::condition_variable' in n.get('f', '') and last(n['f']) == 'wait' and len(n['a']) == 1 and f.cls != 'Funnel':
                c.count('untimed_waits', 1)
                c.check(cyclic(f, nid) is not False, '%s: unchecked wait' % f.qn, 'a thread that wakes up does not look whether what it waits for is there', f.loc(nid))
    c.floor('untimed_waits', c.counts.get('untimed_waits', 0), 3)
