"""Runs one property's rules, writes evidence, prints the verdict."""
import importlib, json, multiprocessing, os, sys, time, traceback
from .program import Program, Broken, VERIF
from .engine import Engine, Rule, TOP


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid = pid
        self.P = prog
        self.tier = tier
        self.viols = {}
        self.obl = {}            # obligation -> discharged?
        self.rules = []
        self.counts = {}
        self.funcs = set()
        self.samples = []
        self.assumptions = []

    # obligations ------------------------------------------------------
    def oblige(self, name, ok=True):
        self.obl[name] = self.obl.get(name, True) and bool(ok)

    def violation(self, key, msg, where='', path=()):
        self.oblige(key, False)
        if key not in self.viols:
            self.viols[key] = {'key': key, 'msg': msg, 'where': where,
                               'path': list(path)}

    def check(self, ok, key, msg, where='', path=()):
        if ok:
            self.oblige(key, True)
        else:
            self.violation(key, msg, where, path)
        return ok

    def need(self, cond, msg):
        """analysis anchor: its absence is an analysis failure"""
        if not cond:
            raise Broken(msg)

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            raise Broken('%s: only %d instances found, expected at least %d' %
                         (name, n, least))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def explore(self, rule, entry, this=None, setup=None):
        en = Engine(self.P, rule)
        kw = {}
        if this is not None:
            kw['this'] = this
        en.run(entry, setup=setup, **kw)
        self.funcs |= en.funcs
        self.count('dataflow_steps', en.steps)
        self.count('cfg_blocks_visited', len(en.visited))
        return en

    def parallel(self, fn, items):
        """fn(ctx, item) for every item, each in a process of its own; the results are merged in order"""
        global JOB
        items = list(items)
        JOB = (self, fn, items)
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1, len(items))) as pool:
            for viols, obl, counts, funcs, samples, broken in pool.imap(_job, range(len(items)), chunksize=1):
                for k, v in obl.items():
                    self.oblige(k, v)
                for k, v in viols.items():
                    self.viols.setdefault(k, v)
                for k, v in counts.items():
                    self.count(k, v)
                self.funcs |= funcs
                for x in samples:
                    self.sample(x)
                if broken:
                    raise Broken(broken)

    def absorb(self, rule, prefix=''):
        """take over a rule's reported violations"""
        for k, v in rule.viol.items():
            self.violation(prefix + k, v['msg'], v['where'], v['path'])


JOB = None


def _job(i):
    c, fn, items = JOB
    d = Ctx(c.pid, c.P, c.tier)
    broken = None
    try:
        fn(d, items[i])
    except Broken as e:
        broken = str(e) or 'broken'
    return d.viols, d.obl, d.counts, d.funcs, d.samples, broken


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            d = json.loads(line)
            if d.get('property') == pid and d.get('status') == 'known':
                out[d['key']] = d
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    try:
        P = Program()
        mod = importlib.import_module('rules.' + pid.lower())
        c = Ctx(pid, P, tier)
        try:
            mod.run(P, c)
            if not c.obl:
                raise Broken('no obligation was generated')
        except Broken as e:
            # what was found before the analysis gave up still counts
            if not c.viols:
                raise
            print('note: analysis incomplete: %s' % e)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        sys.exit(2)
    known = known_findings(pid)
    new = {k: v for k, v in c.viols.items() if k not in known}
    for f in c.funcs:
        pass
    fl = sorted({'%s (%s)' % (P.F[k].qn, P.F[k].loc()) for k in c.funcs})
    cov = {
        'explanation': mod.EXPLAIN,
        'rule': getattr(mod, 'RULE', ''),
        'translation_units': P.tus,
        'functions_in_program': len(P.F),
        'functions_analysed': len(c.funcs),
        'functions_list': fl[:120],
        'obligations': len(c.obl),
        'discharged': sum(1 for v in c.obl.values() if v),
        'obligation_list': sorted(c.obl)[:300],
        'counts': c.counts,
        'samples': c.samples,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(new),
          'known_findings': sorted(k for k in c.viols if k in known)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for k, v in c.viols.items():
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k].get('what', k)))
    if new:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + '.txt')
        with open(rp, 'w') as f:
            for k, v in new.items():
                f.write('%s\n  at %s\n  %s\n' % (k, v['where'], v['msg']))
                for p in v['path']:
                    f.write('    | %s\n' % p)
        for k, v in list(new.items())[:20]:
            print('%s: %s [%s]' % (v['where'], v['msg'], k))
            for p in v['path'][-25:]:
                print('    | ' + p)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' %
          (pid, len(c.obl), len(c.funcs), time.time() - t0))
    sys.exit(0)
