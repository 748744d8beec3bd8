"""Obligations, verdicts, evidence files and the exit protocol of a check."""
import json, os, re, resource, signal, sys, time

from . import build
from .facts import TooComplex

T0 = time.time()


class Report:
    """One obligation is one rule applied to one construct.  It ends DISCHARGED,
    VIOLATED (a definite counter-construct was found) or UNDECIDED (the analysis
    could not tell; never an alarm)."""

    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.obs = {}
        self.analysed = {'functions': set(), 'files': set(), 'states': 0, 'call_sites': 0, 'paths': 0}
        self.rules = {}
        self.notes = []
        self.t0 = time.time()

    def rule(self, rid, text):
        self.rules[rid] = text

    def _put(self, status, rule, inst, where, detail):
        k = (rule, inst)
        o = self.obs.get(k)
        rank = {'DISCHARGED': 0, 'UNDECIDED': 1, 'VIOLATED': 2}
        if o is None or rank[status] > rank[o['status']]:
            self.obs[k] = {'rule': rule, 'instance': inst, 'status': status, 'where': where, 'detail': detail}

    def ok(self, rule, inst, where='', detail=''):
        self._put('DISCHARGED', rule, inst, where, detail)

    def bad(self, rule, inst, where='', detail=''):
        self._put('VIOLATED', rule, inst, where, detail)

    def unk(self, rule, inst, where='', detail=''):
        self._put('UNDECIDED', rule, inst, where, detail)

    def verdict(self, v, rule, inst, where='', detail=''):
        """v: True / False / None"""
        (self.ok if v is True else self.bad if v is False else self.unk)(rule, inst, where, '' if v is True else detail)

    def fn(self, f, sym=None):
        self.analysed['functions'].add(f.dem if hasattr(f, 'dem') else str(f))
        if hasattr(f, 'src') and f.src:
            self.analysed['files'].add(f.src)
        if sym is not None:
            self.analysed['states'] += sym.nstates
            self.analysed['paths'] += sym.nrets

    def calls(self, n=1):
        self.analysed['call_sites'] += n

    def note(self, s):
        self.notes.append(s)

    def merge(self, o):
        for k, v in o.obs.items():
            self._put(v['status'], v['rule'], v['instance'], v['where'], v['detail'])
        for k, v in o.analysed.items():
            self.analysed[k] = self.analysed[k] | v if isinstance(v, set) else self.analysed[k] + v
        self.notes += o.notes


_JOBS = None


DEADLINE = 600          # seconds after which what is not decided is reported undecided
MEMORY = 3600 << 20     # per worker


def _late(sig, frame):
    raise TooComplex('not finished in time')


def _job(k):
    fn, prop, tier, a = _JOBS[k]
    r = Report(prop, tier)
    left = DEADLINE * (2 if tier != 'quick' else 1) - (time.time() - T0)
    signal.signal(signal.SIGALRM, _late)
    try:
        signal.setitimer(signal.ITIMER_REAL, max(left, 0.5), 1.0)
        fn(r, *a)
    except (TooComplex, MemoryError, RecursionError) as e:
        r.unk('analysis', '%s %s' % (fn.__name__, str(a)[:60]), '', str(e) or type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))


def parallel(rep, jobs):
    """runs fn(report, *args) for each (fn, args) in forked workers and merges the reports in order"""
    global _JOBS
    import multiprocessing as mp
    _JOBS = [(f, rep.prop, rep.tier, a) for f, a in jobs]
    if len(jobs) == 1 or (os.cpu_count() or 1) == 1:
        rs = map(_job, range(len(jobs)))
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs)), _limits) as p:
            rs = p.map(_job, range(len(jobs)), 1)
    for r in rs:
        rep.merge(r)


def known_findings(prop):
    p = os.path.join(build.VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) rule=(\S+) instance=\[(.*?)\] (.*)', l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def strip_repo(s):
    return s.replace(build.REPO + '/', '')


def finish(rep, level='other', explanation='', level_extra=None, floor=1):
    """writes evidence, prints the verdict, returns the exit status"""
    obs = list(rep.obs.values())
    cnt = {s: sum(o['status'] == s for o in obs) for s in ('DISCHARGED', 'VIOLATED', 'UNDECIDED')}
    kf = known_findings(rep.prop)
    viol, known = [], []
    for o in obs:
        if o['status'] != 'VIOLATED':
            continue
        m = next((k for k in kf if k[0] == o['rule'] and k[1] == o['instance']), None)
        (known if m else viol).append((o, m))
    out = []
    for o in sorted(obs, key=lambda o: ({'VIOLATED': 0, 'UNDECIDED': 1, 'DISCHARGED': 2}[o['status']], o['rule'], o['instance'])):
        out.append('%-10s %s  [%s]  %s %s' % (o['status'], o['rule'], o['instance'], strip_repo(o['where']), strip_repo(o['detail'])))
    evd = os.environ.get('MTV_EVIDENCE', os.path.join(build.VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    repf = os.path.join(evd, rep.prop + '.report.txt')
    with open(repf, 'w') as f:
        f.write('property %s\n' % rep.prop)
        for r, t in rep.rules.items():
            f.write('rule %s: %s\n' % (r, t))
        f.write('\n'.join(out) + '\n')
    nfun = len(rep.analysed['functions'])
    cov = {'explanation': explanation, 'obligations': len(obs), 'discharged': cnt['DISCHARGED'], 'undecided': cnt['UNDECIDED'],
           'violated': cnt['VIOLATED'], 'known_findings': len(known),
           'functions_analysed': nfun, 'functions': sorted(rep.analysed['functions'])[:60],
           'files_analysed': sorted(strip_repo(f) for f in rep.analysed['files']),
           'abstract_states': rep.analysed['states'], 'exits_examined': rep.analysed['paths'], 'sites_examined': rep.analysed['call_sites'],
           'rules': rep.rules,
           'undecided_list': [o['rule'] + ' ' + o['instance'] + ': ' + strip_repo(o['detail'])[:200] for o in obs if o['status'] == 'UNDECIDED'][:20],
           'samples': [strip_repo('%(status)s %(rule)s [%(instance)s] %(where)s %(detail)s' % o)[:300] for o in obs[:12]],
           'notes': rep.notes}
    if level_extra:
        cov.update(level_extra)
    ev = {'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - rep.t0, 3)}
    with open(os.path.join(evd, rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations: %d discharged, %d undecided, %d violated; %d functions' % (
        rep.prop, len(obs), cnt['DISCHARGED'], cnt['UNDECIDED'], cnt['VIOLATED'], nfun))
    for o, m in known:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (rep.prop, o['rule'], o['instance'], m[2]))
    for o in obs:
        if o['status'] == 'UNDECIDED':
            print('undecided: %s [%s] %s %s' % (o['rule'], o['instance'], strip_repo(o['where']), strip_repo(o['detail'])[:300]))
    for o, _ in viol:
        print('violated: %s [%s] %s: %s' % (o['rule'], o['instance'], strip_repo(o['where']), strip_repo(o['detail'])))
    if viol:
        print('VIOLATION property=%s replay=%s' % (rep.prop, repf))
        return 1
    if cnt['DISCHARGED'] + cnt['VIOLATED'] < floor:
        print('analysis broken: %d obligations decided, at least %d expected' % (cnt['DISCHARGED'], floor))
        return 2
    return 0
