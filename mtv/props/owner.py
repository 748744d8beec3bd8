"""P12: every block of memory is released exactly once."""
import re
from .. import core
from ..build import REPO, AnalysisBroken
from ..own import Own, State, Limit, cls
from ..report import Report, finish
from .effects import worlds, considered, own, plain, methods
from ..facts import short

SIZES = (1, 3, 20)


def classes(P, rel):
    """class -> (constructors, destructor, other members)"""
    r = {}
    for f in P.fns.values():
        if not own(f) or '::' not in f.dem:
            continue
        m = re.match(r'(.*)::~(\w+)\(\)$', f.dem)
        if m and re.search(r'D[12]Ev$', f.name):
            if m.group(1) not in r or 'D1Ev' in f.name:
                r[m.group(1)] = f
    for f in P.fns.values():
        # the destructor of the class may be that of its base: the deleting destructor is there
        m = re.match(r'(.*)::~(\w+)\(\)$', f.dem)
        if own(f) and m and re.search(r'D0Ev$', f.name) and not f.name.startswith('_ZT') and m.group(1) not in r and any(g.name in rel and cls(g) == m.group(1) and re.search(r'C[12]E', g.name) for g in P.fns.values()):
            r[m.group(1)] = f
    out = {}
    for c, dt in r.items():
        base = re.sub(r'<.*', '', c.rsplit('::', 1)[-1] if '<' not in c else plain(c).rsplit('::', 1)[-1])
        ct, ms = {}, []
        for f in P.fns.values():
            if not own(f) or not f.dem.startswith(c + '::'):
                continue
            rest = f.dem[len(c) + 2:]
            if rest.startswith(base + '('):
                k = rest
                if k not in ct or 'C1E' in f.name:
                    ct[k] = f
            elif re.match(r'[\w]+\(|operator', rest) and not rest.startswith('~'):
                ms.append(f)
        out[c] = (base, list(ct.values()), dt, ms)
    return out


def argval(f, k, c, tag):
    t = f.j['args'][k]['ty']
    if t == 'ptr':
        return ('o', ('arg', tag, k), 0)
    if re.match(r'i\d+$', t):
        return c if c is not None and t != 'i1' else ('u', ('arg', tag, k))
    return ('u', ('arg', tag, k))


def left(o, s, ret, dead=()):
    """blocks nobody can reach or release any more"""
    roots = [ret] if ret is not None else []
    roots += [('o', q[0], 0) for q in s.mem if q[0] not in s.heap and q[0] not in dead and q[0][0] != 'al']
    seen = o.refs(s, roots)
    return [(k, h) for k, h in s.heap.items() if h.status == 'live' and k not in seen]


def p12(prop, tier):
    rep = Report(prop, tier)
    rep.rule('once', 'every block of memory a function or an object makes is released exactly once: on every path that returns, or when the object is destroyed, whatever was called in between')
    rep.rule('form', 'a block is released in the form it was made in (new / delete, new[] / delete[])')
    rep.rule('use', 'no block is used after its release or outside its bounds')
    rep.rule('copy', 'an object that releases memory when it is destroyed cannot be copied or assigned member by member')
    rep.rule('virtual', 'an object deleted through a base class has a virtual destructor')
    n = 0
    for name, P in worlds():
        pre = '' if name == 'library' else name + ': '
        found = []
        o = Own(P, own, lambda rule, f, x, what: found.append((rule, f.where(x), what)))

        def put(inst, f, lim):
            for r in ('once', 'form', 'use'):
                b = next((q for q in found if q[0] == r), None)
                if b:
                    rep.bad(r, inst, b[1], b[2])
                elif lim or o.partial:
                    rep.unk(r, inst, f.where({}), lim or o.partial)
                else:
                    rep.ok(r, inst, f.where({}))
            del found[:]
        cl = classes(P, o.rel)
        special = set()
        hidden = {(plain(r['name']), m['name']) for r in P.ast['records'] for m in r['methods'] if m['access']}
        for c, (base, ct, dt, ms) in cl.items():
            ms = [m for m in ms if (plain(c), short(m.dem)) not in hidden and (plain(c), plain(m.q).rsplit('::', 1)[-1]) not in hidden]
            special |= {f.name for f in ct} | {dt.name}
            if not any(f.name in o.rel for f in ct + [dt]):
                continue
            if not ct:
                continue
            n += 1
            rep.fn(dt)
            for k in ct:
                rep.fn(k)
                inst = '%slife of %s' % (pre, core.sig(k))
                lim, o.partial, o.home = None, None, c
                copy = re.search(r'::%s\(%s(<.*>)? const&\)$' % (base, re.escape(plain(c)) if '<' not in c else '.*' + base), k.dem) is not None
                for size in SIZES:
                    o.nstates = 0
                    try:
                        life(o, c, k, dt, ms, size, copy, [q for q in ct if q is not k], found)
                    except Limit as e:
                        lim = lim or str(e)
                    if found:
                        break
                put(inst, k, lim)
        for f in P.fns.values():
            if f.name not in o.rel or not considered(name, P, f) or f.name in special or '~' in f.dem or re.search(r'C[012]E', f.name):
                continue
            n += 1
            rep.fn(f)
            o.nstates, o.partial, o.home = 0, None, cls(f)
            lim = None
            try:
                for ret, s, x in o.run(f, [argval(f, k, None, 'f') for k in range(len(f.j['args']))], State()):
                    for k, h in left(o, s, ret):
                        found.append(('once', f.where(x), 'returns here without having released the block made at %s' % h.site))
            except Limit as e:
                lim = str(e)
            put(pre + core.sig(f), f, lim)
        # classes that make memory in a constructor and have no destructor at all
        kinds = {plain(r['name']): r['type'].startswith('class ') for r in P.ast['records'] if r['loc'][0].startswith(REPO + '/')}
        for k in P.fns.values():
            c = cls(k)
            if k.name not in o.rel or not own(k) or c in cl or 'C1E' not in k.name and 'C2E' not in k.name or not kinds.get(plain(c)):
                continue
            if any(g.name in o.rel and cls(g) == c and not re.search(r'C[12]E', g.name) for g in P.fns.values()):
                continue
            o.nstates, o.partial, o.home = 0, None, c
            lim = None
            this = ('o', ('obj', 'this'), 0)
            try:
                for ret, z, x in o.run(k, [this] + [argval(k, j, 3, 'c') for j in range(1, len(k.j['args']))], State()):
                    for q, h in left(o, z, None, (('obj', 'this'),)):
                        found.append(('once', k.where(x), 'the block made at %s is never released: the class has no destructor' % h.site))
            except Limit as e:
                lim = str(e)
            put('%slife of %s' % (pre, core.sig(k)), k, lim)
        rep.calls(o.calls)
        # classes: copies
        for r in P.ast['records']:
            if name != 'library' and not any(r['loc'][0].startswith(REPO + '/') for _ in [0]):
                continue
            if not r['loc'][0].startswith(REPO + '/'):
                continue
            key = r['type'].replace('struct ', '').replace('class ', '')
            c = next((q for q in cl if plain(q) == plain(r['name']) and (q == key or '<' not in q or same(q, key))), None)
            if c is not None and cl[c][2].name in o.rel and 'D0Ev' not in cl[c][2].name:
                okc = r['userCopyCtor'] or r['copyCtorDeleted'] or not r.get('copyCtorUsable', True)
                oka = r['userCopyAssign'] or r['copyAssignDeleted']
                w = '%s:%d' % tuple(r['loc'][:2])
                rep.verdict(bool(okc), 'copy', pre + core.tidy(key) if hasattr(core, 'tidy') else pre + key, w, 'releases memory in its destructor but can be copied member by member')
                rep.verdict(bool(oka), 'copy', (pre + core.tidy(key) if hasattr(core, 'tidy') else pre + key) + ' assignment', w, 'releases memory in its destructor but can be assigned member by member')
        virt = {r['name']: any(m['name'].startswith('~') and m['virtual'] for m in r['methods']) for r in P.ast['records']}
        poly = {r['name']: any(m['virtual'] for m in r['methods']) for r in P.ast['records']}
        for q in P.ast['calls']:
            if q['m'].startswith('~') and q['loc'][0].startswith(REPO + '/') and q['cls'] in poly and poly[q['cls']]:
                rep.verdict(virt[q['cls']] or q['virt'], 'virtual', '%s%s deleted in %s' % (pre, q['cls'], q['fn']), '%s:%d' % tuple(q['loc'][:2]), 'deleted through a class without a virtual destructor')
    if n < 8:
        raise AnalysisBroken('too few owners of memory found')
    return finish(rep, 'other', 'Path-sensitive ledger of heap blocks over the call graph: functions, and life cycles of owning classes.', floor=10)


def same(a, b):
    t = lambda q: re.sub(r'\s|uint32_t|uint64_t|unsigned int|unsigned long|MTToolBox::', lambda m: {'uint32_t': 'u32', 'unsigned int': 'u32', 'uint64_t': 'u64', 'unsigned long': 'u64'}.get(m.group(0), ''), q)
    return t(a) == t(b)


def life(o, c, k, dt, ms, size, copy, others, found):
    this = ('o', ('obj', 'this'), 0)
    other = ('o', ('obj', 'other'), 0)
    start = [State()]
    if copy:
        if not others:
            return
        start = []
        for q in others[:1]:
            for ret, s, x in o.run(q, [other] + [argval(q, j, size, 'o') for j in range(1, len(q.j['args']))], State()):
                start.append(s)
    made = []
    for s in start:
        args = [this] + [other if copy and j == 1 else argval(k, j, size, 'c') for j in range(1, len(k.j['args']))]
        made += [z for ret, z, x in o.run(k, args, s)]
    made = dedup(made)
    act = [m for m in ms if m.name in o.rel and not m.dem.endswith(' const') and m.j['args'] and m.j['args'][0]['ty'] == 'ptr' and not re.search(r'::operator=\(', m.dem) and size < 100]
    stages = [([], made)]
    for m in act:
        if o.summary(m) == 'balanced':
            continue
        try:
            after = made
            for turn in (1, 2):
                nx = []
                for s in after:
                    nx += [z for ret, z, x in o.run(m, [this] + [argval(m, j, None, 'm') for j in range(1, len(m.j['args']))], s)]
                after = dedup(nx)
            stages.append(([m], after))
        except Limit as e:
            o.partial = str(e)
            o.nstates = 0
    for m, states in stages:
        for s in states:
            for ret, z, x in o.run(dt, [this], s):
                zs = [z]
                if copy:
                    zs = [y for r2, y, x2 in o.run(dt, [other], z)]
                for y in zs:
                    for q, h in left(o, y, None, (('obj', 'this'), ('obj', 'other'))):
                        found.append(('once', dt.where(x), 'the block made at %s is still there when the object has been destroyed%s' % (h.site, ', after ' + m[0].q if m else '')))


def dedup(states):
    seen, r = set(), []
    for s in states:
        q = s.key()
        if q not in seen:
            seen.add(q)
            r.append(s)
    return r
