"""Path-sensitive abstract interpretation of one normalised function.

A path state is (us, mem, facts, env):
  us     the client's typestate (any hashable value)
  mem    abstract store: address term -> abstract value; also ('st', g) the state of
         generator g, ('par', g) its parameters, ('rev', g) its reverse-output flag
  facts  relations between terms that the branches taken imply
  env    values of the live SSA names

Nothing is executed: calls are replaced by models (mtv/models.py), loops by a
fixed point (values that depend on an earlier iteration become opaque when the
back edge is taken), and infeasible branches are pruned with the recorded
relations only.
"""
from .facts import (Fn, TooComplex, NEG, addoff, cond_atoms, eval_icmp, fold_bin, fold_cast, norm_rel, width, to_signed)

TOP = ('top',)


def ids_of(t, acc=None):
    """instruction ids a term depends on"""
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        k = t[0] if t else None
        if k in ('call', 'phi', 'v', 'new', 'id') and len(t) == 2:
            acc.add(t[1])
            return acc
        if k == 'ld' and len(t) == 3:
            acc.add(t[2])
        for x in t:
            if isinstance(x, tuple):
                ids_of(x, acc)
    return acc


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max((depth(x) for x in t), default=0)


def contains(t, sub):
    if t == sub:
        return True
    return isinstance(t, tuple) and any(contains(x, sub) for x in t)


def is_term(t):
    return isinstance(t, tuple) and len(t) > 0 and isinstance(t[0], str)


class Ctx:
    """what a client sees at an event"""
    __slots__ = ('sym', 'us', 'mem', 'facts', 'env', 'x', 'node', 'args', 'q', 'm', 'dead', 'val', 'extra', 'dst', 'src')

    def __init__(self, sym, us, mem, facts, env, x, node):
        self.sym, self.us, self.mem, self.facts, self.env, self.x, self.node = sym, us, mem, facts, env, x, node
        self.args, self.q, self.m, self.dead, self.val, self.extra, self.dst, self.src = (), '', '', False, None, (), None, None

    @property
    def fn(self):
        return self.sym.fn

    def where(self):
        return self.sym.fn.where(self.x)

    def lines(self):
        return self.sym.path_lines(self.node)

    def obj(self, a):
        v = self.mem.get(a)
        return v if v is not None else ('init', a)

    def state(self, g):
        v = self.mem.get(('st', g))
        return v if v is not None else ('st0', g)

    def par(self, g):
        v = self.mem.get(('par', g))
        return v if v is not None else ('par0', g)

    def rev(self, g):
        v = self.mem.get(('rev', g))
        return v if v is not None else ('rev0', g)

    def put(self, k, v):
        self.mem = dict(self.mem)
        self.mem[k] = v
        self.sym.wrote.setdefault(self.sym.curblock, set()).add(k)

    def known(self, p, a, b):
        return self.sym.known(self.facts, p, a, b)

    def truth(self, t):
        """True/False/None for a boolean term"""
        return self.sym.truth(self.facts, t)

    def load(self, a):
        return self.sym.load(self.mem, a, self.x['i'])

    def assume(self, atoms):
        f = assume(self.facts, atoms)
        if f is None:
            self.dead = True
        else:
            self.facts = f


def strip_ext(t):
    while isinstance(t, tuple) and t and t[0] in ('sext', 'zext') and len(t) == 3:
        t = t[2]
    return t


def const_ok(f, key, new):
    s, a, b = key
    if isinstance(a, int) == isinstance(b, int):
        return True
    x = b if isinstance(a, int) else a
    st = {'lo': -(1 << 70), 'hi': 1 << 70, 'ne': set()}
    if s == 'u':
        st['lo'] = 0

    def add(k, rel):
        p, q = k[1], k[2]
        if isinstance(p, int):
            c = p
            rel = frozenset(r.translate(str.maketrans('<>', '><')) for r in rel)
        else:
            c = q
        if s == 'u':
            c &= (1 << 64) - 1
        if rel == {'='}:
            st['lo'], st['hi'] = max(st['lo'], c), min(st['hi'], c)
        elif rel == {'<'}:
            st['hi'] = min(st['hi'], c - 1)
        elif rel == {'<', '='}:
            st['hi'] = min(st['hi'], c)
        elif rel == {'>'}:
            st['lo'] = max(st['lo'], c + 1)
        elif rel == {'>', '='}:
            st['lo'] = max(st['lo'], c)
        elif rel == {'<', '>'}:
            st['ne'].add(c)
    add(key, new)
    for k, rel in f.items():
        if k[0] == s and k != key and len(k) == 3:
            if (k[1] == x and isinstance(k[2], int)) or (k[2] == x and isinstance(k[1], int)):
                add(k, rel)
    lo, hi, ne = st['lo'], st['hi'], st['ne']
    while lo in ne:
        lo += 1
    while hi in ne:
        hi -= 1
    return lo <= hi


def assume(f, atoms):
    """facts extended with the atoms, or None when contradictory"""
    changed = False
    disj = []
    for a in atoms:
        if a[0] == 'disj':
            disj.append(a)
            continue
        p, x, y = a
        x, y = strip_ext(x), strip_ext(y)
        if isinstance(x, int) and isinstance(y, int):
            if not eval_icmp(p, x, y):
                return None
            continue
        if x == y:
            if p in ('ne', 'slt', 'sgt', 'ult', 'ugt') and not contains(x, TOP):
                return None
            continue
        if contains(x, TOP) or contains(y, TOP):
            continue
        key, allowed = norm_rel(p, x, y)
        old = f.get(key)
        new = allowed if old is None else (old & allowed)
        if not new:
            return None
        if key[0] == 's' and not const_ok(f, key, new):
            return None
        # equality transported to the unsigned table and back
        if new != old:
            if not changed:
                f = dict(f)
                changed = True
            f[key] = new
    for d in disj:
        opts = [side for side in d[1:] if assume(f, list(side)) is not None]
        if not opts:
            return None
        if len(opts) == 1:
            f = assume(f, list(opts[0]))
            if f is None:
                return None
    return f


class Client:
    def call(self, c):
        """before the model of the call is applied"""

    def after(self, c):
        """after the model (c.val is the result)"""

    def store(self, c, addr, val):
        pass

    def load(self, c, addr, val):
        pass

    def edge(self, c):
        """after the facts of a branch edge were assumed"""

    def backedge(self, c, header):
        """before values of the finished iteration become opaque"""

    def ret(self, c, val):
        pass

    def throw(self, c):
        """a path ends in a call that does not return"""


class Sym:
    def __init__(self, fn, prog, client, us0=None, models=None, cap=4000, total=60000, keepfact=None, mem0=None, generic=False, alias=None, cache=False, noalias=None, wide=False):
        self.wide = wide            # arithmetic terms carry their width
        self.alias = alias or {}
        self.cache = cache          # remember what was read from unknown memory
        self.noalias = noalias      # addresses known to be distinct
        self.fn, self.prog, self.client, self.us0 = fn, prog, client, us0
        from . import models as M
        self.models = models or M.MODELS
        self.cap, self.total = cap, total
        self.keepfact = keepfact
        self.generic = generic      # loop counters are generic from the first iteration on
        self.mem0 = mem0 or {}
        self.wrote = {}
        self.curblock = None
        self.parent = {}
        self.nstates = 0
        self.nrets = 0
        self._prep()

    # ---------------------------------------------------------------- prep
    def _prep(self):
        fn = self.fn
        dom = fn.dominators()
        self.backedge = {(b, s) for b in fn.reach for s in fn.succ[b] if s in dom.get(b, ())}
        self.loopblocks = {}
        for b, h in self.backedge:
            blk = self.loopblocks.setdefault(h, {h})
            st = [b]
            while st:
                n = st.pop()
                if n in blk:
                    continue
                blk.add(n)
                st += [p for p in fn.pred[n] if p in fn.reach]
        self.loopids = {h: {x['i'] for b in bl for x in fn.insts(b)} | {-(k + 2) for k in bl} for h, bl in self.loopblocks.items()}
        # liveness of SSA names
        use, deff, phiuse = {}, {}, {}
        for b in fn.reach:
            u, d = set(), set()
            for x in fn.insts(b):
                if x['op'] == 'phi':
                    d.add(x['i'])
                    for o, p in x['ops']:
                        if o[0] == 'v':
                            phiuse.setdefault(p, set()).add(o[1])
                    continue
                for o in self._ops(x):
                    if o not in d:
                        u.add(o)
                d.add(x['i'])
            use[b], deff[b] = u, d
        live = {b: set() for b in fn.reach}
        ch = True
        while ch:
            ch = False
            for b in fn.reach:
                out = set(phiuse.get(b, ()))
                for s in fn.succ[b]:
                    if s in live:
                        out |= live[s]
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.livein = live
        self.arith = {}
        for b in fn.reach:
            for x in fn.insts(b):
                if x['op'] == 'phi':
                    for k, (o, p) in enumerate(x['ops']):
                        self.arith[(x['i'], k)] = self._arith_dep(x['i'], o)

    def _ops(self, x):
        r = []

        def add(o):
            if isinstance(o, list) and o and o[0] == 'v':
                r.append(o[1])
        for o in x.get('ops', []):
            add(o)
        for v in x.get('vars', []) or []:
            add(v[0])
        if x.get('cptr'):
            add(x['cptr'])
        return r

    def _arith_dep(self, phi, op):
        fn = self.fn
        seen = set()

        def go(o, ar):
            if not (isinstance(o, list) and o and o[0] == 'v'):
                return False
            i = o[1]
            if i == phi:
                return ar
            if (i, ar) in seen:
                return False
            seen.add((i, ar))
            x = fn.inst[i]
            if x['op'] == 'phi':
                return any(go(y, ar) for y, _ in x['ops'])
            if x['op'] in ('call', 'invoke', 'load', 'alloca', 'icmp'):
                return False
            if x['op'] == 'select':
                return any(go(y, ar) for y in x['ops'][1:])
            return any(go(y, True) for y in x['ops'] if isinstance(y, list)) or any(go(v[0], True) for v in x.get('vars', []) or [])
        return go(op, False)

    # ---------------------------------------------------------------- values
    def val(self, o, env):
        k = o[0]
        if k == 'c':
            return int(o[1])
        if k == 'a':
            return ('arg', self.alias.get(o[1], o[1]))
        if k == 'v':
            v = env.get(o[1])
            return v if v is not None else ('v', o[1])
        if k == 'g':
            return ('g', o[1]) if not o[2] else ('at', ('g', o[1]), o[2])
        if k == 'null':
            return 0
        if k == 'fn':
            return ('fn', o[1])
        if k == 'undef':
            return ('undef',)
        if k == 'f':
            return ('f', o[1])
        return ('?', str(o))

    def compute(self, x, env):
        fn, op, i = self.fn, x['op'], x['i']
        V = lambda o: self.val(o, env)
        if op == 'alloca':
            return ('new', i)
        if op == 'getelementptr':
            base = V(x['ops'][0])
            if 'off' not in x:
                return ('v', i)
            vs = x['vars']
            if len(vs) == 1 and vs[0][1] == 1 and x['off'] == 0 and vs[0][0][0] == 'v':
                y = fn.inst[vs[0][0][1]]
                if y['op'] == 'load' and y['ty'] == 'i64' and y['ops'][0][0] == 'v':
                    g = fn.inst[y['ops'][0][1]]
                    if g['op'] == 'getelementptr' and not g.get('vars') and g.get('off', 0) < 0:
                        return base          # virtual-base adjustment
            if not vs:
                return addoff(base, x['off'])
            vt = tuple(sorted(((strip_ext(V(v)), s) for v, s in vs), key=repr))
            if all(isinstance(v, int) for v, s in vt):
                return addoff(base, x['off'] + sum(v * s for v, s in vt))
            if isinstance(base, tuple) and base[0] == 'at':
                return ('ix', base[1], base[2] + x['off'], vt)
            if isinstance(base, tuple) and base[0] == 'ix':
                return ('ix', base[1], base[2] + x['off'], tuple(sorted(base[3] + vt, key=repr)))
            return ('ix', base, x['off'], vt)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return V(x['ops'][0])
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            v = V(x['ops'][0])
            if isinstance(v, int):
                return fold_cast(op, v, x, fn)
            if op == 'sext' and self.opwidth(x['ops'][0]) != 1:
                return v
            if self.wide and op in ('zext', 'trunc') and self.opwidth(x['ops'][0]) != 1 and x['ty'] != 'i1':
                w = self.opwidth(x['ops'][0]) if op == 'zext' else width(x['ty'])
                return ('w' + op, w, v) if w else (op, x['ty'], v)
            if op == 'zext' and self.opwidth(x['ops'][0]) == 1:
                return ('zext', x['ty'], v)
            if op == 'trunc' and x['ty'] == 'i1':
                return v if boolish(v) else ('trunc', 'i1', v)
            if op == 'trunc' and isinstance(v, tuple) and v[0] in ('p:bitSize', 'p:deg', 'p:getMexp', 'arg', 'p:weight'):
                return v          # sizes fit an int
            return (op, x['ty'], v)
        if op == 'icmp':
            return ('icmp', x['pred'], V(x['ops'][0]), V(x['ops'][1]))
        if op == 'select':
            c, a, b = (V(o) for o in x['ops'])
            if a == b:
                return a
            if isinstance(c, int):
                return a if c & 1 else b
            return ('select', c, a, b)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = V(x['ops'][0]), V(x['ops'][1])
            if isinstance(a, int) and isinstance(b, int):
                r = fold_bin(op, a, b, x['ty'])
                if r is not None:
                    return r
            if op in ('lshr', 'udiv', 'urem'):
                m = (1 << (width(x['ty']) or 64)) - 1
                a, b = (y & m if isinstance(y, int) else y for y in (a, b))
            if op in ('add', 'mul', 'and', 'or', 'xor'):
                a, b = sorted((a, b), key=lambda y: (not isinstance(y, int), repr(y)))
                if op == 'xor' and a == b:
                    return 0
                if op in ('add', 'xor', 'or') and b == 0:
                    return a
                if op in ('add', 'xor', 'or') and a == 0:
                    return b
                if op == 'add' and isinstance(a, int) and isinstance(b, tuple) and b[0] == 'add' and isinstance(b[1], int):
                    n = width(x['ty']) or 64
                    c = to_signed(a + b[1], n)
                    return b[2] if c == 0 else ('add', c, b[2]) + b[3:]
            if op == 'sub' and b == 0:
                return a
            if self.wide and x['ty'] not in ('i1', 'ptr') and width(x['ty']):
                return (op, a, b, width(x['ty']))
            return (op, a, b)
        if op == 'extractvalue':
            return ('ev', V(x['ops'][0]), tuple(x.get('idx', ())))
        return ('v', i)

    def opwidth(self, o):
        if o[0] == 'v':
            return width(self.fn.inst[o[1]].get('ty', ''))
        if o[0] == 'c':
            return int(o[2])
        if o[0] == 'a':
            return width(self.fn.j['args'][o[1]]['ty'])
        return None

    def load(self, mem, a, i):
        v = mem.get(a)
        if v is not None:
            return v
        if ('dirty', Fn.tbase(a)) in mem:
            return ('ld', a, i)
        g = Fn.tbase(a)
        if isinstance(a, tuple) and a[0] in ('g', 'at') and isinstance(g, tuple) and g[0] == 'g':
            c = self.global_const(g[1], a[2] if a[0] == 'at' else 0)
            if c is not None:
                return c
        if isinstance(a, tuple) and a[0] == 'ix':
            return ('ld', a, i)
        return ('ld', a)

    def global_const(self, name, off):
        g = self.prog.globals.get(name)
        if not g or not g.get('const') or 'init' not in g:
            return None
        init = g['init']
        if init[0] == 'c' and off == 0:
            return int(init[1])
        return None

    # ---------------------------------------------------------------- facts
    def known(self, f, p, a, b):
        a, b = strip_ext(a), strip_ext(b)
        if isinstance(a, int) and isinstance(b, int):
            return eval_icmp(p, a, b)
        if assume(f, [(p, a, b)]) is None:
            return False
        if assume(f, [(NEG[p], a, b)]) is None:
            return True
        return None

    def truth(self, f, t):
        if isinstance(t, int):
            return bool(t & 1)
        at = cond_atoms2(t, True)
        pos = None if at is None else assume(f, at)
        an = cond_atoms2(t, False)
        neg = None if an is None else assume(f, an)
        if pos is None and neg is not None:
            return False
        if neg is None and pos is not None:
            return True
        return None

    # ---------------------------------------------------------------- run
    def run(self):
        fn = self.fn
        work = [(fn.entry, None, self.us0, dict(self.mem0), {}, {}, None)]
        seen = {}
        n = 0
        while work:
            b, pb, us, mem, facts, env, par = work.pop()
            body = fn.insts(b)
            if pb is not None and (pb, b) in self.backedge:
                sp = self._split(b, pb, facts, env)
                if sp:
                    for f2, e2 in sp:
                        work.append((b, pb, us, mem, f2, e2, par))
                    continue
                us, mem, facts, env, phis = self._back(b, pb, us, mem, facts, env)
            else:
                phis = {}
                for x in body:
                    if x['op'] != 'phi':
                        break
                    op = next((o for o, p in x['ops'] if p == pb), None)
                    if op is not None:
                        phis[x['i']] = self.val(op, env)
                        if self.generic and b in self.loopblocks and (self.generic == 'all' and not self._flag(x, phis[x['i']]) or any(self.arith.get((x['i'], k)) for k in range(len(x['ops'])))):
                            phis[x['i']] = ('phi', x['i'])
            live = self.livein[b]
            env = {k: v for k, v in env.items() if k in live}
            env.update(phis)
            facts = self._gc(facts, env, mem, us)
            key = (us, frozenset(mem.items()), frozenset(facts.items()), frozenset(env.items()))
            S = seen.setdefault(b, set())
            if key in S:
                continue
            S.add(key)
            n += 1
            if len(S) > self.cap or n > self.total:
                import os
                if os.environ.get('MTV_DBG'):
                    self.seen = seen
                    for bb, ss in sorted(seen.items(), key=lambda z: -len(z[1]))[:15]:
                        print('block', bb, len(ss), fn.where(fn.insts(bb)[0]))
                    k1 = list(S)[-40:]
                    for k in k1[:6]:
                        print(' US', k[0]); print(' MEM', sorted(map(repr, k[1]))); print(' FACTS', sorted(map(repr, k[2]))); print(' ENV', sorted(map(repr, k[3])))
                raise TooComplex('%s: too many path states' % fn.q)
            self.parent[n] = (par, b)
            self._block(b, body, us, mem, facts, env, n, work)
        self.nstates = n
        return self

    def _flag(self, x, v):
        """a known truth value: stays path-sensitive"""
        return isinstance(v, int) and x.get('ty') in ('i1', 'i8')

    def _split(self, h, pb, facts, env):
        """a truth value carried around the loop: one state per value"""
        for x in self.fn.insts(h):
            if x['op'] != 'phi':
                break
            for o, p in x['ops']:
                if p == pb and o[0] == 'v' and self.opwidth(o) in (1, 8):
                    v = self.val(o, env)
                    if isinstance(v, int) or not isboolt(v):
                        continue
                    r = []
                    for t in (True, False):
                        at = cond_atoms2(v, t)
                        f2 = None if at is None else assume(facts, at)
                        if f2 is not None:
                            e2 = dict(env)
                            e2[o[1]] = int(t)
                            r.append((f2, e2))
                    return r
        return None

    def _gc(self, facts, env, mem, us):
        if not facts:
            return facts
        ids = set()
        for v in env.values():
            ids_of(v, ids)
        for k, v in mem.items():
            ids_of(v, ids)
            ids_of(k, ids)
        ids_of(us, ids) if isinstance(us, tuple) else None
        r = {}
        for k, v in facts.items():
            ki = ids_of(k)
            if ki <= ids or (self.keepfact and self.keepfact(k)):
                r[k] = v
        return r if len(r) != len(facts) else facts

    def _back(self, h, pb, us, mem, facts, env):
        fn = self.fn
        ctx = Ctx(self, us, mem, facts, env, fn.term_inst(pb), None)
        self.client.backedge(ctx, h)
        us, mem = ctx.us, ctx.mem
        L = self.loopids[h]
        wrote = set()
        for b in self.loopblocks[h]:
            wrote |= self.wrote.get(b, set())
        nm = {}
        for k, v in mem.items():
            if ids_of(k) & L and not (isinstance(k, tuple) and k[0] == 'dirty'):
                # location named by a value of the finished iteration
                continue
            if isinstance(v, int):
                if k in wrote and abs(v) > 1:
                    v = ('lh', k, ('id', -(h + 2)))
            elif isinstance(v, tuple) and (ids_of(v) & L or depth(v) > 9 or (k in wrote and (grows(v) or self.generic and v[0] in ('add', 'sub', 'mul', 'shl', 'lshr')))):
                v = ('lh', k, ('id', -(h + 2)))
            nm[k] = v
        us = self._stale(us, L)
        nf = {k: v for k, v in facts.items() if not (ids_of(k) & L)}
        phis = {}
        for x in fn.insts(h):
            if x['op'] != 'phi':
                break
            for k, (o, p) in enumerate(x['ops']):
                if p == pb:
                    v = self.val(o, env)
                    if self.generic == 'all' and not self._flag(x, v) or self.arith[(x['i'], k)] or ids_of(v) & L or depth(v) > 9 or self.generic and isinstance(v, tuple) and v[0] in ('add', 'sub', 'mul', 'shl', 'lshr'):
                        v = ('phi', x['i'])
                    phis[x['i']] = v
                    break
        env = {k: v for k, v in env.items() if k not in L or False}
        env = {k: (v if not (ids_of(v) & L) else ('v', k)) for k, v in env.items()}
        return us, nm, nf, env, phis

    def _stale(self, us, L):
        if is_term(us):
            return TOP if ids_of(us) & L else us
        if isinstance(us, tuple):
            return tuple(self._stale(u, L) for u in us)
        if isinstance(us, frozenset):
            return frozenset(self._stale(u, L) for u in us)
        return us

    def _block(self, b, body, us, mem, facts, env, node, work):
        fn, cl = self.fn, self.client
        self.curblock = b
        states = [(us, mem, facts, dict(env))]
        for pos, x in enumerate(body):
            op = x['op']
            if op == 'phi':
                continue
            if op in ('br', 'switch') and x is body[-1]:
                break
            ns = []
            for us, mem, facts, env in states:
                if op == 'ret':
                    c = Ctx(self, us, mem, facts, env, x, node)
                    self.nrets += 1
                    cl.ret(c, self.val(x['ops'][0], env) if x['ops'] else None)
                    continue
                if op in ('unreachable', 'resume'):
                    continue
                if op == 'store':
                    c = Ctx(self, us, mem, facts, env, x, node)
                    v, a = self.val(x['ops'][0], env), self.val(x['ops'][1], env)
                    cl.store(c, a, v)
                    if c.dead:
                        continue
                    self.do_store(c, a, v)
                    ns.append((c.us, c.mem, c.facts, env))
                    continue
                if op == 'load':
                    a = self.val(x['ops'][0], env)
                    v = self.load(mem, a, x['i'])
                    env[x['i']] = v
                    if self.cache and a not in mem and isinstance(a, tuple):
                        mem = dict(mem)
                        mem[a] = v
                    c = Ctx(self, us, mem, facts, env, x, node)
                    cl.load(c, a, v)
                    ns.append((c.us, c.mem, c.facts, env))
                    continue
                if op in ('call', 'invoke'):
                    r = self.do_call(us, mem, facts, env, x, node)
                    ns += r
                    continue
                if x.get('ty'):
                    env[x['i']] = self.compute(x, env)
                ns.append((us, mem, facts, env))
            states = ns
            if not states:
                return
        t = body[-1]
        for us, mem, facts, env in states:
            def go(dst, at):
                nf = facts
                if at:
                    nf = assume(facts, at)
                    if nf is None:
                        return
                c = Ctx(self, us, mem, nf, env, t, node)
                c.src, c.dst = b, dst
                cl.edge(c)
                if c.dead:
                    return
                work.append((dst, b, c.us, c.mem, c.facts, env, node))
            if t['op'] == 'br' and t['ops']:
                cnd = self.val(t['ops'][0], env)
                for truth, dst in ((True, t['to'][0]), (False, t['to'][1])):
                    at = cond_atoms2(cnd, truth)
                    if at is None:
                        continue
                    go(dst, at)
            elif t['op'] == 'switch':
                v = self.val(t['ops'][0], env)
                if isinstance(v, int):
                    dst = next((d for cv, d in t['cases'] if cv == v), t['default'])
                    go(dst, [])
                else:
                    for cv, dst in t['cases']:
                        at = cond_atoms2(('icmp', 'eq', v, cv), True)
                        if at is not None:
                            go(dst, at)
                    at = []
                    for cv, _ in t['cases']:
                        k = cond_atoms2(('icmp', 'ne', v, cv), True)
                        if k is None:
                            at = None
                            break
                        at += k
                    if at is not None:
                        go(t['default'], at)
            else:
                for s in fn.succ[b]:
                    go(s, [])

    def do_store(self, c, a, v):
        m = dict(c.mem)
        w = self.wrote.setdefault(self.curblock, set())
        if isinstance(a, tuple) and a[0] == 'ix':
            base = Fn.tbase(a)
            for k in list(m):
                if isinstance(k, tuple) and k[0] in ('at', 'ix', 'arg', 'new', 'ld', 'call', 'g') and Fn.tbase(k) == base and k != a:
                    if may_alias(a, k) and not (self.noalias and self.noalias(a, k)):
                        del m[k]
            m[('dirty', base)] = 1
            w.add(('dirty', base))
        else:
            base = Fn.tbase(a)
            for k in list(m):
                if isinstance(k, tuple) and k[0] == 'ix' and Fn.tbase(k) == base and may_alias(k, a) and not (self.noalias and self.noalias(a, k)):
                    del m[k]
        m[a] = v
        w.add(a)
        c.mem = m

    def havoc(self, c, base, tag='hv'):
        """everything stored in the object at base is unknown from here on"""
        m = dict(c.mem)
        w = self.wrote.setdefault(self.curblock, set())
        for k in list(m):
            if isinstance(k, tuple) and k and k[0] not in ('st', 'par', 'rev', 'dirty') and (k == base or Fn.tbase(k) == base):
                m[k] = (tag, k, ('id', c.x['i']))
                w.add(k)
        m[base] = (tag, base, ('id', c.x['i']))
        m[('dirty', base)] = 1
        w.add(base)
        c.mem = m

    def do_call(self, us, mem, facts, env, x, node):
        fn, cl, prog = self.fn, self.client, self.prog
        c = Ctx(self, us, mem, facts, env, x, node)
        c.q, c.m = prog.cqual(x), prog.cname(x)
        sr = set(x.get('sret', []))
        vals = [self.val(o, env) for o in x['ops']]
        c.args = tuple(v for k, v in enumerate(vals) if k not in sr)
        c.extra = tuple(v for k, v in enumerate(vals) if k in sr)
        if x.get('noret'):
            cl.throw(c)
            return []
        cl.call(c)
        if c.dead:
            return []
        c.val = None
        m = self.models.get((c.q, len(c.args))) or self.models.get(c.q)
        if m is None and c.q.startswith('MtvGen::'):
            m = self.models.get(('GEN', c.m))
        if m is not None:
            m(c)
        else:
            self.models['default'](c)
        if c.val is None:
            c.val = ('call', x['i'])
        cl.after(c)
        if c.dead:
            return []
        env[x['i']] = c.val
        return [(c.us, c.mem, c.facts, env)]

    # ---------------------------------------------------------------- paths
    def path_lines(self, node, limit=14):
        r = []
        while node is not None:
            node, b = self.parent[node]
            r.append(b)
        ls = []
        for b in r[::-1]:
            for x in self.fn.insts(b):
                l = x.get('loc')
                if l and l[1]:
                    s = '%s:%d' % (l[0].split('/')[-1], l[1])
                    if not ls or ls[-1] != s:
                        ls.append(s)
        if len(ls) > limit:
            ls = ls[:3] + ['...'] + ls[-(limit - 3):]
        return ' > '.join(ls)


def grows(v):
    return isinstance(v, tuple) and v[0] in ('add', 'sub', 'mul', 'xor', 'nx', 'xadd') and (depth(v) > 4 or v[0] == 'add' and isinstance(v[1], int))


def boolish(v):
    return isinstance(v, tuple) and (v[0] in ('icmp',) or v[0].startswith('p:'))


def may_alias(a, b):
    """two addresses with the same base, at least one with a variable index"""
    if a == b:
        return True
    if a[0] == 'ix' and b[0] == 'ix' and a[3] == b[3] and a[2] != b[2]:
        return False
    # fields of different alignment classes modulo every stride
    def parts(t):
        if t[0] == 'ix':
            return t[2], [s for _, s in t[3]]
        if t[0] == 'at':
            return t[2], []
        return 0, []
    (oa, sa), (ob, sb) = parts(a), parts(b)
    g = 0
    import math
    for s in sa + sb:
        g = math.gcd(g, s)
    if g > 1 and (oa - ob) % g:
        # distinct fields of array elements
        return False
    return True


def cond_atoms2(t, truth):
    """cond_atoms with selects between constants resolved"""
    t = norm_bool(t)
    return cond_atoms(t, truth)


def norm_bool(t):
    if isinstance(t, tuple):
        if t[0] == 'icmp':
            a, b = t[2], t[3]
            p = t[1]
            if isinstance(a, int) and isinstance(b, tuple):
                a, b = b, a
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if isinstance(b, int) and isinstance(a, tuple):
                if a[0] == 'select' and isinstance(a[2], int) and isinstance(a[3], int):
                    x, y = eval_icmp(p, a[2], b), eval_icmp(p, a[3], b)
                    if x == y:
                        return int(x)
                    c = norm_bool(a[1])
                    return c if x else ('xor', c, 1)
                if a[0] == 'select' and (isinstance(a[2], int) or isinstance(a[3], int)):
                    l = norm_bool(('icmp', p, a[2], b))
                    r = norm_bool(('icmp', p, a[3], b))
                    return ('select', norm_bool(a[1]), l, r) if not (isinstance(l, int) and isinstance(r, int)) else t
                if a[0] in ('zext', 'sext') and isinstance(a[2], tuple) and isboolt(a[2]) and p in ('eq', 'ne'):
                    one = 1 if a[0] == 'zext' else -1
                    if b == 0:
                        return norm_bool(a[2]) if p == 'ne' else ('xor', norm_bool(a[2]), 1)
                    if b == one:
                        return norm_bool(a[2]) if p == 'eq' else ('xor', norm_bool(a[2]), 1)
                    return 0 if p == 'eq' else 1
                if a[0] == 'and' and a[1] == 1 and p in ('eq', 'ne') and b in (0, 1) and isinstance(a[2], tuple) and boolish(a[2]):
                    return norm_bool(('icmp', p, a[2], b))
            return ('icmp', p, a, b)
        if t[0] in ('and', 'or'):
            l, r = norm_bool(t[1]), norm_bool(t[2])
            if isinstance(l, int) or isinstance(r, int):
                c, o = (l, r) if isinstance(l, int) else (r, l)
                c &= 1
                if t[0] == 'and':
                    return o if c else 0
                return 1 if c else o
            return (t[0], l, r)
        if t[0] == 'xor':
            l, r = norm_bool(t[1]), norm_bool(t[2])
            if isinstance(l, int) and isinstance(r, int):
                return (l ^ r) & 1
            return ('xor', l, r)
        if t[0] == 'select':
            c = norm_bool(t[1])
            if isinstance(c, int):
                return norm_bool(t[2] if c & 1 else t[3])
            return ('select', c, norm_bool(t[2]), norm_bool(t[3]))
        if t[0] == 'trunc' and t[1] == 'i1':
            return norm_bool(t[2]) if isboolt(t[2]) else t
        if t[0] == 'zext' and isboolt(t[2]):
            return norm_bool(t[2])
    return t


def isboolt(t):
    if not isinstance(t, tuple):
        return False
    if t[0] == 'icmp' or t[0].startswith('p:'):
        return True
    if t[0] in ('and', 'or', 'xor'):
        return all(isboolt(x) or x in (0, 1, -1) for x in t[1:])
    if t[0] == 'select':
        return all(isboolt(x) or x in (0, 1, -1) for x in t[2:])
    if t[0] == 'call':
        return True
    return False
