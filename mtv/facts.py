"""Program facts: canonical terms over the normalised IR and a path-sensitive
(ESP-style) typestate engine on top of them.

Terms are tuples (kind first):
  int                    constant (two's complement value as written in the IR)
  ('arg', k)             k-th argument
  ('ld', addr[, id])     value loaded from addr; without id when the location is
                         never written in the function
  ('at', base, off)      address base+off   (off 0 is dropped)
  ('ix', base, off, ((idx, scale), ...))
  ('new', id)            alloca / call result object
  ('call', id)           result of call instruction id
  ('phi', id)
  (op, a, b)             arithmetic
"""
import re


def term_ids(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if t and t[0] in ('call', 'phi', 'v', 'new', 'id') and len(t) == 2:
            acc.add(t[1])
        elif t and t[0] == 'ld' and len(t) == 3:
            acc.add(t[2])
        for x in t[1:]:
            if isinstance(x, tuple):
                term_ids(x, acc)
    return acc


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
RELS = {'eq': '=', 'ne': '<>', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '=>'}


def short(dem):
    """last name component of a demangled signature"""
    d = dem
    # strip argument list: find the '(' at template depth 0
    depth = 0
    cut = len(d)
    i = 0
    while i < len(d):
        c = d[i]
        if d.startswith('operator', i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == '_')):
            j = i + 8
            k = d.find('(', j)
            if d.startswith('()', j):
                k = j + 2
            if k < 0:
                k = len(d)
            if depth == 0:
                return d[i:k].strip()
            i = k
            continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0:
            if d.startswith('(anonymous namespace)', i):
                i += len('(anonymous namespace)')
                continue
            cut = i
            break
        i += 1
    d = d[:cut]
    # last :: at depth 0, last space at depth 0
    depth = 0
    start = 0
    for i, c in enumerate(d):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0 and (c == ':' or c == ' '):
            start = i + 1
    n = d[start:]
    n = n.split('[abi')[0]
    k = n.find('<')
    return n[:k] if k > 0 else n


def qual(dem):
    """qualified name without return type, arguments and template arguments"""
    d = dem
    out = []
    depth = 0
    i = 0
    while i < len(d):
        c = d[i]
        if d.startswith('operator', i) and depth == 0 and (i == 0 or d[i - 1] == ':'):
            k = d.find('(', i + 8)
            if d.startswith('()', i + 8):
                k = i + 10
            out.append(d[i:k])
            break
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(':
                break
            if c == ' ':
                out = []
            else:
                out.append(c)
        i += 1
    s = ''.join(out)
    return s.split('[abi')[0]


class Fn:
    def __init__(self, prog, j):
        self.prog, self.j = prog, j
        self.name, self.dem, self.src, self.line = j['name'], j['dem'], j['src'], j['line']
        self.q = qual(self.dem)
        self.blocks = {b['id']: b for b in j['blocks']}
        self.entry = j['blocks'][0]['id']
        self.inst, self.bof = {}, {}
        self.names = {}
        for b in j['blocks']:
            for x in b['insts']:
                if x['op'] == 'dbg':
                    o = x['ops'][0]
                    if o[0] == 'v':
                        self.names.setdefault(o[1], x['var'])
                    continue
                self.inst[x['i']] = x
                self.bof[x['i']] = b['id']
        self.argnames = {int(a) - 1: n for a, n in j.get('dinames', [])}
        self._written = None
        self._tc = {}
        self.succ = {b: self._succ(b) for b in self.blocks}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.reach = self._reach()

    def __repr__(self):
        return 'Fn(%s)' % self.q

    # ---- CFG without exceptional edges
    def term_inst(self, b):
        return self.blocks[b]['insts'][-1]

    def _succ(self, b):
        t = self.term_inst(b)
        if t['op'] == 'invoke':
            return [t['normal']]
        if t['op'] in ('unreachable', 'resume', 'ret'):
            return []
        return list(dict.fromkeys(self.blocks[b]['succs']))

    def _reach(self):
        seen, st = {self.entry}, [self.entry]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def insts(self, b=None):
        if b is not None:
            return [x for x in self.blocks[b]['insts'] if x['op'] != 'dbg']
        return [x for bb in self.j['blocks'] if bb['id'] in self.reach for x in bb['insts'] if x['op'] != 'dbg']

    def calls(self, name=None):
        r = []
        for x in self.insts():
            if x['op'] in ('call', 'invoke'):
                if name is None or self.prog.cname(x) == name:
                    r.append(x)
        return r

    def where(self, x):
        l = x.get('loc')
        if l:
            return '%s:%d' % (l[0], l[1])
        return '%s:%d' % (self.src, self.line)

    # ---- terms
    def written(self):
        """address terms stored to (or memset/memcpy'd) anywhere in the function"""
        if self._written is None:
            self._written = set()
            w = set()
            for x in self.insts():
                if x['op'] == 'store':
                    w.add(self.addr(x['ops'][1]))
                elif x['op'] in ('call', 'invoke') and (x.get('callee') or '').startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                    w.add(('any', self.base(x['ops'][0])))
            self._written = w
            self._tc = {}
        return self._written

    def val(self, op, env=None):
        k = op[0]
        if k == 'c':
            return int(op[1])
        if k == 'a':
            return ('arg', op[1])
        if k == 'v':
            return self.ival(op[1], env)
        if k == 'g':
            return ('g', op[1]) if not op[2] else ('at', ('g', op[1]), op[2])
        if k == 'null':
            return 0
        if k == 'fn':
            return ('fn', op[1])
        if k == 'undef':
            return ('undef',)
        if k == 'f':
            return ('f', op[1])
        return ('?', str(op))

    def ival(self, i, env=None):
        if env:
            if ('phi', i) in env:
                return env[('phi', i)]
            if ('call', i) in env:
                return env[('call', i)]
        key = i
        if not env and key in self._tc:
            return self._tc[key]
        t = self._ival(i, env)
        if not env:
            self._tc[key] = t
        return t

    def _ival(self, i, env):
        x = self.inst[i]
        op = x['op']
        if op == 'phi':
            return ('phi', i)
        if op == 'alloca':
            return ('new', i)
        if op in ('call', 'invoke'):
            return ('call', i)
        if op == 'getelementptr':
            base = self.val(x['ops'][0], env)
            if 'off' not in x:
                return ('v', i)
            # vbase adjustment: gep(obj, ld(gep(ld obj, -K)))
            vs = x['vars']
            if len(vs) == 1 and vs[0][1] == 1 and x['off'] == 0 and vs[0][0][0] == 'v':
                y = self.inst[vs[0][0][1]]
                if y['op'] == 'load' and y['ty'] == 'i64':
                    a = self.val(y['ops'][0], env)
                    if isinstance(a, tuple) and a[0] == 'at' and isinstance(a[2], int) and a[2] < 0 and isinstance(a[1], tuple) and a[1][0] == 'ld' and a[1][1] == base:
                        return base
            if not vs:
                return addoff(base, x['off'])
            vt = tuple(sorted(((self.val(v, env), s) for v, s in vs), key=repr))
            if all(isinstance(v, int) for v, s in vt):
                return addoff(base, x['off'] + sum(v * s for v, s in vt))
            return ('ix', base, x['off'], vt)
        if op == 'load':
            a = self.val(x['ops'][0], env)
            if self.is_vptr_load(x):
                return ('ld', a)
            if self.may_written(a):
                return ('ld', a, i)
            return ('ld', a)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return self.val(x['ops'][0], env)
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            v = self.val(x['ops'][0], env)
            if isinstance(v, int):
                return fold_cast(op, v, x, self)
            return (op, x['ty'], v)
        if op == 'icmp':
            a, b = self.val(x['ops'][0], env), self.val(x['ops'][1], env)
            return ('icmp', x['pred'], a, b)
        if op == 'select':
            return ('select',) + tuple(self.val(o, env) for o in x['ops'])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(x['ops'][0], env), self.val(x['ops'][1], env)
            if isinstance(a, int) and isinstance(b, int):
                r = fold_bin(op, a, b, x['ty'])
                if r is not None:
                    return r
            if op in ('add', 'mul', 'and', 'or', 'xor'):
                a, b = sorted((a, b), key=repr)
            return (op, a, b)
        if op == 'extractvalue':
            return ('ev', self.val(x['ops'][0], env), tuple(x.get('idx', ())))
        return ('v', i)

    def is_vptr_load(self, x):
        return x['ty'] == 'ptr' and self._vp(x['i'])

    def _vp(self, i):
        if not hasattr(self, '_vps'):
            s = set()
            for y in self.inst.values():
                if y['op'] == 'getelementptr' and y['ops'][0][0] == 'v' and 'off' in y and not y.get('vars') and y['off'] < 0:
                    s.add(y['ops'][0][1])
            # method pointer loads: cptr = load(gep?(load obj))
            for y in self.inst.values():
                if y['op'] in ('call', 'invoke') and y.get('cptr') and y['cptr'][0] == 'v':
                    z = self.inst[y['cptr'][1]]
                    if z['op'] == 'load' and z['ops'][0][0] == 'v':
                        w = self.inst[z['ops'][0][1]]
                        if w['op'] == 'getelementptr' and w['ops'][0][0] == 'v':
                            w = self.inst[w['ops'][0][1]]
                        if w['op'] == 'load':
                            s.add(w['i'])
            self._vps = s
        return i in self._vps

    def may_written(self, a):
        if self._written is None:
            self.written()
        w = self._written
        if a in w or ('any', self.tbase(a)) in w:
            return True
        b = self.tbase(a)
        if isinstance(b, tuple) and b[0] in ('new', 'call'):
            return True          # local or fresh objects: anybody may write
        if isinstance(a, tuple) and a[0] == 'ix':
            return True
        for y in w:
            if isinstance(y, tuple) and y[0] == 'ix' and self.tbase(y) == b:
                return True
        return False

    def addr(self, op, env=None):
        return self.val(op, env)

    @staticmethod
    def tbase(t):
        while isinstance(t, tuple) and t and t[0] in ('at', 'ix'):
            t = t[1]
        return t

    def base(self, op, env=None):
        return self.tbase(self.val(op, env))

    # ---- conditions
    def atoms(self, op, truth, env=None):
        """facts implied by op == truth (list of (pred,a,b)); None if it is a constant that contradicts"""
        t = self.val(op, env)
        return cond_atoms(t, truth)

    def loops(self):
        return self.j['loops']

    def loop_of(self, b):
        """innermost loop containing block b"""
        best = None
        for L in self.j['loops']:
            if b in L['blocks'] and (best is None or len(L['blocks']) < len(best['blocks'])):
                best = L
        return best

    def dominators(self):
        if hasattr(self, '_dom'):
            return self._dom
        order, seen = [], set()

        def dfs(b):
            stack = [(b, iter(self.succ[b]))]
            seen.add(b)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(self.entry)
        rpo = order[::-1]
        dom = {b: None for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in dom and dom[p] is not None]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self._dom = dom
        return dom

    def dominates(self, i, j):
        """instruction i dominates instruction j"""
        a, b = self.bof[i], self.bof[j]
        if a == b:
            ids = [x['i'] for x in self.insts(a)]
            return ids.index(i) <= ids.index(j)
        d = self.dominators().get(b)
        return d is not None and a in d


def addoff(base, off):
    if off == 0:
        return base
    if isinstance(base, tuple) and base[0] == 'at':
        return addoff(base[1], base[2] + off)
    if isinstance(base, tuple) and base[0] == 'ix':
        return ('ix', base[1], base[2] + off, base[3])
    return ('at', base, off)


def width(ty):
    m = re.match(r'i(\d+)$', ty)
    return int(m.group(1)) if m else None


def to_signed(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def fold_cast(op, v, x, fn):
    n = width(x['ty'])
    if n is None:
        return (op, x['ty'], v)
    if op == 'zext':
        src = x['ops'][0]
        m = int(src[2]) if src[0] == 'c' else None
        if m is None:
            y = fn.inst.get(src[1]) if src[0] == 'v' else None
            m = width(y['ty']) if y else None
        if m:
            return to_signed(v & ((1 << m) - 1), n) if n > m else v
        return (op, x['ty'], v)
    return to_signed(v, n)


def fold_bin(op, a, b, ty):
    n = width(ty)
    if n is None:
        return None
    M = (1 << n) - 1
    ua, ub = a & M, b & M
    sa, sb = to_signed(a, n), to_signed(b, n)
    if op == 'add':
        r = ua + ub
    elif op == 'sub':
        r = ua - ub
    elif op == 'mul':
        r = ua * ub
    elif op == 'and':
        r = ua & ub
    elif op == 'or':
        r = ua | ub
    elif op == 'xor':
        r = ua ^ ub
    elif op == 'shl':
        if ub >= n:
            return None
        r = ua << ub
    elif op == 'lshr':
        if ub >= n:
            return None
        r = ua >> ub
    elif op == 'ashr':
        if ub >= n:
            return None
        r = sa >> ub
    elif op == 'udiv':
        if not ub:
            return None
        r = ua // ub
    elif op == 'urem':
        if not ub:
            return None
        r = ua % ub
    elif op == 'sdiv':
        if not sb:
            return None
        r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
    elif op == 'srem':
        if not sb:
            return None
        r = abs(sa) % abs(sb) * (1 if sa >= 0 else -1)
    else:
        return None
    return to_signed(r, n)


def cond_atoms(t, truth):
    """list of atoms (pred, a, b) implied by boolean term t being truth; [] when nothing usable; None when impossible"""
    if isinstance(t, int):
        return [] if bool(t & 1) == truth else None
    if not isinstance(t, tuple):
        return []
    if t[0] == 'icmp':
        p = t[1] if truth else NEG[t[1]]
        a, b = t[2], t[3]
        if isinstance(a, int) and isinstance(b, int):
            r = eval_icmp(t[1], a, b)
            return [] if r == truth else None
        # (zext/bool) compare with 0
        if isinstance(b, int) and p in ('eq', 'ne'):
            inner = strip_bool(a)
            if inner is not None and b in (0, 1, -1):
                v = (b != 0) == (p == 'eq')
                return cond_atoms(inner, v)
        return [(p, a, b)]
    if t[0] == 'xor' and (t[1] in (1, -1) or t[2] in (1, -1)):
        o = t[2] if t[1] in (1, -1) else t[1]
        return cond_atoms(o, not truth)
    if t[0] in ('and', 'or') or (t[0] == 'select' and (t[2] in (0, 1, -1) or t[3] in (0, 1, -1))):
        if t[0] == 'select':
            c, a, b = t[1:]
            if b == 0:      # c && a
                kind, l, r = 'and', c, a
            elif a in (1, -1):   # c || b
                kind, l, r = 'or', c, b
            elif a == 0:    # !c && b
                kind, l, r = 'and', ('xor', c, 1), b
            else:           # !c || a
                kind, l, r = 'or', ('xor', c, 1), a
        else:
            kind, l, r = t
        la, ra = cond_atoms(l, truth), cond_atoms(r, truth)
        if (kind == 'and') == truth:
            if la is None or ra is None:
                return None
            return la + ra
        # disjunction: only usable when one side is impossible
        if la is None and ra is None:
            return None
        if la is None:
            return ra
        if ra is None:
            return la
        return [('disj', tuple(la), tuple(ra))]
    if t[0] in ('zext', 'sext', 'trunc') and t[1] == 'i1':
        return [('ne' if truth else 'eq', ('lowbit', t[2]), 0)]
    return [('ne' if truth else 'eq', t, 0)]


def strip_bool(t):
    if isinstance(t, tuple):
        if t[0] in ('zext', 'sext') and isinstance(t[2], tuple) and is_bool(t[2]):
            return t[2]
        if is_bool(t):
            return t
    return None


def is_bool(t):
    if not isinstance(t, tuple):
        return False
    if t[0] == 'icmp':
        return True
    if t[0] in ('and', 'or', 'xor'):
        return all(is_bool(x) or x in (0, 1, -1) for x in t[1:])
    if t[0] == 'select':
        return all(is_bool(x) or x in (0, 1, -1) for x in t[2:])
    return False


def eval_icmp(p, a, b):
    M = (1 << 64) - 1
    if p in ('eq', 'ne'):
        return (a == b) == (p == 'eq')
    if p[0] == 'u':
        a, b = a & M, b & M
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]


class Prog:
    def __init__(self, ir, ast):
        self.ir, self.ast = ir, ast
        self.records = ir['records']
        self.globals = ir['globals']
        self.callmap = {}
        for c in ast['calls']:
            self.callmap[tuple(c['loc'])] = c
        self.fns = {}
        for j in ir['functions']:
            f = Fn(self, j)
            self.fns[f.name] = f
        self._cn = {}

    def find(self, q=None, rx=None, pred=None):
        r = []
        for f in self.fns.values():
            if q is not None and f.q != q:
                continue
            if rx is not None and not re.search(rx, f.dem):
                continue
            if pred and not pred(f):
                continue
            r.append(f)
        return r

    def cname(self, x):
        """unqualified name of the called function or virtual method"""
        c = x.get('callee')
        if c is not None:
            n = self._cn.get(c)
            if n is None:
                n = self._cn[c] = short(x['cdem'])
            return n
        l = x.get('loc')
        if l:
            m = self.callmap.get(tuple(l))
            if m:
                return m['m']
        return '?'

    def cqual(self, x):
        c = x.get('callee')
        if c is not None:
            return qual(x['cdem'])
        l = x.get('loc')
        if l:
            m = self.callmap.get(tuple(l))
            if m:
                return m['cls'] + '::' + m['m']
        return '?'

    def cargs(self, x):
        """call operands without the hidden sret pointer"""
        sr = set(x.get('sret', []))
        return [o for k, o in enumerate(x['ops']) if k not in sr]


class TooComplex(Exception):
    pass


class Step:
    """auto state plus the symbolic value of the call just executed"""
    __slots__ = ('auto', 'val')

    def __init__(self, auto, val=None):
        self.auto, self.val = auto, val


class Path:
    """Abstract path state of the ESP engine."""
    __slots__ = ('auto', 'facts', 'bind')

    def __init__(self, auto, facts, bind):
        self.auto, self.facts, self.bind = auto, facts, bind

    def key(self):
        return (self.auto, frozenset(self.facts.items()), frozenset(self.bind.items()))


def norm_rel(p, a, b):
    """canonical (key, allowed set)"""
    if p in ('eq', 'ne'):
        s, r = 's', RELS[p]
    else:
        s, r = p[0], RELS[p[1:]]
    if repr(a) > repr(b):
        a, b = b, a
        r = r.translate(str.maketrans('<>', '><'))
    return (s, a, b), frozenset(r)


class ESP:
    """Path-sensitive typestate analysis.

    step(auto, fn, inst, path) -> auto | list of auto | None (path ends)
    exit(auto, fn, inst, path) at return instructions
    """
    def __init__(self, fn, init, step, on_exit=None, on_edge=None, interest=None, cap=3000, total=120000, track_all=False, unwind=False):
        self.fn, self.step, self.on_exit, self.on_edge = fn, step, on_exit, on_edge
        self.interest = interest
        self.cap, self.total = cap, total
        self.init = init
        self.trace = {}
        self.visits = 0
        self._prep(track_all)

    def _prep(self, track_all):
        fn = self.fn
        cnt = {}
        self.usedphi = set()
        for b in fn.reach:
            t = fn.term_inst(b)
            if t['op'] == 'br' and t['ops']:
                for tr in (True,):
                    self._collect(fn.val(t['ops'][0]), cnt)
            elif t['op'] == 'switch':
                k = fn.val(t['ops'][0])
                cnt[('sw', k)] = cnt.get(('sw', k), 0) + 1
        self.keep = None if track_all else {k for k, v in cnt.items() if v > 1}
        # phis that matter: used (transitively) in conditions, or returns
        need, work = set(), []
        for b in fn.reach:
            t = fn.term_inst(b)
            if t['op'] in ('br', 'switch', 'ret'):
                work += [o for o in t['ops']]
        seen = set()
        while work:
            o = work.pop()
            if not (isinstance(o, list) and o and o[0] == 'v'):
                continue
            if o[1] in seen:
                continue
            seen.add(o[1])
            x = fn.inst[o[1]]
            if x['op'] == 'phi':
                need.add(o[1])
                work += [y[0] for y in x['ops']]
            elif x['op'] in ('call', 'invoke', 'load', 'alloca'):
                continue
            else:
                work += x['ops']
        self.need = need

    def _collect(self, t, cnt):
        for tr in (True, False):
            at = cond_atoms(t, tr)
            for a in at or []:
                if a[0] == 'disj':
                    for c in a[1] + a[2]:
                        if c[0] != 'disj':
                            k = norm_rel(*c)[0]
                            cnt[k] = cnt.get(k, 0) + (1 if tr else 0)
                elif tr:
                    k = norm_rel(*a)[0]
                    cnt[k] = cnt.get(k, 0) + 1

    def wants(self, key):
        if self.keep is None or key in self.keep:
            return True
        if self.interest and self.interest(key):
            return True
        # keys that involve a phi are instantiated differently per path
        return any(isinstance(x, tuple) and x and x[0] == 'phi' for x in key[1:])

    def assume(self, path, atoms):
        """new facts dict or None if infeasible"""
        f = path.facts
        changed = False
        disj = []
        for a in atoms:
            if a[0] == 'disj':
                disj.append(a)
                continue
            p, x, y = a
            if isinstance(x, int) and isinstance(y, int):
                if not eval_icmp(p, x, y):
                    return None
                continue
            if x == y:
                if p in ('ne', 'slt', 'sgt', 'ult', 'ugt'):
                    return None
                continue
            key, allowed = norm_rel(p, x, y)
            old = f.get(key)
            new = allowed if old is None else (old & allowed)
            # constant intervals: other facts about the same term against constants
            if not new:
                return None
            if not self._const_ok(f, key, new):
                return None
            if new != old and self.wants(key):
                if not changed:
                    f = dict(f)
                    changed = True
                f[key] = new
        for d in disj:
            opts = []
            for side in d[1:]:
                r = self.assume(Path(path.auto, f, path.bind), list(side))
                if r is not None:
                    opts.append(side)
            if not opts:
                return None
            if len(opts) == 1:
                r = self.assume(Path(path.auto, f, path.bind), list(opts[0]))
                if r is None:
                    return None
                f = r
        return f

    def _const_ok(self, f, key, new):
        """consistency of x <rel> const facts"""
        s, a, b = key
        if isinstance(a, int) == isinstance(b, int):
            return True
        x = b if isinstance(a, int) else a
        lo, hi, ne = -(1 << 70), 1 << 70, set()

        def add(k, rel):
            nonlocal lo, hi
            ss, p, q = k
            if isinstance(p, int):
                c = p
                rel = frozenset(r.translate(str.maketrans('<>', '><')) for r in rel)
            else:
                c = q
            if rel == {'='}:
                lo, hi = max(lo, c), min(hi, c)
            elif rel == {'<'}:
                hi = min(hi, c - 1)
            elif rel == {'<', '='}:
                hi = min(hi, c)
            elif rel == {'>'}:
                lo = max(lo, c + 1)
            elif rel == {'>', '='}:
                lo = max(lo, c)
            elif rel == {'<', '>'}:
                ne.add(c)
        if s != 's':
            return True
        add(key, new)
        for k, rel in f.items():
            if k[0] == 's' and k != key and len(k) == 3:
                if (k[1] == x and isinstance(k[2], int)) or (k[2] == x and isinstance(k[1], int)):
                    add(k, rel)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        return lo <= hi

    def known(self, path, p, a, b):
        """True/False/None for a p b under the path facts"""
        if isinstance(a, int) and isinstance(b, int):
            return eval_icmp(p, a, b)
        if self.assume(path, [(p, a, b)]) is None:
            return False
        if self.assume(path, [(NEG[p], a, b)]) is None:
            return True
        return None

    def run(self):
        fn = self.fn
        start = Path(self.init, {}, {})
        work = [(fn.entry, None, start, None)]
        seen = {}
        self.exits = []
        n = 0
        self.parent = {}
        while work:
            b, pb, path, par = work.pop()
            # phis
            bind = path.bind
            facts = path.facts
            newb = {}
            killed = set()
            body = fn.insts(b)
            for x in body:
                if x['op'] != 'phi':
                    break
                if x['i'] not in self.need:
                    killed.add(x['i'])
                    continue
                op = next((o for o, p in x['ops'] if p == pb), None)
                killed.add(x['i'])
                if op is None:
                    continue
                v = fn.val(op, bind)
                if op[0] in ('c', 'null', 'a', 'g'):
                    newb[('phi', x['i'])] = v
                elif op[0] == 'v':
                    y = fn.inst[op[1]]
                    if y['op'] == 'phi':
                        if ('phi', op[1]) in bind:
                            newb[('phi', x['i'])] = bind[('phi', op[1])]
                        elif op[1] != x['i']:
                            newb[('phi', x['i'])] = ('phi', op[1])
                    elif not has_phi(fn, op):
                        newb[('phi', x['i'])] = v
            for x in body:
                if x['op'] in ('call', 'invoke', 'load'):
                    killed.add(x['i'])
            if killed:
                kb = {}
                for k, v in bind.items():
                    if k[1] in killed:
                        continue
                    if isinstance(v, tuple) and term_ids(v) & killed:
                        continue
                    kb[k] = v
                bind = kb
                nf = {}
                for k, v in facts.items():
                    if any(isinstance(z, tuple) and term_ids(z) & killed for z in k[1:]):
                        continue
                    nf[k] = v
                facts = nf
            if newb:
                bind = dict(bind)
                for k, v in newb.items():
                    if isinstance(v, tuple) and term_ids(v) & {i for i in killed if fn.inst[i]['op'] != 'phi' or True} and not (v[0] == 'phi'):
                        # value produced by this very block in the previous round
                        if term_ids(v) & killed:
                            continue
                    bind[k] = v
            path = Path(path.auto, facts, bind)
            key = path.key()
            S = seen.setdefault(b, set())
            if key in S:
                continue
            S.add(key)
            n += 1
            if len(S) > self.cap or n > self.total:
                raise TooComplex('%s: too many path states' % fn.q)
            node = n
            self.parent[node] = (par, b)
            autos = [(path.auto, bind)]
            ended = False
            for x in body:
                if x['op'] == 'phi':
                    continue
                if x['op'] == 'ret':
                    for a, bd in autos:
                        if self.on_exit:
                            self.on_exit(a, fn, x, Path(a, facts, bd), node)
                    ended = True
                    break
                if x['op'] in ('unreachable', 'resume'):
                    ended = True
                    break
                na = []
                for a, bd in autos:
                    r = self.step(a, fn, x, Path(a, facts, bd), node)
                    if r is None:
                        continue
                    for q in (r if isinstance(r, list) else [r]):
                        if isinstance(q, Step):
                            if q.val is not None:
                                b2 = dict(bd)
                                b2[('call', x['i'])] = q.val
                                na.append((q.auto, b2))
                            else:
                                na.append((q.auto, bd))
                        else:
                            na.append((q, bd))
                autos = na
                if not autos:
                    ended = True
                    break
                if x['op'] in ('call', 'invoke') and x.get('noret'):
                    ended = True
                    break
            if ended:
                continue
            t = body[-1]
            for a, bind in autos:
                p = Path(a, facts, bind)
                if t['op'] == 'br' and t['ops']:
                    c = fn.val(t['ops'][0], bind)
                    for truth, dst in ((True, t['to'][0]), (False, t['to'][1])):
                        at = cond_atoms(c, truth)
                        if at is None:
                            continue
                        nf = self.assume(p, at)
                        if nf is None:
                            continue
                        np = Path(a, nf, bind)
                        if self.on_edge:
                            na = self.on_edge(a, fn, t, at, np, node)
                            if na is None:
                                continue
                            np = Path(na, nf, bind)
                        work.append((dst, b, np, node))
                elif t['op'] == 'switch':
                    v = fn.val(t['ops'][0], bind)
                    done = set()
                    taken = False
                    for cv, dst in t['cases']:
                        if isinstance(v, int):
                            if v == cv:
                                work.append((dst, b, p, node))
                                taken = True
                            continue
                        at = [('eq', v, cv)]
                        nf = self.assume(p, at)
                        if nf is None:
                            continue
                        np = Path(a, nf, bind)
                        if self.on_edge:
                            na = self.on_edge(a, fn, t, at, np, node)
                            if na is None:
                                continue
                            np = Path(na, nf, bind)
                        work.append((dst, b, np, node))
                    if not taken:
                        at = [('ne', v, cv) for cv, _ in t['cases']] if not isinstance(v, int) else []
                        nf = self.assume(p, at)
                        if nf is not None:
                            np = Path(a, nf, bind)
                            if self.on_edge:
                                na = self.on_edge(a, fn, t, at, np, node)
                                if na is None:
                                    continue
                                np = Path(na, nf, bind)
                            work.append((t['default'], b, np, node))
                else:
                    for s in fn.succ[b]:
                        work.append((s, b, p, node))
        self.visits = n
        return self

    def path_to(self, node):
        r = []
        while node is not None:
            node, b = self.parent[node]
            r.append(b)
        return r[::-1]

    def path_lines(self, node, limit=14):
        ls = []
        for b in self.path_to(node):
            for x in self.fn.insts(b):
                l = x.get('loc')
                if l and l[1]:
                    s = '%s:%d' % (l[0].split('/')[-1], l[1])
                    if not ls or ls[-1] != s:
                        ls.append(s)
        if len(ls) > limit:
            ls = ls[:3] + ['...'] + ls[-(limit - 3):]
        return ' > '.join(ls)


def has_phi(fn, op, seen=None):
    if seen is None:
        seen = set()
    if not (isinstance(op, list) and op and op[0] == 'v'):
        return False
    if op[1] in seen:
        return False
    seen.add(op[1])
    x = fn.inst[op[1]]
    if x['op'] == 'phi':
        return True
    if x['op'] in ('call', 'invoke', 'alloca', 'load'):
        return False
    return any(has_phi(fn, o, seen) for o in x['ops'] if isinstance(o, list))
