"""Symbolic executor over the parsed IR: path exploration by decision-trail re-execution."""
import time, math, ctypes, sys, re, os
import z3
from . import conc, ir, codegen, terms, solve
from .terms import *

BIAS = 0x40000000
LM = ctypes.CDLL('libm.so.6')


def libm(name, s, n):
    f = getattr(LM, name + ('f' if s == 'f' else ''))
    ct = ctypes.c_float if s == 'f' else ctypes.c_double
    f.restype = ct
    f.argtypes = [ct] * n
    return f


class Stop(Exception):
    pass


class PathEnd(Exception):
    """path abandoned: assumption false"""


class Fault(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class NoMerge(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('id', 'size', 'cells', 'fills', 'alive', 'kind', 'name')

    def __init__(self, id, size, kind, name):
        self.id = id
        self.size = size
        self.cells = {}
        self.fills = []
        self.alive = True
        self.kind = kind
        self.name = name


class Program:
    """IR module + compiled code, shared by all paths"""

    def __init__(self, text):
        self.m = ir.parse(text)
        self.gids = {}
        self.gnames = {}
        self.cg = codegen.CG(self.m, self.gaddr)
        self.ginit = {}
        self.demangled = {}

    def gaddr(self, name):
        name = name.strip('"')
        i = self.gids.get(name)
        if i is None:
            i = self.gids[name] = len(self.gids) + 1
            self.gnames[i] = name
        return (i << 32) + BIAS

    def func(self, name):
        f = self.m.funcs.get(name)
        if f is None:
            f = self.m.funcs.get('"%s"' % name)
        if f is not None and f.code is None:
            self.cg.gen(f)
        return f

    def global_image(self, name):
        """-> (size, cells dict, zero)"""
        r = self.ginit.get(name)
        if r is not None:
            return r
        g = self.m.globals.get(name) or self.m.globals.get('"%s"' % name)
        if g is None or g[0] == 'alias':
            r = (64, {}, True)
        else:
            ty, p = g
            size = self.m.size(ty)
            cells = {}
            if p is not None:
                i0 = p.i
                v = self.cg.const(p, ty)
                p.i = i0
                self.flat(ty, v, 0, cells)
            else:
                size = max(size, 4096)
            r = (size, cells, True)
        self.ginit[name] = r
        return r

    def flat(self, ty, v, off, cells):
        m = self.m
        t = m.resolve(ty)
        if v is codegen.Undef or (type(v) is tuple and v and v[0] == 'ZERO'):
            return
        if t.k == 'int':
            if v:
                cells[off] = (m.size(t), v, 'i')
        elif t.k in ('f', 'd'):
            cells[off] = (m.size(t), v, t.k)
        elif t.k == 'arr':
            es = m.size(t.el)
            if all(type(x) is int and x == 0 for x in v):
                return
            for i, x in enumerate(v):
                self.flat(t.el, x, off + i * es, cells)
        elif t.k == 'struct':
            for o, e, x in zip(m.layout(t)[0], t.els, v):
                self.flat(e, x, off + o, cells)


class Stats:
    def __init__(self):
        self.queries = 0
        self.qtime = 0.0
        self.paths = 0
        self.steps = 0
        self.asserts = 0
        self.asserts_trivial = 0
        self.asserts_abs = 0
        self.asserts_exact = 0
        self.undecided = 0
        self.forks = 0
        self.infeasible = 0
        self.assume_cut = 0
        self.funcs = {}
        self.reached = {}
        self.samples = []
        self.unk_branch = 0
        self.pruned = 0
        self.reused = 0


class Engine:
    """explores all paths of one entry function"""

    def __init__(self, prog, entry, args=(), mode='A', stubs=None, limits=None, on_violation=None, natives=None, opts=None):
        self.prog = prog
        self.entry = entry
        self.args = args
        self.mode = mode
        self.stubs = stubs or {}
        self.limits = dict(paths=100000, steps=20000000, time=600, qms=20000, ems=8000, conc=64, iteread=64)
        self.limits.update(limits or {})
        self.opts = opts or {}
        self.nsw = self.opts.get('ub', False)
        self.st = Stats()
        self.work = [[]]
        self.viol = []
        self.cands = []
        self.trA = solve.Abstract() if mode == 'A' else (solve.Real() if mode == 'R' else solve.Exact())
        self.trE = solve.Exact()
        self.trL = solve.Lite()
        self.trF = solve.Fresh()
        self.lite_memo = {}
        self.cores = {}
        self.t0 = time.time()
        self.natives = dict(NATIVES)
        self.natives.update(natives or {})
        self.resolved = {}
        self.complete = True
        self.merging = self.opts.get('merge', False)
        self.nofork = False
        self.purity = {}
        self.devs = self.opts.get('devs')
        if self.devs is not None:
            nom = self.opts.get('nominal') or (lambda n, s: 0.0 if s in ('f', 'd') else 0)
            self.nominal = conc.Conc(nom, self.opts.get('ufs'))
        self.notes = []
        self.globals_cache = {}

    # ------------------------------------------------------------- exploration
    def run(self):
        self.t0 = time.time()
        while self.work:
            if self.st.paths >= self.limits['paths'] or time.time() - self.t0 > self.limits['time']:
                self.complete = False
                self.notes.append('budget exhausted with %d pending prefixes' % len(self.work))
                break
            trail = self.work.pop()
            self.run_path(trail)
            if self.st.paths == 1 and self.opts.get('part'):
                k, n = self.opts['part']
                self.work = self.work[k::n]
            if self.viol and not self.opts.get('all'):
                break
        return self

    def run_path(self, trail):
        st = self.st
        st.paths += 1
        self.trail = trail
        self.pos = 0
        self.ndev = 0
        self.pc = []
        self.pcset = set()
        self.known = {}
        self.objs = {}
        self.nid = 1 << 20
        self.inputs = []
        self.icount = {}
        self.steps = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.limits['qms'])
        self.lempos = 0
        self.lemseen = set()
        self.user = {}
        self.frame = []
        terms._fresh.clear()
        self.depth = 0
        try:
            self.call(self.entry, tuple(self.args))
            st.reached['<end>'] = st.reached.get('<end>', 0) + 1
            if len(st.samples) < 3:
                st.samples.append(self.path_sample())
        except PathEnd:
            st.assume_cut += 1
        except Fault as e:
            self.fault(e)
        except Budget as e:
            self.complete = False
            self.notes.append(str(e))
        st.steps += self.steps

    def path_sample(self):
        return {'decisions': len(self.trail), 'inputs': [n for n, _, _ in self.inputs][:12], 'pc': [show(c, 4)[:160] for c in self.pc[-3:]]}

    def fault(self, e):
        """a fault was reached on this path; confirm that the path condition is satisfiable"""
        r, model = self.exact_check([], full=True)
        if r == 'unsat':
            self.st.infeasible += 1
            return
        self.add_violation('%s: %s' % (e.kind, e.msg), r, model)

    def add_violation(self, msg, status, model):
        v = {'msg': msg, 'status': status, 'inputs': self.model_inputs(model), 'trail': list(self.trail), 'stack': [f for f in self.frame]}
        key = msg.split(' @')[0]
        self.viol.append(v)

    def model_inputs(self, model):
        out = []
        for name, s, t in self.inputs:
            if type(t) is not T:
                out.append((name, s, t if type(t) is int else fpack(t, s)))
                continue
            v = None
            if model is not None:
                v = model(t)
            if v is None:
                v = 0
            out.append((name, s, v))
        return out

    # ------------------------------------------------------------- solver
    def sync(self, *terms_):
        """adds the lemmas of the terms (global facts) to this path's solver"""
        G = self.trA.lem.glob
        if self.lempos < len(G):
            self.solver.add(*G[self.lempos:])
            self.lempos = len(G)
        l = self.trA.lemmas(terms_, self.lemseen)
        if l:
            self.solver.add(*l)

    def check(self, *conds):
        g = conds[0] if len(conds) == 1 and type(conds[0]) is T else None
        if g is not None:
            l = self.cores.get(g.id)
            if l:
                ps = self.pcset
                for k in l:
                    if k <= ps:
                        self.st.reused += 1
                        return 'unsat'
        cs = [self.trA.tr(c) if type(c) is T else z3.BoolVal(bool(c)) for c in conds]
        self.sync(*conds)
        t = time.time()
        self.st.queries += 1
        r = self.solver.check(*cs)
        self.st.qtime += time.time() - t
        if r == z3.unsat and g is not None:
            k = frozenset(int(n[2:]) for n in [x.decl().name() for x in self.solver.unsat_core()] if n.startswith('p!'))
            self.cores.setdefault(g.id, []).append(k)
        if r == z3.unknown:
            self.st.unk_branch += 1
        return 'sat' if r == z3.sat else ('unsat' if r == z3.unsat else 'unknown')

    def add_pc(self, c):
        if type(c) is int:
            if not c:
                raise PathEnd()
            return
        if c.id in self.pcset:
            return
        self.pcset.add(c.id)
        self.pc.append(c)
        self.learn(c, 1)
        e = self.trA.tr(c)
        self.sync(c)
        self.solver.assert_and_track(e, 'p!%d' % c.id)

    def learn(self, c, v):
        if c.op == 'not':
            return self.learn(c.args[0], v ^ 1)
        self.known[c.id] = v
        if c.op == 'and' and v:
            self.learn(c.args[0], 1)
            self.learn(c.args[1], 1)
        if v:
            if c.op == 'flt':
                a, b, s = c.args
                for x in (flt(b, a, s), fle(b, a, s), feq(a, b, s)):
                    if type(x) is T:
                        self.known[self.strip(x).id] = self.sgn(x, 0)
                for x in (fle(a, b, s),):
                    if type(x) is T:
                        self.known[self.strip(x).id] = self.sgn(x, 1)
                for x in (a, b):
                    self.notnan(x, s)
            elif c.op == 'slt':
                if type(c.args[0]) is int and sx(c.args[0], c.args[2]) >= 0:
                    x = eq(c.args[1], 0, c.args[2])
                    if type(x) is T:
                        self.known[self.strip(x).id] = self.sgn(x, 0)
            elif c.op in ('fle', 'feq'):
                a, b, s = c.args
                x = flt(b, a, s)
                if type(x) is T:
                    self.known[self.strip(x).id] = self.sgn(x, 0)
                for x in (a, b):
                    self.notnan(x, s)

    def strip(self, x):
        return x.args[0] if x.op == 'not' else x

    def sgn(self, x, v):
        return v ^ 1 if x.op == 'not' else v

    def notnan(self, x, s):
        n = fisnan(x, s)
        if type(n) is T:
            self.known[n.id] = 0

    def eval_known(self, c, depth=3):
        if type(c) is int:
            return c
        v = self.known.get(c.id)
        if v is not None:
            return v
        if c.op == 'not':
            v = self.eval_known(c.args[0], depth)
            return None if v is None else v ^ 1
        if c.op == 'and' and depth:
            a = self.eval_known(c.args[0], depth - 1)
            if a == 0:
                return 0
            b = self.eval_known(c.args[1], depth - 1)
            if b == 0:
                return 0
            if a == 1 and b == 1:
                return 1
        if c.op == 'xorb' and depth:
            a = self.eval_known(c.args[0], depth - 1)
            b = self.eval_known(c.args[1], depth - 1)
            if a is not None and b is not None:
                return a ^ b
        return None

    def branch(self, c):
        if type(c) is int:
            return c
        v = self.eval_known(c)
        if v is not None:
            return v
        if self.nofork:
            raise NoMerge()
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
            if v > 1:
                self.ndev += 1
                v &= 1
            self.add_pc(c if v else bnot(c))
            return v
        if time.time() - self.t0 > self.limits['time']:
            self.trailwork()
            raise Budget('time budget exhausted inside a path')
        if self.devs is not None and self.ndev >= self.devs:
            v = 1 if self.nominal(c) else 0
            x = c if v else bnot(c)
            if self.check(x) == 'unsat' or self.mode == 'A' and self.has_conv(c) and self.lite(x):
                v ^= 1
            else:
                self.st.pruned += 1
            self.trail.append(v)
            self.pos += 1
            self.add_pc(c if v else bnot(c))
            return v
        r1 = self.check(c)
        li = r1 != 'unsat' and self.mode == 'A' and self.has_conv(c)
        if r1 == 'unsat' or (li and self.lite(c)):
            v = 0
        else:
            r0 = self.check(bnot(c))
            if r0 == 'unsat' or (li and self.lite(bnot(c))):
                v = 1
            else:
                if self.devs is None:
                    v = 1
                    self.st.forks += 1
                    self.work.append(self.trail[:self.pos] + [0])
                else:
                    v = 1 if self.nominal(c) else 0
                    self.st.forks += 1
                    self.work.append(self.trail[:self.pos] + [(v ^ 1) | 2])
        self.trail.append(v)
        self.pos += 1
        self.add_pc(c if v else bnot(c))
        return v

    def trailwork(self):
        pass

    def is_pure(self, calls):
        p = self.purity.get(calls)
        if p is None:
            p = True
            for n in calls:
                if n == '?':
                    p = False
                    break
                f = self.resolved.get(n)
                if f is None:
                    try:
                        f = self.resolved[n] = self.resolve(n)
                    except Unsupported:
                        p = False
                        break
                if type(f) is ir.Func or not getattr(f, 'pure', False):
                    p = False
                    break
            self.purity[calls] = p
        return p

    def merge(self, c, r, info):
        """both sides of a branch are side-effect free and join at once: evaluate both, join the values; None = fork"""
        if self.eval_known(c) is not None:
            return None
        fa, fb, calls, dst, tys, J = info
        if not calls or not self.is_pure(calls) or not any(getattr(self.resolved[n], 'join', False) for n in calls):
            return None
        old = self.nofork
        self.nofork = True
        nf = len(self.frame)
        try:
            va = fa(self, r)
            vb = fb(self, r)
        except (NoMerge, Fault, PathEnd, Unsupported):
            del self.frame[nf:]
            return None
        finally:
            self.nofork = old
        for a, b, t in zip(va, vb, tys):
            if type(t) is int and t == 64 and (type(a) is int and a > 0xffffffff or type(b) is int and b > 0xffffffff):
                return None
        for d, a, b, t in zip(dst, va, vb, tys):
            r[d] = ite_s(c, a, b, t)
        return J

    def concretize(self, t, w, what='value'):
        if type(t) is int:
            return t
        if self.nofork:
            raise NoMerge()
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
            self.add_pc(eq(t, v, w))
            return v
        vals = []
        e = self.trA.bb(t, w)
        self.sync(t)
        self.solver.push()
        lim = self.limits['conc']
        try:
            while True:
                tt = time.time()
                self.st.queries += 1
                r = self.solver.check()
                self.st.qtime += time.time() - tt
                if r != z3.sat:
                    if r == z3.unknown:
                        raise Unsupported('unknown while concretizing %s' % what)
                    break
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > lim:
                    raise Unsupported('more than %d values for symbolic %s %s' % (lim, what, show(t, 4)))
                self.solver.add(e != v)
        finally:
            self.solver.pop()
        if not vals:
            raise PathEnd()
        vals.sort()
        for v in reversed(vals[1:]):
            self.st.forks += 1
            self.work.append(self.trail[:self.pos] + [v])
        v = vals[0]
        self.trail.append(v)
        self.pos += 1
        self.add_pc(eq(t, v, w))
        return v

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathEnd()
            return
        v = self.eval_known(c)
        if v == 1:
            return
        if v == 0:
            raise PathEnd()
        self.add_pc(c)
        if self.pos >= len(self.trail):
            if self.check() == 'unsat':
                raise PathEnd()

    def tvars(self, t, memo):
        r = memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [a for a in x.args if type(a) is T and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if x.op == 'var':
                memo[x.id] = frozenset((x.id,))
            else:
                s = frozenset()
                for a in x.args:
                    if type(a) is T:
                        s = s | memo[a.id]
                if x.op == 'uf':
                    s = s | frozenset(('uf:' + x.args[0],)) if False else s
                memo[x.id] = s
        return memo[t.id]

    def slice(self, goal):
        memo = self.__dict__.setdefault('_vmemo', {})
        vs = set()
        for g in goal:
            vs |= self.tvars(g, memo)
        rest = list(self.pc)
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for c in rest:
                cv = self.tvars(c, memo)
                if cv & vs:
                    out.append(c)
                    if not cv <= vs:
                        vs |= cv
                        changed = True
                else:
                    nr.append(c)
            if len(nr) < len(rest):
                changed = changed or bool(nr)
            rest = nr
            if not changed:
                break
        return out

    def has_conv(self, t):
        memo = self.__dict__.setdefault('_cmemo', {})
        r = memo.get(t.id)
        if r is not None:
            return r
        todo = [t]
        seen = set()
        r = False
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ('fptosi', 'fptoui'):
                r = True
                break
            if x.op in ('flt', 'fle', 'feq', 'isnan', 'uf'):
                continue
            todo.extend(a for a in x.args if type(a) is T)
        memo[t.id] = r
        return r

    def lvars(self, t):
        """variables and heavy atoms of t"""
        memo = self.__dict__.setdefault('_lmemo', {})
        r = memo.get(t.id)
        if r is not None:
            return r
        out = set()
        todo = [t]
        seen = set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'var' or x.op == 'uf' or solve.is_heavy(x):
                out.add(x.id)
                memo.setdefault(x.id, frozenset((x.id,)))
                self.__dict__.setdefault('_hv', {})[x.id] = x
                continue
            todo.extend(a for a in x.args if type(a) is T)
        memo[t.id] = r = frozenset(out)
        return r

    def lite(self, goal):
        """True: pc /\\ goal refuted by the light bit-precise encoding"""
        lv = self.lvars(goal)
        facts = []
        for i in sorted(lv):
            x = self._hv[i]
            if type(x.s) is int:
                continue
            for f in (fle(0.0, x, x.s), fle(x, 0.0, x.s)):
                k = f if type(f) is int else self.eval_known(f)
                if k == 1 or (k is None and self.check(bnot(f)) == 'unsat'):
                    facts.append(f)
                    break
        cs = [c for c in self.pc if self.lvars(c) <= lv] + [f for f in facts if type(f) is T]
        key = (goal.id, frozenset(c.id for c in cs))
        r = self.lite_memo.get(key)
        if r is None:
            r = self._lite(self.trF, cs + [goal], 4000)
            self.lite_memo[key] = r
        return r

    def _lite(self, tr, cs, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        for c in cs:
            s.add(tr.tr(c))
        s.add(*(tr.lem.glob + tr.lemmas(cs)))
        t = time.time()
        self.st.queries += 1
        r = s.check() == z3.unsat
        self.st.qtime += time.time() - t
        return r

    def exact_check(self, goal, full=False, ms=None):
        """bit-precise check of pc /\\ goal.  returns ('sat'|'unsat'|'unknown', model function)"""
        tr = self.trE if self.mode != 'R' else self.trA
        ms = ms or self.limits['ems']
        cs = list(self.pc) if full else self.slice(goal)
        left = self.limits['time'] * 1.5 - (time.time() - self.t0)
        ms = max(500, min(ms, int(left * 1000)))

        def go(cs, ms):
            s = z3.Solver()
            s.set('timeout', ms)
            for c in cs + goal:
                s.add(tr.tr(c) if type(c) is T else z3.BoolVal(bool(c)))
            s.add(*(tr.lem.glob + tr.lemmas(cs + goal)))
            t = time.time()
            self.st.queries += 1
            r = s.check()
            self.st.qtime += time.time() - t
            return r, s
        r, s = go(cs, ms)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat and len(cs) < len(self.pc):
            r2, s2 = go(list(self.pc), ms)
            if r2 == z3.unsat:
                return 'unsat', None
            if r2 == z3.sat:
                s = s2
        if r != z3.sat:
            return 'unknown', None
        m = s.model()

        def ev(t):
            e = m.eval(tr.tr(t), model_completion=True)
            if type(t.s) is int:
                if t.s == 1:
                    return 1 if z3.is_true(e) else 0
                return e.as_long()
            if z3.is_fp(e):
                b = z3.simplify(z3.fpToIEEEBV(e))
                if z3.is_bv_value(b):
                    return b.as_long()
                return fpack(math.nan, t.s)
            # reals
            try:
                if z3.is_algebraic_value(e):
                    e = e.approx(30)
                f = float(e.as_fraction())
            except Exception:
                f = 0.0
            return fpack(f32(f) if t.s == 'f' else f, t.s)
        return 'sat', ev

    def prove(self, c, msg):
        # a conjunction is proved conjunct by conjunct; (x or (a and b)) as (x or a), (x or b)
        if type(c) is T and c.op == 'and':
            for a in c.args:
                self.prove(a, msg)
            return
        if type(c) is T and c.op == 'not' and c.args[0].op == 'and':
            x, y = c.args[0].args
            for p, q in ((x, y), (y, x)):
                if type(q) is T and q.op == 'not' and q.args[0].op == 'and':
                    for a in q.args[0].args:
                        self.prove(bnot(band(p, bnot(a))), msg)
                    return
        self.prove1(c, msg)

    def prove1(self, c, msg):
        st = self.st
        st.asserts += 1
        if type(c) is int:
            if c:
                st.asserts_trivial += 1
                return
            r, model = self.exact_check([], full=True)
            if r == 'unsat':
                st.infeasible += 1
                raise PathEnd()
            self.add_violation(msg, r, model)
            raise PathEnd()
        if self.eval_known(c) == 1:
            st.asserts_trivial += 1
            return
        nc = bnot(c)
        r = self.check(nc)
        if r == 'unsat':
            st.asserts_abs += 1
            self.add_pc(c)
            return
        if self.mode == 'R' and r == 'sat':
            r2, model = self.exact_check([nc], full=True)
            self.add_violation(msg, r2, model)
            raise PathEnd()
        if self.mode == 'A' and self.lite(nc):
            st.asserts_exact += 1
            self.add_pc(c)
            return
        un = self.__dict__.setdefault('_und', {})
        r2, model = self.exact_check([nc], ms=max(400, self.limits['ems'] // 4 ** un.get(msg, 0)))
        if r2 == 'unknown':
            un[msg] = un.get(msg, 0) + 1
        if r2 == 'unsat':
            st.asserts_exact += 1
            self.add_pc(c)
            return
        if r2 == 'unknown':
            # try to find out cheaply whether full pc refutes it
            st.undecided += 1
            if os.environ.get('VP_DEBUG'):
                print('UNDECIDED', msg, show(c, 14)[:3000])
                for q in self.pc[-int(os.environ.get('VP_PC', 0)) or len(self.pc):]:
                    if os.environ.get('VP_PC'):
                        print('  PC', show(q, 12)[:900])
                tq = time.time()
                rq = self.solver.check(self.trA.tr(nc))
                print('  abstract:', rq, '%.1fs' % (time.time() - tq), self.solver.reason_unknown() if rq == z3.unknown else '')
                try:
                    m = self.solver.model()
                    seen = set()
                    stk = [c]
                    while stk:
                        x = stk.pop()
                        if x.id in seen:
                            continue
                        seen.add(x.id)
                        e = self.trA.tr(x)
                        if x.s in ('f', 'd'):
                            e = self.trA.val[x.s](e)
                        print('   ', show(x, 2)[:100], '=', str(m.eval(e))[:60])
                        stk += [a for a in x.args if type(a) is T]
                except Exception as ex:
                    print(ex)
                os._exit(0)
            self.cands.append({'msg': msg, 'status': 'unknown', 'inputs': [], 'trail': list(self.trail)})
            self.add_pc(c)
            return
        self.add_violation(msg, r2, model)
        raise PathEnd()

    # ------------------------------------------------------------- memory
    def newobj(self, size, kind, name=''):
        i = self.nid
        self.nid += 1
        self.objs[i] = Obj(i, size, kind, name)
        return (i << 32) + BIAS

    def alloca(self, size):
        if type(size) is not int:
            size = self.concretize(size, 64, 'alloca size')
        return self.newobj(size, 'stack')

    def getobj(self, i):
        o = self.objs.get(i)
        if o is None:
            name = self.prog.gnames.get(i)
            if name is not None:
                size, cells, _ = self.prog.global_image(name)
                o = Obj(i, size, 'global', name)
                o.cells = dict(cells)
                o.fills = [(0, size, 0)]
                self.objs[i] = o
        return o

    def where(self):
        return self.demangle(self.frame[-1]) if self.frame else '?'

    def demangle(self, n):
        return demangle(n)

    def locate(self, addr, n, what):
        if type(addr) is not int:
            return self.locate_sym(addr, n, what)
        o = self.objs.get(addr >> 32)
        if o is None:
            o = self.getobj(addr >> 32)
            if o is None:
                raise Fault('memory', 'invalid pointer %s in %s' % (what, self.where()))
        off = (addr & 0xffffffff) - BIAS
        if not o.alive:
            raise Fault('memory', 'use after free (%s) in %s' % (what, self.where()))
        if off < 0 or off + n > o.size:
            raise Fault('memory', 'out-of-bounds %s of %d bytes at offset %d of %d-byte %s object in %s' % (what, n, off, o.size, o.kind, self.where()))
        return o, off

    def locate_sym(self, addr, n, what):
        # select between pointers
        if addr.op == 'ite':
            if self.branch(addr.args[0]):
                return self.locate(addr.args[1], n, what)
            return self.locate(addr.args[2], n, what)
        base, c = split_add(addr)
        oid = c >> 32
        o = self.getobj(oid)
        if o is None:
            # maybe negative symbolic parts: concretize
            v = self.concretize(addr, 64, 'pointer')
            return self.locate(v, n, what)
        off = add(base, c - (oid << 32) - BIAS, 64)
        if not o.alive:
            raise Fault('memory', 'use after free (%s) in %s' % (what, self.where()))
        if not self.branch(ult(off, o.size - n + 1, 64)):
            raise Fault('memory', 'out-of-bounds %s at symbolic offset of %d-byte %s object in %s' % (what, o.size, o.kind, self.where()))
        off = self.concretize(off, 64, 'offset')
        return o, off

    def byte_at(self, o, p):
        for k in range(p, p - 16, -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[0] > p:
                    v = c[1]
                    if c[2] != 'i':
                        v = tobits(v, c[2])
                    return extract(v, (p - k) * 8 + 7, (p - k) * 8, c[0] * 8)
                # cells never overlap, an earlier one cannot cover p if this one ends before
                break
        for lo, hi, b in reversed(o.fills):
            if lo <= p < hi:
                if b is None:
                    break
                return b
        v = fresh('undef', 8)
        self.store_cell(o, p, 1, 'i', v)
        self.user['undef'] = self.user.get('undef', 0) + 1
        return v

    def load(self, addr, n, k):
        if type(addr) is int:
            o = self.objs.get(addr >> 32)
            off = (addr & 0xffffffff) - BIAS
            if o is not None and o.alive and 0 <= off and off + n <= o.size:
                c = o.cells.get(off)
                if c is not None and c[0] == n and c[2] == k:
                    return c[1]
            else:
                o, off = self.locate(addr, n, 'read')
        else:
            r = self.load_sym(addr, n, k)
            if r is not None:
                return r
            o, off = self.locate(addr, n, 'read')
        return self.load_obj(o, off, n, k)

    def load_obj(self, o, off, n, k):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if c[2] == k:
                return v
            if c[2] != 'i':
                v = tobits(v, c[2])
            return v if k == 'i' else frombits(v, k)
        if c is None and k == 'i' or True:
            # untouched, filled
            if n <= 8 and not any((off + d) in o.cells for d in range(-15, n)):
                fb = None
                for lo, hi, b in reversed(o.fills):
                    if lo <= off and off + n <= hi:
                        fb = b
                        break
                    if hi > off and lo < off + n:
                        break
                else:
                    fb = None
                if fb is not None and type(fb) is int:
                    v = int.from_bytes(bytes([fb]) * n, 'little')
                    return v if k == 'i' else frombits(v, k)
                if fb is None and not any(hi > off and lo < off + n and b is not None for lo, hi, b in o.fills):
                    # uninitialised: fresh value of the right kind
                    self.user['undef'] = self.user.get('undef', 0) + 1
                    v = fresh('undef', n * 8 if k == 'i' else k)
                    self.store_cell(o, off, n, k, v)
                    return v
        parts = [(self.byte_at(o, off + i), 8) for i in range(n - 1, -1, -1)]
        v = cat(parts)
        return v if k == 'i' else frombits(v, k)

    def load_sym(self, addr, n, k):
        """read at a symbolic address as an ite chain when the object is a small uniform array"""
        if addr.op == 'ite':
            return None
        base, c = split_add(addr)
        o = self.getobj(c >> 32)
        if o is None or o.size // n > self.limits['iteread'] or not o.alive:
            return None
        off = add(base, (c & 0xffffffff) - BIAS & MASK[64], 64)
        if not self.branch(ult(off, o.size - n + 1, 64)):
            raise Fault('memory', 'out-of-bounds read at symbolic offset of %d-byte %s object in %s' % (o.size, o.kind, self.where()))
        # alignment known?
        if n > 1:
            low = extract(off, n.bit_length() - 2, 0, 64)
            if not (type(low) is int and low == 0):
                if self.check(bnot(eq(low, 0, n.bit_length() - 1))) != 'unsat':
                    return None
        v = None
        s = n * 8 if k == 'i' else k
        for i in range(o.size // n - 1, -1, -1):
            x = self.load_obj(o, i * n, n, k)
            v = x if v is None else ite_s(eq(off, i * n, 64), x, v, s)
        return v

    def store_cell(self, o, off, n, k, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v, k)
            return
        # overlapping cells
        for p in range(off - 15, off + n):
            c = cells.get(p)
            if c is None or p + c[0] <= off:
                continue
            del cells[p]
            if p >= off and p + c[0] <= off + n:
                continue
            w = c[1]
            if c[2] != 'i':
                w = tobits(w, c[2])
            for q in range(p, p + c[0]):
                if q < off or q >= off + n:
                    cells[q] = (1, extract(w, (q - p) * 8 + 7, (q - p) * 8, c[0] * 8), 'i')
        cells[off] = (n, v, k)

    def store(self, addr, n, k, v):
        o, off = self.locate(addr, n, 'write') if type(addr) is int else self.locate_store(addr, n, k, v)
        if o is None:
            return
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v, k)
        else:
            self.store_cell(o, off, n, k, v)

    def locate_store(self, addr, n, k, v):
        if addr.op != 'ite':
            base, c = split_add(addr)
            o = self.getobj(c >> 32)
            if o is not None and o.alive and o.size // n <= self.limits['iteread']:
                off = add(base, (c & 0xffffffff) - BIAS & MASK[64], 64)
                if not self.branch(ult(off, o.size - n + 1, 64)):
                    raise Fault('memory', 'out-of-bounds write at symbolic offset of %d-byte %s object in %s' % (o.size, o.kind, self.where()))
                low = extract(off, n.bit_length() - 2, 0, 64) if n > 1 else 0
                if type(low) is int and low == 0 or self.check(bnot(eq(low, 0, n.bit_length() - 1))) == 'unsat':
                    s = n * 8 if k == 'i' else k
                    for i in range(o.size // n):
                        old = self.load_obj(o, i * n, n, k)
                        self.store_cell(o, i * n, n, k, ite_s(eq(off, i * n, 64), v, old, s))
                    return None, None
        return self.locate(addr, n, 'write')

    def clear_range(self, o, off, n):
        cells = o.cells
        if off == 0 and n >= o.size:
            cells.clear()
            return
        ks = range(off - 15, off + n) if n < len(cells) else [p for p in cells if off - 16 < p < off + n]
        for p in ks:
            c = cells.get(p)
            if c is None or p + c[0] <= off or p >= off + n:
                continue
            del cells[p]
            if p >= off and p + c[0] <= off + n:
                continue
            w = c[1]
            if c[2] != 'i':
                w = tobits(w, c[2])
            for q in range(p, p + c[0]):
                if q < off or q >= off + n:
                    cells[q] = (1, extract(w, (q - p) * 8 + 7, (q - p) * 8, c[0] * 8), 'i')

    def memset(self, addr, b, n):
        n = self.concretize(n, 64, 'memset size')
        if n == 0:
            return
        o, off = self.locate(addr, n, 'memset')
        self.clear_range(o, off, n)
        if off == 0 and n == o.size:
            o.fills = []
        if type(b) is T:
            for i in range(n):
                o.cells[off + i] = (1, b, 'i')
        else:
            o.fills.append((off, off + n, b & 255))

    def memcpy(self, dst, src, n):
        n = self.concretize(n, 64, 'memcpy size')
        if n == 0:
            return
        so, soff = self.locate(src, n, 'memcpy source read')
        do, doff = self.locate(dst, n, 'memcpy destination write')
        cells = so.cells
        items = []
        gaps = []
        if len(cells) < n:
            ks = sorted(p for p in cells if soff - 16 < p < soff + n)
        else:
            ks = [p for p in range(soff - 15, soff + n) if p in cells]
        pos = soff
        for p in ks:
            c = cells[p]
            if p + c[0] <= soff:
                continue
            if p < soff or p + c[0] > soff + n:
                w = c[1]
                if c[2] != 'i':
                    w = tobits(w, c[2])
                lo, hi = max(p, soff), min(p + c[0], soff + n)
                if pos < lo:
                    gaps.append((pos, lo))
                for q in range(lo, hi):
                    items.append((q - soff, (1, extract(w, (q - p) * 8 + 7, (q - p) * 8, c[0] * 8), 'i')))
                pos = hi
                continue
            if pos < p:
                gaps.append((pos, p))
            items.append((p - soff, c))
            pos = p + c[0]
        if pos < soff + n:
            gaps.append((pos, soff + n))
        newf = []
        for lo, hi in gaps:
            newf.append((lo - soff, hi - soff, None))
            for a, b, v in so.fills:
                x, y = max(a, lo), min(b, hi)
                if x < y:
                    newf.append((x - soff, y - soff, v))
        self.clear_range(do, doff, n)
        if doff == 0 and n == do.size:
            do.fills = []
        for a, b, v in newf:
            do.fills.append((doff + a, doff + b, v))
        for p, c in items:
            do.cells[doff + p] = c

    def free(self, addr):
        if type(addr) is int and addr == 0:
            return
        if type(addr) is not int:
            addr = self.concretize(addr, 64, 'free pointer')
            if addr == 0:
                return
        o = self.objs.get(addr >> 32)
        if o is None or (addr & 0xffffffff) != BIAS or o.kind != 'heap':
            raise Fault('memory', 'invalid free in %s' % self.where())
        if not o.alive:
            raise Fault('memory', 'double free in %s' % self.where())
        o.alive = False
        o.cells = {}

    def malloc(self, size, zero=False):
        size = self.concretize(size, 64, 'allocation size')
        if size > 1 << 30:
            raise Fault('memory', 'huge allocation (%d bytes) in %s' % (size, self.where()))
        a = self.newobj(size, 'heap')
        if zero:
            self.objs[a >> 32].fills = [(0, size, 0)]
        return a

    def cstr(self, addr):
        o, off = self.locate(addr, 1, 'string read')
        out = []
        while off < o.size:
            b = self.load_obj(o, off, 1, 'i')
            if type(b) is not int or b == 0:
                break
            out.append(b)
            off += 1
        return bytes(out).decode('latin1')

    # ------------------------------------------------------------- arithmetic hooks
    def chkdiv(self, b, w):
        if type(b) is int:
            if b == 0:
                raise Fault('division', 'integer division by zero in %s' % self.where())
            return
        if not self.branch(bnot(eq(b, 0, w))):
            raise Fault('division', 'integer division by zero in %s' % self.where())

    def chkshift(self, b, w):
        if type(b) is int:
            if b >= w:
                self.ub('shift', 'shift by %d of a %d-bit value' % (b, w))
            return
        if self.nsw and not self.branch(ult(b, w, w)):
            raise Fault('shift', 'shift amount >= width in %s' % self.where())

    def ub(self, kind, msg):
        if self.nsw:
            raise Fault(kind, '%s in %s' % (msg, self.where()))

    def chknsw(self, op, a, b, w):
        if type(a) is int and type(b) is int:
            x, y = sx(a, w), sx(b, w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            if not -(1 << (w - 1)) <= r < 1 << (w - 1):
                self.ub('overflow', 'signed overflow')

    def fptosi(self, a, s, w):
        return fptosi(a, s, w)

    def fptoui(self, a, s, w):
        return fptoui(a, s, w)

    def select(self, c, a, b, s):
        if type(c) is not int:
            v = self.eval_known(c)
            if v is not None:
                return a if v else b
        else:
            return a if c else b
        if type(a) is tuple:
            return tuple(a) if self.branch(c) else b
        if s == 64 and (type(a) is int and a > 0xffffffff or type(b) is int and b > 0xffffffff):
            # pointer-like select: fork
            if type(a) is int and type(b) is int and (a >> 32) != (b >> 32):
                return a if self.branch(c) else b
        return ite_s(c, a, b, s)

    def unreachable(self):
        raise Fault('unreachable', 'unreachable executed in %s' % self.where())

    def unsup(self, s):
        raise Unsupported(s)

    # ------------------------------------------------------------- calls
    def call(self, name, args):
        f = self.resolved.get(name)
        if f is None:
            f = self.resolve(name)
            self.resolved[name] = f
        if type(f) is not ir.Func:
            return f(self, *args)
        return self.exec_func(f, args)

    def resolve(self, name):
        n = self.natives.get(name)
        dm = demangle(name)
        base = dm.split('(')[0]
        base = re.sub(r'^[\w:<>*& ]+ (?=[\w:~]+(<.*>)?$)', '', base)
        if not self.opts.get('nostub'):
            for pat, target in self.stubs.items():
                if (callable(pat) and pat(dm)) or (type(pat) is str and re.fullmatch(pat, fname(dm))):
                    self.st.funcs['stub:' + fname(dm)] = self.st.funcs.get('stub:' + fname(dm), 0) + 1
                    if callable(target):
                        return target
                    # map to IR function, allow type-suffixed variants
                    fn = self.prog.func(target)
                    if fn is None:
                        for nm in self.prog.m.funcs:
                            if fname(demangle(nm)) == target and template_args(demangle(nm)) == template_args(dm):
                                fn = self.prog.func(nm)
                                break
                    if fn is None:
                        raise Unsupported('stub target %s for %s missing' % (target, dm))
                    return fn
        if n is not None:
            return n
        for pat, fn in NATIVE_PATTERNS:
            if re.match(pat, name):
                return fn
        f = self.prog.func(name)
        if f is not None:
            return f
        g = self.prog.m.globals.get(name)
        if g and g[0] == 'alias':
            return self.resolve(g[1])
        raise Unsupported('external function ' + name)

    def icall(self, addr, args):
        addr = self.concretize(addr, 64, 'function pointer')
        return self.call(self.prog.gnames[addr >> 32], args)

    def exec_func(self, f, args):
        if f.code is None:
            self.prog.cg.gen(f)
        r = [None] * f.nreg
        for i, a in zip(f.params, args):
            r[i] = a
        st = self.st
        if f.name not in st.funcs:
            st.funcs[f.name] = f.ninstr
        code = f.code
        fr = self.frame
        fr.append(f.name)
        if len(fr) > 2000:
            raise Budget('recursion depth')
        nid0 = self.nid
        b = 0
        n = 0
        while b >= 0:
            b = code[b](self, r)
            n += 1
            if n & 0x3ff == 0:
                self.steps += 1024
                if self.steps > self.limits['steps']:
                    raise Budget('block-step limit reached in %s' % self.where())
                if time.time() - self.t0 > self.limits['time'] * 1.2:
                    raise Budget('time limit inside %s' % self.where())
        self.steps += n & 0x3ff
        fr.pop()
        return r[0]


def fname(dm):
    """function name without return type, template args and parameters"""
    # strip params
    d = 0
    s = dm
    # remove template args
    out = []
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out)
    s = s.split('(')[0].strip()
    return s.split(' ')[-1]


def template_args(dm):
    i = dm.find('<')
    j = dm.find('(')
    if i < 0 or (0 <= j < i):
        return ''
    d = 0
    for k in range(i, len(dm)):
        if dm[k] == '<':
            d += 1
        elif dm[k] == '>':
            d -= 1
            if d == 0:
                return dm[i:k + 1]
    return ''


_dm = {}
_LS = None


def demangle(n):
    r = _dm.get(n)
    if r is None:
        global _LS
        if _LS is None:
            _LS = ctypes.CDLL('libstdc++.so.6')
            _LS.__cxa_demangle.restype = ctypes.c_void_p
            _LS.__cxa_demangle.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        st = ctypes.c_int(0)
        p = _LS.__cxa_demangle(n.encode(), None, None, ctypes.byref(st))
        if p:
            r = ctypes.string_at(p).decode()
        else:
            r = n
        _dm[n] = r
    return r


# ------------------------------------------------------------------ native models
NATIVES = {}


def nat(*names):
    def d(f):
        for n in names:
            NATIVES[n] = f
        return f
    return d


@nat('malloc', '_Znwm', '_Znam')
def n_malloc(E, n):
    return E.malloc(n)


@nat('calloc')
def n_calloc(E, a, b):
    return E.malloc(mul(a, b, 64), True)


@nat('free', '_ZdlPv', '_ZdaPv')
def n_free(E, p):
    E.free(p)


@nat('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def n_rehash(E, this, nb, ne, ni):
    # a valid policy: the table never grows (iteration order and performance are outside the model)
    return [0, 0]


@nat('_ZdlPvm', '_ZdaPvm')
def n_free2(E, p, n):
    E.free(p)


@nat('realloc')
def n_realloc(E, p, n):
    n = E.concretize(n, 64, 'realloc size')
    q = E.malloc(n)
    if p:
        o = E.objs[p >> 32]
        E.memcpy(q, p, min(n, o.size))
        E.free(p)
    return q


@nat('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i32')
def n_memcpy(E, d, s, n, *_):
    E.memcpy(d, s, n)
    return d


@nat('memset', 'llvm.memset.p0.i64', 'llvm.memset.p0.i32')
def n_memset(E, d, b, n, *_):
    E.memset(d, b if type(b) is int else extract(b, 7, 0, b.s), n)
    return d


@nat('strlen')
def n_strlen(E, p):
    return len(E.cstr(p))


@nat('memcmp')
def n_memcmp(E, a, b, n):
    n = E.concretize(n, 64)
    for i in range(n):
        x = E.load(add(a, i, 64), 1, 'i')
        y = E.load(add(b, i, 64), 1, 'i')
        if not E.branch(eq(x, y, 8)):
            return 1 if E.branch(ult(y, x, 8)) else 0xffffffff
    return 0


@nat('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fflush', 'snprintf', 'sprintf', 'fwrite', 'perror', 'putc', 'fputc')
def n_print(E, *a):
    return 0


@nat('exit', 'abort', '_exit')
def n_exit(E, *a):
    raise Fault('exit', 'program terminates (exit/abort) in %s' % E.where())


@nat('__assert_fail')
def n_assert(E, *a):
    raise Fault('assert', 'assertion failure: %s in %s' % (E.cstr(a[0]), E.where()))


@nat('clock_gettime')
def n_clock(E, c, p):
    E.memset(p, 0, 16)
    return 0


@nat('__cxa_guard_acquire')
def n_ga(E, p):
    return 1


@nat('__cxa_guard_release', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev')
def n_nop(E, *a):
    return 0


def m1(base, term=None):
    def mkf(s):
        lf = libm(base, s, 1)

        def f(E, x, *_):
            if type(x) is float:
                return lf(x)
            if term:
                return term(x, s)
            return uf(base + '_' + s, (x,), s)
        f.pure = True
        return f
    return mkf


def m2(base):
    def mkf(s):
        lf = libm(base, s, 2)

        def f(E, x, y, *_):
            if type(x) is float and type(y) is float:
                return lf(x, y)
            return uf(base + '_' + s, (x, y), s)
        f.pure = True
        return f
    return mkf


def rnd_term(op):
    def g(x, s):
        if x.op in ('sitofp', 'uitofp') or x.op == op:
            return x
        return mk(op, (x,), s)
    return g


for _b in ('log2', 'exp2', 'log', 'exp', 'sin', 'cos', 'cbrt', 'acos', 'log10', 'tan', 'atan'):
    for _s, _sf in (('d', ''), ('f', 'f')):
        NATIVES[_b + _sf] = m1(_b)(_s)
        NATIVES['llvm.%s.%s' % (_b, 'f64' if _s == 'd' else 'f32')] = NATIVES[_b + _sf]
for _b, _t in (('sqrt', fsqrt), ('fabs', fabs_), ('ceil', rnd_term('fceil')), ('floor', rnd_term('ffloor')), ('trunc', rnd_term('ftruncI')), ('rint', rnd_term('frint'))):
    for _s, _sf in (('d', ''), ('f', 'f')):
        NATIVES[_b + _sf] = m1(_b, _t)(_s)
        NATIVES['llvm.%s.%s' % (_b, 'f64' if _s == 'd' else 'f32')] = NATIVES[_b + _sf]
def n_fabs(s):
    base = m1('fabs', fabs_)(s)

    def f(E, x, *_):
        if type(x) is T:
            # on a path that fixes the sign the absolute value is the operand or its negation
            p = E.eval_known(b1(flt(0.0, x, s)))
            if p == 1:
                return x
            if p == 0 and E.eval_known(b1(feq(x, 0.0, s))) == 0 and E.eval_known(b1(fisnan(x, s))) == 0:
                return fneg(x, s)
        return base(E, x)
    f.pure = True
    return f


for _s, _sf in (('d', ''), ('f', 'f')):
    NATIVES['fabs' + _sf] = NATIVES['llvm.fabs.%s' % ('f64' if _s == 'd' else 'f32')] = n_fabs(_s)
for _b in ('pow', 'fmod', 'atan2'):
    for _s, _sf in (('d', ''), ('f', 'f')):
        NATIVES[_b + _sf] = m2(_b)(_s)
        NATIVES['llvm.%s.%s' % (_b, 'f64' if _s == 'd' else 'f32')] = NATIVES[_b + _sf]


def n_fminmax(ismax, s):
    def f(E, a, b, *_):
        if type(a) is float and type(b) is float:
            if a != a:
                return b
            if b != b:
                return a
            return max(a, b) if ismax else min(a, b)
        c = flt(b, a, s) if ismax else flt(a, b, s)
        c = bor(c, fisnan(b, s))
        return ite_s(c, a, b, s)
    return f


for _s, _sf, _ll in (('d', '', 'f64'), ('f', 'f', 'f32')):
    for _n in ('max', 'min'):
        NATIVES['f%s%s' % (_n, _sf)] = n_fminmax(_n == 'max', _s)
        NATIVES['llvm.%snum.%s' % (_n, _ll)] = NATIVES['f%s%s' % (_n, _sf)]

    def _fma(E, a, b, c, s=_s):
        return fadd(fmul(a, b, s), c, s)
    NATIVES['llvm.fmuladd.' + _ll] = _fma

    def _cs(E, a, b, s=_s):
        w = 32 if s == 'f' else 64
        x, y = tobits(a, s), tobits(b, s)
        return frombits(cat([(extract(y, w - 1, w - 1, w), 1), (extract(x, w - 2, 0, w), w - 1)]), s)
    NATIVES['llvm.copysign.' + _ll] = _cs
    NATIVES['copysign' + _sf] = _cs

for _w in (8, 16, 32, 64):
    NATIVES['llvm.umin.i%d' % _w] = lambda E, a, b, w=_w: ite_s(ult(a, b, w), a, b, w)
    NATIVES['llvm.umax.i%d' % _w] = lambda E, a, b, w=_w: ite_s(ult(b, a, w), a, b, w)
    NATIVES['llvm.smin.i%d' % _w] = lambda E, a, b, w=_w: ite_s(slt(a, b, w), a, b, w)
    NATIVES['llvm.smax.i%d' % _w] = lambda E, a, b, w=_w: ite_s(slt(b, a, w), a, b, w)
    NATIVES['llvm.abs.i%d' % _w] = lambda E, a, f, w=_w: ite_s(slt(a, 0, w), neg(a, w), a, w)
    NATIVES['llvm.expect.i%d' % _w] = lambda E, a, b: a
    NATIVES['llvm.usub.sat.i%d' % _w] = lambda E, a, b, w=_w: ite_s(ult(a, b, w), 0, sub(a, b, w), w)

    def _fshl(E, a, b, c, w=_w):
        if type(c) is int:
            c %= w
            if c == 0:
                return a
            return or_(shl(a, c, w), lshr(b, w - c, w), w)
        raise Unsupported('fshl')
    NATIVES['llvm.fshl.i%d' % _w] = _fshl

    def _umulo(E, a, b, w=_w):
        if type(a) is int and type(b) is int:
            return ((a * b) & MASK[w], 1 if a * b > MASK[w] else 0)
        x = mul(zext(a, w, 2 * w), zext(b, w, 2 * w), 2 * w)
        return (mul(a, b, w), ult(MASK[w], x, 2 * w))
    NATIVES['llvm.umul.with.overflow.i%d' % _w] = _umulo

    def _ctpop(E, a, w=_w):
        if type(a) is int:
            return bin(a).count('1')
        r = 0
        for i in range(w):
            r = add(r, zext(extract(a, i, i, w), 1, w), w)
        return r
    NATIVES['llvm.ctpop.i%d' % _w] = _ctpop

    def _bswap(E, a, w=_w):
        return cat([(extract(a, i * 8 + 7, i * 8, w), 8) for i in range(w // 8)])
    NATIVES['llvm.bswap.i%d' % _w] = _bswap
NATIVES['llvm.expect.i1'] = lambda E, a, b: a


@nat('llvm.is.fpclass.f64')
def n_fpc64(E, x, m):
    return fpclass(x, m, 'd')


@nat('llvm.is.fpclass.f32')
def n_fpc32(E, x, m):
    return fpclass(x, m, 'f')


def fpclass(x, m, s):
    r = 0
    inf = math.inf
    if m & 3:
        r = bor(r, fisnan(x, s))
    if m & 4:
        r = bor(r, feq(x, -inf, s))
    if m & 0x200:
        r = bor(r, feq(x, inf, s))
    if m & 0x1f8:
        if (m & 0x1f8) != 0x1f8:
            raise Unsupported('fpclass %x' % m)
        r = bor(r, band(bnot(fisnan(x, s)), flt(fabs_(x, s), inf, s)))
    return r


def n_ret0(E, *a):
    return a[0] if a else 0


for _n, _f in list(NATIVES.items()):
    if _n.startswith('llvm.') and not re.match(r'llvm\.(mem|trap|stack|lifetime|assume)', _n) or _n in ('copysign', 'copysignf', 'fmax', 'fmin', 'fmaxf', 'fminf', 'abs'):
        try:
            _f.pure = True
        except AttributeError:
            pass
NATIVE_PATTERNS = [
    (r'_ZNSo', n_ret0), (r'_ZSt.*ostream', n_ret0), (r'_ZSt4endl', n_ret0), (r'_ZStls', n_ret0), (r'_ZNKSt5ctype', n_nop), (r'_ZNSt9basic_ios', n_nop),
    (r'_ZSt\d+__throw_', lambda E, *a: n_exit(E)),
]


# harness API ------------------------------------------------------------------
def inp(E, namep, s):
    name = E.cstr(namep)
    k = E.icount.get(name, 0)
    E.icount[name] = k + 1
    full = '%s#%d' % (name, k)
    t = var(full, s)
    E.inputs.append((full, s, t))
    return t


@nat('vp_f32')
def vp_f32(E, n):
    return inp(E, n, 'f')


@nat('vp_f64')
def vp_f64(E, n):
    return inp(E, n, 'd')


@nat('vp_finite_f32')
def vp_ff32(E, n):
    t = inp(E, n, 'f')
    E.add_pc(flt(fabs_(t, 'f'), math.inf, 'f'))
    return t


@nat('vp_finite_f64')
def vp_ff64(E, n):
    t = inp(E, n, 'd')
    E.add_pc(flt(fabs_(t, 'd'), math.inf, 'd'))
    return t


@nat('vp_i32')
def vp_i32(E, n, lo, hi):
    t = inp(E, n, 32)
    E.add_pc(bnot(slt(t, lo, 32)))
    E.add_pc(bnot(slt(hi, t, 32)))
    return t


@nat('vp_u8')
def vp_u8(E, n):
    return inp(E, n, 8)


@nat('vp_u32')
def vp_u32(E, n):
    return inp(E, n, 32)


@nat('vp_u64')
def vp_u64(E, n):
    return inp(E, n, 64)


@nat('vp_choose')
def vp_choose(E, n, lo, hi):
    t = vp_i32(E, n, lo, hi)
    v = E.concretize(t, 32, 'choice')
    E.inputs[-1] = (E.inputs[-1][0], 32, v)
    return v


@nat('vp_concrete_i32')
def vp_conc(E, v):
    return E.concretize(v, 32, 'value')


@nat('vp_param')
def vp_param(E, n, dflt):
    name = E.cstr(n)
    return E.opts.get('params', {}).get(name, sx(dflt, 32)) & MASK[32]


@nat('vp_assume')
def vp_assume(E, c):
    E.assume(b1(c))


@nat('vp_assert')
def vp_assert(E, c, m):
    E.prove(b1(c), E.cstr(m))


@nat('vp_reach')
def vp_reach(E, m):
    s = E.cstr(m)
    E.st.reached[s] = E.st.reached.get(s, 0) + 1


@nat('vp_known')
def vp_known(E, c):
    if type(c) is not int:
        c = E.eval_known(b1(c))
    return 1 if c else 0


@nat('vp_symbolic')
def vp_symbolic(E):
    return 1


@nat('vp_objsize')
def vp_objsize(E, p):
    if type(p) is not int or p == 0:
        return 0
    o = E.objs.get(p >> 32)
    return o.size if o else 0


def b1(c):
    if type(c) is int:
        return 1 if c else 0
    if c.s == 1:
        return c
    return bnot(eq(c, 0, c.s))


@nat('vp_same_f32')
def vp_same32(E, a, b):
    return same(a, b, 'f')


@nat('vp_same_f64')
def vp_same64(E, a, b):
    return same(a, b, 'd')


def same(a, b, s):
    """bitwise-identical or both NaN / equal"""
    if type(a) is float and type(b) is float:
        r = 1 if fpack(a, s) == fpack(b, s) or (a != a and b != b) else 0
    elif a is b:
        r = 1
    else:
        r = mk('fsame', (a, b) if type(b) is T and type(a) is T and a.id < b.id or type(a) is T and type(b) is not T else (b, a), 1)
    return zext(r, 1, 32) if type(r) is T else r


@nat('vp_uf_f64')
def vp_uf(E, namep, n, p):
    """uninterpreted function of n doubles"""
    name = E.cstr(namep)
    n = E.concretize(n, 32, 'uf arity')
    a = tuple(E.load(add(p, 8 * i, 64), 8, 'd') for i in range(n))
    return uf('vp_' + name, a, 'd')


def _logarg(x):
    """x = [-]exp2(a) (possibly through float conversions): a as double, else None"""
    while type(x) is T and x.op in ('fptrunc', 'fpext', 'fneg', 'fabs'):
        x = x.args[0]
    if type(x) is T and x.op == 'uf' and str(x.args[0]).startswith('exp2_'):
        a = x.args[1]
        return a
    return None


@nat('vp_exp2_arg')
def vp_exp2_arg(E, x, okp):
    """the a in [-]exp2(a); *ok=0 when x has another form"""
    a = _logarg(x)
    E.store(okp, 4, 'i', 0 if a is None else 1)
    if a is None:
        return 0.0
    if type(a) is T and a.s == 'f':
        return fpext(a)
    return a
