"""Translate parsed IR functions to Python block functions."""
import re, struct
from . import ir, terms
from .ir import P, tokenize

SUF = re.compile(r'(, ![-a-zA-Z0-9_.]+ ![0-9]+)+$')


class CG:
    def __init__(self, mod, gaddr):
        self.m = mod
        self.gaddr = gaddr
        import math
        self.ns = {k: getattr(terms, k) for k in dir(terms) if not k.startswith('__')}
        self.ns['math'] = math
        self.ns['inf'] = math.inf
        self.ns['nan'] = math.nan

    # ---- constants
    def const(self, p, ty):
        """parse constant at cursor -> python value (or None for undef)"""
        m = self.m
        k = p.pk()
        w = p.peek()
        rt = m.resolve(ty)
        if k == 'str':
            p.next()
            return decode_str(w)
        if w in ('undef', 'poison'):
            p.next()
            return Undef
        if w == 'zeroinitializer':
            p.next()
            return zero(m, rt)
        if w == 'null':
            p.next()
            return 0
        if w == 'true':
            p.next()
            return 1
        if w == 'false':
            p.next()
            return 0
        if k == 'id' and w[0] == '@':
            p.next()
            return self.gaddr(w[1:])
        if k in ('num', 'hex'):
            p.next()
            if rt.k in ('f', 'd'):
                if k == 'hex':
                    return struct.unpack('<d', struct.pack('<Q', int(w, 16)))[0]
                return terms.fconst(float(w), rt.k)
            if rt.k == 'x86_fp80':
                return Undef
            return int(w) & terms.MASK[rt.w]
        if w == '[' or w == '{' or w == '<':
            end = {'[': ']', '{': '}', '<': '>'}[w]
            p.next()
            if w == '<' and p.peek() == '{':
                p.next()
                end = '}'
                r = []
                while True:
                    t = p.type()
                    r.append(self.const(p, t))
                    if p.accept('}'):
                        break
                    p.expect(',')
                p.expect('>')
                return tuple(r)
            r = []
            if p.accept(end):
                return tuple(r)
            while True:
                t = p.type()
                r.append(self.const(p, t))
                if p.accept(end):
                    break
                p.expect(',')
            return tuple(r)
        if w == 'getelementptr':
            p.next()
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            if p.peek() == 'inrange':
                p.next()
                while p.next() != ')':
                    pass
            p.expect('(')
            t = p.type()
            p.expect(',')
            pt = p.type()
            base = self.const(p, pt)
            idx = []
            while p.accept(','):
                p.accept('inrange')
                it = p.type()
                idx.append((it, self.const(p, it)))
            p.expect(')')
            off = 0
            cur = t
            for n, (it, v) in enumerate(idx):
                v = terms.sx(v, it.w)
                if n == 0:
                    off += v * m.size(cur)
                else:
                    c = m.resolve(cur)
                    if c.k == 'struct':
                        off += m.layout(c)[0][v]
                        cur = c.els[v]
                    else:
                        off += v * m.size(c.el)
                        cur = c.el
            return (base + off) & terms.MASK[64]
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            p.next()
            p.expect('(')
            t = p.type()
            v = self.const(p, t)
            p.expect('to')
            t2 = p.type()
            p.expect(')')
            return v & terms.MASK[t2.w]
        if w in ('sub', 'add'):
            p.next()
            while p.peek() in ('nuw', 'nsw'):
                p.next()
            p.expect('(')
            t = p.type()
            a = self.const(p, t)
            p.expect(',')
            t = p.type()
            b = self.const(p, t)
            p.expect(')')
            return (a - b if w == 'sub' else a + b) & terms.MASK[64]
        raise Exception('const %r in %s' % (w, ' '.join(x[1] for x in p.t)))

    # ---- operand -> python source
    def op(self, p, ty):
        if p.pk() == 'id' and p.peek()[0] == '%':
            return 'r[%d]' % self.reg(p.next())
        v = self.const(p, ty)
        return self.lit(v)

    def lit(self, v):
        if v is Undef:
            return '0' if self._ufp is None else '0.0'
        if type(v) is float:
            if v != v:
                return 'nan'
            if v in (float('inf'), float('-inf')):
                return 'inf' if v > 0 else '-inf'
            return repr(v)
        if type(v) is tuple:
            return '(' + ''.join(self.lit(x) + ',' for x in v) + ')'
        return repr(v)

    _ufp = None

    def opt(self, p, ty):
        self._ufp = 1 if ty.k in ('f', 'd') else None
        r = self.op(p, ty)
        self._ufp = None
        return r

    def reg(self, name):
        i = self.regs.get(name)
        if i is None:
            i = self.regs[name] = len(self.regs) + 1
        return i

    def gen(self, f):
        m = self.m
        ret, params, blocks = ir.parse_func(m, f)
        f.ret = ret
        self.regs = {}
        self.fid = self.nfid = getattr(self, 'nfid', 0) + 1
        self.bidx = None
        f.params = [self.reg(n) for _, n in params]
        bidx = {lab: i for i, (lab, _) in enumerate(blocks)}
        self.bidx = bidx
        # phis: block -> list of (reg, ty, {pred: src})
        phis = {}
        for lab, ins in blocks:
            ph = []
            for s in ins:
                mm = re.match(r'^(%\S+|%"[^"]*") = phi (.*)$', s)
                if not mm:
                    break
                body = SUF.sub('', mm.group(2))
                p = P(tokenize(body), m)
                while p.peek() in ('nnan', 'ninf', 'nsz', 'fast', 'contract', 'reassoc', 'arcp', 'afn'):
                    p.next()
                t = p.type()
                inc = {}
                while True:
                    p.expect('[')
                    v = self.opt(p, t)
                    p.expect(',')
                    inc[p.next()] = v
                    p.expect(']')
                    if not p.accept(','):
                        break
                ph.append((self.reg(mm.group(1)), inc))
            phis[lab] = ph

        # side-effect free single-predecessor blocks that only jump on: candidates for merging instead of forking
        preds = {}
        term = {}
        for lab, ins in blocks:
            t = SUF.sub('', ins[-1])
            ts = re.findall(r'label (%[^\s,\]]+|%"[^"]*")', t)
            term[lab] = (t, ts)
            for x in ts:
                preds.setdefault(x, []).append(lab)
        blk = dict(blocks)
        phty = {}
        for lab, ins in blocks:
            phty[lab] = [re.match(r'^(?:%\S+|%"[^"]*") = phi (?:(?:nnan|ninf|nsz|fast|contract|reassoc|arcp|afn) )*(\S+)', s).group(1) for s in ins if re.match(r'^(%\S+|%"[^"]*") = phi ', s)]

        def simple(b):
            t, ts = term[b]
            if not (t.startswith('br label') and len(preds.get(b, ())) == 1 and len(blk[b]) <= 80):
                return False
            for s in blk[b][:-1]:
                if re.match(r'^(store|fence|invoke|resume|%\S+ = (alloca|phi|invoke|landingpad|atomicrmw|cmpxchg))', s):
                    return False
            return True
        self.merge_info = {}
        for lab, ins in blocks:
            t, ts = term[lab]
            if not (t.startswith('br i1') and len(ts) == 2 and ts[0] != ts[1]):
                continue
            A, B = ts
            sa, sb = simple(A), simple(B)
            if sa and sb and term[A][1] == term[B][1]:
                J, sides = term[A][1][0], (A, B)
            elif sa and term[A][1][0] == B:
                J, sides = B, (A, None)
            elif sb and term[B][1][0] == A:
                J, sides = A, (None, B)
            else:
                continue
            if phis[J] and all(x in ('double', 'float') or re.match(r'^i\d+$', x) for x in phty[J]):
                self.merge_info[lab] = (J, sides)

        def edge(frm, to):
            ph = phis[to]
            if not ph:
                return 'return %d' % bidx[to]
            return '%s = %s; return %d' % (','.join('r[%d]' % d for d, _ in ph), ','.join(inc[frm] for _, inc in ph), bidx[to])

        src = []
        names = []
        total = 0
        for lab, ins in blocks:
            bn = 'b%d' % bidx[lab]
            names.append(bn)
            L = ['def %s(E, r):' % bn]
            n = 0
            for s in ins:
                s = SUF.sub('', s)
                if re.match(r'^(%\S+|%"[^"]*") = phi ', s):
                    continue
                n += 1
                for x in self.instr(s, lab, edge):
                    L.append('  ' + x)
            total += n
            src.append('\n'.join(L))
        infos = {}
        for lab, (J, sides) in self.merge_info.items():
            fn = []
            calls = set()
            for k, sd in enumerate(sides):
                nm = 'm%d_%d' % (bidx[lab], k)
                L = ['def %s(E, r):' % nm]
                if sd is not None:
                    for s in blk[sd][:-1]:
                        s = SUF.sub('', s)
                        for x in self.instr(s, sd, edge):
                            L.append('  ' + x)
                        cm = re.search(r'\bcall\b.*?(@[^(\s]+|@"[^"]*"|%\S+)\(', s)
                        if cm:
                            c = cm.group(1)
                            if c[0] == '%':
                                c = '?'
                            elif c[1:].startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias')):
                                continue
                            calls.add(c[1:].strip('"') if c[0] == '@' else c)
                L.append('  return (%s)' % ''.join(inc[sd or lab] + ',' for _, inc in phis[J]))
                src.append('\n'.join(L))
                fn.append(nm)
            infos[lab] = (fn, tuple(calls), [d for d, _ in phis[J]], [{'double': 'd', 'float': 'f'}.get(x) or int(x[1:]) for x in phty[J]], bidx[J])
        code = '\n'.join(src)
        ns = self.ns
        loc = {}
        exec(compile(code, f.name, 'exec'), ns, loc)
        f.merges = {}
        for lab, (fn, calls, d, t, J) in infos.items():
            f.merges[bidx[lab]] = (loc[fn[0]], loc[fn[1]], calls, d, t, J)
            ns['MI_%s_%d' % (self.fid, bidx[lab])] = f.merges[bidx[lab]]
        f.code = [loc[b] for b in names]
        f.nreg = len(self.regs) + 2
        f.ninstr = total
        return f

    def instr(self, s, lab, edge):
        m = self.m
        dst = None
        mm = re.match(r'^(%"[^"]*"|%[^\s=]+) = (.*)$', s)
        if mm:
            dst = 'r[%d]' % self.reg(mm.group(1))
            s = mm.group(2)
        # strip trailing comments
        p = P(tokenize(s), m)
        op = p.next()
        FM = ('nnan', 'ninf', 'nsz', 'fast', 'contract', 'reassoc', 'arcp', 'afn', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'samesign', 'nusw')

        def flags():
            fl = set()
            while p.peek() in FM:
                fl.add(p.next())
            return fl
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            fl = flags()
            t = p.type()
            a = self.opt(p, t)
            p.expect(',')
            b = self.opt(p, t)
            w = t.w
            M = hex(terms.MASK[w])
            fn = {'and': 'and_', 'or': 'or_', 'xor': 'xor_'}.get(op, op)
            conc = {'add': '(a+b)&' + M, 'sub': '(a-b)&' + M, 'mul': '(a*b)&' + M, 'and': 'a&b', 'or': 'a|b', 'xor': 'a^b'}.get(op)
            out = []
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                out.append('E.chkdiv(%s,%d)' % (b, w))
            if op in ('shl', 'lshr', 'ashr'):
                out.append('E.chkshift(%s,%d)' % (b, w))
            if 'nsw' in fl and op in ('add', 'sub', 'mul'):
                out.append('if E.nsw: E.chknsw(%r,%s,%s,%d)' % (op, a, b, w))
            if conc:
                out.append('a=%s;b=%s' % (a, b))
                if b[0] != 'r':
                    cond = 'type(a) is int'
                elif a[0] != 'r':
                    cond = 'type(b) is int'
                else:
                    cond = 'type(a) is int and type(b) is int'
                out.append('%s = %s if %s else %s(a,b,%d)' % (dst, conc, cond, fn, w))
            else:
                out.append('%s = %s(%s,%s,%d)' % (dst, fn, a, b, w))
            return out
        if op == 'icmp':
            flags()
            pred = p.next()
            t = p.type()
            a = self.opt(p, t)
            p.expect(',')
            b = self.opt(p, t)
            w = t.w
            sym = {'eq': 'eq(a,b,%d)', 'ne': 'bnot(eq(a,b,%d))', 'ult': 'ult(a,b,%d)', 'ugt': 'ult(b,a,%d)', 'ule': 'bnot(ult(b,a,%d))',
                   'uge': 'bnot(ult(a,b,%d))', 'slt': 'slt(a,b,%d)', 'sgt': 'slt(b,a,%d)', 'sle': 'bnot(slt(b,a,%d))', 'sge': 'bnot(slt(a,b,%d))'}[pred] % w
            con = {'eq': 'a==b', 'ne': 'a!=b', 'ult': 'a<b', 'ugt': 'a>b', 'ule': 'a<=b', 'uge': 'a>=b'}.get(pred)
            if con is None:
                H = hex(1 << (w - 1))
                con = {'slt': '(a^%s)<(b^%s)', 'sgt': '(a^%s)>(b^%s)', 'sle': '(a^%s)<=(b^%s)', 'sge': '(a^%s)>=(b^%s)'}[pred] % (H, H)
            return ['a=%s;b=%s' % (a, b),
                    '%s = (1 if %s else 0) if type(a) is int and type(b) is int else %s' % (dst, con, sym)]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags()
            t = p.type()
            a = self.opt(p, t)
            p.expect(',')
            b = self.opt(p, t)
            k = t.k
            c = {'fadd': 'a+b', 'fsub': 'a-b', 'fmul': 'a*b'}.get(op)
            if c and k == 'd':
                return ['a=%s;b=%s' % (a, b), '%s = %s if type(a) is float and type(b) is float else %s(a,b,%r)' % (dst, c, op, k)]
            return ['%s = %s(%s,%s,%r)' % (dst, op, a, b, k)]
        if op == 'fneg':
            flags()
            t = p.type()
            return ['%s = fneg(%s,%r)' % (dst, self.opt(p, t), t.k)]
        if op == 'fcmp':
            flags()
            pred = p.next()
            t = p.type()
            a = self.opt(p, t)
            p.expect(',')
            b = self.opt(p, t)
            return ['%s = fcmp(%r,%s,%s,%r)' % (dst, pred, a, b, t.k)]
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            flags()
            t = p.type()
            a = self.opt(p, t)
            if op == 'freeze':
                return ['%s = %s' % (dst, a)]
            p.expect('to')
            t2 = p.type()
            if op == 'trunc':
                return ['a=%s' % a, '%s = a&%s if type(a) is int else extract(a,%d,0,%d)' % (dst, hex(terms.MASK[t2.w]), t2.w - 1, t.w)]
            if op == 'zext':
                return ['a=%s' % a, '%s = a if type(a) is int else zext(a,%d,%d)' % (dst, t.w, t2.w)]
            if op == 'sext':
                return ['%s = sext(%s,%d,%d)' % (dst, a, t.w, t2.w)]
            if op in ('fptrunc', 'fpext'):
                return ['%s = %s(%s)' % (dst, op, a)]
            if op in ('fptosi', 'fptoui'):
                return ['%s = E.%s(%s,%r,%d)' % (dst, op, a, t.k, t2.w)]
            if op in ('uitofp', 'sitofp'):
                return ['%s = %s(%s,%d,%r)' % (dst, op, a, t.w, t2.k)]
            if op in ('ptrtoint', 'inttoptr'):
                if t2.w < t.w:
                    return ['%s = extract(%s,%d,0,%d)' % (dst, a, t2.w - 1, t.w)]
                return ['%s = %s' % (dst, a)]
            if op == 'bitcast':
                if t.k == t2.k:
                    return ['%s = %s' % (dst, a)]
                if t2.k in ('f', 'd'):
                    return ['%s = frombits(%s,%r)' % (dst, a, t2.k)]
                return ['%s = tobits(%s,%r)' % (dst, a, t.k)]
        if op == 'select':
            flags()
            t = p.type()
            c = self.opt(p, t)
            p.expect(',')
            t1 = p.type()
            a = self.opt(p, t1)
            p.expect(',')
            p.type()
            b = self.opt(p, t1)
            rt = m.resolve(t1)
            srt = repr(rt.w if rt.k == 'int' else rt.k)
            return ['a=%s' % c, 'if type(a) is int: %s = %s if a else %s' % (dst, a, b), 'else: %s = E.select(a,%s,%s,%s)' % (dst, a, b, srt)]
        if op == 'alloca':
            t = p.type()
            cnt = '1'
            if p.accept(',') and p.peek() not in ('align',):
                ct = p.type()
                cnt = self.opt(p, ct)
            return ['%s = E.alloca(%d*%s)' % (dst, m.size(t), cnt)]
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = self.opt(p, pt)
            return self.memop(dst, t, a)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = self.opt(p, t)
            p.expect(',')
            pt = p.type()
            a = self.opt(p, pt)
            rt = m.resolve(t)
            if rt.k in ('struct', 'arr'):
                offs = m.layout(rt)[0] if rt.k == 'struct' else [i * m.size(rt.el) for i in range(rt.n)]
                els = rt.els if rt.k == 'struct' else [rt.el] * rt.n
                out = []
                for i, (o, e) in enumerate(zip(offs, els)):
                    k = 'i' if e.k == 'int' else e.k
                    out.append('E.store(add(%s,%d,64),%d,%r,%s[%d])' % (a, o, m.size(e), k, v, i))
                return out
            if rt.k == 'int' and rt.w < 8:
                v = 'zext(%s,%d,8)' % (v, rt.w)
            elif rt.k == 'int' and rt.w not in (8, 16, 32, 64, 128):
                v = 'zext(%s,%d,%d)' % (v, rt.w, m.size(rt) * 8)
            k = 'i' if rt.k == 'int' else rt.k
            return ['E.store(%s,%d,%r,%s)' % (a, m.size(rt), k, v)]
        if op == 'getelementptr':
            flags()
            t = p.type()
            p.expect(',')
            pt = p.type()
            base = self.opt(p, pt)
            off = 0
            terms_ = []
            cur = t
            n = 0
            while p.accept(','):
                it = p.type()
                if p.pk() == 'id' and p.peek()[0] == '%':
                    v = self.op(p, it)
                    iv = None
                else:
                    iv = terms.sx(self.const(p, it), it.w)
                if n == 0:
                    sc = m.size(cur)
                else:
                    c = m.resolve(cur)
                    if c.k == 'struct':
                        off += m.layout(c)[0][iv]
                        cur = c.els[iv]
                        n += 1
                        continue
                    sc = m.size(c.el)
                    cur = c.el
                n += 1
                if iv is not None:
                    off += iv * sc
                else:
                    if it.w != 64:
                        v = 'sext(%s,%d,64)' % (v, it.w)
                    terms_.append((v, sc))
            off &= terms.MASK[64]
            if not terms_:
                return ['a=%s' % base, '%s = (a+%d)&0xffffffffffffffff if type(a) is int else add(a,%d,64)' % (dst, off, off)]
            if len(terms_) == 1:
                v, sc = terms_[0]
                return ['a=%s;b=%s' % (base, v),
                        '%s = (a+b*%d+%d)&0xffffffffffffffff if type(a) is int and type(b) is int else add(add(a,mul(b,%d,64),64),%d,64)' % (dst, sc, off, sc, off)]
            e = base
            for v, sc in terms_:
                e = 'add(%s,mul(%s,%d,64),64)' % (e, v, sc)
            return ['%s = add(%s,%d,64)' % (dst, e, off)]
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return [edge(lab, p.next())]
            t = p.type()
            c = self.opt(p, t)
            p.expect(',')
            p.next()
            l1 = p.next()
            p.expect(',')
            p.next()
            l2 = p.next()
            out = ['a=%s' % c]
            if lab in self.merge_info:
                out += ['if type(a) is not int and E.merging:', '  z = E.merge(a, r, MI_%s_%d)' % (self.fid, self.bidx[lab]), '  if z is not None: return z']
            return out + ['if (a if type(a) is int else E.branch(a)): %s' % edge(lab, l1), edge(lab, l2)]
        if op == 'switch':
            t = p.type()
            c = self.opt(p, t)
            p.expect(',')
            p.next()
            ld = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                v = self.const(p, ct)
                p.expect(',')
                p.next()
                cases.append((v, p.next()))
            out = ['a=%s' % c]
            for v, l in cases:
                out.append('if (a==%d if type(a) is int else E.branch(eq(a,%d,%d))): %s' % (v, v, t.w, edge(lab, l)))
            out.append(edge(lab, ld))
            return out
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return ['return -1']
            return ['r[0] = %s' % self.opt(p, t), 'return -1']
        if op == 'unreachable':
            return ['E.unreachable()']
        if op == 'extractvalue':
            t = p.type()
            a = self.opt(p, t)
            idx = ''
            while p.accept(','):
                idx += '[%s]' % p.next()
            return ['%s = %s%s' % (dst, a, idx)]
        if op == 'insertvalue':
            t = p.type()
            a = self.op(p, t) if not (p.peek() in ('undef', 'poison')) else None
            if a is None:
                p.next()
                rt = m.resolve(t)
                a = '(' + '0,' * (len(rt.els) if rt.k == 'struct' else rt.n) + ')'
            p.expect(',')
            t2 = p.type()
            v = self.opt(p, t2)
            p.expect(',')
            i = int(p.next())
            return ['a=%s' % a, '%s = a[:%d]+(%s,)+a[%d:]' % (dst, i, v, i + 1)]
        if op in ('tail', 'musttail', 'notail', 'call'):
            if op != 'call':
                p.expect('call')
            flags()
            p.attrs()
            while p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            t = p.type()
            callee = p.next()
            if callee == 'asm':
                return ['E.unsup("asm")']
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    p.attrs()
                    if at.k == 'metadata':
                        return []
                    args.append(self.opt(p, at))
                    if p.accept(')'):
                        break
                    p.expect(',')
            cn = callee[1:].strip('"')
            if callee[0] == '@' and (cn.startswith('llvm.lifetime') or cn.startswith('llvm.dbg') or cn.startswith('llvm.experimental.noalias') or cn == 'llvm.assume'):
                return []
            if callee[0] == '@':
                e = 'E.call(%r,(%s))' % (cn, ''.join(a + ',' for a in args))
            else:
                e = 'E.icall(r[%d],(%s))' % (self.reg(callee), ''.join(a + ',' for a in args))
            return ['%s = %s' % (dst, e)] if dst else [e]
        if op == 'fence':
            return []
        return ['E.unsup(%r)' % s]

    def memop(self, dst, t, a):
        m = self.m
        rt = m.resolve(t)
        if rt.k in ('struct', 'arr'):
            offs = m.layout(rt)[0] if rt.k == 'struct' else [i * m.size(rt.el) for i in range(rt.n)]
            els = rt.els if rt.k == 'struct' else [rt.el] * rt.n
            parts = []
            for o, e in zip(offs, els):
                k = 'i' if e.k == 'int' else e.k
                parts.append('E.load(add(%s,%d,64),%d,%r)' % (a, o, m.size(e), k))
            return ['%s = (%s,)' % (dst, ','.join(parts))]
        k = 'i' if rt.k == 'int' else rt.k
        sz = m.size(rt)
        e = 'E.load(%s,%d,%r)' % (a, sz, k)
        if rt.k == 'int' and rt.w != sz * 8:
            e = 'extract(%s,%d,0,%d)' % (e, rt.w - 1, sz * 8)
        return ['%s = %s' % (dst, e)]


class _U:
    def __repr__(self):
        return 'undef'


Undef = _U()


def zero(m, t):
    if t.k == 'int':
        return 0
    if t.k in ('f', 'd'):
        return 0.0
    if t.k == 'arr':
        return tuple([zero(m, m.resolve(t.el))] * t.n) if t.n < 100000 else ('ZERO', m.size(t))
    if t.k == 'struct':
        return tuple(zero(m, m.resolve(e)) for e in t.els)
    return Undef


def decode_str(s):
    s = s[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return tuple(out)
