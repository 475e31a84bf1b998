"""Control flow part of the verification-condition generator: paths, calls, loops."""
import z3, re, time, itertools
import llir, solve, sym
from sym import *

class Frame:
    __slots__ = ('fn', 'mod', 'env', 'id')
    def __init__(s, fn, env, id=0): s.fn, s.mod, s.env, s.id = fn, fn.mod, env, id
    def copy(s): return Frame(s.fn, dict(s.env), s.id)

def consts_of(e, cache={}):
    """names of the free constants / uninterpreted functions of a term"""
    k = e.get_id()
    if k in cache and cache[k][0].eq(e): return cache[k][1]
    seen, out, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: out.add(x.decl().name())
        stack.extend(x.children())
    cache[k] = (e, out)
    return out
def mark_of(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else -1

def conj(e):
    if z3.is_and(e):
        for c in e.children(): yield from conj(c)
    elif z3.is_not(e) and z3.is_or(e.arg(0)):
        for c in e.arg(0).children(): yield from conj(z3.simplify(z3.Not(c)))
    else: yield e

class Ctl(sym.Exec):
    MAXDEPTH = 14
    def run_fn(self, fn, args, st):
        fn.parse()
        if self.depth > self.MAXDEPTH: raise Unsupported('inline depth')
        self.depth += 1
        try:
            env = {}
            if len(args) < len(fn.params): raise Unsupported('arity')
            for (t, n, info), a in zip(fn.params, args): env[n] = a
            fr = Frame(fn, env, next(self.rname))
            out = []
            scope = frozenset(fn.order)
            for r in self.run(fr, st, fn.entry, None, scope, None):
                if r[0] == 'exit': raise Unsupported('internal: exit from function scope')
                out.append((r[0], r[1], r[2]))
            return out
        finally: self.depth -= 1

    def run(self, fr, st, blk, prev, scope, header):
        results, work = [], [(fr, st, blk, prev, 0)]
        inner = fr.fn.sccs(scope - {header}) if header else fr.fn.sccs(scope)
        def goto(fr, st, cur, nxt):
            todo = [(fr, st, cur, nxt)]
            while todo:
                fr, st, cur, nxt = todo.pop()
                if nxt == header: results.append(('stop', st, fr, cur))
                elif nxt not in scope: results.append(('exit', st, fr, (nxt, cur)))
                elif nxt in inner:
                    for r in self.loop(fr, st, nxt, cur, inner[nxt]):
                        if r[0] == 'exit': todo.append((r[2], r[1], r[3][1], r[3][0]))
                        else: results.append(r)
                else: work.append((fr, st, nxt, cur, 0))
        if prev is None and blk in inner:   # entry block itself in a loop
            raise Unsupported('loop at entry')
        while work:
            fr, st, blk, prev, i = work.pop()
            insts = fr.fn.block(blk)
            if i == 0 and prev is not None:
                upd = {}
                for ins in insts:
                    if ins.op != 'phi': break
                    upd[ins.res] = self.phi_val(fr, ins, prev)
                    i += 1
                if not (header and blk == header and prev == '<head>'): fr.env.update(upd)
            while True:
                ins = insts[i]; op = ins.op
                self.steps += 1
                if self.steps % 200 == 0 and time.time() - self.t0 > self.budget: raise Budget('time budget for %s exhausted' % self.fnname)
                if op == 'br':
                    if len(ins.x) == 1: goto(fr, st, blk, ins.x[0]); break
                    c = self.val(fr, ins.a[0], ('i', 1))
                    c = c.t if isinstance(c, Bo) else fresh_bool('undef')
                    sides = self.fork(st, c)
                    for s2, b in sides: goto(fr.copy() if len(sides) > 1 else fr, s2, blk, ins.x[0] if b else ins.x[1])
                    break
                if op == 'switch':
                    v = self.val(fr, ins.a[0], ins.ty); groups = {}
                    for k, l in ins.x[1]: groups.setdefault(l, []).append(k)
                    if isinstance(v, I) and isint(v.t):
                        tgt = ins.x[0]
                        for k, l in ins.x[1]:
                            if k == v.t: tgt = l
                        goto(fr, st, blk, tgt); break
                    rest = st
                    for l, ks in groups.items():
                        cond = simpb(bor(*[self.icmp(st, 'eq', v, I(ins.ty[1], k)).t for k in ks]))
                        if cond is False: continue
                        s2 = rest.copy(); s2.assume(cond)
                        if self.feasible(s2): goto(fr.copy(), s2, blk, l)
                        rest.assume(bnot(cond))
                    if self.feasible(rest): goto(fr.copy(), rest, blk, ins.x[0])
                    break
                if op == 'ret':
                    results.append(('ret', st, self.val(fr, ins.a[0], ins.ty) if ins.a else None)); break
                if op == 'unreachable':
                    break
                if op == 'resume': results.append(('exc', st, 'error')); break
                if op in ('call', 'invoke'):
                    rs = self.call(fr, st, ins)
                    cont = [r for r in rs if r[0] == 'ret']
                    for r in rs:
                        if r[0] == 'exc':
                            # a handler for conduit::Error is run; clean-up of locals is not
                            if op == 'invoke' and self.opts.get('catch') and fr.fn.catches(ins.x[1][1]): goto(fr.copy(), r[1], blk, ins.x[1][1])
                            else: results.append(('exc', r[1], r[2]))
                    if len(cont) == 1 and op == 'call':
                        st = cont[0][1]
                        if ins.res: fr.env[ins.res] = cont[0][2]
                        i += 1; continue
                    for r in cont:
                        f2 = fr.copy() if len(cont) > 1 else fr
                        if ins.res: f2.env[ins.res] = r[2]
                        if op == 'invoke': goto(f2, r[1], blk, ins.x[1][0])
                        else: work.append((f2, r[1], blk, prev, i + 1))
                    break
                if op == 'select':
                    c = self.val(fr, ins.a[0], ('i', 1)); c = c.t if isinstance(c, Bo) else fresh_bool('undef')
                    a, b = self.val(fr, ins.a[1], ins.ty), self.val(fr, ins.a[2], ins.ty)
                    v = self.ite(st, simpb(c), a, b, ins.ty)
                    if v is None:
                        sides = self.fork(st, c)
                        for s2, t in sides:
                            f2 = fr.copy(); f2.env[ins.res] = a if t else b
                            work.append((f2, s2, blk, prev, i + 1))
                        break
                    fr.env[ins.res] = v; i += 1; continue
                r = self.step(fr, st, ins)
                if ins.res: fr.env[ins.res] = r
                i += 1
        return results

    def phi_val(self, fr, ins, prev):
        if prev == '<head>': return None
        for v, l in ins.x:
            if l == prev: return self.val(fr, v, ins.ty)
        raise Unsupported('phi from ' + prev)

    def step(self, fr, st, ins):
        op = ins.op
        if op in llir.BIN:
            return self.binop(st, op, ins.ty, self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty))
        if op == 'icmp': return self.icmp(st, ins.x, self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty))
        if op == 'fcmp': return self.fcmp(ins.x, self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty))
        if op == 'load':
            p = self.val(fr, ins.a[0], ('ptr',))
            if isinstance(p, P) and isinstance(p.base, str) and p.base.startswith('@G:'):
                if not self.materialize_global(st, p.base, fr.mod): raise Unsupported('load of global ' + p.base)
            return self.load(st, p, ins.ty, fr.mod)
        if op == 'store':
            p = self.val(fr, ins.a[1], ('ptr',)); v = self.val(fr, ins.a[0], ins.ty)
            if isinstance(v, Un) and isinstance(p, P) and not (isinstance(p.base, str) and p.base in st.objs):
                t = fr.mod.ty(ins.ty)
                v = B(t[1], fresh_bv(t[1], 'undef')) if t[0] == 'i' and t[1] > 1 else (F(t[1], fresh_bv(t[1], 'undef')) if t[0] == 'f' else self.fresh_of(st, t, 'undef'))
            self.store(st, p, v, ins.ty, fr.mod); return None
        if op == 'getelementptr':
            return self.gep(fr, self.val(fr, ins.a[0], ('ptr',)), ins.ty, [(t, self.val(fr, o, t)) for t, o in ins.x])
        if op == 'alloca':
            t = fr.mod.ty(ins.ty)
            if (t[0] == 'arr' and fr.mod.ty(t[2]) == ('i', 8) and t[1] > 8) or ins.a:
                return P(self.new_region(st, 'buf', 'stk' + ins.res), 0)
            return P(self.new_region(st, 'obj', 'stk' + ins.res), 0)
        if op == 'trunc': return self.trunc(st, self.val(fr, ins.a[0], ins.x), ins.ty[1])
        if op in ('zext', 'sext'): return self.ext(st, self.val(fr, ins.a[0], ins.x), ins.ty[1], op == 'sext')
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            return self.fcast(op, self.val(fr, ins.a[0], ins.x), ins.x, ins.ty)
        if op == 'ptrtoint':
            p = self.val(fr, ins.a[0], ins.x)
            if isinstance(p, P) and p.base is None: return I(64, p.off)
            return PI(p.base, p.off)
        if op == 'inttoptr':
            v = self.val(fr, ins.a[0], ins.x)
            if isinstance(v, PI): return P(v.base, v.off)
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            v = self.val(fr, ins.a[0], ins.x)
            if ins.ty[0] == 'f': return F(ins.ty[1], to_bv(v))
            if isinstance(v, F): return B(v.w, v.t)
            return v
        if op == 'fneg':
            v = self.val(fr, ins.a[0], ins.ty)
            return F(v.w, v.t ^ z3.BitVecVal(1 << (v.w - 1), v.w))
        if op == 'freeze': return self.val(fr, ins.a[0], ins.ty)
        if op == 'extractvalue':
            v = self.val(fr, ins.a[0], ins.ty)
            if isinstance(v, Agg):
                return v.d.get(tuple(ins.x), Un())
            raise Unsupported('extractvalue')
        if op == 'insertvalue':
            v = self.val(fr, ins.a[0], ins.ty); w = self.val(fr, ins.a[1], ('ptr',)) if ins.a[1][0] == 'l' else Un()
            d = dict(v.d) if isinstance(v, Agg) else {}
            d[tuple(ins.x)] = w
            return Agg(d)
        if op == 'landingpad': return Agg({(0,): P('exn', 0), (1,): I(32, 1)})
        raise Unsupported('instruction ' + ins.text[:80])

    # ---------------------------------------------------------- calls
    def call(self, fr, st, ins):
        cal = ins.x[0]
        if cal[0] == 'l':
            v = fr.env.get(cal[1])
            if isinstance(v, P) and isinstance(v.base, str) and v.base.startswith('@F:'): cal = ('g', v.base[3:])
        if cal[0] != 'g': raise Unsupported('indirect call')
        nm = cal[1]
        if nm.startswith('@llvm.'): return self.intrinsic(fr, st, ins, nm)
        args = [self.val(fr, o, t) for t, o, info in ins.a]
        dn = self.prog.dem.get(nm) or nm
        c = self.contracts.get(dn)
        if c is None and '*' in self.contracts: c = self.contracts['*'](dn)
        if c is not None:
            r = c(self, st, args, ins, fr)
            if r is not None:
                self.used_contracts.add(dn)
                return [x for x in r if self.feasible(x[1])] if len(r) > 1 else r
        if dn.startswith('conduit::utils::handle_error('): return [('exc', st, 'error')]
        if dn.startswith('conduit::utils::handle_warning('): return self.warning(st)
        h = self.model_cache.get(dn, 0)
        if h == 0:
            h = None
            for rx, fnc in self.models:
                m = rx.match(dn)
                if m: h = (fnc, m, rx.pattern); break
            self.model_cache[dn] = h
        if h:
            r = h[0](self, st, args, ins, fr, h[1])
            if r is not None:
                self.used_models.add(h[2])
                if isinstance(r, list): return [x for x in r if self.feasible(x[1])] if len(r) > 1 else r
                return [('ret', st, r if r is not True else None)]
        f = self.prog.f.get(nm)
        if f is None: raise Unsupported('external call ' + dn)
        for k, (t, o, info) in enumerate(ins.a):
            if 'byval' in info:
                n = self.new_region(st, 'obj', 'byval'); self.memcpy(st, P(n, 0), args[k], fr.mod.size(info['byval'])); args[k] = P(n, 0)
        self.inlined.add(dn)
        return self.run_fn(f, args, st)

    def warning(self, st):
        a = st.copy(); a.log.append('warning')
        b = st.copy()
        return [('ret', a, None), ('exc', b, 'warning')] if self.opts.get('warn_throws') else [('ret', a, None)]

    def intrinsic(self, fr, st, ins, nm):
        if nm.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume', '@llvm.donothing')): return [('ret', st, None)]
        args = [self.val(fr, o, t) for t, o, i in ins.a]
        if nm.startswith(('@llvm.memcpy', '@llvm.memmove')):
            for a in args[:2]:
                if isinstance(a, P) and isinstance(a.base, str) and a.base.startswith('@G:'): self.materialize_global(st, a.base, fr.mod)
            self.memcpy(st, args[0], args[1], to_int(args[2])); return [('ret', st, None)]
        if nm.startswith('@llvm.memset'):
            self.memset(st, args[0], args[1], to_int(args[2])); return [('ret', st, None)]
        if nm == '@llvm.trap': return []
        if nm.startswith(('@llvm.smax', '@llvm.smin')):
            c = self.icmp(st, 'sgt' if 'smax' in nm else 'slt', args[0], args[1]).t
            return [('ret', st, self.ite(st, c, args[0], args[1], ins.ty))]
        if nm.startswith('@llvm.bswap'):
            b = to_bv(args[0]); n = b.size() // 8
            return [('ret', st, B(b.size(), z3.Concat(*[z3.Extract(8*i+7, 8*i, b) for i in range(n)])))]
        if nm.startswith('@llvm.fabs'):
            v = args[0]; return [('ret', st, F(v.w, v.t & z3.BitVecVal((1 << (v.w-1)) - 1, v.w)))]
        if nm == '@llvm.umul.with.overflow.i64':
            x, y = zi(to_int(args[0])), zi(to_int(args[1])); x, y = z3.If(x < 0, x + 2**64, x), z3.If(y < 0, y + 2**64, y); v = z3.simplify(x * y)
            return [('ret', st, Agg({(0,): I(64, z3.If(v < 2**63, v, fresh_int('mul'))), (1,): Bo(v >= 2**64)}))]
        if nm.startswith('@llvm.eh.typeid'): return [('ret', st, I(32, 1))]
        raise Unsupported('intrinsic ' + nm)

    # ---------------------------------------------------------- loops
    UNROLL = 70
    def loop(self, fr, st, h, prev, S):
        r = self.try_concrete(fr, st, h, prev, S)
        if r is not None: return r
        return self.cut(fr, st, h, prev, S)

    def try_concrete(self, fr, st, h, prev, S):
        """fully concrete loops are executed"""
        f2, s2, p2 = fr.copy(), st.copy(), prev
        n0 = len(st.pc); saved = len(self.obls); obls = []
        for k in range(self.UNROLL):
            old = len(self.obls)
            # is the loop decision concrete?  one probing execution of the body
            self.trial += 1
            try: rs = self.run(f2.copy(), s2.copy(), h, p2, S, h)
            except Unsupported: return None
            finally: self.trial -= 1
            if len(rs) != 1: return None
            x = rs[0]
            if len([c for c in x[1].pc[n0:]]) > 24: return None
            if not self.trial: rs = self.run(f2.copy(), s2.copy(), h, p2, S, h); x = rs[0]
            if x[0] == 'stop': 
                if k == 0 and len(x[1].pc) > len(s2.pc) + 4: return None
                s2, f2, p2 = x[1], x[2], x[3]; continue
            self.unwound += 1
            return [x]
        return None

    def havoc_val(self, st, v, key, kinds, tag):
        """fresh value of the same kind; returns (value, int symbol or None)"""
        if isinstance(v, Un): return v, None
        if kinds.get(key) == 'B' and isinstance(v, I): return B(v.w, fresh_bv(v.w, tag)), None
        if kinds.get(key) == 'I' and isinstance(v, B): v = I(v.w, to_int(v))
        if isinstance(v, I):
            t = fresh_int(tag)
            return I(v.w, t), t
        if isinstance(v, B): return B(v.w, fresh_bv(v.w, tag)), None
        if isinstance(v, F): return F(v.w, fresh_bv(v.w, tag)), None
        if isinstance(v, Bo): return Bo(fresh_bool(tag)), None
        if isinstance(v, P):
            if v.base is None and self.opts.get('abs'):      # plain addresses (nothing is read through them)
                t = fresh_int(tag); return P(None, t), t
            if kinds.get(key) == 'ref' or not isinstance(v.base, str):
                return P(fresh_int(tag + '.ref'), 0), None
            t = fresh_int(tag)
            e = st.tarr[v.base][0] if v.base in st.tarr else 1
            if e > 1 and div_exact(v.off, e) is not None: return P(v.base, lmul(t, e)), t      # an iterator stays on element boundaries (checked at each step)
            return P(v.base, t), t
        if isinstance(v, PI):
            t = fresh_int(tag); return PI(v.base, t), t
        raise Unsupported('havoc %r' % (v,))
    @staticmethod
    def int_of(v):
        if isinstance(v, I): return v.t
        if isinstance(v, (P, PI)): return v.off
        return None
    def with_int(self, v, t):
        if isinstance(v, I): return I(v.w, t)
        if isinstance(v, P): return P(v.base, t)
        if isinstance(v, PI): return PI(v.base, t)

    def get_mem(self, st, key):
        if key[0] == 'obj':
            c = st.objs.get(key[1], {}).get(key[2]); return c[1] if c else None
        return None

    def cut(self, fr, st, h, prev, S):
        if time.time() - self.t0 > self.budget: raise Budget('time budget for %s exhausted' % self.fnname)
        phis = []
        for ins in fr.fn.block(h):
            if ins.op != 'phi': break
            phis.append(ins)
        entry_phis = {p.res: self.phi_val(fr, p, prev) for p in phis}
        loop = Loop(fr.fn, h, st, entry_phis)
        it = fresh_int('it')
        mods, kinds, affine, noaff = set(), {}, {}, set()
        cands = None
        final = False
        for rnd in range(60):
            st_h, fr_h = st.copy(), fr.copy()
            st_h.writes = set()
            st_h.assume(it >= 0)
            heads, syms = {}, {}
            for p in phis:
                key = ('phi', p.res); e = entry_phis[p.res]
                if key in affine:
                    v = self.with_int(e, ladd(self.int_of(e), lmul(affine[key], it)))
                else:
                    v, s = self.havoc_val(st_h, e, key, kinds, 'phi')
                    if s is not None: syms[key] = s
                heads[key] = v; fr_h.env[p.res] = v
            for key in sorted(mods, key=str):
                if key[0] == 'obj':
                    c = st.objs[key[1]].get(key[2])
                    if c is None:
                        st_h.objs[key[1]].pop(key[2], None); continue
                    if key in affine: v = self.with_int(c[1], ladd(self.int_of(c[1]), lmul(affine[key], it)))
                    else:
                        v, s = self.havoc_val(st_h, c[1], key, kinds, 'cell')
                        if s is not None: syms[key] = s
                    heads[key] = v; st_h.objs[key[1]][key[2]] = (c[0], v)
                elif key[0] == 'buf': st_h.bufs[key[1]] = fresh_arr('hv')
                elif key[0] == 'tarr':
                    e, k, a = st.tarr[key[1]]; st_h.tarr[key[1]] = (e, k, z3.Const('hv!%d' % next(sym._cnt), a.sort()))
                elif key[0] == 'heap': st_h.heap[key[1]] = fresh_arr('hv', rng=self.heap_arr(st, key[1]).sort().range())
                elif key[0] == 'ghost':
                    g = st.ghost.get(key[1])
                    if g is None: st_h.ghost.pop(key[1], None)
                    else: st_h.ghost[key[1]] = self.havoc_ghost(st_h, g)
            hv = View(st_h, it, {p.res: fr_h.env[p.res] for p in phis}); hv.entry = st; hv.env = fr_h.env
            ev = View(st, z3.IntVal(0), entry_phis); ev.entry = st; ev.env = fr.env
            for hook in self.lemma_hooks:
                for fct in hook(self, hv): st_h.assume(fct)
            if cands is not None:
                for nme, c in cands:
                    x = c(hv)
                    if x is not None: st_h.assume(x)
            npc = len(st_h.pc); markc = next(sym._cnt)
            quiet = not (final and not self.trial)
            if quiet: self.trial += 1
            try: rs = self.run(fr_h.copy(), st_h.copy(), h, '<head>', S, h)
            finally:
                if quiet: self.trial -= 1
            if final:
                if not self.trial: self.cutloops += 1
                out = []
                for r in rs:
                    if r[0] == 'stop': continue
                    r[1].writes |= mods | st.writes
                    out.append(r)
                return out
            backs = [r for r in rs if r[0] == 'stop']
            # 1. modified memory
            new = set()
            for r in backs:
                for w in r[1].writes:
                    if w in mods: continue
                    if w[0] == 'obj' and w[1] not in st.objs: continue
                    if w[0] == 'buf' and w[1] not in st.bufs: continue
                    if w[0] == 'tarr' and w[1] not in st.tarr: continue
                    if w[0] == 'ghost' and (w[1] not in st.ghost and not isinstance(w[1][0], str)): continue
                    if w[0] == 'ghost' and isinstance(w[1][0], str) and w[1] not in st.ghost and w[1][0] not in st.objs: continue
                    new.add(w)
            if new: mods |= new; cands = None; continue
            bviews = []
            redo = False
            for r in backs:
                bp = {p.res: self.phi_val(r[2], p, r[3]) for p in phis}
                v = View(r[1], it + 1, bp); v.entry = st; v.env = r[2].env; bviews.append(v)
                vals = [(('phi', p.res), heads[('phi', p.res)], bp[p.res]) for p in phis]
                vals += [(k, heads[k], self.get_mem(r[1], k)) for k in heads if k[0] == 'obj']
                for key, hvv, bv in vals:
                    if isinstance(hvv, Un):
                        continue
                    if bv is None or isinstance(bv, Un): continue
                    if isinstance(hvv, I) and isinstance(bv, I) and kinds.get(key) != 'B' and not isint(bv.t) and has_bv2int(bv.t):
                        e0 = entry_phis.get(key[1]) if key[0] == 'phi' else self.get_mem(st, key)
                        if isinstance(e0, I) and isint(e0.t): kinds[key] = 'B'; affine.pop(key, None); redo = True
                    elif isinstance(hvv, I) and isinstance(bv, B):
                        want = 'B' if isinstance(entry_phis.get(key[1]) if key[0] == 'phi' else self.get_mem(st, key), I) and isint(self.int_of(entry_phis.get(key[1]) if key[0] == 'phi' else self.get_mem(st, key))) else None
                        if want and kinds.get(key) != 'B': kinds[key] = 'B'; affine.pop(key, None); redo = True
                    elif isinstance(hvv, P) and isinstance(bv, P):
                        if isinstance(hvv.base, str) and hvv.base in st.tarr and key in syms and self.same_base(hvv.base, bv.base) and st.tarr[hvv.base][0] > 1 and div_exact(hvv.off, st.tarr[hvv.base][0]) is not None and div_exact(bv.off, st.tarr[hvv.base][0]) is None: raise Unsupported('iterator leaves element boundaries')
                        if not self.same_base(hvv.base, bv.base):
                            if isinstance(hvv.base, str) or hvv.base is None:
                                if kinds.get(key) == 'ref': pass
                                elif isinstance(bv.base, str) and isinstance(hvv.base, str): raise Unsupported('pointer moves between regions in a loop')
                                else: kinds[key] = 'ref'; affine.pop(key, None); redo = True
                    elif type(hvv) is not type(bv) and not (isinstance(hvv, B) and isinstance(bv, I)):
                        raise Unsupported('loop value changes kind %r %r' % (hvv, bv))
            if redo: cands = None; continue
            # 2. affine variables
            allsyms = {s.decl().name() for s in syms.values()}
            def delta(key, head, back):
                d = cint(z3.simplify(zi(self.int_of(back)) - zi(self.int_of(head)), som=True))
                if isint(d): return d
                for c in consts_of(d):
                    if mark_of(c) >= markc or c == it.decl().name() or c in allsyms or c.startswith('hv!') : return None
                return d
            changed = False
            for key in list(syms) + list(affine):
                ds = []
                for v in bviews:
                    b = v.phis[key[1]] if key[0] == 'phi' else self.get_mem(v.st, key)
                    if b is None or isinstance(b, Un) or self.int_of(b) is None or isinstance(b, P) and not self.same_base(b.base, heads[key].base): ds.append(None); continue
                    ds.append(delta(key, heads[key], b))
                ok = bool(ds) and all(d is not None for d in ds) and all((isint(d) and isint(ds[0]) and d == ds[0]) or (not isint(d) and not isint(ds[0]) and d.eq(ds[0])) for d in ds)
                if key in affine:
                    if ds and (not ok or not self.same_term(ds[0], affine[key])):
                        del affine[key]; noaff.add(key); changed = True
                elif ok and key not in noaff and kinds.get(key) != 'ref':
                    affine[key] = ds[0]; changed = True
            if changed: cands = None; continue
            # 3. invariant candidates
            if cands is None:
                cands = self.candidates(loop, st, st_h, it, npc, backs, bviews, markc, heads, syms, affine, entry_phis, hv)
                kept = []
                for nme, c in cands:
                    x = c(ev)
                    if x is None: continue
                    x = simpb(x)
                    if x is True or (x is not False and solve.fast_valid(st.pc, x, 3000)): kept.append((nme, c))
                cands = kept
                if not bviews: final = True
                continue
            drop = set()
            for v in bviews:
                for k, (nme, c) in enumerate(cands):
                    if k in drop: continue
                    x = c(v)
                    if x is None: drop.add(k); continue
                    x = simpb(x)
                    if x is True: continue
                    if x is False or not solve.fast_valid(v.st.pc, x, 6000): drop.add(k)
            if drop:
                if self.opts.get('debug'): print('  [loop %s %s] dropped: %s' % (fr.fn.name[:40], h, [cands[k][0] for k in drop]))
                cands = [c for k, c in enumerate(cands) if k not in drop]
            else:
                if self.opts.get('debug'): print('  [loop %s %s] kept: %s affine %s mods %s' % (fr.fn.name[:40], h, [c[0] for c in cands], affine, mods))
                final = True
                if not self.trial:
                    for nme, c in cands:
                        self.obls.append({'name': 'loop invariant established and preserved: ' + nme, 'fn': self.fnname, 'status': 'valid', 'backend': 'z3', 'time': 0, 'model': None, 'goal': ''})
        raise Unsupported('loop invariant inference did not stabilise')

    def same_term(self, a, b):
        if isint(a) or isint(b): return isint(a) and isint(b) and a == b
        return a.eq(b)
    def havoc_ghost(self, st, g):
        if isinstance(g, dict):
            return {k: (z3.Const('hv!%d' % next(sym._cnt), v.sort()) if z3.is_expr(v) else v) if not isint(v) else fresh_int('hv') for k, v in g.items()}
        if z3.is_expr(g): return z3.Const('hv!%d' % next(sym._cnt), g.sort())
        if isint(g): return fresh_int('hv')
        return g

    def candidates(self, loop, st, st_h, it, npc, backs, bviews, markc, heads, syms, affine, entry_phis, hv):
        out, seen = [], set()
        hs = {s.decl().name() for s in syms.values()}
        for r in backs:
            for a0 in r[1].pc[npc:]:
                for a in conj(a0):
                    if a.get_id() in seen: continue
                    seen.add(a.get_id())
                    cs = consts_of(a)
                    if it.decl().name() not in cs: continue
                    if any(mark_of(c) >= markc or c in hs or c.startswith('hv!') or c.startswith('phi!') for c in cs): continue
                    out.append(('guard held in the previous iteration: %s' % str(a)[:60],
                                lambda v, a=a: z3.Or(v.it == 0, z3.substitute(a, (it, v.it - 1)))))
                    e = a.arg(0) if z3.is_not(a) else a
                    if z3.is_eq(e) and z3.is_int(e.arg(0)):
                        for o in (e.arg(0) <= e.arg(1), e.arg(0) >= e.arg(1)):
                            out.append(('bound %s' % str(o)[:60], lambda v, o=o: z3.substitute(o, (it, v.it))))
                    if z3.is_or(e) or z3.is_distinct(a): 
                        pass
        for key, s in syms.items():
            e = self.int_of(entry_phis[key[1]]) if key[0] == 'phi' else self.int_of(self.get_mem(st, key))
            def cur(v, key=key):
                x = v.phis.get(key[1]) if key[0] == 'phi' else self.get_mem(v.st, key)
                t = None if x is None else self.int_of(x)
                return None if t is None else zi(t)
            for nme, f in (('>= entry', lambda c, v, e=e: c >= zi(e)), ('<= entry', lambda c, v, e=e: c <= zi(e)),
                           ('<= entry+it', lambda c, v, e=e: c <= zi(e) + v.it), ('>= 0', lambda c, v: c >= 0)):
                out.append(('%s %s' % (key[-1], nme), lambda v, f=f, cur=cur: (lambda c: None if c is None else f(c, v))(cur(v))))
        for tpl in self.templates:
            out += tpl(self, loop, hv)
        return out
