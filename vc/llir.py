"""Reader for the textual LLVM IR that clang emits for the real sources."""
import re, subprocess, struct, shutil, os, pickle
CXXFILT = shutil.which('llvm-cxxfilt-18') or shutil.which('llvm-cxxfilt') or 'c++filt'

TOK = re.compile(r'''\s*(?:
 (?P<lv>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)|
 (?P<gv>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)|
 (?P<cs>c"(?:[^"\\]|\\.)*")|
 (?P<st>"(?:[^"\\]|\\.)*")|
 (?P<hx>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<fl>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)|
 (?P<nu>-?[0-9]+)|
 (?P<md>![-a-zA-Z$._0-9]*)|
 (?P<at>\#[0-9]+)|
 (?P<wd>[a-zA-Z_][-a-zA-Z_0-9.]*)|
 (?P<el>\.\.\.)|
 (?P<pu>[\[\](){}<>,=*:|$])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ParseError('tokenize: ' + s[i:i+60])
        if m.group(0).strip() == '': break
        out.append(m.group(0).strip()); i = m.end()
        if s[i:i+2].strip().startswith(';'): break
    return out

class ParseError(Exception): pass

ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','readnone','writeonly',
 'returned','dead_on_unwind','writable','immarg','nofree','nest','swiftself','noinline','local_unnamed_addr','dso_local',
 'fastcc','ccc','coldcc','unnamed_addr','inbounds','nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc',
 'disjoint','nneg','volatile','tail','musttail','notail','weak_odr','linkonce_odr','internal','hidden','external','weak','private','linkonce','available_externally','samesign', 'captures', 'range', 'inrange'}
PATTRS = {'align','dereferenceable','dereferenceable_or_null','sret','byval','byref','inalloca','elementtype','preallocated','memory','allocsize','nofpclass'}

class T:  # token cursor
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0): return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        if not self.eat(x): raise ParseError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)[:200]))
    def more(self): return self.i < len(self.t)

# types: ('i',w) ('f',w) ('ptr',) ('void',) ('arr',n,t) ('st',[t..],packed) ('named',name) ('vec',n,t) ('label',) ('metadata',) ('fn',)
def ptype(c):
    k = c.next()
    if re.fullmatch(r'i\d+', k): t = ('i', int(k[1:]))
    elif k == 'float': t = ('f', 32)
    elif k == 'double': t = ('f', 64)
    elif k == 'x86_fp80': t = ('f', 80)
    elif k == 'ptr': t = ('ptr',)
    elif k in ('void','label','metadata','token'): t = (k,)
    elif k[0] == '%': t = ('named', k)
    elif k == '[':
        n = int(c.next()); assert c.next() == 'x'; e = ptype(c); c.expect(']'); t = ('arr', n, e)
    elif k == '<':
        if c.peek() == '{':
            c.next(); fs = plist(c, '}'); c.expect('>'); t = ('st', tuple(fs), True)
        else:
            n = int(c.next()); c.next(); e = ptype(c); c.expect('>'); t = ('vec', n, e)
    elif k == '{': t = ('st', tuple(plist(c, '}')), False)
    elif k == 'opaque': t = ('opaque',)
    else: raise ParseError('type ' + k)
    while c.peek() == '(' :   # function type
        d = 0
        while True:
            x = c.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: break
        t = ('fn', t)
    while c.eat('*'): t = ('ptr',)
    return t
def plist(c, end):
    r = []
    if c.eat(end): return r
    while True:
        r.append(ptype(c))
        if c.eat(end): return r
        c.expect(',')

def skip_attrs(c):
    info = {}
    while True:
        k = c.peek()
        if k in ATTRS: 
            c.next()
            if k in ('range','captures') and c.peek() == '(': _paren(c)
        elif k in PATTRS:
            c.next()
            if c.peek() == '(':
                if k in ('sret','byval','elementtype','byref'):
                    c.next(); info[k] = ptype(c); c.expect(')')
                else: _paren(c)
            elif k == 'align': c.next()
        elif k and k[0] == '#': c.next()
        else: return info
def _paren(c):
    d = 0
    while True:
        x = c.next()
        if x == '(': d += 1
        elif x == ')':
            d -= 1
            if d == 0: return

# operands: ('l',name) ('g',name) ('c',int) ('fc',bits) ('null',) ('undef',) ('zero',) ('gep',srcty,base,[ (ty,op) ]) ('cast',op,ty)
def pval(c, ty):
    k = c.next()
    if k[0] == '%': return ('l', k)
    if k[0] == '@': return ('g', k)
    if k == 'true': return ('c', 1)
    if k == 'false': return ('c', 0)
    if k == 'null': return ('null',)
    if k in ('undef', 'poison'): return ('undef',)
    if k == 'zeroinitializer': return ('zero',)
    if k.startswith('0x'):
        if k[2] in 'KLMHR': return ('undef',)
        b = int(k, 16)
        if ty == ('f', 32):
            f = struct.unpack('>d', struct.pack('>Q', b))[0]
            b = _f32(f)
        return ('fc', b)
    if ty[0] == 'f' and (re.fullmatch(r'-?\d+\.\d*(e[-+]?\d+)?', k) ):
        f = float(k)
        b = struct.unpack('>Q', struct.pack('>d', f))[0] if ty[1] == 64 else _f32(f)
        return ('fc', b)
    if re.fullmatch(r'-?\d+', k): return ('c', int(k))
    if k == 'getelementptr':
        skip_attrs(c); c.expect('('); st = ptype(c); c.expect(',')
        bt = ptype(c); base = pval(c, bt); idx = []
        while c.eat(','):
            skip_attrs(c)
            t = ptype(c); idx.append((t, pval(c, t)))
        c.expect(')')
        return ('gep', st, base, idx)
    if k in ('bitcast','ptrtoint','inttoptr','addrspacecast'):
        c.expect('('); t = ptype(c); v = pval(c, t); c.expect('to'); t2 = ptype(c); c.expect(')')
        return ('cast', k, t, v, t2)
    if k.startswith('c"'): return ('str', k[1:])
    if k in '[{<':
        end = {'[': ']', '{': '}', '<': '>'}[k]
        items = []
        if not c.eat(end):
            while True:
                t = ptype(c); items.append((t, pval(c, t)))
                if c.eat(end): break
                c.expect(',')
        return ('agg', items)
    raise ParseError('value ' + k + ' in ' + ' '.join(c.t)[:160])
def _f32(f):
    import math
    if math.isnan(f): return 0x7fc00000
    return struct.unpack('>I', struct.pack('>f', f))[0]

def unescape(s):
    s = s[1:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out += s[i].encode('latin1', 'replace'); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op','res','ty','a','x','text')
    def __init__(s, op, res, ty=None, a=(), x=None, text=''): s.op, s.res, s.ty, s.a, s.x, s.text = op, res, ty, a, x, text
    def __repr__(s): return s.text

BIN = {'add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','bitcast','ptrtoint','inttoptr','addrspacecast'}

def pinst(line):
    c = T(tokenize(line)); res = None
    if c.peek(1) == '=':
        res = c.next(); c.next()
    op = c.next()
    if op in ('tail','musttail','notail'): op = c.next()
    I = lambda *a, **k: Inst(op, res, *a, text=line.strip(), **k)
    if op in BIN:
        skip_attrs(c); t = ptype(c); a = pval(c, t); c.expect(','); b = pval(c, t); return I(t, (a, b))
    if op == 'fneg':
        skip_attrs(c); t = ptype(c); return I(t, (pval(c, t),))
    if op in CAST:
        skip_attrs(c); t = ptype(c); a = pval(c, t); c.expect('to'); t2 = ptype(c); return I(t2, (a,), x=t)
    if op in ('icmp','fcmp'):
        skip_attrs(c); pred = c.next(); 
        t = ptype(c); a = pval(c, t); c.expect(','); b = pval(c, t); return I(t, (a, b), x=pred)
    if op == 'select':
        skip_attrs(c); t0 = ptype(c); p = pval(c, t0); c.expect(','); t = ptype(c); a = pval(c, t); c.expect(','); ptype(c); b = pval(c, t)
        return I(t, (p, a, b))
    if op == 'phi':
        skip_attrs(c); t = ptype(c); inc = []
        while True:
            c.expect('['); v = pval(c, t); c.expect(','); l = c.next(); c.expect(']'); inc.append((v, l))
            if not c.eat(','): break
        return I(t, (), x=inc)
    if op == 'br':
        if c.peek() == 'label': c.next(); return I(None, (), x=[c.next()])
        t = ptype(c); p = pval(c, t); c.expect(','); c.expect('label'); l1 = c.next(); c.expect(','); c.expect('label'); l2 = c.next()
        return I(None, (p,), x=[l1, l2])
    if op == 'switch':
        t = ptype(c); v = pval(c, t); c.expect(','); c.expect('label'); d = c.next(); c.expect('['); cs = []
        while not c.eat(']'):
            t2 = ptype(c); k = pval(c, t2); c.expect(','); c.expect('label'); cs.append((k[1], c.next()))
        return I(t, (v,), x=(d, cs))
    if op == 'ret':
        t = ptype(c)
        if t == ('void',): return I(t, ())
        return I(t, (pval(c, t),))
    if op in ('unreachable',): return I()
    if op == 'load':
        skip_attrs(c); t = ptype(c); c.expect(','); pt = ptype(c); return I(t, (pval(c, pt),))
    if op == 'store':
        skip_attrs(c); t = ptype(c); v = pval(c, t); c.expect(','); pt = ptype(c); return I(t, (v, pval(c, pt)))
    if op == 'alloca':
        t = ptype(c); n = None
        if c.eat(',') and c.peek() != 'align':
            nt = ptype(c); n = pval(c, nt)
        return I(t, (n,) if n else ())
    if op == 'getelementptr':
        skip_attrs(c); st = ptype(c); c.expect(','); bt = ptype(c); base = pval(c, bt); idx = []
        while c.eat(','):
            t = ptype(c); idx.append((t, pval(c, t)))
        return I(st, (base,), x=idx)
    if op in ('call', 'invoke'):
        skip_attrs(c); rt = ptype(c)
        if rt[0] == 'fn': rt = rt[1]
        cal = pval(c, ('ptr',)) if c.peek()[0] in '%@' else None
        if cal is None: return I(rt, (), x=('?', None, None))
        c.expect('('); args = []
        if not c.eat(')'):
            while True:
                t = ptype(c); info = skip_attrs(c)
                if t == ('metadata',):
                    while c.peek() not in (',', ')'): c.next()
                    args.append((t, ('undef',), info))
                else: args.append((t, pval(c, t), info))
                if c.eat(')'): break
                c.expect(',')
        nl = None
        if op == 'invoke':
            while c.more() and c.peek() != 'to': c.next()
            c.expect('to'); c.expect('label'); nl = c.next()
            c.expect('unwind'); c.expect('label'); nl = (nl, c.next())
        return I(rt, args, x=(cal, nl))
    if op == 'extractvalue':
        t = ptype(c); v = pval(c, t); idx = []
        while c.eat(','): idx.append(int(c.next()))
        return I(t, (v,), x=idx)
    if op == 'insertvalue':
        t = ptype(c); v = pval(c, t); c.expect(','); t2 = ptype(c); w = pval(c, t2); idx = []
        while c.eat(','): idx.append(int(c.next()))
        return I(t, (v, w), x=idx)
    if op == 'freeze':
        t = ptype(c); return I(t, (pval(c, t),))
    return I()   # landingpad, resume, ... : only reached if a path gets there

class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self._p = False
        self._scc = {}
    def parse(self):
        if self._p: return self
        self._p = True
        h = self.header
        i = h.index('@' ); 
        c = T(tokenize(h))
        while c.peek()[0] != '@': 
            c.next()
        c.next(); c.expect('('); self.params = []
        n = 0
        if not c.eat(')'):
            while True:
                if c.peek() == '...':
                    c.next()
                else:
                    t = ptype(c); info = skip_attrs(c)
                    nm = c.next() if c.peek() and c.peek()[0] == '%' else '%%%d' % n
                    self.params.append((t, nm, info)); n += 1
                if c.eat(')'): break
                c.expect(',')
        self.blocks = {}; self.order = []
        cur = '%%%d' % len(self.params); lines = []
        # unnamed entry block number = number of unnamed params
        self.blocks[cur] = []; self.order.append(cur)
        self.entry = cur
        pend = ''
        for ln in self.body:
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            m = re.match(r'^("?[^"\s]*"?|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                cur = '%' + m.group(1)
                if self.order == [self.entry] and not self.blocks[self.entry] and not pend:
                    del self.blocks[self.entry]; self.order = []; self.entry = cur
                self.blocks[cur] = []; self.order.append(cur); continue
            if pend:
                pend += ' ' + ln.strip()
                if pend.startswith('switch'):
                    if ln.strip() == ']' or ln.strip().startswith('], '): self.blocks[cur].append(pend); pend = ''
                elif 'unwind label' in ln: self.blocks[cur].append(pend); pend = ''
                continue
            s = ln.strip()
            if s.startswith('switch ') and not s.endswith(']'): pend = s; continue
            if re.match(r'(%\S+ = |%"[^"]*" = )?invoke ', s) and 'unwind label' not in s: pend = s; continue
            if s in ('cleanup',) or s.startswith(('catch ', 'filter ')):
                if self.blocks[cur] and ' = landingpad ' in self.blocks[cur][-1]: self.blocks[cur][-1] += ' ' + s
                continue
            self.blocks[cur].append(s)
        self.insts = {}
        self.parsed_blocks = {}
        return self
    def block(self, b):
        if b not in self.parsed_blocks:
            self.parsed_blocks[b] = [pinst(l) for l in self.blocks[b]]
        return self.parsed_blocks[b]
    def catches(self, b):
        """does the landing pad b have a handler (not just clean-up)"""
        return any(' = landingpad ' in l and ' catch ' in l for l in self.blocks.get(b, []))
    def succs(self, b):
        t = self.block(b)[-1]
        if t.op == 'br': return list(t.x)
        if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke': return [t.x[1][0]]      # exceptional edges are not followed
        return []
    def sccs(self, scope):
        """non-trivial SCCs of the CFG restricted to scope (frozenset) -> dict block -> frozenset"""
        if scope in self._scc: return self._scc[scope]
        idx, low, st, on, res, n = {}, {}, [], set(), {}, [0]
        def strong(v):
            work = [(v, iter([w for w in self.succs(v) if w in scope]))]
            idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
            while work:
                u, itr = work[-1]; adv = False
                for w in itr:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter([x for x in self.succs(w) if x in scope]))); adv = True; break
                    elif w in on: low[u] = min(low[u], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == u: break
                    if len(comp) > 1 or u in self.succs(u):
                        fs = frozenset(comp)
                        for w in comp: res[w] = fs
        for v in self.order:
            if v in scope and v not in idx: strong(v)
        self._scc[scope] = res
        return res

class Module:
    def __init__(self, path):
        self.path = path
        txt = open(path, encoding='latin1').read()
        self.types, self.globals, self.funcs = {}, {}, {}
        lines = txt.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, t = l.split(' = type ', 1); self.types[nm] = t
            elif l.startswith('@'):
                nm, t = l.split(' = ', 1); self.globals[nm] = t
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = '@' + m.group(1)
                self.funcs[nm] = Func(self, nm, l, lines[i+1:j]); i = j
            i += 1
        self._t, self._g = {}, {}
    def ty(self, t):
        while t[0] == 'named':
            if t[1] not in self._t: self._t[t[1]] = ptype(T(tokenize(self.types[t[1]])))
            t = self._t[t[1]]
        return t
    def size_align(self, t):
        t = self.ty(t)
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b: s *= 2
            return (s, min(s, 16))
        if t[0] == 'f': return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if t[0] == 'ptr': return (8, 8)
        if t[0] in ('arr', 'vec'):
            s, a = self.size_align(t[2]); return (s * t[1], a)
        if t[0] == 'st':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if not t[2]: off = (off + a - 1) // a * a; al = max(al, a)
                off += s
            return ((off + al - 1) // al * al, al)
        return (0, 1)
    def size(self, t): return self.size_align(t)[0]
    def field_off(self, t, k):
        t = self.ty(t); off = 0
        for i, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if not t[2]: off = (off + a - 1) // a * a
            if i == k: return off, f
            off += s
        raise ParseError('field')
    def global_init(self, nm):
        """(type, value) of a constant global, or None"""
        if nm in self._g: return self._g[nm]
        r = None
        g = self.globals.get(nm)
        if g is not None:
            m = re.search(r'\b(constant|global) ', g)
            if m and not re.search(r'\bexternal\b', g[:m.start()]):
                try:
                    c = T(tokenize(g[m.end():])); t = ptype(c); r = (m.group(1), t, pval(c, t))
                except Exception: r = None
        self._g[nm] = r
        return r

    def string_global(self, nm):
        """text a std::string global is initialised with (from its dynamic initialiser), or None"""
        if not hasattr(self, '_sg'):
            self._sg = {}
            for f in self.funcs.values():
                if not f.name.startswith('@__cxx_global_var_init'): continue
                for l in f.body:
                    m = re.search(r'basic_string\S*\(ptr [^@]*(@[-a-zA-Z$._0-9]+), ptr [^@]*(@\.str[.0-9]*)', l)
                    if m:
                        gi = self.global_init(m.group(2))
                        if gi and gi[2][0] == 'str': self._sg[m.group(1)] = unescape(gi[2][1]).split(b'\0')[0]
        return self._sg.get(nm)
def demangle(names):
    names = list(names)
    p = subprocess.run([CXXFILT], input='\n'.join(n.strip('@').strip('"') for n in names).encode(), stdout=subprocess.PIPE)
    return dict(zip(names, p.stdout.decode().replace('[abi:cxx11]', '').split('\n')))

class Program:
    """several translation units seen as one program"""
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.f = {}
        called = set()
        self.alias = {}
        for m in self.mods:
            for k, v in m.globals.items():
                mm = re.search(r'\balias .*, ptr (@\S+)$', v)
                if mm: self.alias.setdefault(k, mm.group(1))
        for m in self.mods:
            for k, v in m.funcs.items():
                self.f.setdefault(k, v)
            for v in m.funcs.values():
                for l in v.body:
                    called.update(re.findall(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)(?=\()', l))
        for a, b in self.alias.items():
            if a not in self.f and b in self.f: self.f[a] = self.f[b]
        self.dem = demangle(set(self.f) | called)
        self.byname = {}
        for k in sorted(self.f): self.byname.setdefault(self.dem[k], k)
    def find(self, dname):
        k = self.byname.get(dname)
        return self.f[k] if k else None
