#!/usr/bin/env python3
"""Parser for the textual LLVM IR rustc emits for the crate under test."""
import re, sys

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"[^"]*"|%[-\w.$]+)
 | (?P<glob>@"[^"]*"|@[-\w.$]+)
 | (?P<meta>![-\w.$]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_$][-\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '': break
            raise Unsupported('token: ' + s[i:i+60])
        out.append(m.group(m.lastgroup)); i = m.end()
    return out

# ---------------------------------------------------------------- types
I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
PTR = ('ptr',); VOID = ('void',)

def size_align(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        s = 1
        while s < b: s *= 2
        return s, min(s, 16)
    if k == 'ptr': return 8, 8
    if k == 'arr':
        s, a = size_align(t[2]); return s * t[1], a
    if k == 'vec':
        if t[2] == I1: return (t[1] + 7) // 8, 1
        s, a = size_align(t[2]); n = s * t[1]; return n, n
    if k == 'struct':
        off = 0; al = 1
        for f in t[1]:
            s, a = size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a + s; al = max(al, a)
        return (off + al - 1) // al * al, al
    if k == 'float': return 4, 4
    if k == 'double': return 8, 8
    if k == 'void': return 0, 1
    raise Unsupported('size of %r' % (t,))

def field_offset(t, idx):
    if t[0] == 'struct':
        off = 0
        for j, f in enumerate(t[1]):
            s, a = size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == idx: return off
            off += s
    return size_align(t[2])[0] * idx

class P:
    """token cursor"""
    def __init__(self, toks, named):
        self.t = toks; self.i = 0; self.named = named
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise Unsupported('expected %r got %r in %s' % (x, y, ' '.join(self.t)[:200]))
    def at_type(self):
        x = self.peek()
        return x is not None and (x in ('ptr', 'void', 'float', 'double', '{', '[', '<', 'opaque') or re.fullmatch(r'i\d+', x) is not None
                                  or (x.startswith('%') and x in self.named))
    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.accept('addrspace'):
                self.expect('('); self.next(); self.expect(')')
            return PTR
        if x == 'void': return VOID
        if x == 'metadata': return ('metadata',)
        if x in ('float', 'double'): return (x,)
        if re.fullmatch(r'i\d+', x): return ('i', int(x[1:]))
        if x == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        if x == '{' : return self._struct(False, '}')
        if x == '<':
            if self.accept('{'):
                t = self._struct(True, '}'); self.expect('>'); return t
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
            return ('vec', n, t)
        if x.startswith('%') and x in self.named: return self.named[x]
        raise Unsupported('type ' + x)
    def _struct(self, packed, end):
        fs = []
        if self.accept(end): return ('struct', (), packed)
        while True:
            fs.append(self.type())
            if self.accept(end): break
            self.expect(',')
        return ('struct', tuple(fs), packed)
    ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'sret', 'byval', 'nofpclass',
                   'initializes', 'memory', 'elementtype', 'inalloca', 'byref', 'preallocated', 'vscale_range', 'allocsize', 'alignstack',
                   'allockind', 'dead_on_return'}
    ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
             'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror', 'allocptr', 'allocalign', 'writable',
             'dead_on_unwind', 'noext', 'nounwind', 'nodiscard', 'inbounds', 'dead_on_return'}
    def attrs(self):
        byval = None; self.al = 1
        while True:
            x = self.peek()
            if x in self.ATTRS_PAREN:
                self.next()
                if self.peek() == '(':
                    if x == 'byval':
                        self.next(); byval = self.type(); self.expect(')')
                    else:
                        self.skip_paren()
                elif x == 'align': self.al = int(self.next())
            elif x in self.ATTRS: self.next()
            elif x is not None and x.startswith('"'):
                self.next()
                if self.accept('='): self.next()
            else: return byval
    def skip_paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return
    # ---- constants / values -> python tuples
    def value(self, ty):
        x = self.next()
        if x.startswith('%'): return ('loc', x)
        if x.startswith('@'): return ('glob', x)
        if re.fullmatch(r'-?\d+', x): return ('int', int(x))
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x in ('null', 'zeroinitializer', 'none'): return ('zero',)
        if x in ('undef', 'poison'): return ('undef',)
        if x.startswith('c"'): return ('bytes', unescape(x[2:-1]))
        if x in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            if self.accept('inrange'): self.skip_paren()
            self.expect('('); bt = self.type(); self.expect(',')
            ops = []
            while True:
                t = self.type(); self.attrs(); ops.append((t, self.value(t)))
                if self.accept(')'): break
                self.expect(',')
            return ('gep', bt, ops)
        if x in ('inttoptr', 'ptrtoint', 'ptrtoaddr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): self.next()
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('bin', x, t, a, b)
        if x == 'splat':
            self.expect('('); t = self.type(); v = self.value(t); self.expect(')')
            return ('splat', t, v)
        if x in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next(); es = self._elems('}'); self.expect('>'); return ('agg', es)
            return ('agg', self._elems(end))
        if x == 'asm': raise Unsupported('inline asm')
        raise Unsupported('value %s (type %r)' % (x, ty))
    def _elems(self, end):
        es = []
        if self.accept(end): return es
        while True:
            t = self.type(); self.attrs(); es.append((t, self.value(t)))
            if self.accept(end): return es
            self.expect(',')

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1', 'replace'); i += 1
    return bytes(out)

# ---------------------------------------------------------------- module
class Module:
    def __init__(self, text):
        self.named = {}; self.globals = {}; self.decls = {}; self.defs = {}; self.attrgroups = {}; self.meta = {}; self.aliases = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        raw = [l.split(' = type ', 1) for l in lines if l.startswith('%') and ' = type ' in l]
        raw = [(a, b) for a, b in raw if b.strip() != 'opaque']
        while raw:   # they may refer to one another in any order
            later = []
            for nm, rest in raw:
                try: self.named[nm] = P(tokenize(rest), self.named).type()
                except Unsupported: later.append((nm, rest))
            if len(later) == len(raw): raise Unsupported('types ' + ', '.join(a for a, b in later))
            raw = later
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._define(l, lines[i+1:j]); i = j + 1; continue
            if l.startswith('declare '): self._declare(l)
            elif l.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l); self.attrgroups[m.group(1)] = m.group(2)
            elif l.startswith('@'): self._global(l)
            elif l.startswith('!'):
                m = re.match(r'(!\d+) = (.*)', l)
                if m: self.meta[m.group(1)] = m.group(2)
            i += 1
    extra = ()
    def resolve(self, g):
        """definition of g in the IR of a dependency crate (non-generic functions that were not inlined)"""
        key = g[1:].strip('"')
        while self.extra:
            path = self.extra.pop(0)
            txt = open(path).read()
            if key not in txt: continue
            self._n = getattr(self, '_n', 0) + 1
            k = self._n * 1000000
            if not any(l.startswith('define ') and key in l for l in txt.split('\n')): continue
            out = []
            for l in txt.split('\n'):
                if l[:1] != '@': l = re.sub(r'([#!])(\d+)\b', lambda m: m.group(1) + str(int(m.group(2)) + k), l)
                else: l = re.sub(r', !dbg !\d+', '', l)
                l = re.sub(r'@((?:vtable|switch\.table|anon|__unnamed)[-\w.$]*)', r'@\1.x%d' % self._n, l)
                out.append(l)
            o = Module('\n'.join(out))
            for a in ('named', 'globals', 'decls', 'attrgroups', 'meta', 'aliases', 'defs'):
                d = getattr(self, a)
                for x, y in getattr(o, a).items(): d.setdefault(x, y)
            if g in self.defs: return True
        return g in self.defs
    def _header(self, l):
        m = re.match(r'(?:define|declare)\s+(.*)$', l)
        s = m.group(1)
        toks = tokenize(s)
        p = P(toks, self.named)
        skip = {'dso_local', 'internal', 'private', 'hidden', 'protected', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'available_externally',
                'fastcc', 'coldcc', 'ccc', 'tailcc', 'cc', 'unnamed_addr', 'local_unnamed_addr', 'preserve_mostcc', 'linkonce', 'extern_weak'}
        while True:
            p.attrs()
            if p.peek() in skip: p.next()
            elif p.at_type(): break
            elif re.fullmatch(r'\d+', p.peek()): p.next()
            else: raise Unsupported('header ' + l[:200])
        rt = p.type(); p.attrs()
        name = p.next(); p.expect('(')
        params = []; vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'): vararg = True
                else:
                    t = p.type(); bv = p.attrs()
                    if bv is not None: raise Unsupported('byval')
                    nm = p.next() if (p.peek() or '').startswith('%') else None
                    params.append((t, nm))
                if p.accept(')'): break
                p.expect(',')
        groups = [x for x in p.t[p.i:] if x.startswith('#')]
        inl = [x for x in p.t[p.i:]]
        dbg = None
        if '!dbg' in inl: dbg = inl[inl.index('!dbg') + 1]
        return dict(name=name, ret=rt, params=params, vararg=vararg, groups=groups, tail=inl, dbg=dbg)
    def _declare(self, l):
        try: h = self._header(l)
        except Unsupported: return   # calls of it are refused when they are reached
        self.decls[h['name']] = h
    def _define(self, l, body):
        l = l.rstrip(); assert l.endswith('{')
        self.defs[re.search(r'(@"[^"]*"|@[-\w.$]+)\s*\(', l).group(1)] = (l[:-1], body)
    def fnattrs(self, h):
        s = ' '.join(h['tail'])
        for g in h['groups']: s += ' ' + self.attrgroups.get(g, '')
        return s.split()
    def _global(self, l):
        m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', l)
        name, rest = m.groups()
        if ' alias ' in ' ' + rest:
            m = re.search(r'ptr (@"[^"]*"|@[-\w.$]+)', rest)
            if m: self.aliases[name] = m.group(1)
            return
        self.globals[name] = rest
    def parse_global(self, name):
        rest = self.globals[name]
        p = P(tokenize(rest), self.named)
        ext = False; const = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'):
                const = x == 'constant'; p.next(); break
            if x == 'external': ext = True
            if x == 'thread_local':
                p.next()
                if p.peek() == '(': p.skip_paren()
                continue
            if x == 'addrspace': p.next(); p.skip_paren(); continue
            p.next()
        t = p.type()
        init = None if ext else p.value(t)
        al = 1
        if 'align' in p.t[p.i:]:
            al = int(p.t[p.t.index('align', p.i) + 1])
        return t, init, al, const

META = re.compile(r',? !(?!")[-\w.]+ !\d+')
def strip_meta(s, fn=None):
    if ' !' in s:
        for m in re.finditer(r'!dbg (!\d+)', s):
            if fn is not None: fn.tr.scopes.add(m.group(1))
        s = re.sub(r',? ![-a-zA-Z_][-\w.]* !(\d+|\{[^}]*\})', '', s)
        s = re.sub(r',? !srcloc !\d+', '', s)
    # trailing comment
    if '; ' in s and '"' not in s: s = s.split(' ;')[0]
    return s.rstrip()

def encoded_functions(mod, scopes, root='/repo/src'):
    """names of source functions under root whose code appears (inlined or not) in the translated IR"""
    files = {}; out = {}
    seen = set(); st = list(scopes)
    def get(m, k):
        x = re.search(r'\b%s: (!\d+|"[^"]*")' % k, m); return x.group(1).strip('"') if x else None
    while st:
        x = st.pop()
        if x in seen or x not in mod.meta: continue
        seen.add(x); m = mod.meta[x]
        if 'DILocation' in m or 'DILexicalBlock' in m:
            for k in ('scope', 'inlinedAt'):
                y = get(m, k)
                if y: st.append(y)
        elif 'DISubprogram' in m:
            f = get(m, 'file'); fm = mod.meta.get(f, '')
            fn = get(fm, 'filename') or ''; d = get(fm, 'directory') or ''
            path = fn if fn.startswith('/') else d + '/' + fn
            ln = re.search(r'\bline: (\d+)', m)
            nm = get(m, 'name'); sc = get(m, 'scope'); parts = [nm]
            while sc and sc in mod.meta and 'DINamespace' in mod.meta[sc]:
                parts.append(get(mod.meta[sc], 'name') or ''); sc = get(mod.meta[sc], 'scope')
            if path.startswith(root):
                out['%s:%s %s' % (path[len(root)+1:], ln.group(1) if ln else '?', '::'.join(reversed(parts)))] = 1
    return sorted(out)

