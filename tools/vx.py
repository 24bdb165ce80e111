#!/usr/bin/env python3
"""Mechanical extractor: real functions of /repo  ->  one Verus file.

A contract file (contracts/*.rs) is Verus source text with directives.  Every
directive starts with `//@`.  Text outside directives is copied as it stands
(spec functions, lemmas, trusted wrappers).  Directives:

  //@include FILE                     text of contracts/FILE (processed too)
  //@gsubst PATTERN ==> REPL          token substitution applied to every item
  //@gfmt                             in every item, write!/format! become the sequence of their
                                      pieces: vp_lit(f, "..") / vp_shown(f, &(expr)) / vp_hex2 ..
  //@glitmatch                        in every item, `match x { "a" => E, .. _ => F }` over text or byte
                                      literals becomes the if-else chain of vp_is(x, "a") / vp_is_bytes
  //@names NUM LEMMA "a" "b" ..       the literals are pairwise different (generated lemma)
  //@gorguard                         in every item, the match arm `A | B if G => E` becomes two arms
  //@gbyteq                           in every item, `x == b"a"` becomes vp_bytes(x, "a")
  //@struct file=F name=N [attr=..]   the struct / enum definition as in the source
      //@subst P ==> R
      //@keep a,b,c                   (struct only) keep just these fields
  //@end
  //@constfn file=F path=A::N as=f      `const N: T = E;` as `fn f() -> (r: T) { E }` with a contract
  //@const file=F name=N
  //@end
  //@fn file=F path=a::b::c [trait=T] [macro=name(args)] [as=newname] [attr=..]
      trait=From<bool> picks one of several impls of a generic trait; macro=NAME(ARGS)
      takes the function from the expansion of that macro_rules! arm (defined in file=,
      provided the invocation NAME!(ARGS) stands in macro_in= (default: file=)); A(x)>B(x) for
      a macro invoked inside the expansion of another one (defined in file= or a src/macro_*.rs); path=A::b//c is the function c
      nested in the body of A::b
      //@params x y z                 contract-side names of the parameters, by position
      //@ret r                        name of the result in the contract
      //@subst P ==> R                token substitution ($x = balanced token run without `;`,
                                      $body.. = any balanced run, $id.. = one identifier, $opt.. may be empty)
      //@slice P ==> R                the function consists of just the block matched by P (must
      //@sig SIGNATURE                stand once in the source function), as body R under SIGNATURE;
                                      the enclosing function gets `//@subst P ==> call` with the same P,
                                      so that block and rest are verified against the block's contract
      //@spec
         requires/ensures text
      //@loop K [it=NAME]             loop contract of the K-th loop (0-based)
         invariant/decreases text
      //@at start|loopstart K|loopend K|afterloop K|beforeloop K|before N PAT|after N PAT
         ghost text
  //@end

What extraction changes in a function: attributes, doc comments, visibility and
`const` are dropped; the listed token substitutions are applied; contract text is
inserted; a `mut self` receiver becomes `self` + `let mut self_ = self`.  Nothing else: statements, operators, control flow, literals and their
order are the bytes of the source file of this run.
"""
import re, sys, os

class Drift(Exception):
    pass

# ---------------------------------------------------------------- lexer
def lex(src):
    """-> list of (kind, text, start, end); kinds: id num str chr life punct"""
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            end = src.find('"' + m.group(1), m.end())
            j = end + 1 + len(m.group(1))
            toks.append(('str', src[i:j], i, j)); i = j
            continue
        if c == '"' or (c in 'bc' and i + 1 < n and src[i+1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            toks.append(('str', src[i:j], i, j)); i = j
            continue
        if c == "'" or (c == 'b' and i + 1 < n and src[i+1] == "'"):
            k = i + (1 if c == "'" else 2)
            # char literal or lifetime
            if k < n and src[k] == '\\':
                j = src.find("'", k + 2) + 1
                toks.append(('chr', src[i:j], i, j)); i = j
                continue
            if k + 1 < n and src[k+1] == "'":
                j = k + 2
                toks.append(('chr', src[i:j], i, j)); i = j
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            if m:
                toks.append(('life', m.group(), i, m.end())); i = m.end()
                continue
        if c.isalpha() or c == '_':
            j = i + 1
            while j < n and (src[j].isalnum() or src[j] == '_'): j += 1
            toks.append(('id', src[i:j], i, j)); i = j
            continue
        if c.isdigit():
            m = re.compile(r'0x[0-9a-fA-F_]+\w*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9]+)?[A-Za-z0-9_]*').match(src, i)
            toks.append(('num', m.group(), i, m.end())); i = m.end()
            continue
        toks.append(('punct', c, i, i + 1)); i += 1
    return toks

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(toks, i):
    d = 0
    for k in range(i, len(toks)):
        t = toks[k][1] if toks[k][0] == 'punct' else ''
        if t in OPEN: d += 1
        elif t in CLOSE:
            d -= 1
            if d == 0: return k
    raise Drift('unbalanced')

# ---------------------------------------------------------------- item search
def strip_generics(toks, i):
    """i at '<' -> index after the matching '>'"""
    d = 0
    k = i
    while k < len(toks):
        t = toks[k][1]
        if t == '<': d += 1
        elif t == '>' and not (k > 0 and toks[k-1][1] == '-' and toks[k-1][3] == toks[k][2]):
            d -= 1
            if d == 0: return k + 1
        k += 1
    raise Drift('generics')

class TraitName(str):
    full = None

def items(toks, lo, hi):
    """yields (kind, name, extra, i_start, i_body_open, i_end)"""
    i = lo
    out = []
    while i < hi:
        t = toks[i]
        if t[1] == '#':
            j = i + 1
            if toks[j][1] == '!': j += 1
            i = match_close(toks, j) + 1
            continue
        if t[0] == 'id' and t[1] in ('mod', 'fn', 'struct', 'enum', 'impl', 'trait', 'const', 'static', 'type', 'use', 'macro_rules', 'extern', 'union'):
            k = i
            if t[1] == 'const' and toks[i+1][1] in ('fn', 'unsafe', 'async'):
                i += 1
                continue
            if t[1] == 'extern' and toks[i+1][0] == 'str' and toks[i+2][1] == 'fn':
                i += 2
                continue
            # find ';' or '{' at depth 0
            j = i + 1
            d = 0
            body = None
            while j < hi:
                x = toks[j][1] if toks[j][0] == 'punct' else ''
                if x in ('(', '['):
                    j = match_close(toks, j)
                elif x == '{':
                    if t[1] in ('use', 'const', 'static'):
                        j = match_close(toks, j)
                    else:
                        body = j
                        j = match_close(toks, j)
                        break
                elif x == ';':
                    break
                j += 1
            name = None
            extra = None
            if t[1] in ('mod', 'fn', 'struct', 'enum', 'trait', 'const', 'static', 'type', 'union'):
                name = toks[i+1][1]
            elif t[1] == 'impl':
                p = i + 1
                if toks[p][1] == '<':
                    p = strip_generics(toks, p)
                hdr = []
                q = p
                end = body if body is not None else j
                fo = None
                while q < end:
                    if toks[q][1] == '<':
                        q = strip_generics(toks, q)
                        continue
                    if toks[q][1] == 'where': break
                    if toks[q][1] == 'for': fo = len(hdr)
                    elif toks[q][0] == 'id' or toks[q][1] in ('&',): hdr.append(toks[q][1])
                    q += 1
                if fo is not None:
                    extra = hdr[fo-1] if fo > 0 else None
                    q0 = p
                    while toks[q0][1] != 'for': q0 = strip_generics(toks, q0) if toks[q0][1] == '<' else q0 + 1
                    full = ''.join(x[1] for x in toks[p:q0])
                    if full.endswith('>'): extra = TraitName(extra); extra.full = full
                    name = [h for h in hdr[fo:] if h not in ('&', 'dyn', 'mut')]
                    name = name[-1] if name else None
                else:
                    name = [h for h in hdr if h not in ('&', 'dyn', 'mut')]
                    name = name[-1] if name else None
            out.append((t[1], name, extra, k, body, j))
            i = j + 1
            # tuple structs: struct X(..);
            continue
        i += 1
    return out

def item_start(toks, i):
    """Index of the first token of the item's visibility etc. (attributes excluded)."""
    return i

def all_scopes(toks, lo, hi):
    """(lo, hi) of the file and of every non-test module in it."""
    out = [(lo, hi)]
    for kind, name, extra, a, b, e in items(toks, lo, hi):
        if kind == 'mod' and b is not None and name != 'tests':
            out += all_scopes(toks, b + 1, e)
    return out

def find_fn_in(toks, path, trait=None):
    """module segments are ignored (a function may move between modules of a file);
    a type segment (upper case) selects the impl blocks of that type."""
    if '//' in path:
        # A//b: the function b nested in the body of A (or, moved out, the function b of the file)
        outer, inner = path.split('//')
        for a, b, e in find_fn_in(toks, outer, trait):
            for i in range(b + 1, e):
                if toks[i][1] == 'fn' and toks[i+1][1] == inner:
                    j = i
                    while toks[j][1] != '{': j = match_close(toks, j) + 1 if toks[j][1] in ('(', '[') else j + 1
                    return [(i, j, match_close(toks, j))]
        return find_fn_in(toks, inner)
    segs = path.split('::')
    ty = segs[-2] if len(segs) > 1 and segs[-2][:1].isupper() else None
    found = []
    for lo, hi in all_scopes(toks, 0, len(toks)):
        for kind, name, extra, a, b, e in items(toks, lo, hi):
            if b is None: continue
            if ty is None:
                if kind == 'fn' and name == segs[-1]: found.append((a, b, e))
            elif kind in ('impl', 'trait') and name == ty and ((trait or None) == (extra or None) or (trait and getattr(extra, 'full', None) == trait)):
                for k2, n2, x2, a2, b2, e2 in items(toks, b + 1, e):
                    if k2 == 'fn' and n2 == segs[-1] and b2 is not None: found.append((a2, b2, e2))
    return found

def expand_macro(repo, file, call, other=True):
    """text of a macro_rules! body for `name(a,b)`; nested macro calls stay as they are"""
    name, args = call.split('(', 1)
    args = [a.strip() for a in args.rstrip(')').split(',') if a.strip()]
    src, toks = load(repo, file)
    for i in range(len(toks) - 3):
        if toks[i][1] == 'macro_rules' and toks[i+2][1] == name:
            lo, hi = i + 3, match_close(toks, i + 3)
            j = lo + 1
            while j < hi:
                pe = match_close(toks, j)
                pat = ''.join(t[1] for t in toks[j+1:pe]).split(',')
                pat = [x for x in pat if x]
                k = pe + 1
                while toks[k][1] in ('=', '>'): k += 1
                be = match_close(toks, k)
                env = {}
                ok = len(pat) == len(args)
                if ok:
                    for x, a in zip(pat, args):
                        if x.startswith('$'): env[x[1:].split(':')[0]] = a
                        elif x != a: ok = False
                if ok:
                    body = src[toks[k][3]:toks[be][2]]
                    body = re.sub(r'\$([A-Za-z_]\w*)', lambda m: env.get(m.group(1), m.group(0)), body)
                    return body, lex(body)
                j = be + 1
                while j < hi and toks[j][1] == ';': j += 1
    if other:
        for f in sorted(os.listdir(os.path.join(repo, 'src'))):
            if f.startswith('macro_') and f.endswith('.rs') and 'src/' + f != file:
                try: return expand_macro(repo, 'src/' + f, call, False)
                except Drift: pass
    raise Drift('macro %s not found' % call)

def invoked(toks, call):
    want = ''.join(t[1] for t in lex(call))
    name = call.split('(', 1)[0]
    for i in range(len(toks) - 3):
        if toks[i][1] == name and toks[i+1][1] == '!' and toks[i+2][1] in '([{':
            e = match_close(toks, i + 2)
            if name + '(' + ''.join(t[1] for t in toks[i+3:e]) + ')' == want: return True
    return False

def expand_chain(repo, file, macro, macro_in=None):
    """A(x)>B(x): A!(x) stands in macro_in, B!(x) in the expansion of A!(x)"""
    src, toks = load(repo, macro_in or file)
    for m in re.split(r'>(?=\w+\()', macro):
        if not invoked(toks, m): raise Drift('macro %s is not invoked' % m)
        src, toks = expand_macro(repo, file, m)
    return src, toks

def find_fn(repo, file, path, trait=None, macro=None, macro_in=None):
    if macro:
        # the expansion is the code that runs only where the invocation stands in the source
        try:
            src, toks = expand_chain(repo, file, macro, macro_in)
            f = find_fn_in(toks, path, trait)
            if f: return src, toks, f[0]
        except Drift:
            pass
        file = macro_in or file
    src, toks = load(repo, file)
    f = find_fn_in(toks, path, trait)
    if f: return src, toks, f[0]
    hits = []
    for d, _, fs in sorted(os.walk(os.path.join(repo, 'src'))):
        for x in sorted(fs):
            if not x.endswith('.rs') or x == 'tests.rs': continue
            rel = os.path.relpath(os.path.join(d, x), repo)
            if rel == file: continue
            s2, t2 = load(repo, rel)
            for h in find_fn_in(t2, path, trait): hits.append((s2, t2, h))
    if len(hits) == 1: return hits[0]
    raise Drift('function %s not found (%d candidates elsewhere)' % (path, len(hits)))

def find_item(toks, name, kinds):
    segs = name.split('::')
    cands = [(0, len(toks))]
    for s in segs[:-1]:
        nxt = []
        for lo, hi in cands:
            for kind, nm, extra, a, b, e in items(toks, lo, hi):
                if b is not None and kind == 'mod' and nm == s: nxt.append((b+1, e))
        cands = nxt
    for lo, hi in cands:
        for kind, nm, extra, a, b, e in items(toks, lo, hi):
            if kind in kinds and nm == segs[-1]: return (a, b, e)
    raise Drift('item %s not found' % name)

# ---------------------------------------------------------------- substitution
def pat_tokens(p):
    out = []
    toks = lex(p)
    i = 0
    while i < len(toks):
        if toks[i][1] == '$' and i + 1 < len(toks) and toks[i+1][0] == 'id':
            out.append(('meta', toks[i+1][1]))
            i += 2
        else:
            out.append(('tok', toks[i][1]))
            i += 1
    return out

def match_at(toks, i, pat, src):
    env = {}
    def go(i, p):
        while p < len(pat):
            kind, v = pat[p]
            if kind == 'tok':
                if i >= len(toks) or toks[i][1] != v: return None
                i += 1; p += 1
            else:
                # a name seen before stands for the same tokens again
                if v in env:
                    for t in lex(env[v]):
                        if i >= len(toks) or toks[i][1] != t[1]: return None
                        i += 1
                    p += 1
                    continue
                # balanced run, shortest first; must not cross ; or unbalanced close
                j = i
                while True:
                    if j > i or (p + 1 < len(pat)):
                        if j > i or v.startswith('opt'):
                            saved = env.get(v)
                            env[v] = src[toks[i][2]:toks[j-1][3]] if j > i else ''
                            r = go(j, p + 1)
                            if r is not None: return r
                            if saved is None: env.pop(v, None)
                            else: env[v] = saved
                    if j >= len(toks): return None
                    t = toks[j][1] if toks[j][0] == 'punct' else ''
                    if t in CLOSE or (t == ';' and not v.startswith('body')): return None
                    if v.startswith('id'):
                        if j > i or toks[j][0] != 'id': return None
                    if t in OPEN: j = match_close(toks, j) + 1
                    else: j += 1
        return i
    e = go(i, 0)
    return None if e is None else (e, env)

def subst(src, pattern, repl, limit=None):
    pat = pat_tokens(pattern)
    if not pat: return src, 0
    count = 0
    pos = 0
    while True:
        toks = lex(src)
        done = True
        for i in range(len(toks)):
            if toks[i][2] < pos: continue
            if pat[0][0] == 'tok' and toks[i][1] != pat[0][1]: continue
            m = match_at(toks, i, pat, src)
            if m:
                e, env = m
                env = {k: subst(v, pattern, repl)[0] for k, v in env.items()}
                r = re.sub(r'\$([A-Za-z_]\w*)', lambda mm: env.get(mm.group(1), mm.group(0)), repl)
                a, b = toks[i][2], toks[e-1][3]
                src = src[:a] + r + src[b:]
                pos = a + len(r)
                count += 1
                done = False
                break
        if done or (limit and count >= limit) or count > 2000: break
    return src, count

# ---------------------------------------------------------------- formatting macros
def split_args(toks, lo, hi, src):
    out = []; st = lo; k = lo
    while k <= hi:
        if k == hi or toks[k][1] == ',':
            if k > st: out.append(src[toks[st][2]:toks[k-1][3]])
            st = k + 1
        elif toks[k][1] in OPEN: k = match_close(toks, k)
        k += 1
    return out

def fmt_pieces(lit, args):
    """-> list of ('lit', text) | ('show', spec, expr)"""
    raw = lit[1:-1]
    out = []; buf = ''; i = 0; n = 0
    while i < len(raw):
        c = raw[i]
        if c == '\\': buf += raw[i:i+2]; i += 2; continue
        if raw[i:i+2] in ('{{', '}}'): buf += c; i += 2; continue
        if c == '{':
            j = raw.index('}', i)
            name, _, sp = raw[i+1:j].partition(':')
            if buf: out.append(('lit', buf)); buf = ''
            if name == '': e = args[n]; n += 1
            elif name.isdigit(): e = args[int(name)]
            else:
                e = name
                for a in args:
                    m = re.match(r'(\w+)\s*=\s*(.*)$', a, re.S)
                    if m and m.group(1) == name: e = m.group(2)
            out.append(('show', sp, e)); i = j + 1
            continue
        buf += c; i += 1
    if buf: out.append(('lit', buf))
    return out

FMT = {'': 'vp_shown', '02x': 'vp_hex2', '02': 'vp_dec2', '09': 'vp_dec9'}
def expand_fmt(src):
    """write!(f, ..) / format!(..) as the sequence of its pieces (the documented meaning of the format string)"""
    pos = 0
    while True:
        toks = lex(src)
        hit = None
        for i in range(len(toks) - 2):
            if toks[i][2] >= pos and toks[i][1] in ('write', 'format') and toks[i+1][1] == '!' and toks[i+2][1] == '(':
                hit = i; break
        if hit is None: return src
        e = match_close(toks, hit + 2)
        args = split_args(toks, hit + 3, e, src)
        dest = None
        if toks[hit][1] == 'write': dest = args.pop(0)
        if not args or not args[0].startswith('"'): raise Drift('format string')
        body = ''
        d = 'vp_s' if dest is None else dest
        amp = '&mut vp_s' if dest is None else dest
        for pc in fmt_pieces(args[0], args[1:]):
            if pc[0] == 'lit': body += 'vp_lit(%s, "%s"); ' % (amp, pc[1])
            else:
                if pc[1] not in FMT: raise Drift('format spec {:%s}' % pc[1])
                body += '%s(%s, &(%s)); ' % (FMT[pc[1]], amp, pc[2])
        r = ('{ let mut vp_s = String::new(); %svp_s }' if dest is None else '{ %sOk(()) }') % body
        a, b = toks[hit][2], toks[e][3]
        src = src[:a] + r + src[b:]
        pos = a + (r.index(body) if body else len(r))

def expand_litmatch(src):
    """match X { "a" | "b" => E, .., _ => F }  ->  if-else chain over vp_is(X, "a") (text or byte literals)"""
    pos = 0
    while True:
        toks = lex(src); done = True
        for i in range(len(toks)):
            if toks[i][2] < pos or toks[i][1] != 'match': continue
            j = i + 1
            while toks[j][1] != '{':
                if toks[j][1] in ('(', '['): j = match_close(toks, j)
                j += 1
            c = match_close(toks, j)
            k = j + 1; arms = []; ok = True
            while k < c:
                st = k
                while k < c and not (toks[k][1] == '=' and toks[k+1][1] == '>'): k += 1
                if k >= c: ok = False; break
                pat = toks[st:k]; k += 2; bs = k
                if toks[k][1] == '{':
                    be = match_close(toks, k) + 1; k = be
                    if k < c and toks[k][1] == ',': k += 1
                else:
                    while k < c and toks[k][1] != ',':
                        k = match_close(toks, k) + 1 if toks[k][1] in OPEN else k + 1
                    be = k; k += 1
                arms.append((pat, src[toks[bs][2]:toks[be-1][3]]))
            if not ok or len(arms) < 2: continue
            lits = [p for p, _ in arms[:-1]]
            if not all(all((t[0] == 'str') == (n % 2 == 0) and (n % 2 == 0 or t[1] == '|') for n, t in enumerate(p)) and len(p) % 2 for p in lits): continue
            if len(arms[-1][0]) != 1 or arms[-1][0][0][0] not in ('id', 'punct'): continue
            subj = src[toks[i+1][2]:toks[j-1][3]]
            r = ''
            for pat, body in arms[:-1]:
                cond = ' || '.join('%s(%s, %s)' % ('vp_is_bytes' if t[1].startswith('b') else 'vp_is', subj, t[1].lstrip('b')) for t in pat if t[0] == 'str')
                r += 'if %s { %s } else ' % (cond, body)
            last = arms[-1][0][0][1]
            r += '{ %s%s }' % ('' if last == '_' else 'let %s = %s; ' % (last, subj), arms[-1][1])
            src = src[:toks[i][2]] + '{ ' + r + ' }' + src[toks[c][3]:]
            pos = toks[i][2] + 1; done = False
            break
        if done: return src

def expand_orguard(src):
    """match arm  A | B if G => E  ->  A if G => E  B if G => E"""
    pos = 0
    while True:
        toks = lex(src); done = True
        for i in range(len(toks)):
            if toks[i][2] < pos or toks[i][1] != 'match': continue
            j = i + 1
            while toks[j][1] != '{':
                if toks[j][1] in ('(', '['): j = match_close(toks, j)
                j += 1
            c = match_close(toks, j)
            k = j + 1; out = ''; last = toks[j][3]; hit = False
            while k < c:
                st = k; gi = None; bars = []
                while k < c and not (toks[k][1] == '=' and toks[k+1][1] == '>'):
                    if toks[k][1] == 'if' and gi is None: gi = k
                    if toks[k][1] == '|' and gi is None: bars.append(k)
                    k = match_close(toks, k) + 1 if toks[k][1] in OPEN else k + 1
                if k >= c: break
                ar = k; k += 2
                if toks[k][1] == '{':
                    be = match_close(toks, k) + 1; k = be
                    if k < c and toks[k][1] == ',': k += 1
                else:
                    while k < c and toks[k][1] != ',':
                        k = match_close(toks, k) + 1 if toks[k][1] in OPEN else k + 1
                    k += 1
                if gi is not None and bars:
                    tail = src[toks[gi][2]:toks[min(k, c) - 1][3]]
                    if not tail.rstrip().endswith((',', '}')): tail += ','
                    cuts = [st - 1] + bars + [gi]
                    out += src[last:toks[st][2]] + ' '.join(src[toks[a+1][2]:toks[b-1][3]] + ' ' + tail for a, b in zip(cuts, cuts[1:]))
                    last = toks[min(k, c) - 1][3]; hit = True
            if not hit: continue
            src = src[:toks[j][3]] + out + src[last:]
            pos = toks[i][2] + 1; done = False
            break
        if done: return src

def gen_names(rest):
    """//@names NUM LEMMA "a" "b" ..: spec fn NUM numbers the literals, proof fn LEMMA proves that they are different"""
    num, lem = rest.split()[:2]
    lits = re.findall(r'"([^"]*)"', rest)
    assert len(set(lits)) == len(lits), 'names: ' + rest
    o = '/// numbers the names: names with different numbers are different\n#[verifier::opaque]\nspec fn %s(n: Seq<char>) -> int {\n    ' % num
    o += ' else '.join('if n == "%s"@ { %d }' % (l, i) for i, l in enumerate(lits, 1)) + ' else { 0 }\n}\n'
    o += 'proof fn %s() ensures %s,\n{\n    reveal(%s);\n' % (lem, ', '.join('%s("%s"@) == %d' % (num, l, i) for i, l in enumerate(lits, 1)), num)
    o += ''.join('    reveal_strlit("%s"); assert("%s"@.len() == %d);\n' % (l, l, len(l)) for l in lits)
    for i, a in enumerate(lits):
        for b in lits[:i]:
            if len(a) == len(b):
                k = [x != y for x, y in zip(a, b)].index(True)
                o += '    assert("%s"@[%d] == \'%s\' && "%s"@[%d] == \'%s\');\n' % (a, k, a[k], b, k, b[k])
    return o + '}'

def expand_byteq(src):
    """X == b"lit"  ->  vp_bytes(X, "lit")   and   X != b"lit"  ->  !vp_bytes(X, "lit")"""
    while True:
        toks = lex(src); done = True
        for i in range(2, len(toks)):
            if not (toks[i][0] == 'str' and toks[i][1].startswith('b"') and toks[i-1][1] == '=' and toks[i-2][1] in ('=', '!')): continue
            k = i - 3
            while k >= 0:
                if toks[k][1] in (')', ']'):
                    d = 0
                    while True:
                        if toks[k][1] in (')', ']'): d += 1
                        if toks[k][1] in ('(', '['): d -= 1
                        if d == 0: break
                        k -= 1
                    k -= 1
                    continue
                if toks[k][0] == 'id' and toks[k][1] not in ('if', 'match', 'return', 'while', 'else', 'in', 'let', 'mut'): k -= 1; continue
                if toks[k][1] in ('.', '?', '&', ':') and not (toks[k][1] == '&' and toks[k-1][1] == '&'): k -= 1; continue
                break
            a = toks[k+1][2]; lhs = src[a:toks[i-3][3]]
            src = src[:a] + '%svp_bytes(%s, %s)' % ('!' if toks[i-2][1] == '!' else '', lhs, toks[i][1][1:]) + src[toks[i][3]:]
            done = False
            break
        if done: return src

# ---------------------------------------------------------------- loops
def find_loops(src):
    toks = lex(src)
    out = []
    for i, t in enumerate(toks):
        if t[0] == 'id' and t[1] in ('while', 'for', 'loop'):
            if t[1] == 'for' and toks[i+1][1] == '<': continue
            d = 0
            j = i + 1
            in_pos = None
            while j < len(toks):
                x = toks[j][1] if toks[j][0] == 'punct' else ''
                if x in ('(', '['):
                    j = match_close(toks, j)
                elif x == '{': break
                elif toks[j][1] == 'in' and in_pos is None: in_pos = j
                j += 1
            if t[1] == 'for' and in_pos is None: continue
            c = match_close(toks, j)
            st = toks[i-2][2] if i >= 2 and toks[i-1][1] == ':' and toks[i-2][0] == 'life' else t[2]
            out.append(dict(kw=t[1], start=st, open=toks[j][2], close=toks[c][2], after=toks[c][3],
                            inpos=toks[in_pos][3] if in_pos is not None else None))
    return out

# ---------------------------------------------------------------- contract file parsing
class Block:
    def __init__(self, kind, args, line):
        self.kind, self.args, self.line = kind, args, line
        self.params = None; self.ret = None; self.substs = []; self.spec = ''
        self.loops = []; self.ats = []; self.keep = None; self.slice = None; self.sig = None

def parse_args(s):
    d = {}
    for m in re.finditer(r'(\w+)=("[^"]*"|\S+)', s):
        d[m.group(1)] = m.group(2).strip('"')
    return d

def parse_contract(path, base, seen=None):
    out = []  # list of str | Block | ('gsubst', p, r)
    text = open(path).read()
    cur = None
    sink = None
    buf = []
    for ln, line in enumerate(text.split('\n'), 1):
        s = line.strip()
        if s.startswith('//@'):
            body = s[3:]
            m = re.match(r'(\w+)\s*(.*)$', body)
            kw, rest = m.group(1), m.group(2)
            if kw == 'include':
                if buf: out.append('\n'.join(buf)); buf = []
                out += parse_contract(os.path.join(base, rest.strip()), base)
                continue
            if kw == 'gfmt':
                out.append(('gsubst', 'FMT', ''))
                continue
            if kw == 'glitmatch':
                out.append(('gsubst', 'LITMATCH', ''))
                continue
            if kw == 'names':
                buf.append(gen_names(rest))
                continue
            if kw == 'gorguard':
                out.append(('gsubst', 'ORGUARD', ''))
                continue
            if kw == 'gbyteq':
                out.append(('gsubst', 'BYTEQ', ''))
                continue
            if kw == 'gsubst':
                p, r = rest.split('==>', 1)
                out.append(('gsubst', p.strip(), r.strip()))
                continue
            if kw in ('fn', 'struct', 'const', 'constfn'):
                if buf: out.append('\n'.join(buf)); buf = []
                cur = Block(kw, parse_args(rest), '%s:%d' % (os.path.basename(path), ln))
                sink = None
                continue
            if cur is None: raise SystemExit('%s:%d: directive outside a block: %s' % (path, ln, s))
            if kw == 'params': cur.params = rest.split()
            elif kw == 'ret': cur.ret = rest.strip()
            elif kw == 'keep': cur.keep = [x.strip() for x in rest.split(',')]
            elif kw == 'subst':
                p, r = rest.split('==>', 1)
                cur.substs.append((p.strip(), r.strip()))
            elif kw == 'slice':
                p, r = rest.split('==>', 1)
                cur.slice = (p.strip(), r.strip())
            elif kw == 'sig': cur.sig = rest.strip()
            elif kw == 'spec': sink = 'spec'
            elif kw == 'loop':
                mm = re.match(r'(\d+)\s*(?:it=(\w+))?', rest)
                cur.loops.append([int(mm.group(1)), mm.group(2), ''])
                sink = 'loop'
            elif kw == 'at':
                cur.ats.append([rest.strip(), ''])
                sink = 'at'
            elif kw == 'end':
                out.append(cur); cur = None; sink = None
            else: raise SystemExit('%s:%d: unknown directive %s' % (path, ln, kw))
            continue
        if cur is not None:
            if sink == 'spec': cur.spec += line + '\n'
            elif sink == 'loop': cur.loops[-1][2] += line + '\n'
            elif sink == 'at': cur.ats[-1][1] += line + '\n'
            elif s and not s.startswith('//'): raise SystemExit('%s:%d: text in block' % (path, ln))
            continue
        buf.append(line)
    if buf: out.append('\n'.join(buf))
    return out

# ---------------------------------------------------------------- rendering
_src_cache = {}
def load(repo, f):
    p = os.path.join(repo, f)
    if p not in _src_cache:
        try: src = open(p).read()
        except OSError as e: src = ''
        _src_cache[p] = (src, lex(src))
    return _src_cache[p]

def rename_idents(text, mp):
    if not mp: return text
    toks = lex(text)
    out = []; pos = 0
    for i, t in enumerate(toks):
        if t[0] == 'id' and t[1] in mp and not (i > 0 and toks[i-1][1] == '.' and not (i > 1 and toks[i-2][1] == '.')):
            out.append(text[pos:t[2]]); out.append(mp[t[1]]); pos = t[3]
    out.append(text[pos:])
    return ''.join(out)

def param_names(sig_toks):
    # sig_toks: tokens between '(' and ')' of the fn
    names = []; d = 0; cur = []
    i = 0
    groups = []
    while i < len(sig_toks):
        t = sig_toks[i][1]
        if t in OPEN or t == '<': d += 1
        elif t in CLOSE or (t == '>' and sig_toks[i-1][1] != '-'): d -= 1
        if t == ',' and d == 0:
            groups.append(cur); cur = []
        else: cur.append(sig_toks[i])
        i += 1
    if cur: groups.append(cur)
    for g in groups:
        w = [x[1] for x in g]
        if 'self' in w[:4] and ':' not in w[:w.index('self')]:
            continue
        if ':' in w:
            ids = [x for x in w[:w.index(':')] if x not in ('mut', '&', '(', ')')]
            names.append(ids[-1] if ids else '_')
        else: names.append('_')
    return names

def unmut_self(text):
    """`mut self` receivers (unsupported by Verus): `self` plus `let mut self_ = self;`."""
    tk = lex(text)
    for i in range(len(tk) - 1):
        if tk[i][1] == '{': return text
        if tk[i][1] == 'mut' and tk[i+1][1] == 'self' and tk[i-1][1] == '(':
            text = text[:tk[i][2]] + text[tk[i+1][2]:]
            tk = lex(text)
            j = i
            d = 0
            while tk[j][1] != '{':
                j += 1
            cut = tk[j][3]
            body = text[cut:]
            out = []; pos = 0
            for t in lex(body):
                if t[0] == 'id' and t[1] == 'self':
                    out.append(body[pos:t[2]] + 'self_'); pos = t[3]
            out.append(body[pos:])
            return text[:cut] + ' let mut self_ = self;' + ''.join(out)
    return text

def render_fn(repo, b, gsubsts, smoke=False, external=False):
    src, toks, (a, bo, e) = find_fn(repo, b.args['file'], b.args['path'], b.args.get('trait'), b.args.get('macro'), b.args.get('macro_in'))
    text = src[toks[a][2]:toks[e][3]]
    orig = text
    if b.slice:
        # a block of the function as a function of its own; the contract of the function
        # replaces the same block by a call of it
        tk = lex(text); pat = pat_tokens(b.slice[0]); hits = []
        q = 0
        while q < len(tk):
            m = match_at(tk, q, pat, text)
            if m:
                hits.append(m); q = m[0]
            else: q += 1
        if len(hits) != 1:
            if not external: raise Drift('%s: the block `%s` stands %d times in the function' % (b.args['path'], b.slice[0], len(hits)))
            text = b.sig + ' {}'
        else:
            env = hits[0][1]
            text = b.sig + ' { ' + re.sub(r'\$([A-Za-z_]\w*)', lambda mm: env.get(mm.group(1), mm.group(0)), b.slice[1]) + ' }'
    for p, r in b.substs + gsubsts:
        if p == 'FMT': text = expand_fmt(text)
        elif p == 'LITMATCH': text = expand_litmatch(text)
        elif p == 'BYTEQ': text = expand_byteq(text)
        elif p == 'ORGUARD': text = expand_orguard(text)
        else: text, _ = subst(text, p, r)
    text = unmut_self(text)
    tk = lex(text)
    # signature: fn NAME <generics>? ( params ) -> T where.. {
    i = 2
    if tk[i][1] == '<': i = strip_generics(tk, i)
    if tk[i][1] != '(': raise Drift('signature of ' + b.args['path'])
    pc = match_close(tk, i)
    names = param_names(tk[i+1:pc])
    mp = {}
    if b.params is not None:
        if len(names) != len(b.params): raise Drift('%s: parameter count changed' % b.args['path'])
        mp = {x: y for x, y in zip(b.params, names) if x != y}
    # body open
    j = pc + 1
    while tk[j][1] != '{':
        if tk[j][1] in ('(', '['): j = match_close(tk, j)
        j += 1
    body_open = tk[j][2]
    # edits: list of (pos, order, text) on `text`
    ed = []
    sig = text[:body_open].rstrip()
    # result binder
    if b.ret:
        k = pc + 1
        if k + 1 < len(tk) and tk[k][1] == '-' and tk[k+1][1] == '>':
            ts = tk[k+2][2]
            w = k + 2
            while w < j and tk[w][1] != 'where':
                if tk[w][1] in ('(', '['): w = match_close(tk, w)
                w += 1
            te = tk[w-1][3]
            sig = text[:ts] + '(' + b.ret + ': ' + text[ts:te] + ')' + text[te:body_open].rstrip()
        else: raise Drift('%s: no result type' % b.args['path'])
    if b.args.get('as'):
        sig = re.sub(r'^fn\s+\w+', 'fn ' + b.args['as'], sig, count=1)
    spec = rename_idents(b.spec, mp)
    body = text[body_open:]
    attr = (b.args.get('attr') or '')
    attr = ''.join('#[' + a + ']\n' for a in attr.split('+') if a)
    if external:
        return attr + '#[verifier::external_body]\n' + sig + '\n' + spec + '{ unimplemented!() }', orig
    loops = find_loops(body)
    if smoke:
        ed.append((1, 2, '\nassert(false); // smoke\n'))
    declared = {l[0] for l in b.loops}
    nl = b.args.get('loops')
    want = int(nl) if nl is not None else (max(declared) + 1 if declared else 0)
    if len(loops) != want: raise Drift('%s: %d loops in the source, contract has %d' % (b.args['path'], len(loops), want))
    for k, it, txt in b.loops:
        lp = loops[k]
        ed.append((lp['open'], 0, '\n' + rename_idents(txt, mp)))
        if it:
            if lp['kw'] != 'for': raise Drift('%s: loop %d is not a for loop any more' % (b.args['path'], k))
            ed.append((lp['inpos'], 0, ' ' + it + ':'))
    for where, txt in b.ats:
        txt = '\n' + rename_idents(txt, mp)
        w = where.split(None, 2)
        if w[0] == 'start': ed.append((1, 1, txt))
        elif w[0] in ('loopstart', 'loopend', 'afterloop', 'beforeloop'):
            lp = loops[int(w[1])]
            pos = {'loopstart': lp['open'] + 1, 'loopend': lp['close'], 'afterloop': lp['after'], 'beforeloop': lp['start']}[w[0]]
            ed.append((pos, 1 if w[0] != 'beforeloop' else 1, txt))
        elif w[0] in ('before', 'after'):
            n = int(w[1]); pat = pat_tokens(rename_idents(w[2], mp))
            bt = lex(body); hit = 0; done = False
            for q in range(len(bt)):
                m = match_at(bt, q, pat, body)
                if m:
                    if hit == n:
                        pos = bt[q][2] if w[0] == 'before' else bt[m[0]-1][3]
                        ed.append((pos, 1, txt)); done = True
                        break
                    hit += 1
            if not done: raise Drift('%s: ghost anchor `%s` not found' % (b.args['path'], w[2]))
        else: raise SystemExit('bad at: ' + where)
    for pos, o, t in sorted(ed, key=lambda x: (x[0], x[1]), reverse=True):
        body = body[:pos] + t + body[pos:]
    return attr + sig + '\n' + spec + body, orig

def strip_attrs_and_vis(text):
    toks = lex(text)
    cut = []
    i = 0
    while i < len(toks):
        if toks[i][1] == '#' and i + 1 < len(toks) and toks[i+1][1] == '[':
            c = match_close(toks, i + 1)
            cut.append((toks[i][2], toks[c][3])); i = c + 1
            continue
        if toks[i][1] == 'pub':
            e = i
            if toks[i+1][1] == '(' and toks[i+2][1] in ('crate', 'super', 'self', 'in'):
                e = match_close(toks, i + 1)
            cut.append((toks[i][2], toks[e][3])); i = e + 1
            continue
        i += 1
    for a, b in reversed(cut): text = text[:a] + text[b:]
    return re.sub(r'^\s*///.*\n', '', text, flags=re.M)

def render_struct(repo, b, gsubsts):
    if b.args.get('macro'): src, toks = expand_chain(repo, b.args['file'], b.args['macro'], b.args.get('macro_in'))
    else: src, toks = load(repo, b.args['file'])
    a, bo, e = find_item(toks, b.args['name'], ('struct', 'enum'))
    text = strip_attrs_and_vis(src[toks[a][2]:toks[e][3]])
    if b.keep is not None:
        tk = lex(text)
        o = next(k for k in range(len(tk)) if tk[k][1] == '{')
        c = match_close(tk, o)
        fields = []; k = o + 1; st = k
        d = 0
        while k <= c:
            t = tk[k][1]
            if t == '<': d += 1
            elif t == '>': d -= 1
            if (t == ',' and d == 0) or k == c:
                if k > st: fields.append((tk[st][1], text[tk[st][2]:tk[k-1][3]]))
                st = k + 1
            elif t in OPEN: k = match_close(tk, k)
            k += 1
        have = {f for f, _ in fields}
        for w in b.keep:
            if w not in have: raise Drift('field %s of %s is gone' % (w, b.args['name']))
        text = text[:tk[o][3]] + ' ' + ', '.join(t for f, t in fields if f in b.keep) + ' }'
    for p, r in b.substs + gsubsts:
        if p not in ('FMT', 'LITMATCH', 'BYTEQ', 'ORGUARD'): text, _ = subst(text, p, r)
    at = b.args.get('attr')
    return ('#[' + at + ']\n' if at else '') + text

def render_const(repo, b):
    src, toks = load(repo, b.args['file'])
    a, bo, e = find_item(toks, b.args['name'], ('const',))
    return strip_attrs_and_vis(src[toks[a][2]:toks[e][3]])

def render_constfn(repo, b, gsubsts, smoke, external):
    """`const N: T = E;` as `fn NEW() -> (r: T) { E }`"""
    src, toks = load(repo, b.args['file'])
    n = b.args['path'].split('::')[-1]
    hits = [i for i in range(len(toks) - 3) if toks[i][1] == 'const' and toks[i+1][1] == n and toks[i+2][1] == ':']
    if len(hits) != 1: raise Drift('const %s: %d candidates' % (n, len(hits)))
    i = hits[0] + 3
    k = i
    while toks[k][1] != '=': k += 1
    j = k + 1
    while toks[j][1] != ';':
        j = match_close(toks, j) + 1 if toks[j][1] in OPEN else j + 1
    ty = src[toks[i][2]:toks[k-1][3]]; e = src[toks[k+1][2]:toks[j-1][3]]
    orig = src[toks[hits[0]][2]:toks[j][3]]
    text = '{\n' + ('assert(false); // smoke\n' if smoke else '') + e + ' }'
    if external: return '#[verifier::external_body]\nfn %s() -> (r: %s)\n%s\n{ unimplemented!() }' % (b.args['as'], ty, b.spec), orig
    for p, r in b.substs + gsubsts:
        if p not in ('FMT', 'LITMATCH', 'BYTEQ', 'ORGUARD'): text, _ = subst(text, p, r)
    return 'fn %s() -> (r: %s)\n%s\n%s' % (b.args['as'], ty, b.spec, text), orig

class Unit:
    """A generated Verus file with the line range of every extracted function."""
    def __init__(self): self.text = ''; self.fns = []; self.drift = {}; self.fatal = None; self.orig_lines = 0

def generate(repo, contract, smoke=False, external=()):
    """external: dict fn-key -> reason (rendered as external_body)."""
    _src_cache.clear()
    base = os.path.dirname(contract)
    parts = parse_contract(contract, base)
    gs = [(p[1], p[2]) for p in parts if isinstance(p, tuple)]
    u = Unit()
    out = []
    line = 1
    for p in parts:
        if isinstance(p, tuple): continue
        if isinstance(p, str):
            out.append(p); line += p.count('\n') + 1
            continue
        if p.kind == 'struct':
            t = render_struct(repo, p, gs)
            out.append(t); line += t.count('\n') + 1
            continue
        if p.kind == 'const':
            t = render_const(repo, p)
            out.append(t); line += t.count('\n') + 1
            continue
        key = p.args['file'] + '::' + (p.args.get('trait', '') + '/' if p.args.get('trait') else '') + p.args['path'] + ('#' + p.args['as'] if p.args.get('as') else '')
        ext = key in external
        try:
            t, orig = (render_constfn(repo, p, gs, smoke, ext) if p.kind == 'constfn' else render_fn(repo, p, gs, smoke, ext))
            u.orig_lines += orig.count('\n') + 1
        except Drift as ex:
            u.drift[key] = str(ex)
            try:
                if p.kind == 'constfn': raise
                t, orig = render_fn(repo, p, gs, smoke, True)
                ext = True
            except Drift as ex2:
                # signature lost as well: drop the function
                t = '// dropped: %s' % ex2
                ext = True
        n = t.count('\n') + 1
        u.fns.append(dict(key=key, first=line, last=line + n - 1, external=ext, name=p.args.get('as') or p.args['path'].split('::')[-1]))
        out.append(t); line += n
    u.text = '\n'.join(out) + '\n'
    return u

if __name__ == '__main__':
    u = generate(sys.argv[1], sys.argv[2], smoke='--smoke' in sys.argv)
    sys.stdout.write(u.text)
    for k, v in u.drift.items(): sys.stderr.write('DRIFT %s: %s\n' % (k, v))
