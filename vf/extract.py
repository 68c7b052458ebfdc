"""Takes functions and items out of Rust sources by token matching, so formatting and comments do not matter.

A contract file (contracts/*.rs) is a Verus file in which directives name the functions of /repo to insert:

    //@@ fn FILE PATH          begin; PATH is `name`, `Type::name` or `Trait for Type::name`
                               (`Type<Arg>` picks among impls for different arguments)
    //@@ as NAME               rename the function (and only its definition)
    //@@ sig TEXT              replace everything before the body (declared signature change)
    //@@ bind NAME PATTERN     $NAME in contract text stands for what the pattern binds it to
    //@@ bind? NAME PATTERN    the same, but may be missing (then NAME itself is used)
    //@@ subst PATTERN => TEXT mechanical rewrite of all matches (must match at least once)
    //@@ subst? PATTERN => TEXT the same, but may match nothing
    //@@ ret NAME              name of the result in the contract
    //@@ spec                  requires/ensures clauses, up to the next directive
    //@@ loop N [iter NAME]    invariants of the N-th loop (in source order)
    //@@ start | in-loop N | end-loop N | after-loop N | before PATTERN | after PATTERN
                               ghost code inserted there
    //@@ end
    //@@ drop-items           leave out items declared inside the body (they are extracted on their own)
    //@@ require FILE PATTERN (outside functions) the pattern must be in the file
    //@@ expand-write         write!(f, "..", ..) becomes calls of w_lit / w_disp / w_oct3 ... with their contracts
    //@@ item FILE KIND NAME   a struct, enum, const, type or impl-less item, without its attributes
    //@@ item-subst PATTERN => TEXT  a rewrite of the item that follows

Patterns are Rust tokens; $x matches a shortest balanced token run, $x:id one identifier, $x:tt one token tree, $x:b one block in braces.
"""
import re, hashlib, os
HERE = os.path.dirname(os.path.abspath(__file__))

class Lost(Exception):
    """An anchor of the contract is not in the source any more."""

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?[A-Za-z_]\w*|0[xX][0-9a-fA-F_]+\w*|\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*)
 |(?P<id>r\#\w+|[A-Za-z_]\w*)
 |(?P<p>.)
''', re.X | re.S)

class T:
    __slots__ = ('k', 's', 'pre', 'line', 'raw')
    def __init__(self, k, s, pre='', line=0, raw=False):
        self.k, self.s, self.pre, self.line, self.raw = k, s, pre, line, raw
    def __repr__(self): return self.s

def lex(text):
    out, i, pre, line = [], 0, '', 1
    n = len(text)
    while i < n:
        if text.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if text.startswith('/*', j): d += 1; j += 2
                elif text.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            line += text.count('\n', i, j); i = j; pre += ' '; continue
        m = TOK.match(text, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'rstr'
        s = m.group()
        if m.group('rstr') is not None: k = 'str'
        if k == 'ws': pre += s
        elif k == 'lc': pre += '\n' if not pre.endswith('\n') else ''
        else:
            out.append(T(k, s, pre, line)); pre = ''
        line += s.count('\n'); i = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(ts, i):
    """Index of the token closing the bracket at i."""
    d = 0
    for j in range(i, len(ts)):
        t = ts[j]
        if t.k == 'p' and not t.raw:
            if t.s in OPEN: d += 1
            elif t.s in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost('unbalanced brackets')

def text(ts):
    return ''.join((t.pre if t.pre else ('' if n == 0 else '')) + t.s for n, t in enumerate(ts))

def norm(ts):
    return ' '.join(t.s for t in ts)

def skip_attrs(ts, i):
    while i < len(ts) and ts[i].s == '#' and i + 1 < len(ts):
        j = i + 1
        if ts[j].s == '!': j += 1
        if ts[j].s != '[': break
        i = match_close(ts, j) + 1
    return i

def is_test_attr(ts, i, j):
    s = ''.join(t.s for t in ts[i:j])
    return '#[cfg(test)]' in s or '#[test]' in s or 'cfg(kani)' in s

KW_ITEM = {'fn', 'struct', 'enum', 'impl', 'mod', 'trait', 'const', 'static', 'type', 'use', 'macro_rules', 'extern', 'union'}

def items(ts, lo=0, hi=None):
    """Yields (kind, name, start, end) of the items between lo and hi (attributes excluded)."""
    hi = len(ts) if hi is None else hi
    i = lo
    while i < hi:
        a = i
        i = skip_attrs(ts, i)
        test = is_test_attr(ts, a, i)
        s = i
        # qualifiers
        j = i
        while j < hi and (ts[j].s in ('pub', 'async', 'unsafe', 'default') or (ts[j].s == 'const' and j + 1 < hi and ts[j + 1].s in ('fn', 'unsafe')) or (ts[j].s == 'extern' and ts[j + 1].k == 'str')):
            if ts[j].s == 'pub' and ts[j + 1].s == '(':
                j = match_close(ts, j + 1) + 1
            elif ts[j].s == 'extern': j += 2
            else: j += 1
        if j >= hi: break
        k = ts[j].s
        # find the end: `;` or a `{}` block at depth 0
        e = j
        while e < hi:
            if ts[e].k == 'p':
                if ts[e].s == '{':
                    e = match_close(ts, e)
                    if k in ('use', 'const', 'static', 'type') or (k == 'struct' and False):
                        e += 1
                        continue
                    break
                if ts[e].s in '([':
                    e = match_close(ts, e) + 1
                    continue
                if ts[e].s == ';': break
            e += 1
        name = ts[j + 1].s if j + 1 < hi else ''
        if k == 'macro_rules': name = ts[j + 2].s
        if not test: yield k, name, s, j, min(e, hi - 1)
        i = e + 1

def impl_head(ts, j):
    """(trait or None, type name, body start) of the impl at j."""
    i = j + 1
    if ts[i].s == '<':
        d = 0
        while True:
            if ts[i].s == '<': d += 1
            if ts[i].s == '>' and ts[i - 1].s != '-':
                d -= 1
                if d == 0: i += 1; break
            i += 1
    b = i
    while ts[b].s != '{':
        if ts[b].s in '([': b = match_close(ts, b)
        b += 1
    head = ts[i:b]
    for n, t in enumerate(head):
        if t.s == 'where': head = head[:n]; break
    def last(ts2):
        d, out = 0, None
        for n, t in enumerate(ts2):
            if t.s == '<': d += 1
            elif t.s == '>': d -= 1
            elif d == 0 and t.k == 'id' and t.s not in ('dyn', 'mut'): out = t.s
        return out
    d = 0
    for n, t in enumerate(head):
        if t.s == '<': d += 1
        elif t.s == '>': d -= 1
        elif t.s == 'for' and d == 0:
            return last(head[:n]), Ty(last(head[n + 1:]), head[n + 1:]), b
    return None, Ty(last(head), head), b

class Ty(str):
    """The name of a type; `args` are the identifiers in its generic arguments."""
    def __new__(cls, name, ts):
        o = str.__new__(cls, name or '')
        ids = [t.s for t in ts if t.k == 'id' and t.s not in ('dyn', 'mut')]
        o.args = ids[ids.index(name) + 1:] if name in ids else []
        return o

def find_fn(ts, path, want_params=None):
    """Tokens of the function, from its qualifiers to its closing brace."""
    trait = None
    name = path
    if ' for ' in path:
        trait, path = path.split(' for ')
    if '::' in path:
        ty, name = path.rsplit('::', 1)
    else:
        ty = None
    args = None
    if ty is not None and '<' in ty:
        ty, args = ty[:-1].split('<', 1)
        args = re.findall(r'\w+', args)
    found = []
    def walk(lo, hi, inside):
        for k, n, s, j, e in items(ts, lo, hi):
            if k == 'fn' and n == name and inside == (ty is not None):
                found.append((s, e))
            elif k == 'impl' and ty is not None and not inside:
                tr, t, b = impl_head(ts, j)
                if t == ty and (trait is None or tr == trait) and (args is None or t.args == args): walk(b + 1, e, True)
            elif k == 'trait' and ty == n and not inside:
                b = j
                while ts[b].s != '{': b += 1
                walk(b + 1, e, True)
            elif k == 'mod' and not inside and ts[e].s == '}':
                b = j
                while ts[b].s != '{': b += 1
                walk(b + 1, e, n == ty)
    walk(0, len(ts), False)
    found = [f for f in found if ts[f[1]].s == '}']
    if not found and ty is not None and trait is None:
        # a function inside the body of another one
        outer = find_fn(ts, ty)
        for i, t in enumerate(outer):
            if i > 1 and t.s == 'fn' and outer[i + 1].s == name and outer[i - 1].s in '{};]':
                j = i
                while outer[j].s != '{':
                    if outer[j].s in '([': j = match_close(outer, j)
                    j += 1
                return outer[i:match_close(outer, j) + 1]
    # the checked build has all features on
    def feature_off(s):
        while s >= 1 and ts[s - 1].s == ']':
            j = s - 1
            while j > 0 and ts[j].s != '#': j -= 1
            if ' '.join(t.s for t in ts[j:s]).startswith('# [ cfg ( not ( feature ='): return True
            s = j
        return False
    if len(found) > 1: found = [f for f in found if not feature_off(f[0])]
    if len(found) != 1:
        raise Lost(f'function {path}: {len(found)} found')
    s, e = found[0]
    return [T(t.k, t.s, t.pre, t.line) for t in ts[s:e + 1]]

def find_item(ts, kind, name):
    found, top = [], []
    def walk(lo, hi):
        for k, n, s, j, e in items(ts, lo, hi):
            if k == kind and n == name:
                found.append((s, e))
                if lo == 0: top.append((s, e))
            elif k == 'mod' and ts[e].s == '}':
                b = j
                while ts[b].s != '{': b += 1
                walk(b + 1, e)
    walk(0, len(ts))
    if len(top) == 1: found = top
    if len(found) != 1: raise Lost(f'{kind} {name}: {len(found)} found')
    s, e = found[0]
    out = []
    i = s
    while i <= e:
        if ts[i].s == '#' and ts[i + 1].s == '[':
            i = match_close(ts, i + 1) + 1
            continue
        out.append(T(ts[i].k, ts[i].s, ts[i].pre or '', ts[i].line)); i += 1
    return out

# ---- patterns

def compile_pat(s):
    ts = lex(s)
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == '$' and i + 1 < len(ts) and ts[i + 1].k == 'id':
            n, mode = ts[i + 1].s, 'run'
            i += 2
            if i + 1 < len(ts) and ts[i].s == ':' and ts[i + 1].s in ('id', 'tt', 'e', 'b') and not ts[i].pre:
                mode = ts[i + 1].s; i += 2
            out.append(('v', n, mode))
        else:
            out.append(('t', ts[i].s)); i += 1
    return out

KW = {'if', 'match', 'return', 'in', 'else', 'while', 'let', 'mut', 'ref', 'for', 'loop', 'break', 'move', 'as', 'fn', 'where', 'impl', 'dyn', 'pub', 'use', 'const', 'static'}

def postfix_start(ts, i):
    """Whether a postfix expression (a.b(c)?[d]) starts at i."""
    t = ts[i]
    pv = lambda k: ts[i - k].s if i >= k and ts[i - k].k == 'p' else ''
    if pv(1) == '.' and pv(2) != '.': return False
    if pv(1) == ':' and pv(2) == ':': return False
    if t.k == 'p': return t.s == '(' and not (i and (ts[i - 1].k == 'id' and ts[i - 1].s not in KW or pv(1) in (')', ']', '>', '!')))
    return t.k != 'id' or t.s not in KW

def postfix_next(ts, j):
    """Whether the token at j continues the postfix expression that ends before it."""
    t, p = ts[j], ts[j - 1]
    nx = ts[j + 1].s if j + 1 < len(ts) else ''
    if t.k == 'p':
        if t.s == '.': return nx != '.' and p.s != '.'
        if t.s == ':': return nx == ':' or p.s == ':'
        if t.s == '<': return p.s == ':'
        return t.s in ('?', '(', '[')
    if t.k == 'id' and t.s in KW: return False
    return p.k == 'p' and p.s in ('.', ':')

def match_at(ts, i, pat, env=None, pi=0):
    """End index of a match of pat at i, and the bindings, or None."""
    env = dict(env or {})
    while pi < len(pat):
        p = pat[pi]
        if p[0] == 't':
            if i >= len(ts) or ts[i].raw or ts[i].s != p[1]: return None
            i += 1; pi += 1
            continue
        _, n, mode = p
        if i >= len(ts): return None
        if mode in ('id', 'tt', 'b'):
            if mode == 'id' and ts[i].k != 'id': return None
            if mode == 'b' and (ts[i].raw or ts[i].s != '{'): return None
            e = match_close(ts, i) + 1 if ts[i].k == 'p' and ts[i].s in OPEN else i + 1
            v = ts[i:e]
            if n in env and norm(env[n]) != norm(v): return None
            env[n] = v
            i = e; pi += 1
            continue
        if mode == 'e' and (not postfix_start(ts, i)): return None
        # shortest balanced run
        j = i
        while j < len(ts):
            if ts[j].k == 'p' and ts[j].s in CLOSE: break
            if ts[j].s == ';' : break
            j2 = match_close(ts, j) + 1 if ts[j].k == 'p' and ts[j].s in OPEN else j + 1
            if mode == 'e' and j > i and not postfix_next(ts, j): break
            v = ts[i:j2]
            if n not in env or norm(env[n]) == norm(v):
                env2 = dict(env); env2[n] = v
                r = match_at(ts, j2, pat, env2, pi + 1)
                if r: return r
            j = j2
        return None
    return i, env

def find_pat(ts, pat, start=0):
    for i in range(start, len(ts)):
        r = match_at(ts, i, pat)
        if r: return i, r[0], r[1]
    return None

def instantiate(repl, env):
    def f(m):
        n = m.group(1)
        return text(env[n]).strip() if n in env else m.group()
    return re.sub(r'\$(\w+)', f, repl)

def substitute(ts, pat, repl, many=True):
    out, i, n = [], 0, 0
    while i < len(ts):
        r = match_at(ts, i, pat) if not ts[i].raw and (many or n == 0) else None
        if r and r[0] > i:
            new = lex(instantiate(repl, r[1]))
            if new: new[0].pre = ts[i].pre or ' '
            out += new; n += 1; i = r[0]
            if i < len(ts) and not ts[i].pre and new and new[-1].k in ('id', 'num') and ts[i].k in ('id', 'num'):
                ts[i].pre = ' '
        else:
            out.append(ts[i]); i += 1
    return out, n

LOOPS = ('for', 'while', 'loop')

def loops(ts):
    """(keyword index, body open index) of the loops of a body, in source order."""
    out = []
    for i, t in enumerate(ts):
        if t.k == 'id' and t.s in LOOPS and not t.raw:
            if t.s == 'for' and i + 1 < len(ts) and ts[i + 1].s == '<': continue
            j = i + 1
            ok = True
            while ts[j].s != '{':
                if ts[j].k == 'p' and ts[j].s in '([': j = match_close(ts, j)
                elif ts[j].s == ';': ok = False; break
                elif ts[j].s in ('match', 'if') and ts[j].k == 'id':
                    while ts[j].s != '{': j += 1
                    j = match_close(ts, j)
                j += 1
            if ok: out.append((i, j))
    return out

def loop_shape(ts):
    return [ts[i].s for i, _ in loops(ts)]

def split_sig(ts):
    """Indices: name, params open, params close, arrow (or None), where (or None), body open."""
    i = 0
    while ts[i].s != 'fn': i += 1
    name = i + 1
    i += 2
    if ts[i].s == '<':
        d = 0
        while True:
            if ts[i].s == '<': d += 1
            elif ts[i].s == '>' and ts[i - 1].s != '-':
                d -= 1
                if d == 0: break
            i += 1
        i += 1
    po = i
    pc = match_close(ts, po)
    arrow = where = None
    i = pc + 1
    if ts[i].s == '-' and ts[i + 1].s == '>':
        arrow = i
        i += 2
    while ts[i].s != '{':
        if ts[i].s == 'where': where = i
        if ts[i].k == 'p' and ts[i].s in '([': i = match_close(ts, i)
        i += 1
    return name, po, pc, arrow, where, i

def raw(s):
    return T('raw', s, '\n', 0, True)

def param_names(ts, po, pc):
    names, i, d, cur = [], po + 1, 0, []
    seg = []
    while i < pc:
        t = ts[i]
        if t.s in ('<',): d += 1
        elif t.s == '>' and ts[i - 1].s != '-': d -= 1
        if t.k == 'p' and t.s in OPEN:
            j = match_close(ts, i)
            cur += ts[i:j + 1]; i = j + 1
            continue
        if t.s == ',' and d == 0:
            seg.append(cur); cur = []
        else: cur.append(t)
        i += 1
    if cur: seg.append(cur)
    for s in seg:
        n = [t for t in s if t.s not in ('mut', '&') and t.k != 'life']
        names.append(n[0].s if n else '_')
    return names

def drop_inner_items(body):
    """Removes items (with their attributes) declared in a function body."""
    out, i, start = [], 0, True
    while i < len(body):
        if start and not body[i].raw:
            j = skip_attrs(body, i)
            if j < len(body) and body[j].s in ('fn', 'enum', 'struct', 'use', 'impl'):
                e = j
                while body[e].s not in '{;':
                    if body[e].s in '([': e = match_close(body, e)
                    e += 1
                i = (match_close(body, e) if body[e].s == '{' else e) + 1
                continue
        start = body[i].s in '{};'
        out.append(body[i]); i += 1
    return out

def expand_write(ts):
    """`write!(dst, "lit{arg:spec}", ..)` becomes a block which writes the pieces in order, as format_args does."""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s in ('write', 'writeln') and i + 2 < len(ts) and ts[i + 1].s == '!' and ts[i + 2].s == '(':
            e = match_close(ts, i + 2)
            args, cur, j = [], [], i + 3
            while j < e:
                if ts[j].k == 'p' and ts[j].s in OPEN:
                    k = match_close(ts, j); cur += ts[j:k + 1]; j = k + 1
                    continue
                if ts[j].s == ',': args.append(cur); cur = []
                else: cur.append(ts[j])
                j += 1
            if cur: args.append(cur)
            if len(args) < 2 or len(args[1]) != 1 or args[1][0].k != 'str': raise Lost('write! without a literal format')
            dst, fmt = text(args[0]).strip(), args[1][0].s
            if not fmt.startswith('"'): raise Lost('write! with a raw format')
            fmt = fmt[1:-1] + ('\\n' if ts[i].s == 'writeln' else '')
            pos, n, calls, lit = args[2:], 0, [], ''
            def flush():
                nonlocal lit
                if lit: calls.append(f'w_lit({dst}, "{lit}")?;')
                lit = ''
            k = 0
            while k < len(fmt):
                if fmt[k:k + 2] in ('{{', '}}'): lit += fmt[k]; k += 2
                elif fmt[k] == '{':
                    q = fmt.index('}', k)
                    a, _, spec = fmt[k + 1:q].partition(':')
                    if a == '':
                        if n >= len(pos): raise Lost('write! arguments')
                        a = text(pos[n]).strip(); n += 1
                    elif not re.fullmatch(r'[A-Za-z_]\w*', a): raise Lost('write! arguments')
                    else:
                        for p_ in pos:
                            if len(p_) > 2 and p_[0].s == a and p_[1].s == '=': a = text(p_[2:]).strip()
                    names = {'': 'disp', '?': 'debug', '03o': 'oct3', 'o': 'oct', '02x': 'hex2', '02X': 'hexu2', 'x': 'hex', 'X': 'hexu'}
                    if spec not in names: spec_ = 'spec_' + re.sub(r'\W', '_', spec)
                    else: spec_ = names[spec]
                    flush(); calls.append(f'w_{spec_}({dst}, {a})?;'); k = q + 1
                else: lit += fmt[k]; k += 1
            flush()
            new = lex('{ ' + ' '.join(calls) + ' w_ok() }')
            new[0].pre = ts[i].pre
            out += new; i = e + 1
        else:
            out.append(ts[i]); i += 1
    return out

class Fn:
    def __init__(self, src, path):
        self.src, self.path = src, path
        self.rename = self.sig = self.ret = None
        self.binds, self.substs, self.parts = [], [], []
        self.drop = self.write = False

def render_fn(f, source_tokens, vac=False, counter=None):
    ts = find_fn(source_tokens, f.path)
    first_line, last_line = ts[0].line, ts[-1].line
    digest = hashlib.sha256(norm(ts).encode()).hexdigest()[:16]
    # leave visibility qualifiers out
    i = 0
    while ts[i].s != 'fn':
        if ts[i].s == 'pub':
            e = match_close(ts, i + 1) + 1 if ts[i + 1].s == '(' else i + 1
            del ts[i:e]
            continue
        i += 1
    drops = []
    if f.write: ts = expand_write(ts)
    for pat, repl, opt, many in f.substs:
        ts, n = substitute(ts, compile_pat(pat), repl, many)
        if n == 0 and not opt: raise Lost(f'{f.path}: `{pat}` not found')
        if n: drops.append(f'{pat} => {repl} (x{n})')
    ts = [t for t in ts]
    # attributes inside the body
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == '#' and i + 1 < len(ts) and ts[i + 1].s == '[':
            i = match_close(ts, i + 1) + 1
            continue
        out.append(ts[i]); i += 1
    ts = out
    name, po, pc, arrow, where, b = split_sig(ts)
    for i in range(po + 1, pc):
        if ts[i].s == '_' and ts[i + 1].s == ':' and ts[i - 1].s in '(,': ts[i] = T('id', f'unused{i}_', ts[i].pre, ts[i].line)
    env = {f'p{n}': [T('id', x)] for n, x in enumerate(param_names(ts, po, pc))}
    env['name'] = [ts[name]]
    body = ts[b:]
    if f.drop: body = drop_inner_items(body)
    for n, pat, opt in f.binds:
        r = find_pat(ts, compile_pat(pat))
        if r and n in r[2]: env[n] = r[2][n]
        elif opt: env[n] = [T('id', n)]
        else: raise Lost(f'{f.path}: `{pat}` not found')
    sub = lambda s: instantiate(s, env)
    shape = loop_shape(body)
    ins = {}  # index in body -> list of raw before it
    def add(i, s, front=False):
        l = ins.setdefault(i, [])
        l.insert(0, raw(s)) if front else l.append(raw(s))
    lp = loops(body)
    iters = {}
    for kind, arg, txt in f.parts:
        txt = sub(txt)
        if kind == 'loop':
            n = int(arg.split()[0])
            if n >= len(lp): raise Lost(f'{f.path}: loop {n} not found')
            kw, ob = lp[n]
            m = re.search(r'iter (\w+)', arg)
            if m:
                if body[kw].s != 'for': raise Lost(f'{f.path}: loop {n} is not a for loop')
                j = kw
                while body[j].s != 'in': j += 1
                iters[j] = m.group(1)
            add(ob, txt)
        elif kind in ('in-loop', 'end-loop', 'after-loop'):
            n = int(arg)
            if n >= len(lp): raise Lost(f'{f.path}: loop {n} not found')
            ob = lp[n][1]
            add({'in-loop': ob + 1, 'end-loop': match_close(body, ob), 'after-loop': match_close(body, ob) + 1}[kind], txt)
        elif kind == 'start': add(1, txt)
        elif kind in ('before', 'after', 'before?', 'after?'):
            r = find_pat(body, compile_pat(arg))
            if not r:
                if kind.endswith('?'): continue
                raise Lost(f'{f.path}: `{arg}` not found')
            env2 = dict(env); env2.update(r[2])
            add(r[0] if kind.startswith('before') else r[1], instantiate(txt, env2))
    if vac:
        # a point is reachable if `false` cannot be proved there
        k = [0]
        def probe(i):
            k[0] += 1
            add(i, f'proof {{ if vac__() {{ assert(false); /*probe*/ }} }}')
        for kw, ob in lp: probe(ob + 1)
        for kw, ob in lp:
            e = match_close(body, ob) + 1
            if e < len(body) and body[kw].s != 'loop' and (body[kw - 1].s in ';{}' or body[kw - 1].raw): probe(e)
        first = ins.setdefault(1, [])
        n = 1 if first and re.match(r'\s*hide\(', first[0].s) else 0  # hide(..) has to come first
        first.insert(n, raw('\nproof { if vac__() { assert(false); /*probe*/ } }\n'))
        k[0] += 1
        if counter is not None: counter.append(k[0])
    out = []
    for i, t in enumerate(body):
        if i in ins:
            out += ins[i]
        out.append(t)
        if i in iters: out.append(raw(iters[i] + ': '))
    head = ts[:b]
    if f.sig is not None:
        headtext = f.sig
    else:
        if f.rename: head[name].s = f.rename
        if f.ret and arrow is not None:
            e = where if where is not None else b
            head = head[:arrow + 2] + [T('p', '(', ' '), T('id', f.ret), T('p', ':')] + [T('p', '')] + head[arrow + 2:e] + [T('p', ')')] + head[e:]
        headtext = text(head)
    spec = ''.join(sub(t) for k, a, t in f.parts if k == 'spec')
    s = headtext.strip() + '\n' + spec + '\n' + text(out)
    return s, dict(path=f.path, src=f.src, lines=[first_line, last_line], digest=digest, shape=shape, rewrites=drops)

def parse_template(path):
    """List of str (verbatim text), Fn, or ('item', src, kind, name, substs)."""
    out, cur, fn, sect = [], [], None, None
    meta = {}
    isubs = []
    import os
    def include(m):
        return open(os.path.join(os.path.dirname(path), 'lib', m.group(1))).read()
    whole = re.sub(r'^//@@ include (\S+)$', include, open(path).read(), flags=re.M)
    for ln, l in enumerate(whole.split('\n'), 1):
        m = re.match(r'\s*//@@\s*(\S+)\s*(.*?)\s*$', l)
        if not m:
            if fn is None: cur.append(l)
            elif sect is not None: sect.append(l)
            elif l.strip(): raise SystemExit(f'{path}:{ln}: text outside a section')
            continue
        d, a = m.groups()
        if fn is None:
            if d == 'fn':
                out.append('\n'.join(cur) + '\n'); cur = []
                s, p = a.split(None, 1)
                fn, sect = Fn(s, p), None
            elif d in ('item-subst', 'item-subst?'):
                p, r = a.split('=>', 1) if '==>>' not in a else a.split('==>>', 1)
                isubs.append((p.strip(), r.strip(), d.endswith('?')))
            elif d == 'item':
                out.append('\n'.join(cur) + '\n'); cur = []
                s, k, n = a.split()
                out.append(('item', s, k, n, isubs)); isubs = []
            elif d in ('props', 'flags', 'require'): meta.setdefault(d, []).append(a)
            else: raise SystemExit(f'{path}:{ln}: unknown directive {d}')
            continue
        sect = None
        if d == 'end':
            out.append(fn); fn = None
        elif d == 'as': fn.rename = a
        elif d == 'sig': fn.sig = a
        elif d == 'ret': fn.ret = a
        elif d == 'drop-items': fn.drop = True
        elif d == 'expand-write': fn.write = True
        elif d in ('bind', 'bind?'):
            n, p = a.split(None, 1)
            fn.binds.append((n, p, d.endswith('?')))
        elif d in ('subst', 'subst?', 'subst1', 'subst1?'):
            sep = '==>>' if '==>>' in a else '=>'
            if sep == '=>' and a.count('=>') > 1: raise SystemExit(f'{path}:{ln}: use ==>> here')
            p, r = a.split(sep, 1)
            fn.substs.append((p.strip(), r.strip(), d.endswith('?'), '1' not in d))
        elif d in ('spec', 'loop', 'in-loop', 'end-loop', 'after-loop', 'start', 'before', 'after', 'before?', 'after?'):
            class Part(list): pass
            sect = []
            fn.parts.append((d, a, sect))
        else: raise SystemExit(f'{path}:{ln}: unknown directive {d}')
    out.append('\n'.join(cur) + '\n')
    for x in out:
        if isinstance(x, Fn): x.parts = [(d, a, '\n'.join(s) + '\n') for d, a, s in x.parts]
    return meta, out

def pub_fields(ts):
    o = next((i for i, t in enumerate(ts) if t.k == 'p' and t.s in '{('), None)
    if o is None: return ts
    out, i, start, c, angle = ts[:o + 1], o + 1, True, match_close(ts, o), 0
    while i < c:
        t = ts[i]
        if start:
            if t.s == 'pub':
                i += 1
                if ts[i].s == '(' and ts[o].s == '{': i = match_close(ts, i) + 1
            out.append(raw(' pub '))
            start = False
            continue
        if t.k == 'p' and t.s == '<': angle += 1
        if t.k == 'p' and t.s == '>' and ts[i - 1].s != '-': angle -= 1
        e = match_close(ts, i) + 1 if t.k == 'p' and t.s in OPEN else i + 1
        out += ts[i:e]
        if t.s == ',' and t.k == 'p' and angle == 0: start = i + 1 < c
        i = e
    return out + ts[c:]

def locate(p, repo):
    """`crate:path` is a file of a dependency, in the version that Cargo.lock selects."""
    m = re.match(r'([a-z_-]+):(.*)$', p)
    if not m: return f'{repo}/{p}'
    import glob, os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    locks = [f for f in (f'{repo}/Cargo.lock', f'{here}/harness/Cargo.lock') if os.path.exists(f)]
    for v in [v for f in locks for v in re.findall(rf'name = "{m.group(1)}"\nversion = "([^"]+)"', open(f).read())]:
        for f in glob.glob(f'{os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))}/registry/src/*/{m.group(1)}-{v}/{m.group(2)}'): return f
    raise Lost(f'{p} is not in the cargo registry')

def generate(template, repo, vac=False):
    """(text, functions under contract, number of reachability probes); raises Lost."""
    meta, parts = parse_template(template)
    cache, res, fns, probes, bodies = {}, '', [], [], []
    def src(p):
        if p not in cache:
            try: cache[p] = lex(open(locate(p, repo)).read())
            except OSError: raise Lost(f'{p} is missing')
        return cache[p]
    for a in meta.get('require', []):
        p, pat = a.split(None, 1)
        if not find_pat(src(p), compile_pat(pat)): raise Lost(f'{p}: `{pat}` not found')
    for x in parts:
        if isinstance(x, str): res += x
        elif isinstance(x, Fn):
            s, info = render_fn(x, src(x.src), vac, probes)
            start = res.count('\n') + 1
            res += s + '\n'
            bodies.append(s)
            info['out_lines'] = [start, res.count('\n')]
            fns.append(info)
        else:
            _, p, k, n, subs = x
            ts = find_item(src(p), k, n)
            i = 0
            while ts[i].s == 'pub':
                e = match_close(ts, 1) + 1 if ts[1].s == '(' else 1
                del ts[:e]
            for pat, repl, opt in subs:
                ts, c = substitute(ts, compile_pat(pat), repl)
                if c == 0 and not opt: raise Lost(f'{k} {n}: `{pat}` not found')
            if k in ('struct', 'enum', 'const', 'type', 'mod'):
                if k == 'struct': ts = pub_fields(ts)
                ts = [raw('pub ')] + ts
            res += text(ts).strip() + '\n'
    return meta, res + std_specs(''.join(bodies), res), fns, sum(probes)

def std_specs(code, res):
    """Contracts of functions of std that the extracted code calls and the unit does not specify itself (contracts/lib/std.list)."""
    out = ''
    for l in open(os.path.join(HERE, '..', 'contracts', 'lib', 'std.list')):
        pat, path, gen, sig = (x.strip() for x in l.split('||'))
        if not re.search(pat, code): continue
        base = re.sub(r'::<[^>]*>$', '', path)
        if re.search(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*' + re.escape(base).replace(r'\ ', r'\s*'), res): continue
        out += f'pub assume_specification {gen} [ {path} ] {sig};\n'
    return out and '\nverus! {\n' + out + '}\n'
