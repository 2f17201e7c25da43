"""Mechanical insertion of loop contracts and ghost statements into a copy of a
C source file of /repo.  Nothing is dropped from the source; the only text
added is (a) loop-contract clauses between a loop head and its body and (b)
ghost statements that assign only to the ghost variables of the unit.

A directive that does not fit the current source (function or loop missing,
a local variable it mentions missing) raises Inapplicable."""
import re


class Inapplicable(Exception):
    pass


def blank(src):
    """Source with comments, strings, chars and preprocessor lines blanked out
    (same length), so that offsets match."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    bol = True
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            wipe(i, j)
            i = j
        elif src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif c == '"' or c == "'":
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            wipe(i + 1, min(j, n))
            i = j + 1
            bol = False
        elif c == '#' and bol:
            j = i
            while True:
                k = src.find('\n', j)
                if k < 0:
                    k = n
                    break
                if src[k - 1] == '\\':
                    j = k + 1
                    continue
                break
            wipe(i, k)
            i = k
        else:
            if c == '\n':
                bol = True
            elif not c.isspace():
                bol = False
            i += 1
    return ''.join(out)


def match(b, i, op, cl):
    d = 0
    for k in range(i, len(b)):
        if b[k] == op:
            d += 1
        elif b[k] == cl:
            d -= 1
            if d == 0:
                return k
    raise Inapplicable('unbalanced %s' % op)


def find_function(b, name):
    """(start of body brace, end brace) of the definition of name, at depth 0."""
    depth = 0
    pos = []
    for m in re.finditer(r'[{}]|\b%s\s*\(' % re.escape(name), b):
        t = m.group(0)
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        elif depth == 0:
            pos.append(m)
    for m in pos:
        p = b.index('(', m.start())
        q = match(b, p, '(', ')')
        r = re.match(r'\s*\{', b[q + 1:])
        if r:
            s = q + 1 + r.end() - 1
            return s, match(b, s, '{', '}'), b[p + 1:q]
    raise Inapplicable('function %s not found' % name)


def functions_defined(src):
    b = blank(src)
    names, depth = [], 0
    for m in re.finditer(r'[{}]|\b([A-Za-z_]\w*)\s*\(', b):
        t = m.group(0)
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        elif depth == 0:
            p = m.end() - 1
            try:
                q = match(b, p, '(', ')')
            except Inapplicable:
                continue
            if re.match(r'\s*\{', b[q + 1:]):
                names.append(m.group(1))
    return names


def loops(b, s, e):
    """Loops of b[s:e] in textual order: (kind, keyword pos, insertion pos for
    clauses, body start)."""
    res = []
    dowhile = set()
    for m in re.finditer(r'\b(for|while|do)\b', b[s:e]):
        k = s + m.start()
        kind = m.group(1)
        if kind == 'do':
            r = re.match(r'\s*\{', b[k + 2:])
            if not r:
                raise Inapplicable('do without braces')
            bs = k + 2 + r.end() - 1
            be = match(b, bs, '{', '}')
            w = re.match(r'\s*while\s*\(', b[be + 1:])
            if not w:
                raise Inapplicable('do without while')
            dowhile.add(be + 1 + re.match(r'\s*', b[be + 1:]).end())
            p = be + 1 + w.end() - 1
            q = match(b, p, '(', ')')
            res.append(('do', k, k + 2, bs))
        elif kind == 'while' and k in dowhile:
            continue
        else:
            p = b.index('(', k)
            q = match(b, p, '(', ')')
            r = re.match(r'\s*', b[q + 1:]).end() + q + 1
            res.append((kind, k, q + 1, r))
    return res


KW = {'return', 'goto', 'else', 'case', 'if', 'while', 'for', 'do', 'switch', 'break', 'continue', 'default', 'sizeof'}
QUAL = {'const', 'unsigned', 'signed', 'static', 'struct', 'enum', 'volatile', 'register', 'union', 'long', 'short'}


def split0(t):
    r, d, cur = [], 0, ''
    for c in t:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == ',' and d == 0:
            r.append(cur)
            cur = ''
        else:
            cur += c
    return r + [cur]


def declared(b, s, upto, params):
    """names of the locals and parameters declared in b[s:upto]"""
    names = []
    for p in split0(params):
        m = re.search(r'([A-Za-z_]\w*)\s*(\[[^\]]*\]\s*)*$', p)
        if m:
            names.append(m.group(1))
    for st in re.split(r'[;{}]', b[s:upto]):
        st = re.sub(r'^\s*for\s*\(', '', st)
        toks = re.match(r'\s*((?:[A-Za-z_]\w*\s+)*?)([A-Za-z_]\w*)((?:\s*\*)+\s*|\s+)([A-Za-z_]\w*)\s*(=(?!=)|,|\[|$)', st)
        if not toks:
            continue
        first = (toks.group(1).split() or [toks.group(2)])[0]
        if first in KW or toks.group(2) in KW:
            continue
        rest = st[toks.start(4):]
        for d in split0(rest):
            m = re.match(r'\s*\**\s*([A-Za-z_]\w*)', d)
            if m:
                names.append(m.group(1))
    return names


def assigned_locals(b, s, e, params, k, at, bs, addr=True):
    """locals and parameters declared outside the loop and assigned inside it
    (with addr, also those whose address is taken inside it)"""
    if b[bs] == '{':
        end = match(b, bs, '{', '}') + 1
    else:
        end = b.index(';', bs) + 1
    if bs < k:                  # cannot happen
        raise Inapplicable('loop layout')
    text = b[k:max(end, at)]
    dn = declared(b, s, k, params)
    m = re.match(r'for\s*\(', text)
    res = []
    for n in dn:
        if n in res:
            continue
        pat = r'(?<![\w.>*])%s\s*(=(?!=)|\+\+|--|[-+*/|&^%%]=|<<=|>>=)|(\+\+|--)\s*%s\b(?!\s*(->|\.|\[))' % (n, n)
        pat2 = r'(?<![\w.>])\*\s*%s\s*(\+\+|--)' % n        # *p++ = ...
        pat3 = r'&\s*%s\b(?!\s*(->|\.|\[))' % n
        if re.search(pat, text) or re.search(pat2, text) or (addr and re.search(pat3, text)):
            res.append(n)
    return res


def apply(src, directives):
    """directives: list of dicts with keys func, nth, kind (optional), locals
    (names that must occur in the function), assigns, invariant (list),
    decreases, ghost (text put at the start of the loop body), guard (ghost text
    evaluated before each evaluation of the loop condition), entry (ghost text
    at the start of the function body)."""
    b = blank(src)
    ins = []
    for d in directives:
        s, e, params = find_function(b, d['func'])
        body = b[s:e]
        for v in d.get('locals', []):
            if not re.search(r'\b%s\b' % re.escape(v), body + ' ' + params):
                raise Inapplicable('%s: no local %s' % (d['func'], v))
        if 'count' in d and len(loops(b, s, e)) != d['count']:
            raise Inapplicable('%s: number of loops changed' % d['func'])
        if 'nth' in d:
            L = loops(b, s, e)
            if d['nth'] >= len(L):
                raise Inapplicable('%s: no loop %d' % (d['func'], d['nth']))
            kind, k, at, bs = L[d['nth']]
            if 'kind' in d and kind != d['kind']:
                raise Inapplicable('%s: loop %d is %s' % (d['func'], d['nth'], kind))
            t = ''
            if d.get('assigns'):
                a = d['assigns']
                if '$ASSIGNED' in a:    # not those whose address is only passed on
                    a = a.replace('$ASSIGNED', ', '.join(assigned_locals(b, s, e, params, k, at, bs, False)) or '$NONE')
                    a = a.replace('$NONE,', '').replace('$NONE', '')
                if '$LOCALS' in a:
                    a = a.replace('$LOCALS', ', '.join(assigned_locals(b, s, e, params, k, at, bs)) or '$NONE')
                    a = a.replace('$NONE,', '').replace('$NONE', '')
                t += ' __CPROVER_assigns(%s)' % a
            for inv in d.get('invariant', []):
                t += ' __CPROVER_loop_invariant(%s)' % inv
            if d.get('decreases'):
                t += ' __CPROVER_decreases(%s)' % d['decreases']
            ins.append((at, t + ' '))
            if d.get('guard'):          # ghost expression evaluated before the loop condition
                p = b.index('(', k)
                if kind == 'for':
                    p = b.index(';', p)
                elif kind == 'do':
                    raise Inapplicable('guard ghost on a do loop')
                ins.append((p + 1, ' ({ %s }), ' % d['guard']))
            if d.get('ghost'):
                if b[bs] != '{':
                    raise Inapplicable('%s: loop body without braces' % d['func'])
                ins.append((bs + 1, ' ' + d['ghost'] + ' '))
        if d.get('entry'):
            ins.append((s + 1, ' ' + d['entry'] + ' '))
    ins.sort(key=lambda x: -x[0])
    for at, t in ins:
        src = src[:at] + t.replace('\n', ' ') + src[at:]
    return src


def rename_defs(src, names):
    """rename the definition (not the calls, not the prototypes) of each
    function in names to vp_real_<name>"""
    for n in names:
        b = blank(src)
        depth = 0
        hit = None
        for m in re.finditer(r'[{}]|\b%s\s*\(' % re.escape(n), b):
            t = m.group(0)
            if t == '{':
                depth += 1
            elif t == '}':
                depth -= 1
            elif depth == 0:
                p = b.index('(', m.start())
                q = match(b, p, '(', ')')
                if re.match(r'\s*\{', b[q + 1:]):
                    hit = m.start()
        if hit is None:
            continue            # already gone: then there is nothing to stub
        src = src[:hit] + 'vp_real_' + src[hit:]
    return src


def no_varargs(src, names):
    """drop the variadic tail of the definitions of the functions in names (the
    unit defines va_start() and va_end() as nothing and gives a contract for
    vsnprintf() that does not look at the arguments)"""
    for n in names:
        b = blank(src)
        s, e, params = find_function(b, n)
        i = b.rfind(params, 0, s)
        q = re.sub(r',\s*\.\.\.\s*$', '', src[i:i + len(params)])
        src = src[:i] + q + src[i + len(params):]
    return src


def ptr_order(src):
    """within each function, a comparison x >= y (x > y) of two local
    pointers or arrays is restated by the difference of their offsets, x <= y
    alike: cbmc takes a pointer one before the start of an object to be above it"""
    for n in functions_defined(src):
        b = blank(src)
        try:
            s, e, ps = find_function(b, n)
        except Inapplicable:
            continue
        body = b[s:e]
        ptrs = set(re.findall(r'\*\s*(\w+)\s*(?=[;,=)])', body + '(' + ps + ')')) | set(re.findall(r'\b(\w+)\s*\[[^\]]*\]\s*[;,=]', body))
        out, last = [], s
        for m in re.finditer(r'(?<![\w.>\])+\-*&])(\w+)\s*(>=|<=|<|>)\s*(\w+)(?![\w.\[(]|\s*[-+*/(\[.])', body):
            if m.group(1) in ptrs and m.group(3) in ptrs:
                out.append(src[last:s + m.start()] + 'VP_DIFF(%s,%s) %s 0' % (m.group(1), m.group(3), m.group(2)))
                last = s + m.end()
        src = src[:s] + ''.join(out) + src[last:]
    return src
