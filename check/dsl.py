"""Sugar for specification functions over Result:

    let PAT <- EXPR;          bind the Ok value, or give back the Err
    guard COND else ERR;      Err(ERR) unless COND

Both scope over the rest of the enclosing block.
"""
import re


def _stmt_end(s, i):
    depth = 0
    while i < len(s):
        c = s[i]
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == ';' and depth == 0:
            return i
        i += 1
    raise ValueError('unterminated statement')


LET = re.compile(r'let\s+([^;=]*?)\s*<-\s*')
GUARD = re.compile(r'guard\s+')


def expand(s):
    out = []
    stack = []   # number of open constructs per brace level
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(s[i:j])
            i = j
            continue
        if c == '"':
            j = s.index('"', i + 1)
            out.append(s[i:j + 1])
            i = j + 1
            continue
        if c == '{':
            stack.append(0)
            out.append(c)
            i += 1
            continue
        if c == '}':
            k = stack.pop()
            out.append(' }' * k)
            out.append(c)
            i += 1
            continue
        prev = s[i - 1] if i else ' '
        if not (prev.isalnum() or prev == '_'):
            m = LET.match(s, i)
            if m:
                e = _stmt_end(s, m.end())
                out.append('match %s { Err(__e) => Err(__e), Ok(%s) => {' % (s[m.end():e], m.group(1)))
                stack[-1] += 2
                i = e + 1
                continue
            m = GUARD.match(s, i)
            if m and s.startswith('guard', i):
                e = _stmt_end(s, m.end())
                body = s[m.end():e]
                cond, err = body.rsplit(' else ', 1)
                out.append('if !(%s) { Err(%s) } else {' % (cond, err))
                stack[-1] += 1
                i = e + 1
                continue
        out.append(c)
        i += 1
    return ''.join(out)
