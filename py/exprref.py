"""Reference meaning of expression texts: lexer, grammar and values on mathematical integers, written from the documentation of the
expression language (infixExpr/fwd.h, README) and its stated precedence levels.  It is the oracle the abstract results are
compared with; it contains nothing of the analysed code."""
import re
from terms import tdiv, BIG

LEVELS = [['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%'], ['**']]
BIN = [o for l in LEVELS for o in l]
UN = ['+', '-', '~']
OPS = ['**', '!=', '>>', '>=', '<<', '<=', '==', '+', '-', '*', '/', '%', '!', '&', '|', '^', '~', '>', '<', '(', ')', ',', '?', ':']
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'

class Malformed(Exception): pass
class Unspecified(Exception): pass

def number(s, i):
    """literal starting at s[i] -> (value, radix, digits, end)"""
    m = re.match(r'0(\d{0,2})x([0-9a-zA-Z]*)', s[i:])
    if m:
        radix = int(m.group(1)) if m.group(1) else 16
        digits, end = m.group(2), i + m.end()
        if end < len(s) and s[end] == '.': raise Malformed('real number in a radix other than ten')
    elif s[i] == '0' and re.match(r'0\d', s[i:]):
        m = re.match(r'0([0-9a-zA-Z]+)', s[i:])
        radix, digits, end = 8, m.group(1), i + m.end()
        if end < len(s) and s[end] == '.': raise Malformed('real number in a radix other than ten')
    elif s[i] == '0':
        radix, digits, end = 10, '0', i + 1
        if end < len(s) and s[end] == '.': raise Unspecified('real number')
    else:
        m = re.match(r'[0-9a-zA-Z]+', s[i:])
        radix, digits, end = 10, m.group(0), i + m.end()
        if end < len(s) and s[end] == '.':
            m2 = re.match(r'\.[0-9a-zA-Z]*', s[end:])
            raise Unspecified('real number')
    if not 2 <= radix <= 36: raise Malformed('radix')
    if not digits or any(DIG.index(c.lower()) >= radix for c in digits): raise Malformed('digits')
    return int(digits, radix), radix, digits.lower(), end

def lex(s, symbols):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in ' \n\r\t\0': i += 1; continue
        for o in OPS:
            if s.startswith(o, i): out.append((o, None)); i += len(o); break
        else:
            if c in '0123456789':
                v, radix, digits, i = number(s, i)
                out.append(('#', (v, radix, digits)))
            elif re.match(r'[A-Za-z_]', c):
                m = re.match(r'[A-Za-z0-9_]+', s[i:])
                i += m.end()
                k = symbols(m.group(0))
                if k is None: raise Malformed('symbol ' + m.group(0))
                out.append((k[0], (m.group(0), k[1])))
            else: raise Malformed('character')
    out.append(('end', None))
    return out

def parse(toks):
    pos = 0
    def take(k):
        nonlocal pos
        if toks[pos][0] != k: return None
        pos += 1
        return toks[pos - 1]
    def need(k):
        if not take(k): raise Malformed('expected ' + k)
    def expr():
        c = level(0)
        if not take('?'): return c
        a = expr(); need(':'); b = expr()
        return ('?', c, a, b)
    def level(i):
        if i == len(LEVELS): return unary()
        l = level(i + 1)
        while toks[pos][0] in LEVELS[i]:
            o = take(toks[pos][0])[0]
            l = (o, l, level(i + 1))
        return l
    def unary():
        if toks[pos][0] in UN:
            o = take(toks[pos][0])[0]
            return ('u' + o, unary())
        x = prim()
        while take('!'): x = ('!', x)
        return x
    def prim():
        if take('('):
            x = expr(); need(')'); return x
        t = take('#')
        if t: return ('#', t[1])
        t = take('value')
        if t: return ('value', t[1][0])
        t = take('func')
        if t:
            need('(')
            args = []
            if not take(')'):
                args.append(expr())
                while take(','): args.append(expr())
                need(')')
            if t[1][1] not in (-1, len(args)): raise Malformed('argument count')
            return ('call', t[1][0]) + tuple(args)
        raise Malformed('operand')
    x = expr()
    need('end')
    return x

def value(t, lit, native):
    """value of tree t; lit(literal) and native(name, args) give the values of leaves"""
    k = t[0]
    if k == '#': return lit(t[1])
    if k == 'value': return native(t[1], None)
    if k == 'call': return native(t[1], tuple(value(a, lit, native) for a in t[2:]))
    if k == '?': return value(t[2] if value(t[1], lit, native) != 0 else t[3], lit, native)
    if k[0] == 'u':
        x = value(t[1], lit, native)
        return {'u+': x, 'u-': -x, 'u~': ~x}[k]
    if k == '!':
        x = value(t[1], lit, native)
        if not 0 <= x <= 60: raise Unspecified('factorial')
        r = 1
        for i in range(2, x + 1): r *= i
        return r
    a, b = value(t[1], lit, native), value(t[2], lit, native)
    if k in ('/', '%'):
        if b == 0: raise Unspecified('division by zero')
        q = tdiv(a, b)
        return q if k == '/' else a - b * q
    if k == '**':
        if not 0 <= b <= 64 or abs(a).bit_length() * b > 20000: raise Unspecified('power')
        return a ** b
    if k in ('<<', '>>'):
        if not 0 <= b <= 4000: raise Unspecified('shift')
        return a << b if k == '<<' else a >> b
    return {'|': lambda: a | b, '^': lambda: a ^ b, '&': lambda: a & b, '==': lambda: int(a == b), '!=': lambda: int(a != b),
            '<': lambda: int(a < b), '<=': lambda: int(a <= b), '>': lambda: int(a > b), '>=': lambda: int(a >= b),
            '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[k]()
