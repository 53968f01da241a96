"""Value of a formula of the analysed code at given integers, used to refute an equality of two formulas."""
from fractions import Fraction
from .ir import *


class NoValue(Exception):
    pass


def _name(n):
    return n.args[0].args[0] if n.op == 'call' and n.args[0].op in ('ext', 'builtin', 'func') and isinstance(n.args[0].args[0], str) else None


def value(n, env, name=_name):
    if n in env:
        return env[n]
    go = lambda x: value(x, env, name)
    op = n.op
    if op == 'const':
        v = n.args[0]
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, (int, float)):
            return Fraction(v)
        raise NoValue(show(n))
    if op == 'alloc':
        return go(n.args[1])
    if op == 'phi':
        return go(n.args[1] if go(n.args[0]) else n.args[2])
    if op == 'not':
        return not go(n.args[0])
    if op == 'and':
        return all(go(x) for x in n.args[0])
    if op == 'or':
        return any(go(x) for x in n.args[0])
    if op == 'un' and n.args[0] in ('-', '+'):
        return -go(n.args[1]) if n.args[0] == '-' else go(n.args[1])
    if op == 'cmp' and n.args[0] in ('==', '!=', '<', '<=', '>', '>=', 'is', 'is not'):
        a, b = go(n.args[1]), go(n.args[2])
        if n.args[0] in ('is', 'is not'):
            return (a is b) == (n.args[0] == 'is')
        if a is None or b is None:
            return (a is b) == (n.args[0] == '==')
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[n.args[0]]
    if op == 'bin' and n.args[0] in ('+', '-', '*', '/', '//', '%'):
        a, b = go(n.args[1]), go(n.args[2])
        if a is None or b is None or n.args[0] in ('/', '//', '%') and b == 0:
            raise NoValue(show(n, 3))
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: Fraction(a // b), '%': lambda: a % b}[n.args[0]]()
    c = name(n)
    if c and n.args[1] and not n.args[2]:
        short = c.split('.')[-1]
        if short in ('int', 'trunc', 'fix'):
            v = go(n.args[1][0])
            return Fraction(int(v))
        if short in ('floor', 'ceil'):
            v = Fraction(go(n.args[1][0]))
            return Fraction(v.numerator // v.denominator if short == 'floor' else -(-v.numerator // v.denominator))
        if short in ('round', 'rint', 'around') and len(n.args[1]) == 1:
            return Fraction(round(go(n.args[1][0])))
        if short in ('float', 'asarray', 'array', 'int64', 'int32'):
            return go(n.args[1][0])
        if short in ('abs', 'absolute'):
            return abs(go(n.args[1][0]))
        if short in ('max', 'min', 'maximum', 'minimum') and len(n.args[1]) == 2:
            return (max if 'max' in short else min)(go(n.args[1][0]), go(n.args[1][1]))
    raise NoValue(show(n, 4))
