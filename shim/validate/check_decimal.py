"""Compares shim/decimal.hh with CPython's decimal (libmpdec) on random operations. Not part of any check."""
import decimal as D, random, subprocess, sys, os, tempfile
from decimal import Decimal, Context
here = os.path.dirname(os.path.abspath(__file__))
exe = tempfile.mktemp()
subprocess.run(['g++', '-O1', '-std=c++17', '-I', here + '/..', here + '/decimal.cpp', '-o', exe, '-lgmpxx', '-lgmp'], check=True)
R = [D.ROUND_UP, D.ROUND_DOWN, D.ROUND_CEILING, D.ROUND_FLOOR, D.ROUND_HALF_UP, D.ROUND_HALF_DOWN, D.ROUND_HALF_EVEN, D.ROUND_05UP]
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
def num(big):
    k = rnd.random()
    if k < .03: return rnd.choice(['NaN', 'Infinity', '-Infinity', 'sNaN'])
    if k < .1: return rnd.choice(['0', '-0', '0E+5', '0E-7', '0.000'])
    n = rnd.choice([1, 2, 5, 17, 37, 38, 39, 45])
    d = ''.join(rnd.choice('0123456789' if rnd.random() < .7 else '09') for _ in range(n))
    e = rnd.choice([0, 0, -1, 1, -5, 5, -38, 38, rnd.randint(-60, 60)] + ([rnd.randint(-25000, 25000), 24576, -24575] if big else []))
    return rnd.choice(['', '-']) + (str(int(d)) if rnd.random() < .5 else d) + 'E%d' % e
FL = {D.Clamped: 1, D.InvalidOperation: 0x100, D.DivisionByZero: 4, D.Inexact: 0x40, D.Overflow: 0x800, D.Rounded: 0x1000, D.Subnormal: 0x2000, D.Underflow: 0x4000}
lines, exp = [], []
for _ in range(60000):
    prec, emax, clamp = rnd.choice([(38, 24576, 1), (16, 999999, 0), (38, 24576, 1), (5, 30, 1), (5, 30, 0)])
    ro = rnd.randrange(8)
    op = rnd.choice(['add', 'sub', 'mul', 'div', 'rem', 'neg', 'reduce', 'intx', 'quant', 'scaleb', 'cmp', 'sci', 'adj'])
    a, b = num(True), num(True)
    if op in ('quant', 'scaleb'): b = str(rnd.randint(-60, 60))
    if op in ('quant', 'adj') and ('n' in a.lower()): a = '12.345'
    if op == 'rem' or op == 'quant': a, b = (num(False), num(False) if op == 'rem' else b)
    if op == 'quant' and 'n' in a.lower(): a = '9.995'
    c = Context(prec=prec, Emax=emax, Emin=1 - emax, clamp=clamp, rounding=R[ro], traps=[])
    x, y = Decimal(a), Decimal(b)
    try:
        if op == 'add': r = c.add(x, y)
        elif op == 'sub': r = c.subtract(x, y)
        elif op == 'mul': r = c.multiply(x, y)
        elif op == 'div': r = c.divide(x, y)
        elif op == 'rem': r = c.remainder(x, y)
        elif op == 'neg': r = c.minus(x)
        elif op == 'reduce': r = c.normalize(x)
        elif op == 'intx': r = c.to_integral_exact(x)
        elif op == 'quant':
            c = Context(prec=999, Emax=999999, Emin=-999999, rounding=R[ro], traps=[])
            r = x.quantize(Decimal((0, (1,), int(b))), context=c)
        elif op == 'scaleb': r = c.scaleb(x, y)
        elif op == 'cmp':
            D.setcontext(c)
            r = '%d%d%d%d' % (x < y, x == y, x > y, x <= y)
        elif op == 'sci': r = str(x)
        else: r = '%d/%d/%d' % (x.adjusted() if x != 0 else x.as_tuple().exponent, x.as_tuple().exponent, len(x.as_tuple().digits))
    finally:
        pass
    st = sum(v for k, v in FL.items() if c.flags[k])
    if isinstance(r, Decimal): r = str(r)
    if st & 0x100: st &= ~0x11e
    lines.append('%d %d %d %d %s %s %s' % (prec, emax, clamp, ro, op, a, b)); exp.append((r, st))
out = subprocess.run([exe], input='\n'.join(lines) + '\n', capture_output=True, text=True).stdout.splitlines()
bad = 0
for l, (r, st), o in zip(lines, exp, out):
    v, s = o.rsplit(' ', 1)
    s = int(s, 16)
    inv = s & 0x1fa & ~0x40
    e_inv = False
    s2 = s & ~0x11a & ~0x10
    if l.split()[4] in ('cmp', 'sci', 'adj'): s2 = st2 = 0
    else: st2 = st & ~0x11a
    if v.replace('sNaN', 'NaN') != r.replace('sNaN', 'NaN') or s2 != st2:
        bad += 1
        if bad < 25: print('DIFF', l, '| expected', r, hex(st), '| got', v, hex(s))
print(len(lines), 'compared,', bad, 'differ')
os.unlink(exe)
