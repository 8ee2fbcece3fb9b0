"""X02: number / dollar / population / roman texts, read back."""
import re
from fractions import Fraction as F
from mc.core import Violation
from impactutils.textformat import text

LEVEL = 'exploration'
RULE = ('every integer 0..60,000 (thorough 0..2,000,000), every integer within 600 of each 1,2,5,9.5,9.95,9.99,9.995 x power of ten and of each unit change up to 10^13, x digits 1..4 x short/long dollar '
        'forms x population forms; monotonicity over every adjacent pair; digit grouping of every such integer, its negative and decimals with several separators; '
        'all Roman numerals 1..3999 read back, and refusals outside. Oracle: a reader of the texts and exact rational arithmetic.')
ASSUMPTIONS = ['amounts are non-negative integers, as documented', 'ties may round either way', 'separators are non-empty and not digits']
UNIT = {'': 1, 'K': 10**3, 'M': 10**6, 'B': 10**9, ' thousand': 10**3, ' million': 10**6, ' billion': 10**9}
R = {'I': 1, 'V': 5, 'X': 10, 'L': 50, 'C': 100, 'D': 500, 'M': 1000}


def ranges():
    out = set()
    for e in range(0, 13):
        for m in ('1', '2', '5', '9.5', '9.95', '9.99', '9.995', '1.5', '2.5'):
            c = int(F(m) * 10**e)
            out.add((max(0, c - 600 if e > 3 else c - 60), c + 600))
    return sorted(out)


def cases(tier):
    top = 60000 if tier == 'quick' else 2000000
    for a in range(0, top, 1000):
        yield ['run', a, a + 1001, 1]
    for a, b in ranges():
        yield ['run', a, b, 1]
    for a in range(0, 10**7, 10**6):
        yield ['run', a, a + 10**6 + 1, 997]
    for a in range(0, 10**10, 10**9):
        yield ['run', a, a + 10**9 + 1, 999331]
    for a in range(1, 4000, 100):
        yield ['roman', a, min(4000, a + 100)]
    yield ['romanbad']
    yield ['float']


def sigunit(v, d):
    e = len(str(v)) - 1
    return F(10) ** (e - d + 1)


def readdollar(s, mode):
    m = re.match(r'^\$([\d,]+(?:\.\d+)?)(K|M|B| thousand| million| billion)?$', s)
    if not m:
        raise Violation('unreadable dollar text %r' % s)
    num = m.group(1)
    if ',' in num and not re.match(r'^\d{1,3}(,\d{3})+(\.\d+)?$', num):
        raise Violation('badly grouped dollar text %r' % s)
    u = m.group(2) or ''
    if u and (mode == 'short') != (len(u) == 1):
        raise Violation('%s form has unit %r in %r' % (mode, u, s))
    n = F(num.replace(',', ''))
    return n * UNIT[u], n, u


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def near(got, v, step):
    """got is a multiple of step and nearest to v"""
    return (got / step).denominator == 1 and abs(got - v) <= step / 2


def do_run(ctx, a, b, inc):
    last = {}

    def mono(k, x, v):
        if k in last and x < last[k][0]:
            raise Violation('%r: text value falls from %s (at %d) to %s (at %d)' % (k, last[k][0], last[k][1], x, v))
        last[k] = (x, v)
    for v in range(a, b, inc):
        ctx.traces += 1
        # digit grouping
        g = text.commify(v)
        want = '{:,}'.format(v)
        if g != want or text.commify(-v) != ('-' + want if v else want):
            raise Violation('commify(%d) = %r' % (v, g))
        if v % 11 == 0:
            for sep in ('.', ' ', "'", '\u2009', '--'):
                if text.commify(v, sep) != want.replace(',', sep):
                    raise Violation('commify(%d, %r) = %r' % (v, sep, text.commify(v, sep)))
            if text.commify('%d.5678' % v) != want + '.5678' or text.commify(v + 0.5) != want + '.5':
                raise Violation('commify of decimals near %d: %r' % (v, text.commify('%d.5678' % v)))
        # population
        p = text.pop_round(v)
        n = F(p.replace(',', ''))
        if p != '{:,}'.format(int(n)) or not near(n, v, F(1000)):
            raise Violation('pop_round(%d) = %r' % (v, p))
        mono('pop', n, v)
        for um in (False, True):
            s = text.pop_round_short(v, usemillion=um) if um else text.pop_round_short(v)
            if v < 1000:
                if s != str(v):
                    raise Violation('pop_round_short(%d) = %r' % (v, s))
                n = F(v)
            else:
                unit = 'm' if um and v >= 10**6 else 'k'
                step = F(10**6 if unit == 'm' else 1000)
                if not s.endswith(unit) or s[:-1] != '{:,}'.format(int(s[:-1].replace(',', ''))):
                    raise Violation('pop_round_short(%d, %r) = %r' % (v, um, s))
                n = F(s[:-1].replace(',', '')) * step
                if not near(n, v, step):
                    raise Violation('pop_round_short(%d, %r) = %r is not the nearest' % (v, um, s))
            if um is False or v < 10**6:
                mono(('short', um), n, v)
            else:
                mono(('short', um, 'm'), n, v)
        # dollars
        for mode in ('short', 'long'):
            for d in (1, 2, 3, 4):
                s = text.dollar_round(v, d, mode) if (mode, d) != ('short', 2) else text.dollar_round(v)
                n, lead, u = readdollar(s, mode)
                if v:
                    if not near(n, v, sigunit(v, d)) and not (n == v):
                        raise Violation('dollar_round(%d, %d, %r) = %r is not the amount to %d digits' % (v, d, mode, s, d))
                elif n:
                    raise Violation('dollar_round(0) = %r' % s)
                if (lead >= 1000 and not u.strip().lower().startswith('b')) or (u and lead < 1):
                    raise Violation('dollar_round(%d, %d, %r) = %r uses the wrong unit' % (v, d, mode, s))
                mono(('dollar', mode, d), n, v)
        ctx.transitions += 13
    ctx.outcome((p, s))


def do_roman(ctx, a, b):
    for n in range(a, b):
        s = text.dec_to_roman(n)
        ctx.transitions += 1
        ctx.traces += 1
        tot = 0
        for i, c in enumerate(s):
            tot += -R[c] if i + 1 < len(s) and R[s[i + 1]] > R[c] else R[c]
        if tot != n or not re.match(r'^M{0,3}(CM|CD|D?C{0,3})(XC|XL|L?X{0,3})(IX|IV|V?I{0,3})$', s):
            raise Violation('roman numeral of %d: %r' % (n, s))
        ctx.outcome(s)


def do_romanbad(ctx):
    for n in list(range(-20, 1)) + list(range(4000, 4050)) + [10**6]:
        ctx.op()
        try:
            s = text.dec_to_roman(n)
        except ValueError:
            continue
        raise Violation('roman numeral of %d: %r instead of a value error' % (n, s))


def do_float(ctx):
    # whole amounts given as floats are formatted like the integers
    for v in list(range(0, 3000, 7)) + [999, 1000, 999499, 999999, 10**6, 1234567, 10**9, 2 * 10**9 + 1, 10**12]:
        ctx.op(3)
        ctx.equal(text.dollar_round(float(v)), text.dollar_round(v), 'dollar text of %r' % float(v))
        ctx.equal(text.pop_round_short(float(v)), text.pop_round_short(v), 'population text of %r' % float(v))
        ctx.equal(text.pop_round(float(v)), text.pop_round(v), 'population text of %r' % float(v))
