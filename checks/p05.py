"""P05: textual constraints mean what the notation says."""
import math
import re
from fractions import Fraction
import numpy as np
from lib.util import split_jobs
from lib.mon import CodeRaised

RULE = ('strings generated from the documented grammar (central value, bracket/symmetric/asymmetric errors, powers of ten, limits, ranges, '
        'factors) in random spellings, and random edits of them, judged by an independent tokenising parser; distinct by string; '
        'non-trivial when the parser accepted or rejected the string')
ASSUMPTIONS = ['unbalanced parentheses, leading plus signs, vanishing errors or ranges and non-ASCII digits may be either rejected or read as the obvious meaning']
MIN = {'valid': 2000, 'edited': 2000, 'rejected': 500, 'set': 200}


# ---- reference parser -----------------------------------------------------
class Bad(Exception):
    pass


NUM = re.compile(r'[0-9]+(\.[0-9]*)?')
INT = re.compile(r'[+-]?[0-9]+')


class Ref:
    """Tokenising recursive-descent reader of the documented notation."""

    def __init__(self, s):
        self.s = s
        self.i = 0
        self.grey = False

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self, t):
        return self.s.startswith(t, self.i)

    def eat(self, *ts):
        for t in ts:
            if self.peek(t):
                self.i += len(t)
                return t
        return None

    def need(self, *ts):
        t = self.eat(*ts)
        if t is None:
            raise Bad
        return t

    def number(self, signed=False, plus=False):
        j = self.i
        if signed and self.peek('-'):
            self.i += 1
        elif plus and self.peek('+'):
            self.i += 1
        mm = NUM.match(self.s, self.i)
        if not mm:
            self.i = j
            raise Bad
        self.i = mm.end()
        return self.s[j:self.i]

    def integer(self):
        mm = INT.match(self.s, self.i)
        if not mm:
            raise Bad
        self.i = mm.end()
        return mm.group()

    def end(self):
        self.ws()
        if self.i != len(self.s):
            raise Bad

    def sci(self, sep=False):
        """number with optional exponent"""
        n = self.number(signed=True, plus=not sep)
        j = self.i
        if sep:
            self.ws()
        if self.peek('e') or self.peek('E'):
            self.i += 1
            try:
                return Fraction(n) * Fraction(10)**int(self.integer())
            except Bad:
                self.i = j
                raise
        self.i = j
        return Fraction(n)

    def power(self):
        """optional overall power of ten up to the end of the string"""
        self.ws()
        star = self.eat('*')
        self.ws()
        if self.i == len(self.s):
            if star:
                self.grey = True
            return 0
        self.need('10^', '1e', '1E', 'e', 'E')
        par = self.eat('(')
        n = int(self.integer())
        par2 = self.eat(')')
        if bool(par) != bool(par2):
            self.grey = True
        if self.i != len(self.s):
            self.end()
            self.grey = True
        return n


def ref(s):
    """-> (list of (kind, params...), grey) or None if not in the notation."""
    t = s.replace('\u2212', '-')
    if any(ord(c) > 127 and c.isdigit() for c in t) or '_' in t:
        return 'skip'
    try:
        x = float(t)
        if not math.isfinite(x):
            return 'skip'
        return [('delta', x)], False
    except ValueError:
        pass
    if re.search(r'[0-9]{3}', re.sub(r'^.*?[eE^]', '', t)) and re.search(r'[eE^]\s*\(?\s*[+-]?[0-9]{3}', t):
        return 'skip'  # exponents beyond the range of floating point numbers
    if re.search(r'[0-9.]10\^', t):
        return 'skip'  # power of ten glued to the digits before it: ambiguous
    for f in (limit, rng_, times, brackets, plusminus):
        r = Ref(t)
        try:
            return f(r), r.grey
        except Bad:
            continue
        except (ValueError, OverflowError):
            continue
    return None


def limit(r):
    r.ws()
    r.need('<')
    r.ws()
    x = r.sci()
    r.ws()
    r.need('@')
    r.ws()
    cl = r.number()
    r.ws()
    r.need('%')
    r.ws()
    r.need('C')
    while r.i < len(r.s) and (r.s[r.i] == '.' or r.s[r.i].isspace()):
        r.i += 1
    r.need('L')
    while r.i < len(r.s) and (r.s[r.i] == '.' or r.s[r.i].isspace()):
        r.i += 1
    r.end()
    return [('limit', x, Fraction(cl) / 100)]


def rng_(r):
    r.ws()
    r.need('[')
    r.ws()
    a = r.sci(sep=True)
    r.ws()
    r.need(',')
    r.ws()
    b = r.sci(sep=True)
    r.ws()
    r.need(']')
    f = Fraction(10)**r.power()
    return [('range', a * f, b * f)]


def times(r):
    r.ws()
    x = r.sci()
    r.ws()
    r.need('*/', '/*')
    r.ws()
    f = r.number()
    if r.i != len(r.s):
        r.end()
        r.grey = True
    return [('times', x, Fraction(f))]


def head(r):
    r.ws()
    par = bool(r.eat('('))
    r.ws()
    cv = r.number(signed=True)
    r.ws()
    return par, cv


def tail(r, par):
    r.ws()
    par2 = bool(r.eat(')'))
    if par != par2:
        r.grey = True
    return Fraction(10)**r.power()


def brackets(r):
    par, cv = head(r)
    errs = []
    dec = len(cv.split('.')[1]) if '.' in cv else 0
    while r.eat('('):
        r.ws()
        e = r.number()
        r.ws()
        r.need(')')
        errs.append(Fraction(e) * (Fraction(1) if '.' in e else Fraction(1, 10**dec)))
        r.ws()
    if not errs:
        raise Bad
    f = tail(r, par)
    return [('normal', Fraction(cv) * f, e * f) for e in errs]


def plusminus(r):
    par, cv = head(r)
    errs = []
    while True:
        r.ws()
        if r.eat('\u00b1', '\\pm', '+-'):
            r.ws()
            errs.append(('normal', Fraction(r.number())))
        elif r.eat('+'):
            r.ws()
            a = Fraction(r.number())
            r.ws()
            r.need('-')
            r.ws()
            errs.append(('asym', a, Fraction(r.number())))
        else:
            break
    if not errs:
        raise Bad
    f = tail(r, par)
    return [(e[0], Fraction(cv) * f) + tuple(x * f for x in e[1:]) for e in errs]


# ---- judging --------------------------------------------------------------
def describe(d):
    n = type(d).__name__
    return {'DeltaDistribution': lambda: ('delta', d.central_value),
            'NormalDistribution': lambda: ('normal', d.central_value, d.standard_deviation),
            'AsymmetricNormalDistribution': lambda: ('asym', d.central_value, d.right_deviation, d.left_deviation),
            'GaussianUpperLimit': lambda: ('limit', d.limit, d.confidence_level),
            'LogNormalDistribution': lambda: ('times', d.central_value, d.factor),
            'UniformDistribution': lambda: ('range', d.central_value - d.half_range, d.central_value + d.half_range),
            }.get(n, lambda: (n,))()


def admissible(exp):
    for e in exp:
        k = e[0]
        if k == 'normal' and e[2] <= 0:
            return False
        if k == 'asym' and (e[2] <= 0 or e[3] <= 0):
            return False
        if k == 'limit' and (e[1] <= 0 or not 0 < e[2] < 1):
            return False
        if k == 'range' and e[2] <= e[1]:
            return False
        if k == 'times' and (e[2] <= 1 or e[1] == 0):
            return False
    return True


def match(got, exp):
    if len(got) != len(exp):
        return False
    g = sorted([(x[0], tuple(float(v) for v in x[1:])) for x in got])
    e = sorted([(x[0], tuple(float(v) for v in x[1:])) for x in exp])
    for (ka, a), (kb, b) in zip(g, e):
        if ka != kb or len(a) != len(b):
            return False
        sc = max(abs(v) for v in b) if ka == 'range' else 0
        for u, v in zip(a, b):
            if not (abs(u - v) <= 1e-12 * max(abs(u), abs(v)) + 1e-14 * sc):
                return False
    return True


def judge(m, s, exp, grey, kind):
    from flavio._parse_errors import constraints_from_string
    try:
        out = constraints_from_string(s)
        err = None
    except ValueError as e:
        out, err = None, e
    except Exception as e:
        m.violate('parse:exception', 'expected a distribution list or ValueError, got %s: %s' % (type(e).__name__, str(e)[:200]), string=s)
        return None
    if exp is None:
        if out is not None:
            m.violate('parse:misread', 'text outside the notation was read as %s' % str(out)[:200], string=s)
        m.event('rejected', s)
        return None
    adm = admissible(exp)
    if out is None:
        if adm and not grey:
            m.violate('parse:refused', 'valid notation refused: %s' % str(err)[:200], string=s, expected=[tuple(map(float, e[1:])) for e in exp])
        m.event('rejected', s)
        return None
    boundary = all(e[0] in ('range', 'limit', 'times') for e in exp) and not any(e[0] == 'range' and e[2] < e[1] for e in exp)
    if not adm and not boundary:
        m.violate('parse:inadmissible', 'inadmissible errors accepted', string=s, got=str(out))
    if not adm and exp[0][0] == 'limit' and (exp[0][1] < 0 or exp[0][2] > 1):
        m.violate('parse:inadmissible', 'inadmissible limit accepted', string=s, got=str(out))
    if not isinstance(out, list) or not m.check(match([describe(d) for d in out], exp), 'parse:meaning', 'wrong meaning', string=s, got=str(out),
                                                expected=[(e[0],) + tuple(map(float, e[1:])) for e in exp]):
        if not isinstance(out, list):
            m.violate('parse:type', 'not a list of distributions', string=s, got=str(out))
        return None
    m.event(kind, s)
    return out


# ---- generation -----------------------------------------------------------
def digits(rng, lead=True, dec=None):
    a = str(int(rng.integers(0, 10**int(rng.integers(1, 5)))))
    r = rng.random()
    if r < 0.3:
        return a
    if r < 0.35:
        return a + '.'
    return a + '.' + ''.join(str(int(x)) for x in rng.integers(0, 10, int(rng.integers(1, 6))))


def sp(rng):
    return str(rng.choice(['', '', '', ' ', ' ', '  ', '\t']))


def minus(rng):
    return '\u2212' if rng.random() < 0.15 else '-'


def powten(rng):
    r = rng.random()
    if r < 0.4:
        return ''
    n = int(rng.integers(-14, 15))
    sgn_ = '+' if n >= 0 and rng.random() < 0.3 else ''
    num = sgn_ + (minus(rng) if n < 0 else '') + str(abs(n))
    if n < 0 and abs(n) < 10 and rng.random() < 0.1:
        num = minus(rng) + '0' + str(abs(n))
    mid = str(rng.choice(['', ' ', ' * ', '*', '  ']))
    base = str(rng.choice(['e', 'E', '1e', '1E', '10^']))
    if base in ('1e', '1E', '10^') and mid == '':
        mid = ' '
    if rng.random() < 0.2:
        num = '(' + num + ')'
    return mid + base + num


def gen(rng):
    k = int(rng.integers(7))
    neg = minus(rng) if rng.random() < 0.35 else ''
    cv = neg + digits(rng)
    if k == 0:
        r = rng.random()
        ex = '' if r < 0.5 else str(rng.choice(['e', 'E'])) + str(int(rng.integers(-12, 12)))
        return sp(rng) + cv + ex + sp(rng)
    if k == 1:
        ex = '' if rng.random() < 0.4 else str(rng.choice(['e', 'E'])) + str(rng.choice(['', '+', '-'])) + str(int(rng.integers(0, 12)))
        cl = str(rng.choice(['90', '95', '68', '68.3', '99.', '50']))
        w = str(rng.choice(['CL', 'C.L.', 'C L', 'C. L.', 'CL.']))
        return sp(rng) + '<' + sp(rng) + digits(rng) + ex + sp(rng) + '@' + sp(rng) + cl + sp(rng) + '%' + sp(rng) + w + sp(rng)
    if k == 2:
        b = [neg + digits(rng) + ('' if rng.random() < 0.6 else str(rng.choice(['e', ' e', 'E'])) + str(int(rng.integers(-5, 5)))) for neg in
             (minus(rng) if rng.random() < 0.4 else '', '')]
        return sp(rng) + '[' + sp(rng) + b[0] + sp(rng) + ',' + sp(rng) + b[1] + sp(rng) + ']' + powten(rng)
    if k == 3:
        ex = '' if rng.random() < 0.5 else str(rng.choice(['e', 'E'])) + str(int(rng.integers(-9, 9)))
        return sp(rng) + cv + ex + sp(rng) + str(rng.choice(['*/', '/*'])) + sp(rng) + str(rng.choice(['1.2', '2', '1.05', '3.', '10']))
    par = rng.random() < 0.4
    out = sp(rng) + ('(' + sp(rng) if par else '') + cv
    if k == 4:
        for _ in range(int(rng.integers(1, 5))):
            e = str(int(rng.integers(1, 200))) if rng.random() < 0.7 else digits(rng)
            out += sp(rng) + '(' + sp(rng) + e + sp(rng) + ')'
    else:
        for _ in range(int(rng.integers(1, 5))):
            if rng.random() < (0.75 if k == 5 else 0.35):
                out += sp(rng) + str(rng.choice(['\u00b1', '+-', '\\pm', '+\u2212'])) + sp(rng) + digits(rng)
            else:
                out += sp(rng) + '+' + sp(rng) + digits(rng) + sp(rng) + minus(rng) + sp(rng) + digits(rng)
    out += sp(rng) + (')' if par else '')
    p = powten(rng)
    return out + p


ALPHA = list('0123456789.+-±()[]<>@%,*/eECLpm\\^ ') + ['\u2212', '1e', '10^', '+-', 'x', 'nan', 'GeV', '%', '--', '±±']


def edit(rng, s):
    for _ in range(int(rng.integers(1, 4))):
        r = rng.random()
        i = int(rng.integers(0, len(s) + 1))
        if r < 0.35 and len(s) > 1:
            s = s[:i] + s[i + 1:]
        elif r < 0.7:
            s = s[:i] + ALPHA[int(rng.integers(len(ALPHA)))] + s[i:]
        elif r < 0.85:
            s = s[:i] + ALPHA[int(rng.integers(len(ALPHA)))] + s[i + 1:]
        else:
            j = int(rng.integers(0, len(s) + 1))
            s = s[:min(i, j)] + s[max(i, j):] if rng.random() < 0.5 else s + s[min(i, j):max(i, j)]
    return s


def strings(m, rng, n):
    for i in range(n):
        s = gen(rng)
        r = ref(s)
        if r == 'skip':
            continue
        assert r is not None, s
        judge(m, s, r[0], r[1], 'valid')
        if i < 3:
            m.sample(s)
        for _ in range(3):
            e = edit(rng, s)
            r = ref(e)
            if r == 'skip':
                continue
            if r is None:
                judge(m, e, None, False, 'edited')
                m.event('edited', e)
            else:
                judge(m, e, r[0], r[1], 'edited')


def setters(m, rng, n):
    from flavio.classes import ParameterConstraints
    import flavio.statistics.probability as p
    from flavio._parse_errors import errors_from_string, errors_from_constraints
    mk = {'delta': p.DeltaDistribution, 'normal': p.NormalDistribution, 'asym': p.AsymmetricNormalDistribution,
          'times': p.LogNormalDistribution}
    for i in range(n):
        s = gen(rng)
        r = ref(s)
        if r == 'skip' or r[1] or not admissible(r[0]):
            continue
        exp = [(e[0],) + tuple(map(float, e[1:])) for e in r[0]]
        if exp[0][0] in ('normal', 'asym'):
            w = [x for e in exp for x in e[2:]]
            if max(w) / min(w) > 30 or max(w) < 1e-9 * abs(exp[0][1]):
                continue
        c = ParameterConstraints()
        try:
            m.call('set', c.set_constraint, 'par', s)
        except CodeRaised:
            continue
        d = c._parameters['par'][1]
        kind = exp[0][0]
        if kind in ('delta', 'normal', 'asym', 'times'):
            m.close(float(c.get_central('par')), exp[0][1], 'set:central', rtol=1e-12, string=s)
        if kind == 'normal' and all(e[0] == 'normal' for e in exp):
            sd = math.sqrt(sum(e[2]**2 for e in exp))
            m.check(type(d) is p.NormalDistribution, 'set:class', 'expected a normal distribution', got=repr(d), string=s)
            m.close(d.standard_deviation, sd, 'set:sd', rtol=1e-12, string=s)
        elif kind in ('normal', 'asym') and len(exp) == 1:
            m.check(type(d) is p.AsymmetricNormalDistribution, 'set:class', 'expected an asymmetric distribution', got=repr(d), string=s)
            m.close(d.error_right, exp[0][2], 'set:right', rtol=1e-12, string=s)
            m.close(d.error_left, exp[0][3], 'set:left', rtol=1e-12, string=s)
        elif kind in ('normal', 'asym'):
            # variance and mean of the sum of independent errors (mean shifts of the asymmetric ones add up)
            mean, var = 0., 0.
            for e in exp:
                if e[0] == 'normal':
                    var += e[2]**2
                else:
                    a, b = e[2], e[3]
                    mu = math.sqrt(2 / math.pi) * (a - b)
                    mean += mu
                    var += a * a - a * b + b * b - mu**2
            cv = exp[0][1]
            x = np.asarray(d.x)
            y = np.asarray(d.y_norm)
            mx = np.trapz(x * y, x)
            vx = np.trapz((x - mx)**2 * y, x)
            # the same distribution re-centred on the central value: only the shape is compared here
            m.close(math.sqrt(vx), math.sqrt(var), 'set:width', rtol=5e-3, string=s)
        elif kind == 'range':
            m.close(np.asarray(d.support, float), exp[0][1:], 'set:range', rtol=1e-12, atol=1e-13 * max(abs(exp[0][1]), abs(exp[0][2])), string=s)
        elif kind == 'limit':
            m.close(float(d.cdf(exp[0][1])), exp[0][2], 'set:limit', rtol=1e-9, string=s)
        if kind in ('normal', 'asym'):
            e = m.call('errors_from_string', errors_from_string, s.replace('\u2212', '-'))
            m.close(sorted(e['symmetric_errors']), sorted(x[2] for x in exp if x[0] == 'normal'), 'efs:sym', rtol=1e-12, string=s)
            m.close(sorted(map(tuple, e['asymmetric_errors'])), sorted(x[2:] for x in exp if x[0] == 'asym'), 'efs:asym', rtol=1e-12, string=s)
            m.close(e['central_value'], exp[0][1], 'efs:central', rtol=1e-12, string=s)
            back = errors_from_constraints([(0, mk[x[0]](*x[1:])) for x in exp])
            m.check(sorted(back['symmetric_errors']) == sorted(x[2] for x in exp if x[0] == 'normal') and
                    sorted(back['asymmetric_errors']) == sorted(x[2:] for x in exp if x[0] == 'asym'), 'efc', 'errors_from_constraints differs', string=s)
        # numbers given as numbers
        v = float(rng.normal())
        for q in (v, np.float64(v), int(v * 10)):
            c.set_constraint('par', q)
            m.check(c.get_central('par') == q and type(c._parameters['par'][1]) is p.DeltaDistribution, 'set:number', 'plain number', value=q)
        c.set_constraint('par', '1 ± 0.5')
        before = c._parameters['par']
        m.raises(ValueError, 'set:both', c.set_constraint, 'par', constraint_string='1', constraint_dict={'distribution': 'delta', 'central_value': 1})
        m.raises(TypeError, 'set:neither', c.set_constraint, 'par')
        bad = edit(rng, s)
        rb = ref(bad)
        if rb is None:
            m.raises(ValueError, 'set:bad', c.set_constraint, 'par', bad)
            m.check(c._parameters['par'] is before or c._parameters['par'] == before, 'set:bad-changes', 'failed setting changed the constraint', string=bad)
        m.event('set', s)


def jobs(tier, seed):
    t = tier == 'thorough'
    return split_jobs('strings', strings, 2000000 if t else 40000, 8) + split_jobs('set', setters, 60000 if t else 2000, 8)
