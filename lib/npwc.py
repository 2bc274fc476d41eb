"""Random new physics of moderate size."""
import re
import functools

# natural sizes of the coefficients of the WET flavio basis (moderate: comparable with, but not much larger than the Standard Model)
RULES = [
    (r'^C(V|S|T)(LL|RR|LR|RL)_bsbs$', 1e-11), (r'^C(V|S|T)(LL|RR|LR|RL)_bdbd$', 5e-13), (r'^C(V|S|T)(LL|RR|LR|RL)_sdsd$', 2e-16), (r'^C(V|S|T)(LL|RR|LR|RL)_ucuc$', 1e-14),
    (r'^C(9|10)p?_(bs|bd|sd)', 1.5), (r'^C(S|P)p?_(bs|bd|sd)', .02), (r'^C7p?_(bs|bd|sd)$', .1), (r'^C8p?_(bs|bd|sd)$', .1),
    (r'^C(L|R)_(bs|bd|sd)nu', 3.), (r'^CV(L|R)_(bc|bu)', .2), (r'^CS(L|R)_(bc|bu)', .2), (r'^CT_(bc|bu)', .1),
    (r'^CV(L|R)_', .02), (r'^CS(L|R)_(su|sc|dc|du)enu', 2e-6), (r'^CS(L|R)_(su|sc|dc|du)munu', 3e-4), (r'^CS(L|R)_(su|sc|dc|du)taunu', .003), (r'^CT_(su|sc|dc|du)', .002),
    (r'^Cgamma_', 1e-10), (r'^C7_(ee|mumu|tautau|uu|dd|ss|cc|bb)$', 1e-8),
    (r'^C.*_(ee|mu|tau|nu|e)', 1e-9),
]


@functools.lru_cache(None)
def size(name):
    for r, s in RULES:
        if re.search(r, name):
            return s
    return None


@functools.lru_cache(None)
def coefficients(eft='WET', basis='flavio'):
    """[(name, sector, real)]"""
    from wilson import wcxf
    out = []
    for sec, d in wcxf.Basis[eft, basis].sectors.items():
        for c, p in d.items():
            out.append((c, sec, bool(p and p.get('real'))))
    return out


def draw(rng, amount=1., select=None, density=1., real=False):
    """Random coefficients {name: value} of the WET flavio basis; select(name, sector)."""
    d = {}
    for c, sec, isreal in coefficients():
        s = size(c)
        if s is None or (select and not select(c, sec)) or (density < 1 and rng.random() > density):
            continue
        v = amount * s * rng.normal()
        if not isreal and not real:
            v = complex(v, amount * s * rng.normal())
        d[c] = v
    return d


def wet(rng, scale=4.8, **kw):
    import flavio
    w = flavio.WilsonCoefficients()
    d = draw(rng, **kw)
    w.set_initial(d, scale, eft='WET', basis='flavio')
    return w


SM_DIAG = re.compile(r'^(?:phi(?:G|B|W|WB|Gtilde|Btilde|Wtilde|WtildeB|D|Box|)|W|G|Wtilde|Gtilde|[ude]phi_33|ephi_22|ephi_11|uphi_22|dphi_22|phi(?:l1|l3|e|q1|q3|u|d)_(?:11|22|33)|phiud_11|ll_1221|ll_1122|ll_1111|ll_2222|'
                     r'(?:lq1|lq3|eu|ed|lu|ld|qe)_(?:1111|2211|3311|1122|1133|2222|2233|3333)|uG_33|uW_33|uB_33)$')


def smeft(rng, scale=1000., amount=1., density=1., flavour=False, real=True):
    """Flavour-diagonal SMEFT coefficients of about 1/(10 TeV)^2."""
    import flavio
    d = {}
    for c, sec, isreal in coefficients('SMEFT', 'Warsaw'):
        if sec.startswith('dB=d') and sec != 'dB=de=dmu=dtau=0':
            continue
        if sec == 'dL=2' or not (flavour or SM_DIAG.match(c)) or (density < 1 and rng.random() > density):
            continue
        v = 1e-8 * amount * rng.normal()
        if flavour:
            v *= 1e-2
        if c == 'phi':
            v *= .1
        if 'phi_22' in c or 'phi_11' in c:      # compare with the small Yukawa couplings
            v *= 3e-3
        if not isreal and not real:
            v = complex(v, 1e-8 * amount * rng.normal() * (1e-2 if flavour else 1))
        d[c] = v
    w = flavio.WilsonCoefficients()
    w.set_initial(d, scale, eft='SMEFT', basis='Warsaw')
    return w
