"""Which sectors of new physics (flavour quantum numbers) a process involves, from the physics of the process."""
import re

LEPS = {'ee': ('e', 'e'), 'mumu': ('mu', 'mu'), 'tautau': ('tau', 'tau')}
EM = {'emu': 'mue', 'mue': 'emu', 'etau': 'taue', 'taue': 'etau', 'mutau': 'taumu', 'taumu': 'mutau'}     # decay to l1+ l2- : sector name q l2 l1
LFV2 = {'emu': 'mue', 'mue': 'mue', 'etau': 'taue', 'taue': 'taue', 'mutau': 'mutau', 'taumu': 'mutau'}

NEUTRAL = [(r'(B0|B\+|B|Bs)->(K\*0|K\*|K|Xs|phi)(?=ee|mumu|tautau|ll|nunu|gamma|emu|mue|etau|taue|mutau|taumu|gg|$)', 'sb'),
           (r'Lambdab->Lambda(\(1520\))?', 'sb'), (r'Bs->', 'sb'), (r'(B0|B\+|B)->(rho|pi|omega|Xd)(?=ee|mumu|tautau|ll|nunu|gamma|emu|mue|etau|taue|mutau|taumu|$)', 'db'),
           (r'B0->', 'db'), (r'(KL|KS)->(?=ee|mumu|emu|mue)', 'sd'), (r'(K\+|KL)->pi(?=nunu)', 'sd')]
CHARGED = [(r'(B0|B\+|B)->(D\*|D|Xc)|Bc->', 'cb'), (r'(B0|B\+|B)->(rho|pi|omega)|Bs->K\*|B\+->', 'ub'), (r'(D\+|D0|D)->K', 'cs'), (r'(D\+|D0|D)->pi', 'cd'),
           (r'Ds->', 'cs'), (r'D\+->', 'cd'), (r'(K\+|KL|KS|K)->pi|K\+->|Lambda->p', 'us'), (r'pi\+->', 'ud')]


def nu(pre, lep):
    """charged leptons of a semi-leptonic observable"""
    p = pre.strip('<>')
    if lep != 'l':
        return {lep}
    s = {'e', 'mu'}
    if 'tau' in p:
        s.add('tau')
    return s


def involved(n):
    """Sectors of the WET that may enter the observable, None if it is not covered."""
    if re.match(r'(DeltaM_s|a_fs_s|DeltaGamma_s|S_psiphi)$', n):
        return {'sbsb'}
    if re.match(r'(DeltaM_d|a_fs_d|DeltaGamma_d|S_psiK)$', n):
        return {'dbdb'}
    if n == 'DeltaM_d/DeltaM_s':
        return {'dbdb', 'sbsb'}
    if n == 'S_K*gamma':
        return {'dbdb', 'sb'}
    if n == 'S_phigamma':
        return {'sbsb', 'sb'}
    if n == 'eps_K':
        return {'sdsd'}
    if n == 'epsp/eps':
        return {'sd'}
    if re.match(r'(x_D|y_D|phi_D|q/p_D|x12_D|phi12_D|x12Im_D|y12_D)$', n):
        return {'cucu'}
    if n == 'tau_Bc':
        return {'cbenu', 'cbmunu', 'cbtaunu'}
    if re.match(r'(a_n|A_n|D_n|R_n|atilde_n|b_n|Atilde_n|B_n|Btilde_n|lambdaAB_n|tau_n)$', n):
        return {'udenu', 'nunumue'}
    if n.startswith('Ft('):
        return {'udenu', 'nunumue'}
    if re.match(r'(a_mu|a_e|a_tau|d_n|d_Tl|omega_)', n):
        return {'dF=0'}
    if n == 'R_trident':
        return {'ffnunu'}
    if n.startswith('CR(mu->e'):
        return {'mue'}
    if n == 'BR(B0->K*gamma)/BR(Bs->phigamma)':
        return {'sb', 'sbsb'}
    m = re.match(r'^(?P<pre>[^(]*)\((?P<dec>.*)\)$', n)
    if not m:
        return None
    pre, dec = m.group('pre'), m.group('dec')
    if '->' not in dec:
        return None
    if re.match(r'(Z|W|h|mu_|ee|pp)->|WH|ZH', dec) or pre.startswith('mu_'):
        return None
    if dec.startswith(('J/psi', 'psi(2S)', 'Upsilon', 'eta_', 'chi_')):
        f = re.search(r'->(.*?)(gamma)?$', dec)
        l = f.group(1).split(',')[0]
        if l in LFV2:
            return {LFV2[l]} | ({'dF=0'} if n.startswith('R(') else set())
        return {'dF=0'}
    if dec.startswith('tau->'):
        f = dec[5:]
        if f.endswith('nunu'):
            return {'nunumue', 'nunutaue' if f.startswith('e') else 'nunumutau'}
        if f in ('pinu', 'Knu'):
            return {'nunumue', 'udtaunu' if f == 'pinu' else 'ustaunu'}
        if f in ('emue',):
            return {'etauemu'}
        if f in ('muemu',):
            return {'muemutau'}
        if f in ('Ke', 'Kmu'):
            return {'sdtau' + f[1:]}
        if re.match(r'(rho|phi|pi)?mu(gamma)?$|mumumu$|muee$', f):
            return {'mutau'}
        if re.match(r'(rho|phi|pi)?e(gamma)?$|eee$|emumu$', f):
            return {'taue'}
        return None
    if dec.startswith('mu->e'):
        return {'mue'}
    if dec.startswith('P+->enu'):
        return {'udenu', 'usenu', 'udmunu', 'usmunu', 'nunumue'}
    if dec.endswith('nu') and not dec.endswith('nunu'):
        for r, q in CHARGED:
            if re.match(r, dec):
                lep = re.search(r'(e|mu|tau|l)nu$', dec).group(1)
                if (pre.startswith('R') or dec == 'pi+->enu') and lep == 'e' and re.match(r'(pi\+|K\+|P\+)', dec):
                    ls = {'e', 'mu'}
                else:
                    ls = nu(pre, lep)
                s = {q + l + 'nu' for l in ls}
                if re.match(r'(K\+|pi\+)->(e|mu|l)nu', dec):
                    s.add('nunumue')
                return s
        return None
    if dec.startswith('Bs->K*0'):
        return {'db', 'sbsb'}
    if dec == 'B->Xgamma':
        return {'sb', 'db'}
    for r, q in NEUTRAL:
        mm = re.match(r, dec)
        if mm:
            rest = dec[mm.end():]
            if rest == 'nunu':
                return {q + 'nunu'}
            s = set()
            for l in rest.split(','):
                if l in EM:
                    s.add(q + EM[l])
                    if q == 'sd':
                        s.add('sd' + l)
                else:
                    s.add(q)
            if dec.startswith('Bs->') and re.match(r'(ee|mumu|tautau|phi)', dec[4:]) or n.startswith('BR(Bs->'):
                s.add('sbsb')
            return s
    return None
