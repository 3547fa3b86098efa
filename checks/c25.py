"""C25: lepton flavours are nothing but labels.

Exchanging two charged leptons everywhere - masses and other lepton parameters,
flavour indices of the Wilson coefficients, names of the observables - leaves
every prediction unchanged."""
import re
import mc, phys, semilep
import flavio
from wilson import wcxf

TOK = re.compile(r'numu|nutau|nue|tau|mu|e|[udscbtl]|.')
LEP = ('e', 'mu', 'tau')
# where the coefficients are given, so that no running is needed for lepton
# flavour violating decays (the running knows the lepton masses)
FAMILIES = {'': ('WET', 4.8), 'cc': ('WET', 2.), 'bb': ('WET', 10.), 'tau': ('WET-4', 1.8)}
TOL = {'BR(mu->eee)': 1e-2}     # normalised to the lowest-order muon decay rate
SECTORS = set(phys.WET_SECTORS_SL) | {'ffnunu'}
SWAPS = [('e', 'mu'), ('mu', 'tau'), ('e', 'tau')]


def family(n):
    if re.search(r'\((J/psi|psi|eta_c|chi_c)', n):
        return 'cc'
    if re.search(r'\((Upsilon|eta_b|chi_b)', n):
        return 'bb'
    if re.search(r'\((mu|tau)->', n):
        return 'tau'
    return ''


def swap_tokens(s, a, b):
    m = {a: b, b: a, 'nu' + a: 'nu' + b, 'nu' + b: 'nu' + a}
    return ''.join(m.get(t, t) for t in TOK.findall(s))


def swap_obs(name, a, b):
    """name of the observable with the leptons in the final (and initial) state exchanged; None if the name has no leptons"""
    m = re.match(r'^(.*?\()([^()]*(?:\(.*?\))?[^()]*)->(.*)\)$', name)
    if m:
        head, ini, fin = m.groups()
        ini2 = {a: b, b: a}.get(ini, ini)
        # leptons are at the end of the final state
        parts = fin.split(',')
        out = []
        for f in parts:
            k = re.search(r'((?:(?:e|mu|tau){2}gamma)|(?:e|mu|tau)+(?:nu)?|(?:e|mu|tau)gamma|(?:e|mu|tau)+)$', f)
            if ini in LEP:
                out.append(swap_tokens(f, a, b) if not re.match(r'^(pi|K|rho|phi|omega)', f) else re.sub(r'^(pi|K|rho|phi)(.*)$', lambda x: x.group(1) + swap_tokens(x.group(2), a, b), f))
            elif k:
                out.append(f[:k.start()] + swap_tokens(k.group(1), a, b))
            else:
                out.append(f)
        new = '%s%s->%s)' % (head, ini2, ','.join(out))
        if len(out) == 2 and out[0] and re.match(r'^.*(emu|mue|etau|taue|mutau|taumu)$', out[0]) and new not in flavio.Observable.instances:
            pre = re.match(r'^(.*?)((?:e|mu|tau){2})$', out[0])
            if pre:                     # the sum over both charge combinations, named in the other order
                alt = '%s%s->%s%s,%s)' % (head, ini2, pre.group(1), out[1], pre.group(2))
                if alt in flavio.Observable.instances:
                    return alt
        return new
    m = re.match(r'^(a_|tau_|R_)(e|mu|tau|ee|mumu|tautau)$', name)
    if m:
        return m.group(1) + swap_tokens(m.group(2), a, b)
    return None


def swap_par(P, a, b):
    """parameters with the two leptons exchanged"""
    out = dict(P)
    for k, v in P.items():
        k2 = swap_parname(k, a, b)
        if k2 != k and k2 in P:
            out[k2] = v
    return out


def swap_parname(k, a, b):
    m = re.match(r'^(m_|a_)(e|mu|tau)( SM)?$', k)
    if m:
        return m.group(1) + swap_tokens(m.group(2), a, b) + (m.group(3) or '')
    m = re.match(r'^(delta_BX[sd])(ee|mumu|tautau)( low| high)$', k)
    if m:
        return m.group(1) + swap_tokens(m.group(2), a, b) + m.group(3)
    m = re.match(r'^tau_(mu|tau)$', k)
    if m:
        k2 = swap_tokens(m.group(1), a, b)
        return 'tau_' + k2 if k2 != 'e' else k
    m = re.match(r'^(K[0+])(e|mu)(3 delta_EM)$', k)
    if m:
        return m.group(1) + swap_tokens(m.group(2), a, b) + m.group(3)
    return k


def swap_wc(C, known, a, b):
    """(restricted coefficients, exchanged coefficients)"""
    keep, out = {}, {}
    for k, v in C.items():
        head, tail = k.split('_', 1)
        k2 = head + '_' + swap_tokens(tail, a, b)
        if k2 in known:
            keep[k] = v
            out[k2] = v
            continue
        t = TOK.findall(tail)
        if len(t) == 4 and head.startswith('CV'):      # hermitian conjugate
            m = {a: b, b: a}
            t = [m.get(x, x) for x in t]
            k2 = head + '_' + t[1] + t[0] + t[3] + t[2]
            if k2 in known:
                keep[k] = v
                out[k2] = v.conjugate()
    return keep, out


def run(c):
    P = flavio.default_parameters.get_central_all()
    P = dict(P)
    B = wcxf.Basis['WET', 'flavio']
    known = {k for ks in B.sectors.values() for k in ks}
    sec = {k: s for s, ks in B.sectors.items() for k in ks}
    real = {k for ks in B.sectors.values() for k, d in ks.items() if (d or {}).get('real')}
    items = []
    for n, o in flavio.Observable.instances.items():
        if re.match(r'^(BR\(K|RKpi\(P)\+->(e|mu)nu\)$', n):
            continue                # chiral correction only known for one of the leptons
        for sw in SWAPS:
            if 'e' in sw and re.match(r'^R\((J/psi|psi|Upsilon)', n):
                continue            # normalised to the decay to electrons
            m = swap_obs(n, *sw)
            if m is not None and re.match(r'^BR\((J/psi|psi|Upsilon|eta_|chi_)', n):
                c.state(1)
                c.expect(m in flavio.Observable.instances, '%s/registry/%s-%s' % ((n,) + sw), '%s is an observable, but %s is not' % (n, m), observable=n)
            if m is not None and m != n and m in flavio.Observable.instances and n < m:
                items.append((n, m, sw))

    def point(sg, eft):
        """all coefficients of the semi-leptonic and leptonic sectors"""
        vals = phys.wc_values(eft, 'flavio', size=.3, sign=sg)
        C = {}
        for k, v in vals.items():
            if sec.get(k) in SECTORS:
                f = .02 if sec[k] in ('mue', 'taue', 'mutau', 'ffnunu') else 1. if k[:2] in ('C9', 'C1', 'CL', 'CR') else .1
                if k in ('C1_bs', 'C1_bd', 'C2_bs', 'C2_bd'):
                    f = .1
                C[k] = v * f
        return C
    pts = {}
    for sw in SWAPS:
        for f, (eft, scale) in FAMILIES.items():
            for sg in ((1, -1) if c.thorough else (1,)):
                k, s = swap_wc(point(sg, eft), known, *sw)
                wa, wb = flavio.WilsonCoefficients(), flavio.WilsonCoefficients()
                wa.set_initial(k, scale, eft=eft, basis='flavio'); wb.set_initial(s, scale, eft=eft, basis='flavio')
                pts[sw, sg, f] = (wa, wb, len(k))
            pts[sw, 0, f] = (flavio.WilsonCoefficients(), flavio.WilsonCoefficients(), 0)
    # the muon and the tau decays at the same scale
    scales = flavio.config['renormalization scale']
    scales['mudecays'] = scales['taudecays']

    def ev(n, p, w, a):
        try:
            return flavio.Observable[n].prediction_par(p, w, *a)
        except Exception as e:
            return mc.exc_text(e)

    def one(cc, it):
        n, m, sw = it
        p2 = swap_par(P, *sw)
        fam = family(n)
        tol = TOL.get(n, 1e-6)
        args = phys.arg_grid(flavio.Observable[n])
        if args == phys.BINS and not cc.thorough:
            args = args[1:2]
        for a in args:
            for (s, sg, f), (wa, wb, _) in pts.items():
                if s != sw or f != fam or (not sg and 'tau' in sw and re.match(r'^(Gamma\(Z|R_)', n)):
                    continue
                x, y = ev(n, P, wa, a), ev(m, p2, wb, a)
                x2, y2 = ev(m, P, wa, a), ev(n, p2, wb, a)
                for (u, v, nn, mm) in ((x, y, n, m), (x2, y2, m, n))[:1 if n in TOL else 2]:
                    cc.state(); cc.trace(2)
                    ok = u == v if isinstance(u, str) or isinstance(v, str) else abs(u - v) <= tol * max(abs(u), abs(v)) + 1e-300
                    cc.expect(ok, '%s%r/%s-%s/%d' % (nn, a, sw[0], sw[1], sg), '%s%r: %r, with %s and %s exchanged: %s = %r' % (nn, a, u, sw[0], sw[1], mm, v),
                              observable=nn, args=a)
        cc.sample('%s <-> %s' % (n, m))
    mc.parallel(c, one, items, chunk=4)

    # self-conjugate mesons do not prefer one of the two charge combinations (no strong phases)
    def charge(cc, it):
        n, m = it
        fam = family(n)
        for a in phys.arg_grid(flavio.Observable[n]):
            b = tuple(a[i ^ 1] for i in range(len(a)))      # the arguments come in pairs ij, ji
            for (s, sg, f), (wa, wb, _) in pts.items():
                if f != fam or s != SWAPS[0]:
                    continue
                u, v = ev(n, P, wa, a), ev(m, P, wa, b)
                cc.state(); cc.trace(2)
                ok = not isinstance(u, str) and not isinstance(v, str) and abs(u - v) <= 1e-6 * max(abs(u), abs(v))
                cc.expect(ok, '%s%r/charge/%d' % (n, a, sg), '%s%r: %r, but %s%r = %r' % (n, a, u, m, b, v), observable=n, args=a)
        cc.sample('%s = %s' % (n, m))
    pairs = []
    for n in flavio.Observable.instances:
        m = re.match(r'^((?:BR|R)\((?:J/psi|psi|Upsilon|eta_|chi_).*->)(e|mu|tau)(e|mu|tau)(gamma)?\)$', n)
        if m and m.group(2) < m.group(3):
            pairs.append((n, m.group(1) + m.group(3) + m.group(2) + (m.group(4) or '') + ')'))
    mc.parallel(c, charge, pairs, chunk=4)
    c.extra['charge_pairs'] = len(pairs)
    c.extra['pairs'] = len(items)
    c.extra['observables'] = len({x for n, m, s in items for x in (n, m)})
    c.extra['swapped_coefficients'] = max(v[2] for v in pts.values())
