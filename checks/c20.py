"""C20: the default database is complete and consistent, and every observable is
computable.

 * every observable x (argument grid + all measured arguments) x {SM, WET, SMEFT
   point}: finite real number;
 * every entry of the data files (parsed independently) is loaded with its
   value, and nothing else is; every measurement refers to registered observables
   with the right arguments; central values lie in the support with finite
   log-density; errors are positive; covariances positive definite;
 * particle data: masses and lifetimes of all particles against the tables;
 * re-reading the defaults any number of times, in any order, into any
   collection reproduces the state."""
import re, csv, itertools
import numpy as np
import yaml
import mc, phys
import flavio
from flavio.classes import Observable, Parameter, Measurement, AuxiliaryQuantity, Implementation, ParameterConstraints

NUM = re.compile(r'^\s*([-+−]?\d+\.?\d*(?:[eE][-+]?\d+)?)\s*$')
PM = re.compile(r'^\s*\(?\s*([-+−]?\d+\.?\d*)\s*(?:±|\+-|\+/-)\s*[\d.]+(?:\s*(?:±|\+-|\+/-)\s*[\d.]+)*\s*\)?\s*(?:\*?\s*(?:10\*\*|10\^|1?e)\s*\(?([-+]?\d+)\)?)?\s*$', re.I)
BR = re.compile(r'^\s*([-+−]?\d+)(\.\d*)?\(\d+\)\s*(?:e\s*([-+]?\d+))?\s*$')
ONLYSMEFT = 'to SMEFT'


def central(s):
    """the central value of the simplest notations, or None"""
    if isinstance(s, (int, float)):
        return float(s)
    if not isinstance(s, str):
        return None
    s = s.replace('−', '-')
    m = NUM.match(s)
    if m:
        return float(m.group(1))
    m = PM.match(s)
    if m:
        return float(m.group(1) + 'e' + (m.group(2) or '0').lstrip('+'))
    m = BR.match(s)
    if m:
        return float(m.group(1) + (m.group(2) or '') + 'e' + (m.group(3) or '0'))
    return None


def load(path):
    with open(path, encoding='utf-8') as f:
        return yaml.load(f, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))


def entries(data):
    """[(name, value)] of a measurement in measurements.yml"""
    def tup(d):
        if isinstance(d, str):
            return d
        return tuple([d['name']] + [d[a] for a in Observable[d['name']].arguments])
    if 'observables' in data:
        return [(tup(o), None) for o in data['observables']]
    v = data['values']
    if isinstance(v, dict):
        return list(v.items())
    return [(tup(d), d['value']) for d in v]


def close(x, y, tol=1e-12):
    return abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-300


def predictions(c):
    meas = set()
    for m in Measurement.instances.values():
        for o in m.all_parameters:
            meas.add(o if isinstance(o, tuple) else (o,))
    grid = {(n,) + tuple(a) for n, a in phys.instances()}
    wet = flavio.WilsonCoefficients()
    vals = phys.wc_values('WET', 'flavio', size=2e-3)
    from wilson import wcxf
    df2 = {k for s in ('sbsb', 'dbdb', 'sdsd', 'cucu', 'nunumue', 'nunuemu') if s in wcxf.Basis['WET', 'flavio'].sectors
           for k in wcxf.Basis['WET', 'flavio'].sectors[s]}
    df2 |= {k for k in vals if re.search(r'_su(e|mu|tau)nu', k) or k.startswith('CS') and '_du' in k}
    wet.set_initial({k: v * (1e-7 if k in df2 else 1e-4 if 'nunu' in k and k.startswith('CVL') and len(k) > 16 else 1.) for k, v in vals.items()
                     if not re.search(r'nu\w+nu\w+', k) or k.count('b') or k.count('s')}, 4.8)
    sme = flavio.WilsonCoefficients()
    sme.set_initial(phys.wc_values('SMEFT', 'Warsaw', size=1e-10), 91.1876, 'SMEFT', 'Warsaw')
    items = sorted(grid | {m for m in meas if m[0] in Observable.instances}, key=str)
    seen = {}
    tasks = []
    for it in items:
        seen[it[0]] = seen.get(it[0], 0) + 1
        tasks.append((it, it in grid and (c.thorough or seen[it[0]] == 1)))
    if not c.thorough:      # several hundred bins of the (slow) pp -> l nu: every sixth
        pp = [t for t in tasks if re.match(r'R_13\(pp->\w+nu\)', t[0][0])]
        drop = {t[0] for i, t in enumerate(pp) if i % 6}
        tasks = [t for t in tasks if t[0] not in drop]
    slow = ('a_mu', 'R_13', 'R(', 'BR(tau', 'FL', 'AFBtot', '<')
    tasks.sort(key=lambda t: not t[0][0].startswith(slow))

    def one(cc, t):
        it, full = t
        n, a = it[0], it[1:]
        for tag, w in [('SM', None)] + ([('WET', wet), ('SMEFT', sme)] if full else []):
            cc.state()
            cc.trace()
            try:
                v = flavio.sm_prediction(n, *a) if w is None else flavio.np_prediction(n, w, *a)
            except Exception as e:
                if tag == 'WET' and ONLYSMEFT in str(e):
                    cc.extra['smeft_only'] = cc.extra.get('smeft_only', 0) + 1
                    continue
                cc.fail('%r/%s' % (it, tag), 'prediction raises %s' % mc.exc_text(e), observable=n, args=a)
                continue
            ok = isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool) and np.isfinite(v)
            cc.expect(ok, '%r/%s' % (it, tag), 'prediction is not a finite real number: %r' % (v,), observable=n, args=a)
    mc.parallel(c, one, tasks, chunk=8)


def measurements(c, data):
    inst = Measurement.instances
    c.expect({n for n in inst if not n.startswith('Pseudo')} == set(data), 'measurements', 'registered and listed measurements differ: %r' % sorted(set(inst) ^ set(data))[:5])
    known = 0
    for name, d in data.items():
        if name not in inst:
            continue
        m = inst[name]
        c.state(); c.trace()
        try:
            ent = entries(d)
        except Exception as e:
            c.fail('measurement/' + name, 'entry refers to unknown observables or arguments: %s' % mc.exc_text(e))
            continue
        c.expect(set(m.all_parameters) == {o for o, v in ent}, 'measurement/' + name, 'observables %r, listed %r' % (m.all_parameters, [o for o, v in ent]))
        c.expect(len(ent) == len({o for o, v in ent}), 'measurement/%s/unique' % name, 'an observable is listed twice')
        for k in ('inspire', 'hepdata', 'experiment', 'url', 'description'):
            c.expect(getattr(m, k) == d[k] if k in d else not getattr(m, k, ''), 'measurement/%s/%s' % (name, k), '%s: %r, listed: %r' % (k, getattr(m, k, None), d.get(k)))
        for o, v in ent:
            if o not in m.all_parameters:
                continue
            on = o if isinstance(o, str) else o[0]
            na = 0 if isinstance(o, str) else len(o) - 1
            key = 'measurement/%s/%r' % (name, o)
            if not c.expect(on in Observable.instances, key, 'unknown observable'):
                continue
            c.expect(na == len(Observable[on].arguments or []), key, 'wrong number of arguments')
            cen = central(v)
            if cen is not None:
                known += 1
                got = m.get_central(o)
                c.expect(close(got, cen), key, 'central value %r, listed %r' % (got, v))
            c.expect(name in Observable[on].get_measurements(), key, 'get_measurements does not list it')
    c.extra['measured_values_compared'] = known
    args = [(n, o) for n, m in inst.items() for o in m.all_parameters if isinstance(o, tuple)]
    for n, o in args:
        a = Observable[o[0]].arguments
        if a and len(a) == 2 and a[0].endswith('min') and o[0][:4] != 'BR(t':
            c.expect(o[1] < o[2], 'bin/%s/%r' % (n, o), 'bin boundaries are not in increasing order')


def coherent(c, label, con):
    """constraints of a collection"""
    for name in con.all_parameters:
        c.state()
        key = '%s/%r' % (label, name)
        cen = con.get_central(name)
        c.expect(np.isfinite(cen) and np.ndim(cen) == 0, key + '/central', 'central value %r' % (cen,))
    cen = con.get_central_all()
    try:
        er = con.get_1d_errors_rightleft()
    except NotImplementedError:
        er = dict.fromkeys(cen, (1., 1.))
    c.expect(set(er) == set(cen) == set(con.all_parameters), label, 'names differ')
    for n, (r, l) in er.items():
        c.expect(np.isfinite(r) and np.isfinite(l) and r >= 0 and l >= 0, '%s/%r/errors' % (label, n), 'errors %r' % ((r, l),))
    lp = con.get_logprobability_all(cen)
    for pd, v in lp.items():
        ps = [n for n, (i, q) in con._parameters.items() if q is pd] if hasattr(con, '_parameters') else '?'
        c.expect(np.isfinite(v), '%s/%r/density' % (label, ps), 'log-density at the central value: %r' % (v,))
        cov = getattr(pd, 'covariance', None)
        if cov is not None and np.ndim(cov) == 2:
            cov = np.asarray(cov, float)
            s = np.sqrt(np.diag(cov))
            corr = cov / np.outer(s, s)
            c.expect(np.allclose(corr, corr.T, rtol=0, atol=1e-5), '%s/%r/symmetric' % (label, ps), 'covariance not symmetric')
            c.expect(np.min(np.linalg.eigvalsh(corr)) > -1e-9, '%s/%r/covariance' % (label, ps), 'correlation matrix has eigenvalue %g' % np.min(np.linalg.eigvalsh(corr)))


def parameters(c, base):
    D = flavio.default_parameters
    meta = load(base + 'parameters_metadata.yml')
    unc = load(base + 'parameters_uncorrelated.yml')
    cor = load(base + 'parameters_correlated.yml')
    P = set(Parameter.instances)
    con = set(D.all_parameters)
    c.expect(set(unc) <= con and set(unc) <= P, 'parameters/uncorrelated', 'listed but not loaded: %r' % sorted(set(unc) - con)[:5])
    c.expect(set(meta) <= P, 'parameters/metadata', 'listed but not loaded: %r' % sorted(set(meta) - P)[:5])
    for n in sorted(con):
        c.expect(n in P, 'parameters/%s' % n, 'constrained, but not a registered parameter')
    over = {k for g in cor for d in g['values'] for k in d}
    known = 0
    pdg = particles()
    for n, v in unc.items():
        c.state(); c.trace()
        cen = central(v)
        if cen is None or n in over or n in pdg:
            continue
        if n.startswith(('B->K BSZ', 'B->pi BCL', 'B->omega BSZ', 'B->rho BSZ', 'B->K* BSZ', 'Bs->phi BSZ', 'Bs->K* BSZ', 'Lambdab->Lambda SSE')):
            continue        # (overwritten by the form factor files)
        known += 1
        c.expect(n in con and close(D.get_central(n), cen), 'parameters/' + n, 'central value %r, listed %r' % (n in con and D.get_central(n), v))
    for g in cor:
        names = [list(d)[0] for d in g['values']]
        for d in g['values']:
            (n, v), = d.items()
            c.state(); c.trace()
            cen = central(v)
            if n in pdg:        # (the particle data take precedence)
                continue
            if cen is not None and n in con and not n.startswith(('B->', 'Bs->', 'Lambdab')):
                known += 1
                c.expect(close(D.get_central(n), cen), 'parameters/' + n, 'central value %r, listed %r' % (D.get_central(n), v))
    c.extra['parameter_values_compared'] = known
    for n, i in meta.items():
        p = Parameter[n]
        if n in pdg:
            continue
        for k in ('tex', 'description'):
            if i.get(k):
                c.expect(getattr(p, k) == i[k], 'parameters/%s/%s' % (n, k), '%s: %r, listed %r' % (k, getattr(p, k), i[k]))
    # particle data
    er = D.get_1d_errors_rightleft()
    for n, (cen, r, l) in pdg.items():
        c.state(); c.trace()
        c.expect(n in con and n in P, 'particles/' + n, 'not a parameter')
        if n in con:
            got = (D.get_central(n),) + tuple(er[n])
            c.expect(all(close(a, b, 1e-9) for a, b in zip(got, (cen, r, l))), 'particles/' + n, 'value, errors %r; particle data table: %r' % (got, (cen, r, l)))
    c.extra['particles'] = len(pdg)


def particles():
    """masses and lifetimes (value, error up, error down) in GeV from the table"""
    from particle import data as pdata
    from flavio.parameters import FlavioParticle
    names = {str(int(i)): n for n, i in FlavioParticle.PDG_PARTICLES.items()}
    out = {}
    with open(str(pdata.basepath / 'particle2022.csv')) as f:
        rows = csv.DictReader(l for l in f if not l.startswith('#'))
        for r in rows:
            n = names.get(r['ID'])
            if n is None:
                continue
            m, mu, ml = (float(r[k]) * 1e-3 for k in ('Mass', 'MassUpper', 'MassLower'))
            out['m_' + n] = (m, mu, ml)
            try:
                g, gu, gl = (float(r[k]) * 1e-3 for k in ('Width', 'WidthUpper', 'WidthLower'))
            except ValueError:
                continue
            if 0 in (g, gu, gl) or min(gu, gl) < 0:
                continue
            # a larger width is a shorter lifetime
            out['tau_' + n] = (1 / g, gl / g**2, gu / g**2)
    return out


def byname(l):
    return {tuple(d['parameters']): d for d in l}


def state():
    D = flavio.default_parameters
    return (byname(D.get_yaml_dict()), {n: m.get_yaml_dict() for n, m in Measurement.instances.items()},
            {n: (p.tex, p.description) for n, p in Parameter.instances.items()})


def reread(cc, seq):
    """operation sequences of reading the defaults"""
    ref = state()
    D = flavio.default_parameters
    C = ParameterConstraints()
    for i, op in enumerate(seq):
        if op == 'par':
            D.read_default()
        elif op == 'meas':
            flavio.measurements.read_default()
        elif op == 'pdg':
            flavio.parameters.read_pdg(2022, D)
        elif op == 'other':
            C.read_default()
            cc.expect(byname(C.get_yaml_dict()) == ref[0], 'reread/%r/other' % (seq[:i + 1],), 'defaults read into another collection differ')
        elif op == 'spoil':
            D.set_constraint('m_mu', '1 ± 1')
            D.remove_constraint('Vcb')
            D.read_default()
        cc.state()
        s = state()
        for lab, x, y in zip(('parameters', 'measurements', 'metadata'), ref, s):
            diff = [k for k in set(x) | set(y) if x.get(k) != y.get(k)]
            cc.expect(x == y, 'reread/%r/%s' % (seq[:i + 1], lab), 'reading the defaults again changes %r' % diff[:5], history=seq[:i + 1])
    cc.trace()


def run(c):
    import os
    base = os.path.join(os.path.dirname(flavio.__file__), 'data') + os.sep
    measurements(c, load(base + 'measurements.yml'))
    for n, m in Measurement.instances.items():
        coherent(c, 'measurement/' + n, m)
    coherent(c, 'parameters', flavio.default_parameters)
    parameters(c, base)
    imp = flavio.config['implementation']
    for q in AuxiliaryQuantity.instances:
        if q in imp:
            c.expect(imp[q] in Implementation.instances and Implementation[imp[q]].quantity == q, 'implementation/' + q, 'configured implementation %r' % imp[q])
        c.state()
    for q in imp:
        c.expect(q in AuxiliaryQuantity.instances or q == 'K mixing unitarity', 'implementation/' + q, 'configuration of an unknown auxiliary quantity')
    ops = ['par', 'meas', 'pdg', 'other', 'spoil']
    seqs = list(itertools.product(ops, repeat=2)) if c.thorough else [(o,) for o in ops] + [('par', 'pdg'), ('pdg', 'par')]
    mc.parallel(c, reread, seqs, chunk=1)
    predictions(c)
    c.sample("flavio.sm_prediction(n, *args) for all observables and measured arguments")
