"""C03: the string and list notations for values with uncertainties mean what
they say.

Explored: every string of a bounded grammar (sign, mantissa form, sequence of
uncertainties in every notation, spacing, common power of ten, parentheses;
upper limits; intervals; multiplicative uncertainties; plain numbers), with
the meaning known by construction of the string (decimal arithmetic, no
parsing); all malformed strings of a bounded family (must be rejected); all
forms of giving a correlation matrix, through the YAML readers."""
import itertools, os
from fractions import Fraction
import numpy as np
import mc
import flavio
from flavio.statistics import probability as pr
from flavio._parse_errors import constraints_from_string


def close(a, b, tol=1e-11):
    return abs(a - b) <= tol * max(abs(a), abs(b)) or a == b


def describe(pd):
    n = type(pd).__name__
    if isinstance(pd, pr.GaussianUpperLimit):
        return (n, pd.limit, pd.confidence_level)
    if isinstance(pd, pr.DeltaDistribution):
        return (n, pd.central_value)
    if isinstance(pd, pr.NormalDistribution):
        return (n, pd.central_value, pd.standard_deviation)
    if isinstance(pd, pr.AsymmetricNormalDistribution):
        return (n, pd.central_value, pd.right_deviation, pd.left_deviation)
    if isinstance(pd, pr.LogNormalDistribution):
        return (n, pd.central_value, pd.factor)
    if isinstance(pd, pr.UniformDistribution):
        return (n, pd.central_value, pd.half_range)
    return (n,)


def same(got, want):
    key = lambda x: (x[0],) + tuple(float(y) for y in x[1:])
    got, want = sorted(map(key, got)), sorted(map(key, want))
    return len(got) == len(want) and all(
        g[0] == w[0] and len(g) == len(w) and all(close(x, y) for x, y in zip(g[1:], w[1:]))
        for g, w in zip(got, want))


SIGNS = ['', '-', '−']
MANT = ['0', '5', '12', '7.', '1.5', '0.07', '10.00', '1.360']
EXPS = [('', 0), ('e-3', -3), ('E3', 3), ('1e-3', -3), ('1E5', 5), ('*1e-3', -3), (' * 10^-5', -5),
        ('10^(-4)', -4), ('e+2', 2), (' *  10^(3)', 3), ('e0', 0), (' 1e-12', -12)]


def decimals(m):
    return len(m.split('.')[1]) if '.' in m else 0


def bracket_tokens(m):
    d = Fraction(1, 10**decimals(m))
    return [('(3)', 3 * d), ('(12)', 12 * d), ('( 4 )', 4 * d), ('(1.5)', Fraction(3, 2)), ('(0.3)', Fraction(3, 10)),
            ('(100)', 100 * d)]


def pm_tokens():
    out = []
    for sep in ('+-', '±', r'\pm', ' +- ', ' ± ', r' \pm '):
        out.append((sep + '0.3', Fraction(3, 10)))
    out.append((' +- 2', Fraction(2)))
    out.append(('±12.', Fraction(12)))
    for a, b in (('0.1', '0.2'), ('3', '1.50')):
        out.append(('+%s-%s' % (a, b), (Fraction(a), Fraction(b))))
        out.append((' + %s - %s' % (a, b), (Fraction(a), Fraction(b))))
    return out


def sequences(tokens, n, thorough):
    for k in range(1, n + 1):
        for seq in itertools.product(tokens, repeat=k):
            if k == 3 and not thorough and len(set(seq)) < 2:
                continue
            yield seq


def grammar(thorough):
    """yield (string, expected list of distributions)"""
    for sg in SIGNS:
        for m in MANT:
            cv = Fraction(m if not m.endswith('.') else m[:-1]) * (-1 if sg else 1)
            for kind in ('br', 'pm'):
                toks = bracket_tokens(m) if kind == 'br' else pm_tokens()
                depth = 3 if thorough else 2
                for seq in sequences(toks, depth, thorough):
                    for (ex, p), par, lead in itertools.product(EXPS, (False, True), ('', '  ')):
                        if lead and (par or len(seq) > 1):
                            continue
                        if len(seq) > 1 and p not in (0, -3, -5) or len(seq) > 2 and p not in (0, -3):
                            continue
                        if ex and kind == 'pm' and not par and ex[0] != ' ':
                            ex_ = ' ' + ex
                        else:
                            ex_ = ex
                        f = Fraction(10)**p
                        body = sg + m + ''.join(t for t, v in seq)
                        s = lead + ('(' + body + ')' if par else body) + ex_
                        want = []
                        for t, v in seq:
                            if isinstance(v, tuple):
                                want.append(('AsymmetricNormalDistribution', cv * f, v[0] * f, v[1] * f))
                            else:
                                want.append(('NormalDistribution', cv * f, v * f))
                        yield s, want
    # plain numbers
    for sg in ('', '-', '+', '−'):
        for m in MANT + ['.5']:
            for e, p in (('', 0), ('e-3', -3), ('E+02', 2)):
                cv = Fraction(m[:-1] if m.endswith('.') else m) * (-1 if sg in '-−' and sg else 1)
                yield sg + m + e, [('DeltaDistribution', cv * Fraction(10)**p)]
    # upper limits
    for m in ('5', '3.6', '12.', '+1.5'):
        for e, p in (('', 0), ('e-9', -9), ('E2', 2), ('e+3', 3)):
            for cl, c in (('90', Fraction(9, 10)), ('95', Fraction(95, 100)), ('68.27', Fraction(6827, 10000)), ('0.2', Fraction(2, 1000))):
                for f in ('<%s@%s%%CL', ' < %s @ %s %% C. L.', '<%s @ %s%% C.L.', '< %s@%s %%CL '):
                    v = Fraction(m.rstrip('.').lstrip('+')) * Fraction(10)**p
                    yield f % (m + e, cl), [('GaussianUpperLimit', v, c)]
    # intervals
    for a, b in (('-1', '5'), ('1', '5'), ('-5.5', '-1.25'), ('0', '0.5'), ('2', '2.5')):
        for ea, eb in (('', ''), ('e-2', 'e-2'), ('E-3', ''), ('', 'e2')):
            for ex, p in (('', 0), ('e15', 15), (' * 1e15', 15), ('1e-3', -3), ('10^-5', -5)):
                for f in ('[%s,%s]%s', '[ %s , %s ]%s', ' [%s ,%s]%s'):
                    F = lambda m, e: Fraction(m) * Fraction(10)**(int(e[1:]) if e else 0)
                    lo, hi = F(a, ea), F(b, eb)
                    if hi < lo:
                        continue
                    sc = Fraction(10)**p
                    yield f % (a + ea, b + eb, ex), [('UniformDistribution', (lo + hi) / 2 * sc, (hi - lo) / 2 * sc)]
    # multiplicative
    for m in ('1.67', '-2', '+3.5', '4.'):
        for e, p in (('', 0), ('e-3', -3), ('E2', 2)):
            for f in ('%s*/%s', '%s /* %s', ' %s  */  %s'):
                for fac in ('1.5', '2', '1.05'):
                    v = Fraction(m.rstrip('.').lstrip('+')) * Fraction(10)**p
                    yield f % (m + e, fac), [('LogNormalDistribution', v, Fraction(fac))]


def malformed():
    cv = ['1.5', '-2', '12']
    out = []
    for c in cv:
        out += [c + ' + 0.1', c + ' - 0.1', c + '+0.1+0.2', c + ' - 0.1 + 0.2', c + ' +- 0.3 + 0.1', c + ' + 0.1 +- 0.3',
                c + ' + 0.1 - 0.2 + 0.3', c + ' +- 0.3 - 0.1', c + '±', c + '+-', c + '()', c + '(3', c + '(a)', c + ' +- x',
                c + ' ± 0.1 ± ', '(3)', '± 0.3', c + ' 0.3', c + '(3) +- 0.1', c + ' +- 0.1(3)', '', ' ', 'abc', c + '(3)x',
                c + ' p 0.3', c + ' m 0.3', c + r' \ 0.3', c + '(3)(4', c + '(3) 1e', c + '(3) * 2', c + '(3) 2e-3',
                '[' + c + ']', '[' + c + ',]', '[' + c + ', 99', '[99,' + c + ']', '[99 ' + c + ']', '[1,2,99]',
                '<' + c, '<' + c + '@ 90', '< @ 90% CL', '<' + c.lstrip('-') + ' @ 90% X', '>' + c + ' @ 90% CL', c + '*/', '*/1.5',
                c + '*1.5', c + ' */ -1.5', '<1e-3 @ 150% CL', '<-1e-3 @ 90% CL']
    return sorted(set(out))


def run(c):
    c.assumptions = [
        'grammar bounds: 8 mantissas, 3 signs, up to %d uncertainties per value, 12 forms of the power of ten; quick: '
        'reduced combinations of the power of ten for several uncertainties' % (3 if c.thorough else 2),
        'strings whose reading is ambiguous in the documented notation (e.g. "1 +- 0.3e-3") are not constrained']
    items = list(grammar(c.thorough))
    blocks = [items[i:i + 3000] for i in range(0, len(items), 3000)]

    def block(cs, b):
        for s, want in b:
            cs.state(); cs.trace()
            try:
                got = [describe(p) for p in constraints_from_string(s)]
            except Exception as e:
                cs.fail('string/%r' % s, 'valid notation %r rejected: %s' % (s, mc.exc_text(e)), string=s)
                continue
            w = [(x[0],) + tuple(float(y) for y in x[1:]) for x in want]
            cs.expect(same(got, w), 'string/%r' % s, '%r is read as %s, means %s' % (s, got, w), string=s)
    mc.parallel(c, block, blocks)
    c.extra['strings'] = len(items)
    for s in items[::len(items) // 5]:
        c.sample(s[0])

    # end to end: the stored constraint is the sum of all uncertainties
    def e2e(cs, item):
        i, (s, want) = item
        if any(w[0] not in ('NormalDistribution', 'DeltaDistribution', 'UniformDistribution', 'AsymmetricNormalDistribution') for w in want):
            return
        if sum(w[0] == 'AsymmetricNormalDistribution' for w in want) > 1:
            return
        cs.state()
        pc = flavio.classes.ParameterConstraints()
        try:
            pc.set_constraint('verif_p', s)
        except Exception as e:
            cs.fail('stored/%r' % s, 'constraint %r cannot be stored: %s' % (s, mc.exc_text(e)), string=s)
            return
        cv = float(want[0][1])
        cs.expect(close(pc.get_central('verif_p'), cv), 'stored/%r' % s, 'central value of %r is %r' % (s, pc.get_central('verif_p')), string=s)
        if all(w[0] == 'NormalDistribution' for w in want):
            sig = float(sum(w[2]**2 for w in want))**.5
            cs.expect(close(pc.get_1d_errors_random()['verif_p'], sig, .1), 'stored-random/%r' % s,
                      'standard deviation of draws for %r is not %r' % (s, sig), string=s) if i % 40 == 0 else None
            e = pc._parameters['verif_p'][1]
            lo = e.logpdf(cv) - e.logpdf(cv + sig)
            cs.expect(abs(lo - .5) < 1e-9, 'stored/%r' % s, 'total uncertainty of %r is not %r' % (s, sig), string=s)
    short = [it for it in enumerate(items)][::(7 if c.thorough else 61)]
    mc.parallel(c, e2e, short)

    for s in malformed():
        c.state(); c.trace()
        try:
            got = constraints_from_string(s)
        except ValueError:
            c.trans()
            continue
        except Exception as e:
            c.fail('malformed/%r' % s, 'malformed %r gives %s instead of a ValueError' % (s, mc.exc_text(e)), string=s)
            continue
        c.fail('malformed/%r' % s, 'malformed string %r accepted as %s' % (s, [describe(p) for p in got]), string=s)
    c.extra['malformed_strings'] = len(malformed())
    correlations(c)


CORR = {1: [[[1]]],
        2: [[[1, .3], [.3, 1]], [[1, -.5], [-.5, 1]], [[1, 0], [0, 1]]],
        3: [[[1, .1, .2], [.1, 1, .3], [.2, .3, 1]], [[1, -.4, 0], [-.4, 1, .25], [0, .25, 1]],
            [[1, 0, 0], [0, 1, 0.7], [0, 0.7, 1]], [[1, .4, .4], [.4, 1, .4], [.4, .4, 1]]],
        4: [[[1, .1, .2, .3], [.1, 1, -.1, .05], [.2, -.1, 1, .15], [.3, .05, .15, 1]]]}
VALS = [('1.5(3)', 1.5, [.3]), ('-2.0 ± 0.5 ± 0.1', -2., [.5, .1]), ('(7(2)(1)) 1e-3', 7e-3, [2e-3, 1e-3]),
        ('4 + 0.1 - 0.4', 4., [.2])]   # asymmetric: squared error is the product of both


def forms(M):
    n = len(M)
    out = [('full', [list(r) for r in M]), ('upper', [list(M[i][i:]) for i in range(n)]),
           ('upper-zeros', [[M[i][j] if j >= i else 0 for j in range(n)] for i in range(n)]),
           ('lower-zeros', [[M[i][j] if j <= i else 0 for j in range(n)] for i in range(n)])]
    off = {M[i][j] for i in range(n) for j in range(n) if i != j}
    if len(off) == 1:
        x = off.pop()
        out += [('number', x), ('string', str(x))]
    return out


def correlations(c):
    import yaml
    obs = ['BR(Bs->mumu)', 'BR(B0->mumu)', 'DeltaM_s', 'DeltaM_d']
    obs_arg = [('<dBR/dq2>(B+->Kmumu)', 1.1, 6.), ('<dBR/dq2>(B+->Kmumu)', 15., 22.), ('BR(Bs->mumu)',), ('<FL>(B0->K*mumu)', 1.1, 2.5)]
    pars = ['m_B0', 'm_Bs', 'f_B0', 'f_Bs']
    scratch = os.environ['VERIF_SCRATCH']
    k = 0
    for n in CORR:
        for M in CORR[n]:
            for fname, form in forms(M):
                for perm in itertools.permutations(range(4), n):
                    if n == 4 and perm[0] != 0 and not c.thorough:
                        continue
                    k += 1
                    cv = [VALS[p][1] for p in perm]
                    er = [float(np.sqrt(sum(e**2 for e in VALS[p][2]))) for p in perm]
                    cov = np.array([[M[i][j] * er[i] * er[j] for j in range(n)] for i in range(n)])
                    docs = {'dict': {obs[p]: VALS[p][0] for p in perm}}
                    if n < 4 or c.thorough:
                        lst = []
                        for p in perm:
                            o = obs_arg[p]
                            d = {'name': o[0], 'value': VALS[p][0]}
                            a = flavio.Observable[o[0]].arguments
                            d.update(dict(zip(a or (), o[1:])))
                            lst.append(d)
                        if all(flavio.Observable[obs_arg[p][0]].arguments for p in perm):
                            docs['list'] = lst
                    for dn, vals in docs.items():
                        c.state(); c.trace()
                        name = 'verif corr %d %s' % (k, dn)
                        f = os.path.join(scratch, 'm.yml')
                        with open(f, 'w') as fh:
                            yaml.safe_dump({name: {'values': vals, 'correlation': form, 'experiment': 'X'}}, fh, sort_keys=False)
                        key = 'correlation/%s/%s/%d/%s/%r' % (dn, fname, n, perm, M)
                        try:
                            flavio.measurements.read_file(f)
                            m = flavio.Measurement[name]
                        except Exception as e:
                            c.fail(key, 'reading failed: ' + mc.exc_text(e), form=form, values=vals)
                            continue
                        (pd, ps), = m._constraints
                        want = [obs[p] if dn == 'dict' else obs_arg[p] for p in perm]
                        got = [tuple(x) if isinstance(x, (tuple, list)) else x for x in ps]
                        c.expect(got == want, key, 'observables %r instead of %r' % (got, want))
                        c.expect(np.allclose(np.ravel(pd.central_value), cv, rtol=1e-12), key, 'central values %r' % (pd.central_value,))
                        c.expect(np.allclose(pd.covariance, cov, rtol=1e-10, atol=1e-14), key,
                                 'covariance %r instead of %r' % (np.asarray(pd.covariance).tolist(), cov.tolist()), form=form)
                        del flavio.Measurement[name]
                    # correlated parameters
                    c.state(); c.trace()
                    with open(f, 'w') as fh:
                        yaml.safe_dump([{'values': [{pars[p]: VALS[p][0]} for p in perm], 'correlation': form}], fh)
                    key = 'correlation/parameters/%s/%d/%s/%r' % (fname, n, perm, M)
                    pc = flavio.classes.ParameterConstraints()
                    try:
                        flavio.parameters.read_file_values_correlated(f, pc)
                    except Exception as e:
                        c.fail(key, 'reading failed: ' + mc.exc_text(e), form=form)
                        continue
                    (pd, ps), = pc._constraints
                    c.expect(list(ps) == [pars[p] for p in perm] and np.allclose(pd.covariance, cov, rtol=1e-10, atol=1e-14)
                             and np.allclose(np.ravel(pd.central_value), cv, rtol=1e-12), key, 'read as %r %r' % (ps, pd.covariance), form=form)
    # malformed matrices
    bad = [(2, [[1, .3]]), (2, [[1, .3], [.3, .9]]), (2, [[.9, .3], [.3, 1]]), (3, [[1, .1, .2], [1, .3], [1], [1]]),
           (3, [[1, .1, .2], [1, .3, .2, .1], [1]]), (2, [[2, .3], [1]]), (2, [[1, .3], [.5]]), (2, {'a': 1}), (2, None), (3, [[1, .1], [1, .3], [1]])]
    for n, form in bad:
        c.state()
        with open(f, 'w') as fh:
            yaml.safe_dump({'verif bad': {'values': {obs[p]: VALS[p][0] for p in range(n)}, 'correlation': form}}, fh, sort_keys=False)
        try:
            flavio.measurements.read_file(f)
        except (ValueError, TypeError):
            c.trans()
        except Exception as e:
            c.fail('badcorr/%r' % (form,), 'malformed correlation matrix gives ' + mc.exc_text(e), form=form)
        else:
            c.fail('badcorr/%r' % (form,), 'malformed correlation matrix accepted', form=form)
    c.extra['correlation_cases'] = k
