"""P20: element accessors and state listings report the solved state."""
import os
import re
import shutil
import tempfile

import numpy as np

from qmon import gen, sysutil, work
from qmon.mon import Inconclusive

RULE = ('A case counts when, on a solved random system, every pair of states was asked for through the accessors and '
        'compared with an independent account of the solution, or when a complete listing was parsed and compared '
        'with the eigenvectors, energies and quantum numbers.')
ASSUMPTIONS = ['for comparisons with the reference the stationary state is unique (gap > 1e-7)']
NAMES = ['Pauli', 'Lindblad', 'Redfield', '1vN', 'RTD', '2vN', 'elph-Pauli', 'elph-Lindblad', 'Redfield', '1vN',
         'elph-Redfield', 'elph-1vN', 'Lindblad']
REQUIRED = {'quick': {'check:phi0': 1200, 'check:phi1': 500, 'check:phi0-ref': 600, 'check:phi1-ref': 200,
                      'listing': 500, 'removed': 250, 'sorted': 800, 'reordered': 400, 'manybody': 150, 'manybody-sorted': 150},
            'thorough': {'check:phi0': 20000}}
BUDGET = {'quick': 400, 'thorough': 5400}


def cases(tier, seed):
    num = 4400 if tier == 'quick' else 36000
    out = [dict(kind=NAMES[k % len(NAMES)], seed=seed*100003+k) for k in range(num)]
    m = 800 if tier == 'quick' else 6000
    out += [dict(kind='manybody', seed=seed*100003+k) for k in range(m)]
    return out


def considered(si):
    q = np.full(si.nmany, -1)
    for c in range(si.ncharge):
        for b in si.statesdm[c]:
            q[b] = c
    return q


def slots(s, base):
    """{(b, bp): value} for every pair that has its own slot, from the table of element labels."""
    si = s.si
    phi = np.array(s.phi0)
    out = {}
    nd, npa = int(si.ndm0), int(si.npauli)
    for ind, (b, bp) in si.inddm0.items():
        if base == '2vN':
            out[(b, bp)] = complex(phi[ind])
        elif ind < npa:
            out[(b, bp)] = complex(phi[ind])
        elif len(phi) > npa:
            out[(b, bp)] = complex(phi[ind], phi[nd-npa+ind])
        else:
            out[(b, bp)] = 0j
    return out


def check_elements(s, w, q, mon, tag):
    """All pairs through get_phi0, under whatever order of states is in force."""
    si = s.si
    base = work.base_of(w.kt)
    order = [int(x) for x in si.states_order]
    N = int(si.nmany)
    got = np.zeros((N, N), dtype=complex)
    for i in range(N):
        for j in range(N):
            got[order[i], order[j]] = s.get_phi0(i, j)
    tab = slots(s, base)
    bad = []
    for (b, bp), v in tab.items():
        if got[b, bp] != v:
            bad.append((b, bp, got[b, bp], v))
    mon.true('phi0', not bad, lambda: '%s %s %r' % (tag, w.name, bad[:4]))
    if base == '2vN':
        mon.close('phi0-conj', got, got.conj().T, rtol=0, atol=1e-8*max(1.0, np.max(np.abs(got))), what=tag)
    else:
        mon.true('phi0-conj', bool(np.all(got == got.conj().T)), lambda: '%s %s %r' % (tag, w.name, np.max(np.abs(got-got.conj().T))))
    out = (q[:, None] != q[None, :]) | (q[:, None] < 0)
    mon.true('phi0-zero', bool(np.all(got[out] == 0)), lambda: '%s %s' % (tag, w.name))
    if base in ('Pauli', 'RTD'):
        mon.true('phi0-zero', bool(np.all(got[~np.eye(N, dtype=bool)] == 0)), lambda: '%s coherences of %s' % (tag, w.name))
    tr = np.trace(got)
    amp = max(1.0, float(np.max(np.abs(got))))
    mon.small('phi0-trace', tr-1.0, 1e-8*amp*N, what='%s %s' % (tag, w.name))
    return got


def check_amplitudes(s, w, q, mon, tag):
    si = s.si
    base = work.base_of(w.kt)
    order = [int(x) for x in si.states_order]
    N = int(si.nmany)
    T = np.array(s.Tba)
    nl = T.shape[0]
    if base in ('Pauli', 'Lindblad', 'RTD'):
        vals = [s.get_phi1(l, i, j) for l in range(nl) for i in range(N) for j in range(N)]
        mon.true('phi1-none', all(v is None for v in vals), lambda: '%s %s' % (tag, w.name))
        return None
    got = np.zeros((nl, N, N), dtype=complex)
    for l in range(nl):
        for i in range(N):
            for j in range(N):
                got[l, order[i], order[j]] = s.get_phi1(l, i, j)
    up = (q[:, None]-q[None, :] == 1) & (q[:, None] >= 0) & (q[None, :] >= 0)
    mon.true('phi1-zero', bool(np.all(got[:, ~(up | up.T)] == 0)), lambda: '%s %s' % (tag, w.name))
    mon.true('phi1-conj', bool(np.all(got == got.conj().transpose(0, 2, 1))), lambda: '%s %s' % (tag, w.name))
    cur = np.array([-2*np.sum((T[l].T*got[l])[up]).imag for l in range(nl)])
    sc = np.max(np.abs(T))*(np.max(np.abs(got))+np.max(np.abs(T))*np.max(np.abs(np.array(s.phi0)))*1e-1)*N*N + 1e-300
    mon.close('phi1', cur, np.array(s.current), rtol=0, atol=1e-12*sc, what='%s %s' % (tag, w.name))
    return got


NUM = r'\(?[-+0-9.einfaj]+\)?'


def parse(text):
    """Records of a listing."""
    out = []
    cur = None
    for line in text.splitlines():
        m = re.match(r'Sorted label: (\d+)$', line)
        if m:
            cur = dict(sorted=int(m.group(1)), coef={}, order=[])
            out.append(cur)
            continue
        if cur is None:
            continue
        for key, pat in (('original', r'Original label: (\d+)$'), ('charge', r'Charge: (\d+)$'),
                         ('sz', r'S\^z \[in units of 1/2\]: (-?\d+)$'), ('ssq', r'S\^2 \[in units of 1/2\]: (\d+)$')):
            m = re.match(pat, line)
            if m:
                cur[key] = int(m.group(1))
        m = re.match(r'Energy: (.*)$', line)
        if m:
            cur['energy'] = complex(m.group(1))
        m = re.match(r'    \|([01]*)>: (.*)$', line)
        if m:
            cur['coef'][m.group(1)] = complex(m.group(2))
            cur['order'].append(abs(complex(m.group(2))))
    return out


def check_listing(s, recs, eps, mon, tag):
    si = s.si
    N = int(si.nmany)
    X, _ = sysutil.eigvec_matrix(s)
    order = [int(x) for x in si.states_order]
    E = np.array(s.Ea)
    mon.true('list-all', [r['sorted'] for r in recs] == list(range(N)) and sorted(r.get('original', -1) for r in recs) == list(range(N)),
             lambda: '%s %r' % (tag, [(r['sorted'], r.get('original')) for r in recs]))
    bad = []
    n = int(si.nsingle)
    h = n//2
    for r in recs:
        b = r.get('original', -1)
        if not 0 <= b < N:
            continue
        if order[r['sorted']] != b:
            bad.append(('label', r['sorted'], b))
        if abs(r['energy']-E[b]) > 1e-12*max(1, abs(E[b])):
            bad.append(('energy', b, r['energy'], E[b]))
        want = {}
        for f in range(N):
            if X[f, b] != 0 or eps == 0:
                occ = si.get_state(f)
                if abs(X[f, b]) >= eps:
                    want[''.join(map(str, occ))] = X[f, b]
        # states outside the block of b may be left out when the coefficient is exactly zero
        for k, v in r['coef'].items():
            if k not in want or abs(want[k]-v) > 1e-12:
                bad.append(('coefficient', b, k, v, want.get(k)))
            if k.count('1') != r['charge']:
                bad.append(('charge', b, k, r['charge']))
            if 'sz' in r and k[:h].count('1')-k[h:].count('1') != r['sz']:
                bad.append(('sz', b, k, r['sz']))
        for k, v in want.items():
            if v != 0 and k not in r['coef']:
                bad.append(('missing', b, k, v))
        if any(x < y-1e-15 for x, y in zip(r['order'], r['order'][1:])):
            bad.append(('order', b, r['order']))
        if eps == 0 and abs(sum(abs(v)**2 for v in r['coef'].values())-1) > 1e-10:
            bad.append(('norm', b))
        if si.indexing in ('sz', 'ssq') and 'sz' not in r or si.indexing == 'ssq' and 'ssq' not in r:
            bad.append(('quantum numbers', b))
        if 'ssq' in r and eps == 0:
            # total spin from the listed expansion: S^2 = S-S+ + Sz(Sz+1)
            vec = r['coef']
            acc = {}
            for k, v in vec.items():
                o = [int(c) for c in k]
                for i in range(h):
                    if o[h+i] and not o[i]:
                        p = list(o)
                        sg = (-1)**sum(p[:h+i])
                        p[h+i] = 0
                        sg *= (-1)**sum(p[:i])
                        p[i] = 1
                        kk = tuple(p)
                        acc[kk] = acc.get(kk, 0)+sg*v
            sz = 0.5*r['sz']
            s2 = sum(abs(v)**2 for v in acc.values())+sz*(sz+1)
            S = 0.5*r['ssq']
            if abs(s2-S*(S+1)) > 1e-8:
                bad.append(('S^2', b, s2, S))
    mon.true('listing-content', not bad, lambda: '%s %r' % (tag, bad[:4]))
    mon.ev('listing')


def run_case(case, mon):
    rng = gen.rng_of('p20', case['seed'], case['kind'] == 'manybody')
    if case['kind'] == 'manybody':
        return manybody(rng, mon)
    w = work.draw(rng, case['kind'])
    base = work.base_of(w.kt)
    s = w.build()
    w.diag(s)
    how = None
    r = rng.random()
    if w.spec.n > 1 and r < 0.35 and not w.sym:
        win = work.states_window(rng, np.array(s.Ea))
        if win is not None:
            how = 'remove_states'
            s.remove_states(win)
    elif w.spec.n > 1 and r < 0.5 and base in ('Lindblad', 'Redfield', '1vN') and not w.sym:
        E = np.array(s.Ea)
        how = 'remove_coherences'
        s.remove_coherences(float(rng.choice([0.0, 0.3*np.ptp(E), 1.1*np.ptp(E)])))
    elif w.spec.n > 1 and r < 0.65 and s.si.indexing != 'ssq' and base != '2vN' and not w.sym:
        dim = 2**w.spec.n
        drop = [int(x) for x in rng.choice(dim, size=int(rng.integers(1, max(2, dim//2))), replace=False)]
        how = 'remove_fock'
        if dim-len(drop) >= 2:
            with sysutil.quiet():
                s.remove_fock_states(drop)
    if not w.kt.startswith('py'):
        s.make_kern_copy = True
    w.solve(s)
    if sysutil.kern_gap(s) < (1e-6 if base == '2vN' else 1e-9):
        raise Inconclusive('stationary state not unique')
    if not s.success:
        raise Inconclusive('solver failed')
    if not np.all(np.isfinite(np.array(s.phi0))) or np.max(np.abs(np.array(s.phi0))) > 1e6:
        raise Inconclusive('stationary state not unique')
    if how:
        mon.ev('removed')
    si = s.si
    q = considered(si)
    tag = '%s %s' % (how, si.indexing)
    before = sysutil.obs(s)
    rho = check_elements(s, w, q, mon, tag)
    amp = check_amplitudes(s, w, q, mon, tag)
    # against the independent solution
    if base in sysutil.FIRST and how in (None, 'remove_fock') and not w.elph and w.itype != 0:
        model = sysutil.model_of(s, w.spec, w.itype)
        ref, cur, ecur, L, gap = sysutil.reference(model, w.kt)
        if gap > 1e-7:
            tol = (1e-10+1e-12/gap)*max(1.0, np.max(np.abs(ref)))
            mon.close('phi0-ref', rho, ref, rtol=0, atol=tol)
            if amp is not None:
                want = model.amplitudes(ref, redfield=(base == 'Redfield'))
                want = want+want.conj().transpose(0, 2, 1)
                mon.close('phi1-ref', amp, want, rtol=0, atol=tol*max(1e-300, np.max(np.abs(want))*10+np.max(np.abs(np.array(s.Tba)))*20))
    # orders
    props = {'sz': 3, 'ssq': 4}.get(si.indexing, 2)
    N = int(si.nmany)
    for _ in range(2):
        srt = [int(x) for x in rng.permutation(props)[:int(rng.integers(1, props+1))]]
        keep = list(srt)
        s.sort_eigenstates(srt)
        mon.ev('sorted')
        mon.true('srt-unchanged', srt == keep, lambda: '%r became %r' % (keep, srt))
        order = [int(x) for x in si.states_order]
        mon.true('permutation', sorted(order) == list(range(N)), lambda: '%r' % order)
        ext = table(s)
        rows = [tuple(ext[k][b] for k in keep) for b in order] if sorted(order) == list(range(N)) else []
        mon.true('sorted-order', all(x <= y for x, y in zip(rows, rows[1:])), lambda: '%r %r' % (keep, rows))
        rho2 = check_elements(s, w, q, mon, tag+' sorted')
        mon.true('relabelled', bool(np.all(rho2 == rho)), lambda: '%r' % keep)
        amp2 = check_amplitudes(s, w, q, mon, tag+' sorted')
        if amp is not None:
            mon.true('relabelled', bool(np.all(amp2 == amp)), lambda: '%r' % keep)
    # any other order of the states
    si.states_order = [int(x) for x in (rng.permutation(N) if rng.random() < 0.5 else np.arange(N)[::-1])]
    mon.ev('reordered')
    rho2 = check_elements(s, w, q, mon, tag+' reordered')
    mon.true('relabelled', bool(np.all(rho2 == rho)), 'any order')
    amp2 = check_amplitudes(s, w, q, mon, tag+' reordered')
    if amp is not None:
        mon.true('relabelled', bool(np.all(amp2 == amp)), 'any order')
    listing(s, rng, mon, tag)
    s.sort_eigenstates()
    mon.true('default-order', [int(x) for x in si.states_order] == list(range(N)), lambda: '%r' % list(si.states_order))
    listing(s, rng, mon, tag)
    after = sysutil.obs(s)
    mon.true('unchanged', all(np.array_equal(before[k], after[k], equal_nan=True) for k in before), tag)
    if base != '2vN':
        w.solve(s)
        again = sysutil.obs(s)
        mon.true('resolve', all(np.array_equal(before[k], again[k], equal_nan=True) for k in before),
                 lambda: '%s %s: %r' % (tag, w.name, {k: float(np.max(np.abs(before[k]-again[k]))) for k in before}))
    mon.key(*(w.key()+(how, w.kt)))


def table(s):
    """energy, charge, S_z, S^2 of every state."""
    si = s.si
    E = np.array(s.Ea, dtype=float)
    q = np.zeros(si.nmany)
    sz = np.zeros(si.nmany)
    ss = np.zeros(si.nmany)
    for b, qn in si.ind_qn.items():
        q[b] = qn[0]
        if si.indexing in ('sz', 'ssq'):
            sz[b] = qn[1]
        if si.indexing == 'ssq':
            ss[b] = qn[2]
    return [E, q, sz, ss]


def listing(s, rng, mon, tag):
    d = tempfile.mkdtemp(prefix='qmon-p20-')
    try:
        f = os.path.join(d, 'states.txt')
        eps = float(rng.choice([0.0, 0.0, 1e-6, 0.3]))
        sep = str(rng.choice(['', '----\n', '\n']))
        with open(f, 'w') as h:
            h.write('Sorted label: 99\nold content\n')
        mode = 'w' if rng.random() < 0.6 else 'a'
        s.print_all_states(f, eps=eps, separator=sep, mode=mode)
        text = open(f).read()
        recs = parse(text)
        if mode == 'a':
            mon.true('append', recs and recs[0]['sorted'] == 99, tag)
            recs = recs[1:]
        N = int(s.si.nmany)
        if sep == '----\n':
            mon.true('separator', text.count('----\n') == N, lambda: '%s %d' % (tag, text.count('----\n')))
        check_listing(s, recs, eps, mon, tag)
        # one state on the screen
        import contextlib
        import io
        b = int(rng.integers(N))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            s.print_state(b, eps=eps)
        one = parse(buf.getvalue())
        mon.true('print-state', len(one) == 1 and one[0]['sorted'] == b
                 and one[0]['coef'] == recs[b]['coef'] and one[0]['original'] == recs[b]['original'], lambda: '%s %r' % (tag, one))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            s.print_state(b, eps=eps, prntq=False, filename=f)
        recs2 = parse(open(f).read())
        mon.true('print-state', buf.getvalue() == '' and len(recs2) == len(recs)+1+(mode == 'a'), lambda: '%s quiet' % tag)
    finally:
        shutil.rmtree(d)


def manybody(rng, mon):
    """Many-body input: accessors in terms of the input labels."""
    import qmeq
    base = str(rng.choice(['Pauli', 'Lindblad', 'Redfield', '1vN']))
    kt = ('py' if rng.random() < 0.4 else '')+base
    itype = int(rng.choice([1, 2, 3]))
    spec = gen.gen_sys(rng, n=int(rng.integers(1, 4)), spinful=False)
    src = spec.build(kerntype='Pauli', itype=itype, indexing='Lin')
    with sysutil.quiet():
        src.solve(masterq=False)
    N = src.si.nmany
    q = sysutil.charges(src)
    perm = rng.permutation(N) if rng.random() < 0.7 else np.argsort(q, kind='stable')
    E = np.array(src.Ea, dtype=float)[perm]
    T = np.array(src.Tba, dtype=complex)[:, perm][:, :, perm]
    qs = q[perm]
    ex = spec.explicit()
    s = qmeq.BuilderManyBody(Ea=E, Na=[int(x) for x in qs], Tba=T, mulst=list(ex.mu_arr()), tlst=list(ex.T_arr()),
                             dband=ex.D_arr(), kerntype=kt, itype=itype)
    with sysutil.quiet(), np.errstate(all='ignore'):
        s.solve(qdq=False)
    from qmon import ref as refm
    model = refm.Model(E, qs, T, ex.mu_arr(), ex.T_arr(), ex.D_arr(), itype)
    rho, cur, ecur, L, gap = sysutil.reference(model, kt)
    if not gap > 1e-7:
        raise Inconclusive('stationary state not unique')
    got = np.array([[s.get_phi0(i, j) for j in range(N)] for i in range(N)], dtype=complex)
    tol = (1e-10+1e-12/gap)*max(1.0, np.max(np.abs(rho)))
    gam = 2*np.pi*np.max(np.abs(T))**2
    mon.close('phi0-ref', got, rho, rtol=0, atol=tol, what='manybody '+kt)
    mon.close('manybody-current', np.array(s.current), cur, rtol=0, atol=tol*gam, what=kt)
    if base in ('Redfield', '1vN'):
        want = model.amplitudes(rho, redfield=(base == 'Redfield'))
        want = want+want.conj().transpose(0, 2, 1)
        amp = np.array([[[s.get_phi1(l, i, j) for j in range(N)] for i in range(N)] for l in range(len(T))])
        mon.close('phi1-ref', amp, want, rtol=0, atol=tol*(np.max(np.abs(want))*10+np.max(np.abs(T))*20), what='manybody '+kt)
    else:
        mon.true('phi1-none', s.get_phi1(0, 0, 0) is None, kt)
    # sorted by properties of the states
    amp0 = [[[s.get_phi1(l, i, j) for j in range(N)] for i in range(N)] for l in range(len(T))]
    srt = [int(x) for x in rng.permutation(2)[:int(rng.integers(1, 3))]]
    s.sort_eigenstates(srt)
    order = [int(x) for x in s.si.states_order]
    if mon.true('permutation', sorted(order) == list(range(N)), lambda: 'manybody %r' % order):
        rows = [tuple((E[b], qs[b])[k] for k in srt) for b in order]
        mon.true('sorted-order', all(x <= y for x, y in zip(rows, rows[1:])), lambda: 'manybody %r %r' % (srt, rows))
        again = np.array([[s.get_phi0(i, j) for j in range(N)] for i in range(N)], dtype=complex)
        mon.true('relabelled', bool(np.all(again == got[np.ix_(order, order)])), lambda: 'manybody %r' % srt)
        if base in ('Redfield', '1vN'):
            amp1 = np.array([[[s.get_phi1(l, i, j) for j in range(N)] for i in range(N)] for l in range(len(T))])
            mon.true('relabelled', bool(np.all(amp1 == np.array(amp0)[:, order][:, :, order])), lambda: 'manybody phi1 %r' % srt)
        mon.ev('manybody-sorted')
    mon.ev('manybody')
    mon.key('manybody', kt, itype, spec.n, spec.nl)
