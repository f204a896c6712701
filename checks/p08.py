"""P08: state tables and density matrix element numbering are consistent bijections."""
import math

import numpy as np

from qmon import gen, sysutil
from qmon.mon import Inconclusive

RULE = ('A case counts when the tables of one indexing object (possibly after removals) were read out completely and '
        'compared with an enumeration of occupation patterns, or when the element numbering of every pair of '
        'considered states was read out and decided.')
ASSUMPTIONS = ["in 'ssq' indexing whole spin multiplets are removed (that is what an energy criterion removes)"]
REQUIRED = {'quick': {'check:element-groups': 2000, 'check:fock': 1500, 'removed-states': 3000, 'removed-fock': 400,
                      'removed-coherences': 150, 'check:ssq-counts': 80},
            'thorough': {'check:element-groups': 30000}}
BUDGET = {'quick': 300, 'thorough': 5400}

IDX = ['Lin', 'charge', 'sz', 'ssq']
CLS = ['StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc']


def cases(tier, seed):
    out = []
    top = 9 if tier == 'quick' else 10
    for n in range(1, top+1):
        for ix in IDX:
            out.append(dict(kind='tables', n=n, indexing=ix, cls='StateIndexing', seed=seed))
    num = 12000 if tier == 'quick' else 60000
    for k in range(num):
        kind = ['tables', 'elements', 'elements', 'elements', 'fock-removal', 'elements-fock', 'builder', 'builder',
                'coherences', 'elements'][k % 10]
        out.append(dict(kind=kind, indexing=IDX[(k//10) % 4], cls=CLS[(k//40) % 4], seed=seed*100003+k))
    return out


def weyl(norb, charge, ssq):
    """Number of spin multiplets with 2S=ssq for charge electrons in norb orbitals."""
    a = (charge-ssq)//2
    b = charge-a
    if a < 0 or b > norb:
        return 0
    return (math.comb(norb, a)*math.comb(norb, b)
            - (math.comb(norb, a-1)*math.comb(norb, b+1) if a >= 1 else 0))


def check_tables(si, n, kept, mon):
    """kept: Lin numbers of the occupation patterns that are still there."""
    ix = si.indexing
    nm = len(kept)
    mon.true('nmany', int(si.nmany) == nm and len(si.i) == nm, '%r %r' % (si.nmany, len(si.i)))
    mon.true('fock', sorted(int(x) for x in si.i) == sorted(kept), repr(si.i[:20]))
    bad = []
    for k in range(nm):
        st = list(si.get_state(k))
        lin = int(sum(int(o) << (n-1-p) for p, o in enumerate(st)))
        if len(st) != n or lin != si.i[k] or si.get_ind(st) != k:
            bad.append((k, st, lin, si.get_ind(st)))
        if ''.join(map(str, st)) != (si.get_state(k, strq=True) if n else si.get_state(k, strq=True)[-len(st):] if st else ''):
            bad.append((k, 'str', si.get_state(k, strq=True)))
        l2 = list(si.get_state(lin, linq=True))
        if l2 != st or si.get_ind(l2, linq=True) != lin:
            bad.append((k, 'lin', l2))
    mon.true('roundtrip', not bad, repr(bad[:4]))
    gone = [x for x in range(2**n) if x not in kept]
    if gone and ix != 'ssq':
        bad = []
        for lin in gone:
            st = [(lin >> (n-1-p)) & 1 for p in range(n)]
            if si.get_ind(st) is not None:
                bad.append((lin, si.get_ind(st)))
        mon.true('removed-index', not bad, repr(bad[:4]))
    q = [bin(int(si.i[k])).count('1') for k in range(nm)]
    ch = [list(x) for x in si.chargelst[:si.ncharge]]
    mon.true('ncharge', si.ncharge == n+1, repr(si.ncharge))
    mon.true('charge-partition', sorted(sum(ch, [])) == list(range(nm)), repr(ch)[:300])
    mon.true('charge-value', all(q[b] == c for c in range(len(ch)) for b in ch[c]), repr(ch)[:300])
    if ix != 'Lin' or gone:
        mon.true('charge-contiguous', sum(ch, []) == list(range(nm)), repr(ch)[:300])
    mon.true('get-lst-charge', all(list(si.get_lst(charge=c)) == ch[c] for c in range(n+1)), '')
    h = n//2
    if ix in ('sz', 'ssq'):
        flat = []
        ok = True
        for c in range(n+1):
            szm = min(c, n-c)
            rng = list(range(-szm, szm+1, 2))
            ok = ok and len(si.szlst[c]) == len(rng)
            for k, m in enumerate(rng):
                grp = list(si.szlst[c][k])
                flat += grp
                for b in grp:
                    st = si.get_state(b)
                    ok = ok and sum(st) == c and sum(st[:h])-sum(st[h:]) == m
                ok = ok and list(si.get_lst(charge=c, sz=m)) == grp
        mon.true('sz-partition', ok and flat == list(range(nm)), repr(si.szlst)[:300])
    if ix == 'ssq':
        flat = []
        ok = True
        counts = True
        for c in range(n+1):
            szm = min(c, n-c)
            for k, m in enumerate(range(-szm, szm+1, 2)):
                allg = []
                for j, s in enumerate(range(abs(m), szm+1, 2)):
                    grp = list(si.ssqlst[c][k][j])
                    allg += grp
                    counts = counts and len(grp) == weyl(h, c, s)
                    ok = ok and list(si.get_lst(charge=c, sz=m, ssq=s)) == grp
                ok = ok and sorted(allg) == sorted(si.szlst[c][k]) and len(si.ssqlst[c][k]) == len(range(abs(m), szm+1, 2))
                flat += allg
        mon.true('ssq-partition', ok and sorted(flat) == list(range(nm)), repr(si.ssqlst)[:300])
        mon.true('ssq-counts', counts, repr(si.ssqlst)[:300])
    # quantum numbers
    ok = len(si.qn_ind) == nm and len(si.ind_qn) == nm
    for k in range(nm):
        t = si.ind_qn.get(k)
        ok = ok and t is not None and si.qn_ind.get(t) == k and t[0] == q[k]
        if ok and ix in ('sz', 'ssq'):
            st = si.get_state(k)
            ok = t[1] == sum(st[:h])-sum(st[h:])
    mon.true('quantum-numbers', ok, repr(si.ind_qn)[:300])
    mon.ev('states', nm)


def qn_key(si, b):
    ix = si.indexing
    t = si.ind_qn[b]
    if ix == 'sz':
        return (t[0], t[1])
    if ix == 'ssq':
        return (t[0], t[1], t[2])
    return (t[0],)


def expected_group(si, b, bp):
    """Label of the matrix element up to the symmetry of the indexing (same label = same element)."""
    if si.indexing == 'ssq':
        tb, tp = si.ind_qn[b], si.ind_qn[bp]
        return (tb[0], tb[2], tb[3], tp[3])
    return (b, bp)


def check_elements(si, kept, mon, gone=()):
    """kept[c]: the considered states with charge c; gone: pairs excluded on purpose (coherences)."""
    cls = type(si).__name__
    pauli = cls == 'StateIndexingPauli'
    dmc = cls == 'StateIndexingDMc'
    mon.true('statesdm', [list(x) for x in si.statesdm[:si.ncharge]] == [list(x) for x in kept], repr(si.statesdm)[:300])
    want0 = sum(len(x) for x in kept) if pauli else sum(len(x)**2 for x in kept)
    raw = {}
    groups = {}
    ok = True
    why = []
    conj = {}
    for c, st in enumerate(kept):
        for b in st:
            for bp in (st if not pauli else [b]):
                raw.setdefault(int(si.get_ind_dm0(b, bp, c, maptype=0)), []).append((b, bp))
                ind = int(si.get_ind_dm0(b, bp, c))
                inc = qn_key(si, b) == qn_key(si, bp) and (b, bp) not in gone
                if inc != (ind != -1):
                    ok = False
                    why.append(('included', b, bp, ind))
                if ind != -1:
                    groups.setdefault(ind, []).append((b, bp, c))
    mon.true('raw-bijection', sorted(raw) == list(range(want0)) and all(len(v) == 1 for v in raw.values()),
             '%d %r' % (want0, sorted(raw)[:20]))
    mon.true('inclusion', ok, repr(why[:4]))
    n0 = int(si.npauli if pauli else si.ndm0)
    mon.true('slots', sorted(groups) == list(range(n0)), 'ndm0=%d used=%r' % (n0, sorted(groups)[:30]))
    bad = []
    npauli = int(si.npauli)
    seen = {}
    for ind, els in groups.items():
        labels = set()
        reps = 0
        for b, bp, c in els:
            g = expected_group(si, b, bp)
            diag = b == bp
            if diag != (ind < npauli):
                bad.append(('diagonal slot', ind, b, bp))
            if not diag and not dmc:
                # one slot holds an element together with its conjugate; the orientation tells them apart
                isel = bool(si.get_ind_dm0(b, bp, c, maptype=3))
                if not isel:
                    g = expected_group(si, bp, b)
            elif diag and not dmc and not pauli:
                if not si.get_ind_dm0(b, bp, c, maptype=3):
                    bad.append(('conj of diagonal', ind, b))
            labels.add(g)
            reps += bool(si.get_ind_dm0(b, bp, c, maptype=2))
        if len(labels) != 1:
            bad.append(('shared slot', ind, sorted(labels)[:3]))
        for g in labels:
            if g in seen:
                bad.append(('element in two slots', g, ind, seen[g]))
            seen[g] = ind
            if not dmc and not pauli:
                # the conjugate must not be found elsewhere
                pass
        if reps != 1:
            bad.append(('representatives', ind, reps))
        if not dmc and not pauli and els[0][0] != els[0][1]:
            s = {(b, bp) for b, bp, c in els}
            if s != {(bp, b) for b, bp in s}:
                bad.append(('pair incomplete', ind, els[:4]))
            nsel = sum(bool(si.get_ind_dm0(b, bp, c, maptype=3)) for b, bp, c in els)
            if 2*nsel != len(els):
                bad.append(('orientation', ind, els[:4]))
    mon.true('element-groups', not bad, repr(bad[:4]))
    if not pauli:
        mon.true('ndm0r', int(si.ndm0r) == npauli+2*(n0-npauli), '%r' % si.ndm0r)
        mon.true('npauli', npauli == sum(1 for e in groups.values() if e[0][0] == e[0][1]), '%r' % npauli)
        if not gone:
            bad = [k for k, v in si.inddm0.items() if (v[0], v[1]) not in {(b, bp) for b, bp, c in groups.get(k, [])}]
            mon.true('inddm0', not bad and sorted(si.inddm0) == list(range(n0)), repr(bad[:4]))
        ok1 = []
        for c in range(si.ncharge-1):
            for x in kept[c+1]:
                for b in kept[c]:
                    ok1.append(int(si.get_ind_dm1(x, b, c)))
        mon.true('first-order-bijection', sorted(ok1) == list(range(int(si.ndm1))), '%r %r' % (si.ndm1, sorted(ok1)[:20]))
    mon.ev('elements', sum(len(v) for v in groups.values()))


def run_case(case, mon):
    import qmeq
    import qmeq.indexing as I
    rng = gen.rng_of('p08', case['seed'], case['kind'], case['indexing'], case['cls'])
    kind, ix = case['kind'], case['indexing']
    cls = case['cls']
    if kind in ('elements', 'elements-fock', 'coherences') and cls == 'StateIndexing':
        cls = 'StateIndexingDM'
    n = case.get('n')
    if n is None:
        n = int(rng.integers(1, 6))
    if ix in ('sz', 'ssq') and n % 2:
        n += 1
        if n > 8 and 'n' in case:
            raise Inconclusive('odd')
    sym = 'spin' if (rng.random() < 0.3 and n % 2 == 0 and ix != 'Lin') else None
    mon.key(kind, ix, cls, n, sym)
    mon.ctx = '%s %s %s n=%d' % (kind, ix, cls, n)
    if kind == 'tables':
        si = getattr(I, cls)(n, ix, sym)
        check_tables(si, n, list(range(2**n)), mon)
        return
    if kind in ('elements',):
        si = getattr(I, cls)(n, ix, sym)
        ch = [list(x) for x in si.chargelst[:n+1]]
        check_elements(si, ch, mon)
        for _ in range(int(rng.integers(1, 4))):
            p = rng.choice([0.2, 0.6, 0.9, 1.0])
            if ix == 'ssq':
                keepm = {}
                kept = []
                for c in range(n+1):
                    row = []
                    for b in ch[c]:
                        t = si.ind_qn[b]
                        m = (t[0], t[2], t[3])
                        if m not in keepm:
                            keepm[m] = rng.random() < p
                        if keepm[m]:
                            row.append(b)
                    kept.append(row)
            else:
                kept = [[b for b in ch[c] if rng.random() < p] for c in range(n+1)]
            si.states_changed = False
            si.set_statesdm([list(x) for x in kept])
            mon.true('states-changed', bool(si.states_changed), 'flag not set')
            mon.ev('removed-states')
            check_elements(si, kept, mon)
        si.set_statesdm([list(x) for x in ch])
        check_elements(si, ch, mon)
        return
    if kind in ('fock-removal', 'elements-fock'):
        if ix == 'ssq':
            ix = 'charge'
        si = getattr(I, cls)(n, ix, sym)
        gone = set()
        for _ in range(int(rng.integers(1, 4))):
            new = [int(x) for x in rng.choice(2**n, size=int(rng.integers(1, max(2, 2**n//3+1))), replace=False)]
            gone |= set(new)
            if len(gone) >= 2**n:
                break
            si.states_changed = False
            si.remove_fock_states(new)
            mon.true('states-changed', bool(si.states_changed), 'flag not set')
            mon.ev('removed-fock')
            check_tables(si, n, [x for x in range(2**n) if x not in gone], mon)
            if cls != 'StateIndexing':
                check_elements(si, [list(x) for x in si.chargelst[:n+1]], mon)
        return
    # through the builders
    kt = ('Pauli', 'Lindblad', '1vN', 'Redfield', '2vN', 'RTD')[int(rng.integers(6))]
    spinful = ix in ('sz', 'ssq')
    if kt in ('2vN', 'RTD'):
        ix = 'charge' if kt == 'RTD' else ('Lin', 'charge')[int(rng.integers(2))]
        spinful = False
    if kind == 'coherences' and kt == '2vN':
        kt = '1vN'
    if n > 4:
        n = 4
    spec = gen.gen_sys(rng, n=n, spinful=spinful)
    use_elph = kt in ('Pauli', 'Lindblad', '1vN', 'Redfield') and rng.random() < 0.3
    kw = dict(kerntype=kt, itype=2 if kt != 'RTD' else 1, indexing=ix)
    if use_elph:
        gen.gen_elph(rng, spec)
        s = sysutil.build_elph(spec, itype_ph=2, **kw)
    else:
        s = spec.build(kpnt=16, **kw)
    with sysutil.quiet():
        s.solve(masterq=False, restartq=True)
    E = np.array(s.Ea)
    full = [list(x) for x in s.si.chargelst[:s.si.ncharge]]
    if kind == 'builder':
        sis = [s.si] + ([s.si_elph] if use_elph else [])
        for si in sis:
            check_elements(si, full, mon)
        e = np.sort(E-E.min())
        gaps = np.diff(e)
        good = [i for i in range(len(gaps)) if gaps[i] > 1e-7]
        if not good:
            raise Inconclusive('all states degenerate')
        i = good[int(rng.integers(len(good)))]
        cut = 0.5*(e[i]+e[i+1])
        s.remove_states(cut)
        kept = [[b for b in st if E[b]-E.min() < cut] for st in full]
        for si in sis:
            check_elements(si, kept, mon)
        mon.ev('removed-states')
        s.use_all_states()
        for si in sis:
            check_elements(si, full, mon)
        # removal counts from all states, also after an earlier removal
        s.remove_states(e[good[0]]+0.5*gaps[good[0]])
        s.remove_states(cut)
        for si in sis:
            check_elements(si, kept, mon)
    else:
        si = s.si
        diffs = np.unique(np.round([abs(E[b]-E[bp]) for st in full for b in st for bp in st
                                    if b != bp and si.get_ind_dm0(b, bp, len(full)-1 if False else int(sysutil.charges(s)[b])) != -1], 9))
        if len(diffs) == 0:
            raise Inconclusive('no coherences')
        cuts = sorted(set([-0.0] + [float(x) for x in rng.choice(diffs, 1)] + [float(diffs[-1])]), reverse=True)
        for d in cuts:
            d = d+1e-7
            s.remove_coherences(d)
            gone = {(b, bp) for st in full for b in st for bp in st if abs(E[b]-E[bp]) > d}
            check_elements(si, full, mon, gone=gone)
            mon.ev('removed-coherences')
