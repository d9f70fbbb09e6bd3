"""Criteria of the analysis masks, triad by triad (oracle of C23 and C27)."""
import numpy as np


def reference(d):
    n = len(d['rad_ord'])
    stab = [all(bool(c) for c in d['checks'][i][-3:]) for i in range(n)]
    ae = [abs(float(d['linear_omega_diff_to_min_omega'][i])) <= .1 for i in range(n)]
    thr = [float(x) for x in d['thresh_surf_ppm']]
    val = [i for i in range(n) if thr[i] == thr[i]]
    ro = [tuple(int(x) for x in r) for r in d['rad_ord']]
    iso = [False] * n
    for i in val:
        p, d1, d2 = ro[i]
        own = sorted((thr[j], j) for j in val if ro[j][0] == p)
        low_p = own[0][0]
        low_d = [min(thr[j] for j in val if x in ro[j][1:]) for x in (d1, d2)]
        ok = all(abs(low_p - x) <= 1e-14 for x in low_d)
        if len(own) > 1:
            ok = ok and own[1][0] > float(d['surfs'][own[0][1]][0]) * 1e6
        iso[i] = ok
    return np.array(stab, bool), np.array(ae, bool), np.array(iso, bool)


def reference_threshold(d, minimum):
    bad = [not (float(t) >= minimum) for t in d['thresh_surf_ppm']]
    sets = [{int(r[c]) for r, b in zip(d['rad_ord'], bad) if b} for c in range(3)]
    return np.array([not any(int(r[c]) in sets[c] for c in range(3)) for r in d['rad_ord']], bool)
