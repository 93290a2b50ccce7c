#!/usr/bin/env python3
"""Negative controls: mistakes written into the specification, which its laws must refute, and models of
programs that lack a discipline (shared defaults, shallow copies, arrays updated in place).

  tools/selftest.py [words...]     only those whose line contains all the words"""
import os, re, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import tlc

# configuration of the module that must complain, module with the mistake, old, new
X = [
    ('MC_IN_shared', None, None, None), ('MC_CP_shallow', None, None, None), ('MC_OWN_inplace', None, None, None),
    # KF
    ('MC_KF_C01', 'KF', '++ Cov(Or(a.Q, s.Q), Rows(s.x))', '++ s.Q'),
    ('MC_KF_C01', 'KF', 'Sandwich(Or(a.F, s.F), s.P)', 'Sandwich(s.F, s.P)'),
    ('MC_KF_C01', 'KF', 'ELSE Fx ++ (B ** a.u)', 'ELSE Fx'),
    ('MC_KF_C02', 'KF', 'P  == Sandwich(IKH, s.P) ++ Sandwich(K, R)', 'P  == Sandwich(IKH, s.P)'),
    ('MC_KF_C02', 'KF', 'x  == s.x ++ (K ** y)\n      IKH', 'x  == s.x -- (K ** y)\n      IKH'),
    ('MC_KF_C02', 'KF', 'S  == (H ** PHT) ++ R\n      SI', 'S  == (H ** PHT) ++ s.R\n      SI'),
    ('MC_KF_C03', 'KF', 'Missing(s) == [s EXCEPT !.xo', 'Missing(s) == [s EXCEPT !.P = MScale(2, @), !.xo'),
    ('MC_KF_C03', 'KF', 'Missing(s) == [s EXCEPT !.xo', 'Missing(s) == [s EXCEPT !.x = MScale(2, @), !.xo'),
    ('MC_KF_C04', 'KF', 'SubMat(s.H, b + 1, b + n, 1, Cols(s.H))', 'SubMat(s.H, 1, n, 1, Cols(s.H))'),
    ('MC_KF_C04', 'KF', 'K == ((s.P ** MT(H)) ++ s.M) ** MInv(S)', 'K == (s.P ** MT(H)) ** MInv(S)'),
    ('MC_KF_C04', 'KF', '++ ((H ** s.M) ++ (MT(s.M) ** MT(H)))) ++ R', '++ (H ** s.M)) ++ R'),
    ('MC_KF_C06', 'KF', 'q == IF a.first THEN Predict(p, PArgs(a, i))', 'q == IF a.first THEN Predict(p, PArgs(a, 1))'),
    ('MC_KF_C08', 'KF', 'acc.P[1] -- Pp', 'acc.P[1]'),
    ('MC_KF_C08', 'KF', 'K  == (P[k] ** MT(F)) ** MInv(Pp)\n           x', 'K  == (P[k] ** F) ** MInv(Pp)\n           x'),
    ('MC_KF_C09', 'KF', 'RMul(Rows(S), RLn(RMul(2, RPi)))', 'RLn(RMul(2, RPi))'),
    ('MC_KF_C16', 'MC_KF', "Pi == inf.Pi ++ ((MT(H) ** Ri) ** H)", "Pi == inf.Pi ++ ((MT(H) ** a.R) ** H)"),
    ('MC_KF_C22', 'Banks', 'Pp == Sandwich(s.F, hist[k].P) ++ s.Q', 'Pp == Sandwich(s.F, hist[k + 1].P) ++ s.Q'),
    ('MC_KF_C37', 'KF', 'P  == Sandwich(IKH, s.P) ++ Sandwich(K, R)', 'P  == (IKH ** s.P) -- Sandwich(K, S)'),
    # Sigma
    ('MC_Sigma_C11', 'Sigma', 'RAdd(RSub(1, RSq(p.alpha)), p.beta)', 'RAdd(RSq(p.alpha), p.beta)'),
    ('MC_Sigma_C11', 'Sigma', 'RMul(la, d * (d + 1))', 'RMul(la, d * d)'),
    ('MC_Sigma_C11', 'Sigma', 'C == WCov(S, Wc, m, S, Wc, w, w, m)', 'C == WCov(S, Wc, Pt(S, 1), S, Wc, w, w, Pt(S, 1))'),
    ('MC_Sigma_C12', 'Sigma', 'P  == s.P -- Sandwich(K, u.C)', 'P  == s.P -- (K ** MT(C) ** MT(K))'),
    ('MC_Sigma_C12', 'Sigma', 'x  == IF s.kind = "CKF" THEN s.x ++ (K ** y) ELSE AddW(s.wx, s.x, K ** y)', 'x == s.x ++ (K ** y)'),
    ('MC_Sigma_C12', 'Sigma', 'y  == SubW(s.wz, a.z, u.m)', 'y  == a.z -- u.m'),
    ('MC_Sigma_C13', 'Sigma', 'RSqrt(CASE p.rule = "cubature" -> n []', 'RSqrt(CASE p.rule = "cubature" -> n + 1 []'),
    ('MC_Sigma_C10', 'Filters', 'QuadJac(A, c, G, x) == A ++', 'QuadJac(A, c, G, x) == MScale(2, A) ++'),
    ('MC_Sigma_C09', 'Sigma', '!.ll = LogPdf(y, u.C), !.mah', '!.ll = LogPdf(y, Or(a.R, s.R)), !.mah'),
    ('MC_Sigma_C08', 'Sigma', 'acc.P[1] -- u.C', 'acc.P[1] -- a.P[k + 1]'),
    # Banks
    ('MC_BK_C20', 'Banks', 'RMul(mu[i], M[i][j])', 'RMul(mu[i], M[j][i])'),
    ('MC_BK_C20', 'Banks', 'MScale(w[i], (y ** MT(y)) ++ fs[i].P)', 'MScale(w[i], fs[i].P)'),
    ('MC_BK_C20', 'Banks', 'w == [i \\in 1..Len(s.fs) |-> om[i][j]]', 'w == [i \\in 1..Len(s.fs) |-> om[j][i]]'),
    ('MC_BK_C20', 'Banks', 'Normalize([j \\in 1..Len(fs) |-> RMul(c[j], lik[j])])', 'Normalize([j \\in 1..Len(fs) |-> RMul(s.mu[j], lik[j])])'),
    ('MC_BK_C21', 'Banks', 'Normalize([j \\in 1..Len(fs) |-> RMul(s.p[j], lik[j])])', 'Normalize([j \\in 1..Len(fs) |-> lik[j]])'),
    ('MC_ENS_C15', 'Banks', 'MScale(Frac(1, Len(S) - 1), MT(', 'MScale(Frac(1, Len(S)), MT('),
    # Filters
    ('MC_LF_C18', 'Filters', 'MScale(RSq(s.alpha), Sandwich(s.F, s.P))', 'MScale(s.alpha, Sandwich(s.F, s.P))'),
    ('MC_LF_C19', 'Filters', '++ ((HV ** s.H) ** s.P))', '-- ((HV ** s.H) ** s.P))'),
    ('MC_LF_C19', 'Filters', 'MScale(s.gamma, s.Q ** s.P)', 'MScale(RNeg(s.gamma), s.Q ** s.P)'),
    # GH
    ('MC_GH_C23', 'GH', '[] j - i = 1 -> dt', '[] j - i = 1 -> RMul(2, dt)'),
    ('MC_GH_C24', 'GH', 'Drive(p, dt) == [i \\in 1..(p + 1) |-> <<RDiv(RPow(dt, p + 2 - i)', 'Drive(p, dt) == [i \\in 1..(p + 1) |-> <<RDiv(RPow(dt, p + 1 - i)'),
    ('MC_GH_C25', 'GH', 'Design(p, dt, n) == [i \\in 1..n |-> Basis(p, dt, i - n)]', 'Design(p, dt, n) == [i \\in 1..n |-> Basis(p, dt, i - 1)]'),
    ('MC_GH_C26', 'GH', 'FmH(p, b) == CASE p = 1 -> RSq(RSub(1, b))', 'FmH(p, b) == CASE p = 1 -> RSub(1, RSq(b))'),
    # Discrete
    ('MC_DB_C27', 'Discrete', 'Cell(s, i - (j - c), wrap, cval)', 'Cell(s, i + (j - c), wrap, cval)'),
    ('MC_DB_C27', 'Discrete', 'Cell(p, i - offset, wrap, cval)', 'Cell(p, i + offset, wrap, cval)'),
    ('MC_RS_C28', 'Discrete', 'RLt(pos[i], C[j]) THEN', 'RLt(pos[i], C[j + 1]) THEN'),
    # Gauss
    ('MC_ST_C29', 'Gauss', 'RDiv(RAdd(RMul(v1, m2), RMul(v2, m1)), RAdd(v1, v2))', 'RDiv(RAdd(RMul(v1, m1), RMul(v2, m2)), RAdd(v1, v2))'),
    ('MC_ST_C29', 'Gauss', 'GScale(m1, v1, m2, v2) == Pdf(m1, m2, RAdd(v1, v2))', 'GScale(m1, v1, m2, v2) == Pdf(m1, m2, RMul(v1, v2))'),
    ('MC_ST_C30', 'Gauss', 'RErf(RDiv(RSub(x, m), RSqrt(RMul(2, v))))', 'RErf(RDiv(RSub(x, m), RSqrt(v)))'),
    ('MC_ST_C31', 'Gauss', 'RMul(RSub(L, S), RMul(c, s))>>', 'RMul(RSub(S, L), RMul(c, s))>>'),
    ('MC_ST_C31', 'Gauss', 'RMul(Frac(3, 8), RDiv(x, RSqrt(q)))', 'RMul(Frac(3, 4), RDiv(x, RSqrt(q)))'),
    # Common
    ('MC_CM_C34', 'Common', "(F ** term) ++ (term ** MT(F))", "(F ** term) ++ (F ** term)"),
    ('MC_CM_C34', 'Common', "CASE dim = 2 -> <<RDiv(RSq(dt), 2), dt>>", "CASE dim = 2 -> <<RSq(dt), dt>>"),
    ('MC_CM_C34', 'Common', "A[((i - 1) \\div k) + 1][((j - 1) \\div k) + 1] ELSE 0]]", "A[((i - 1) \\div k) + 1][((j - 1) \\div k) + 1] ELSE 1]]"),
    ('MC_CM_C35', 'Common', 'RDiv(RPow(dt, j - i), Fac(j - i))', 'RPow(dt, j - i)'),
    ('MC_CM_C36', 'Common', 'RMul(2, k2)), RAdd(RMul(2, k3), k4)', 'k2), RAdd(k3, k4)'),
    ('MC_SV_C32', 'Common', 'IF k \\in K THEN Append(old, obj[k]) ELSE old', 'IF k \\in K THEN <<obj[k]>> \\o old ELSE old'),
]


def one(x):
    cfg, mod, old, new = x
    module = re.match(r'(MC_[A-Za-z]+)_', cfg).group(1)
    d = tempfile.mkdtemp(prefix='verif-self-')
    try:
        shutil.copytree(tlc.SPECS, d, dirs_exist_ok=True)
        if mod:
            p = os.path.join(d, mod + '.tla')
            t = open(p).read()
            if t.count(old) != 1:
                return x, 'the text to change is there %d times' % t.count(old)
            open(p, 'w').write(t.replace(old, new))
        r = tlc.run(module, cfg + '.cfg', workers=2, cwd=d, timeout=600)
        m = re.findall(r'Error: (?:Invariant|Action property|Temporal properties|Property)\s*(\S*)', r.out)
        if m:
            return x, 'refuted by %s' % m[0]
        return x, 'NOT REFUTED' if r.ok else 'BROKEN ' + r.out[-600:]
    except tlc.TLCError:
        return x, 'TIMEOUT'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    todo = [x for x in X if all(w in repr(x) for w in sys.argv[1:])]
    tlc.classes()
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for x, r in ex.map(one, todo):
            ok = r.startswith('refuted')
            bad += not ok
            print('%-14s %-8s %s   [%s]' % (x[0], x[1] or '', r, (x[3] or '').replace('\n', ' ')[:60]), flush=True)
    print('%d controls, %d not refuted' % (len(todo), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
