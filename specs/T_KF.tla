-------------------------------- MODULE T_KF --------------------------------
(* Executions of KalmanFilter and of the procedural functions against KF.   *)
EXTENDS KF, IOUtils
VARIABLES tr, l, st

Rel == Frac(1, 100000000)
Abs == Frac(1, 1000000000)
\* ll and lik are checked by LikCheck, not by Diff
Bare(s) == [f \in DOMAIN s \ {"lik", "ll", "mah"} |-> s[f]]
LikCheck(p, o) ==        \* p: what the specification predicts
  (IF ~Close(p.ll, o.ll, Rel, Frac(1, 10000000)) THEN {"log_likelihood"} ELSE {}) \cup
  (IF ~LikOK(p.ll, o.lik) THEN {"likelihood"} ELSE {}) \cup
  (IF ~Close(p.mah, o.mah, Frac(1, 10000000), Frac(1, 10000000)) THEN {"mahalanobis"} ELSE {})
All(p, e) == Diff(Bare(p), e.o, Rel, Abs) \cup
             (IF ~IsNone(e.o.ll) /\ ~IsNone(e.a.z) THEN LikCheck(p, e.o) ELSE {})
Ret(r, e) == IF Close(r, e.o.ret, Rel, Abs) THEN {} ELSE {"return value"}
\* the likelihoods of the last measurement, where both sides know them
KeepLik(s, e) == IF IsNone(s.ll) \/ IsNone(e.o.ll) THEN {} ELSE LikCheck(s, e.o)
Same(s, e) == Diff(Bare(s), e.o, 0, 0) \cup KeepLik(s, e)

\* after update_sequential only the rows it was given change in y, K and z (10^6: nothing measured); S is not theirs
SeqFail(s, e) ==
  LET p == SeqUpdate(s, e.a)
      q == [x |-> p.x, P |-> p.P, xo |-> p.x, Po |-> p.P,
            z |-> PutRows(IF Close(s.z, "ALLNONE", 0, 0) THEN [i \in 1..Rows(s.H) |-> <<1000000>>] ELSE s.z, e.a.z, e.a.start),
            y |-> PutRows(s.y, p.y, e.a.start), K |-> PutCols(s.K, p.K, e.a.start),
            F |-> s.F, Q |-> s.Q, H |-> s.H, R |-> s.R, B |-> s.B, alpha |-> s.alpha, M |-> s.M, xp |-> s.xp, Pp |-> s.Pp]
  IN  Diff(q, e.o, Rel, Abs)

ProcPredict(a) == LET s == [x |-> a.x, P |-> a.P, F |-> a.F, Q |-> a.Q, B |-> a.B, alpha |-> a.alpha]
                      b == [u |-> a.u, B |-> "NONE", F |-> "NONE", Q |-> "NONE"]
                  IN  <<PredX(s, b), PredP(s, b)>>
Blank(x, P, H, R) == [x |-> x, P |-> P, H |-> H, R |-> R, xo |-> 0, Po |-> 0, y |-> 0, S |-> 0, SI |-> 0,
                      K |-> 0, z |-> 0, ll |-> 0, mah |-> 0]
ProcUpdate(a) == Update(Blank(a.x, a.P, a.H, a.R), [z |-> a.z, R |-> "NONE", H |-> "NONE"])

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "new" -> {}
    [] e.ev = "set" -> Diff(Bare([f \in DOMAIN s |-> IF f \in DOMAIN a THEN a[f] ELSE s[f]]), e.o, 0, 0)
    [] e.ev = "predict"  -> Diff(Bare(Predict(s, a)), e.o, Rel, Abs) \cup KeepLik(s, e)
    [] e.ev = "update"   -> All(Update(s, a), e)
    [] e.ev = "predict_steadystate" -> Diff(Bare(PredictSS(s, a)), e.o, Rel, Abs)
    [] e.ev = "update_steadystate"  -> Diff(Bare(UpdateSS(s, a)), e.o, Rel, Abs)
    [] e.ev = "update_correlated"   -> All(UpdateCorr(s, a), e)
    [] e.ev = "update_sequential"   -> SeqFail(s, e)
    [] e.ev = "get_prediction" -> Same(s, e) \cup LET p == Predict(s, a) IN Ret(<<p.x, p.P>>, e)
    [] e.ev = "get_update" -> Same(s, e) \cup
         LET p == Update(s, [z |-> a.z, R |-> "NONE", H |-> "NONE"]) IN Ret(<<p.x, p.P>>, e)
    [] e.ev = "residual_of" -> Same(s, e) \cup Ret(a.z -- (s.H ** s.xp), e)
    [] e.ev = "measurement_of_state" -> Same(s, e) \cup Ret(s.H ** a.x, e)
    [] e.ev = "log_likelihood_of" -> Same(s, e) \cup
         Ret(IF IsNone(a.z) THEN LnFloatMin ELSE LogPdf(a.z -- (s.H ** s.x), s.S), e)
    [] e.ev = "batch" -> LET b == BatchOut(s, a) IN
         Diff(Bare(b.s), e.o, Rel, Abs) \cup Diff(b.out, e.o.ret, Rel, Abs) \cup
         (IF e.o.rs = a.rs THEN {} ELSE {"shape"}) \cup
         (IF Has(e.o, "saved") /\ Len(e.o.saved) # Len(a.zs) THEN {"saver"} ELSE {}) \cup
         (IF Has(e.o, "saved") /\ e.o.saved # <<>> /\ ~Close(IF a.first THEN b.out.mp ELSE b.out.m, e.o.saved, Rel, Abs)
          THEN {"saver"} ELSE {})
    [] e.ev = "rts" -> (IF IsNone(s) THEN {} ELSE Same(s, e)) \cup
         Diff(RtsOut(a.X, a.P, a.Fs, a.Qs), e.o.ret, Frac(1, 10000000), Frac(1, 10000000))
    \* ---- the functions on bare arrays
    [] e.ev = "f.predict" -> Ret(ProcPredict(a), e)
    [] e.ev = "f.predict_steadystate" -> Ret(ProcPredict(a)[1], e)
    [] e.ev = "f.update" -> LET p == ProcUpdate(a) IN
         IF IsNone(a.z) THEN Ret(<<a.x, a.P>>, e) \cup (IF a.all /\ e.o.rest # <<"NONE", "NONE", "NONE", "NONE">> THEN {"return value"} ELSE {})
         ELSE Ret(<<p.x, p.P>>, e) \cup
              (IF a.all THEN Diff([y |-> p.y, K |-> p.K, S |-> p.S, ll |-> p.ll], e.o.rest, Rel, Frac(1, 10000000)) ELSE {})
    [] e.ev = "f.update_steadystate" ->
         Ret(IF IsNone(a.z) THEN a.x ELSE a.x ++ (a.K ** (a.z -- (a.H ** a.x))), e)
    [] e.ev = "f.batch" ->
         LET s0 == [x |-> a.x, P |-> a.P, alpha |-> 1, B |-> "NONE", xp |-> 0, Pp |-> 0] @@ Blank(a.x, a.P, a.Hs[1], 0)
         IN  Diff(BatchOut(s0, a).out, e.o.ret, Rel, Abs) \cup
             (IF Has(a, "saver") /\ e.o.saves # Len(a.zs) THEN {"saver"} ELSE {})
    \* ---- arguments the caller still owns
    \* ---- the functions, fed like the filter, stay with it
    [] e.ev = "copied" -> Same(s, e)
    [] e.ev = "twin" -> Ret(<<s.x, s.P>>, e)
    [] e.ev = "owned" -> IF Close(a.before, e.o.after, 0, 0) THEN {} ELSE {"caller's array changed"}
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
\* the likelihoods known after an event: those of the last measurement, read or not
LikAfter(s, e) ==
  IF e.ev \in {"update", "update_correlated"}
  THEN IF IsNone(e.a.z) THEN [ll |-> "NONE", mah |-> "NONE"] ELSE
       LET p == IF e.ev = "update" THEN Update(s, e.a) ELSE UpdateCorr(s, e.a)
       IN  IF IsNone(e.o.ll) THEN [ll |-> p.ll, mah |-> p.mah] ELSE [ll |-> e.o.ll, mah |-> e.o.mah]
  ELSE IF e.ev \in {"set", "copied", "predict", "get_prediction", "get_update", "residual_of", "measurement_of_state", "log_likelihood_of"}
  THEN [ll |-> s.ll, mah |-> s.mah]
  ELSE [ll |-> "NONE", mah |-> "NONE"]
After(s, e) ==
  IF ~Has(e.o, "x") THEN s
  ELSE LET o == [f \in DOMAIN e.o \ {"ret", "saved", "rest", "rs"} |-> e.o[f]]
       IN  IF Has(o, "ll") THEN LikAfter(s, e) @@ o ELSE o

TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
