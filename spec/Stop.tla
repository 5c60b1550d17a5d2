-------------------------------- MODULE Stop --------------------------------
(* The stopping rule of the iterative methods on a sequence of positive targets.                                    *)
EXTENDS Layout, Units
Small(cur, prev, abstol, reltol) ==
    /\ QLe(cur, prev)
    /\ \/ QLt(QSub(prev, cur), abstol)
       \/ QLt(QSub(prev, cur), QMul(reltol, prev))
\* stops after the last target
StopsAt(ts, abstol, reltol, limit) ==
    LET k == Len(ts) IN k >= limit \/ (k > 1 /\ Small(ts[k], ts[k - 1], abstol, reltol))
\* no comparison of the rule is a tie: rounding cannot decide it
NoTie(cur, prev, abstol, reltol) ==
    LET d == QSub(prev, cur) IN d # Q0 /\ d # abstol /\ d # QMul(reltol, prev)
=============================================================================
