------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic for trace validation.  TLC has only 32-bit   *)
(* integers, so a real number observed in the implementation is carried as *)
(* a string ("0.1", "nan", "inf", "-inf") or as an integer, and the        *)
(* operators below are evaluated by the Java class java/Real64.java        *)
(* (plain arithmetic only; every property formula is written in TLA+).     *)
(* The right-hand sides below are placeholders replaced by TLC.            *)
(***************************************************************************)
LOCAL Z == "override"

FAdd(a, b) == Z
FSub(a, b) == Z
FMul(a, b) == Z
FDiv(a, b) == Z
FNeg(a) == Z
FAbs(a) == Z
FSqrt(a) == Z
FLn(a) == Z
FLog2(a) == Z
FExp(a) == Z
FSin(a) == Z
FCos(a) == Z
FPow(a, b) == Z
(* the standard normal distribution function *)
FPhi(a) == Z
FLt(a, b) == Z
FLe(a, b) == Z
FGt(a, b) == Z
FGe(a, b) == Z
FEq(a, b) == Z
FMin(a, b) == Z
FMax(a, b) == Z
FIsNaN(a) == Z
FIsFinite(a) == Z
FFloor(a) == Z
FTrunc(a) == Z
FRound(a) == Z
FCanon(a) == Z
(* |a-b| <= tol * max(1,|a|,|b|); nan ~ nan; FALSE on a non-number *)
FClose(a, b, tol) == Z
FCloseSeq(s, t, tol) == Z
FSum(s) == Z
FDot(s, t) == Z
FSqDist(s, t) == Z
(* 1-based indices in ascending order of value, stable *)
FArgSort(s) == Z
IsSeqV(v) == Z
IsIntV(v) == Z
IsBoolV(v) == Z
IsStrV(v) == Z
IsNumV(v) == Z
(* total structural equality: FALSE on values of different kinds *)
Eq(a, b) == Z
HasField(r, k) == Z
(* the value itself, evaluated at once: TLC keeps functions unevaluated and would evaluate them at every use *)
Force(v) == Z
(* a finite set of integers as an ascending sequence *)
Ascending(S) == Z
=============================================================================
