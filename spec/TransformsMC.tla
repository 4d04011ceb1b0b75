------------------------------ MODULE TransformsMC -------------------------------
(* Every short history of one-attribute rows through one transform.                                                     *)
EXTENDS Transforms, TLC
CONSTANTS Kind, How, Size, T
VARIABLES w, h, x, y
Tr == [kind |-> Kind, size |-> Size, miss |-> <<"9">>, how |-> How, new |-> 7, groups |-> <<<<0, 1>>, <<3, 4>>>>, fits |-> FALSE]
Rows == IF Kind = "onehot" THEN [1..6 -> 0..1] ELSE {<<v>> : v \in IF Kind = "clean" THEN {"0", "1", "3", "9", "nan"} ELSE {-2, 0, 1, 5}}
Init == w = State0(Tr) /\ h = <<>> /\ x = <<>> /\ y = <<>>
Next == /\ Len(h) < T
        /\ \E r \in Rows :
             \/ /\ x' = r /\ w' = After(Tr, w, r) /\ y' = One(Tr, w, w', r) /\ h' = Append(h, r)      \* transformed
             \/ /\ x' = <<>> /\ y' = <<>> /\ w' = After(Tr, w, r) /\ h' = Append(h, r)                \* learnt only
(* the window is the last rows, whatever was done with them *)
WindowOK == Windowed(Tr) => w = LastRows(h, Size)
(* what comes out is allowed; nothing missing is left; known values are not touched *)
Allowed == (x # <<>>) => LET w0 == IF Windowed(Tr) THEN LastRows(SubSeq(h, 1, Len(h) - 1), Size) ELSE w IN Fits(Tr, w0, w, x, y, FALSE)
CleanOK == (Kind = "clean" /\ x # <<>>) =>
    /\ ~FIsNaN(y[1])
    /\ ~Missing(Tr, x[1]) => FEq(x[1], y[1])
    /\ (How \in {"mean", "median", "mode"} /\ Missing(Tr, x[1])) => FEq(y[1], 7) \/ (FLe(0, y[1]) /\ FLe(y[1], 3))
(* scaling keeps the order of values put to the same window *)
OrderOK == (Kind \in {"std", "minmax"}) =>
    /\ \A a, b \in {-2, 0, 1, 5} : a < b => FLe(Standard(w, a, 1), Standard(w, b, 1)) /\ FLe(Position(w, a, 1), Position(w, b, 1))
    /\ (w # <<>>) => \A k \in 1..Len(w) : FLe(0, Position(w, w[k][1], 1)) /\ FLe(Position(w, w[k][1], 1), 1)
(* scaled by itself a window has mean 0 and deviation 1 (or 0) *)
StdOK == (Kind = "std" /\ w # <<>>) => LET z == [k \in 1..Len(w) |-> Standard(w, w[k][1], 1)] IN
         FClose(Mean(z), 0, "1e-09") /\ (FClose(Dev(z), 1, "1e-09") \/ FClose(Dev(z), 0, "1e-09"))
(* codes: as many columns as groups and attributes outside them; other attributes pass; different one-hot rows have different codes *)
CodeOK == (Kind = "onehot" /\ x # <<>>) => Len(y) = 4 /\ y[2] = x[3] /\ y[4] = x[6] /\ y[1] \in 0..2 /\ y[3] \in 0..2
                                         /\ (x[1] + x[2] = 1 => y[1] = IF x[1] = 1 THEN 0 ELSE 1)
=============================================================================
