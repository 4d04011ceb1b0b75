------------------------------ MODULE Concepts ------------------------------
(***************************************************************************)
(* The documented labelling functions of the synthetic generators, on      *)
(* feature vectors x (1-based), and the balancing / drift state machine.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

B(c) == IF c THEN 1 ELSE 0
InR(v, lo, hi) == FLe(lo, v) /\ FLe(v, hi)

(* SEA: x1 + x2 against theta_f *)
SeaTheta == <<8, 9, 7, "9.5">>
Sea(f, x) == B(~FLe(FAdd(x[1], x[2]), SeaTheta[f + 1]))

SineThreeQuarter(v) == FAdd("0.5", FMul("0.3", FSin(FMul(FMul("3.0", "3.141592653589793"), v))))
(* SINE1, reversed SINE1, SINE2, reversed SINE2 *)
Sine(f, x) ==
    CASE f = 0 -> B(~FGe(x[1], FSin(x[2])))
      [] f = 1 -> B(~FLt(x[1], FSin(x[2])))
      [] f = 2 -> B(~FGe(x[1], SineThreeQuarter(x[2])))
      [] f = 3 -> B(~FLt(x[1], SineThreeQuarter(x[2])))

(* MIXED: at least two of v, w, z *)
MixedTwo(x) ==
    LET v == FEq(x[1], 1)  w == FEq(x[2], 1)
        z == FLt(x[4], SineThreeQuarter(x[3])) IN
    (v /\ w) \/ (v /\ z) \/ (w /\ z)
Mixed(f, x) == IF f = 0 THEN B(~MixedTwo(x)) ELSE B(MixedTwo(x))

(* STAGGER: size 0..2 small/medium/large, colour 0..2 red/blue/green, shape 0..2 circle/square/triangle *)
Stagger(f, x) ==
    CASE f = 0 -> B(FEq(x[1], 0) /\ FEq(x[2], 0))
      [] f = 1 -> B(FEq(x[2], 2) \/ FEq(x[3], 0))
      [] f = 2 -> B(FEq(x[1], 1) \/ FEq(x[1], 2))

(* AGRAWAL: salary commission age elevel car zipcode hvalue hyears loan; group A = 0 *)
Agrawal(f, x) ==
    LET sal == x[1] com == x[2] age == x[3] el == x[4] hv == x[7] hy == x[8] loan == x[9]
        young == FLt(age, 40)  mid == ~young /\ FLt(age, 60)
        Pick(a, b, c) == IF young THEN a ELSE IF mid THEN b ELSE c
        El(S) == \E k \in S : FEq(el, k)
        tot == FAdd(sal, com)
        twothirds == FDiv(FMul("2.0", tot), "3.0")
        equity == IF FGe(hy, 20) THEN FDiv(FMul(hv, FSub(hy, 20)), "10.0") ELSE "0.0"
        A == CASE f = 0 -> young \/ ~mid
               [] f = 1 -> Pick(InR(sal, 50000, 100000), InR(sal, 75000, 125000), InR(sal, 25000, 75000))
               [] f = 2 -> Pick(El({0, 1}), El({1, 2, 3}), El({2, 3, 4}))
               [] f = 3 -> Pick(IF El({0, 1}) THEN InR(sal, 25000, 75000) ELSE InR(sal, 50000, 100000),
                                IF El({1, 2, 3}) THEN InR(sal, 50000, 100000) ELSE InR(sal, 75000, 125000),
                                IF El({2, 3, 4}) THEN InR(sal, 50000, 100000) ELSE InR(sal, 25000, 75000))
               [] f = 4 -> Pick(IF InR(sal, 50000, 100000) THEN InR(loan, 100000, 300000) ELSE InR(sal, 200000, 400000),
                                IF InR(sal, 75000, 125000) THEN FLe(200000, sal) /\ FLe(loan, 400000) ELSE InR(sal, 300000, 500000),
                                IF InR(sal, 25000, 75000) THEN InR(loan, 300000, 500000) ELSE InR(loan, 75000, 300000))
               (* 104: function 4 as listed in the paper; the code differs (known finding F02) *)
               [] f = 104 -> Pick(IF InR(sal, 50000, 100000) THEN InR(loan, 100000, 300000) ELSE InR(loan, 200000, 400000),
                                IF InR(sal, 75000, 125000) THEN InR(loan, 200000, 400000) ELSE InR(loan, 300000, 500000),
                                IF InR(sal, 25000, 75000) THEN InR(loan, 300000, 500000) ELSE InR(loan, 100000, 300000))
               [] f = 5 -> Pick(InR(tot, 50000, 100000), InR(tot, 75000, 125000), InR(tot, 25000, 75000))
               [] f = 6 -> FGt(FSub(FSub(twothirds, FDiv(loan, 5)), 20000), 1)
               [] f = 7 -> FGt(FSub(FSub(twothirds, FMul(5000, el)), 20000), 1)
               [] f = 8 -> FGt(FSub(FSub(FSub(twothirds, FMul(5000, el)), FDiv(loan, 5)), 10000), 1)
               [] f = 9 -> FGt(FSub(FAdd(FSub(twothirds, FMul(5000, el)), FDiv(equity, 5)), 10000), 1)
    IN B(~A)

(* LED: the seven segments of each digit *)
Led == << <<1,1,1,0,1,1,1>>, <<0,0,1,0,0,1,0>>, <<1,0,1,1,1,0,1>>, <<1,0,1,1,0,1,1>>, <<0,1,1,1,0,1,0>>,
          <<1,1,0,1,0,1,1>>, <<1,1,0,1,1,1,1>>, <<1,0,1,0,0,1,0>>, <<1,1,1,1,1,1,1>>, <<1,1,1,1,0,1,1>> >>

(* Waveform base functions and the pair combined by each class *)
WaveH == << <<0,1,2,3,4,5,6,5,4,3,2,1,0,0,0,0,0,0,0,0,0>>,
            <<0,0,0,0,0,0,0,0,0,1,2,3,4,5,6,5,4,3,2,1,0>>,
            <<0,0,0,0,0,1,2,3,4,5,6,5,4,3,2,1,0,0,0,0,0>> >>
WavePair == << <<1, 2>>, <<1, 3>>, <<2, 3>> >>

(* Hyperplane: w.x against half the total weight *)
Hyper(w, x) == B(FGe(FDot(w, x), FMul("0.5", FSum(w))))

(* Random tree: descend to the leaf; node = [leaf, label, att, val, kids]; ncat categories per nominal attribute *)
RECURSIVE TreeLabel(_, _, _, _)
TreeLabel(node, x, nnum, ncat) ==
    IF node.leaf THEN node.label
    ELSE IF node.att < nnum
         THEN TreeLabel(node.kids[IF FLt(x[node.att + 1], node.val) THEN 1 ELSE 2], x, nnum, ncat)
         ELSE LET base == nnum + (node.att - nnum) * ncat
                  k == CHOOSE k \in 1..ncat : FEq(x[base + k], 1) IN
              TreeLabel(node.kids[k], x, nnum, ncat)

Label(gen, f, x) ==
    CASE gen = "SEA" -> Sea(f, x) [] gen = "SINE" -> Sine(f, x) [] gen = "MIXED" -> Mixed(f, x)
      [] gen = "STAGGER" -> Stagger(f, x) [] gen = "AGRAWAL" -> Agrawal(f, x)

IntIn(v, lo, hi) == \E k \in lo..hi : FEq(v, k)
Unit(v) == FLe("0.0", v) /\ FLt(v, "1.0")
(* hv: also check the range of the house value (unperturbed samples only) *)
Domain(gen, x, hv) ==
    CASE gen = "SEA" -> Len(x) = 3 /\ \A k \in 1..3 : InR(x[k], 0, 10)
      [] gen = "SINE" -> Len(x) \in {2, 4} /\ \A k \in 1..Len(x) : Unit(x[k])
      [] gen = "MIXED" -> Len(x) = 4 /\ IntIn(x[1], 0, 1) /\ IntIn(x[2], 0, 1) /\ Unit(x[3]) /\ Unit(x[4])
      [] gen = "STAGGER" -> Len(x) = 3 /\ \A k \in 1..3 : IntIn(x[k], 0, 2)
      [] gen = "AGRAWAL" -> /\ Len(x) = 9 /\ InR(x[1], 20000, 150000)
                            /\ (FEq(x[2], 0) \/ InR(x[2], 10000, 85000))
                            /\ InR(x[3], 20, 80) /\ IntIn(x[3], 20, 80)
                            /\ IntIn(x[4], 0, 4) /\ IntIn(x[5], 0, 20) /\ IntIn(x[6], 0, 8)
                            /\ IntIn(x[8], 1, 30) /\ InR(x[9], 0, 500000)
                            /\ (hv => LET k == FSub(9, x[6]) IN
                                      InR(x[7], FMul(k, 50000), FMul(k, 150000)))

NFuncs(gen) == CASE gen = "SEA" -> 4 [] gen = "SINE" -> 4 [] gen = "MIXED" -> 2 [] gen = "STAGGER" -> 3
                 [] gen = "AGRAWAL" -> 10
=============================================================================
