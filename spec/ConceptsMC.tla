----------------------------- MODULE ConceptsMC -----------------------------
(* Design-level facts about the concepts on a grid, and the balancing/drift *)
(* state machine: labels alternate, a drift always changes the concept.     *)
EXTENDS Concepts, FiniteSets
CONSTANTS Depth
Grid == {"0.0", "0.2", "0.4", "0.6", "0.8"}
ASSUME \A a, b \in Grid : Sine(0, <<a, b>>) = 1 - Sine(1, <<a, b>>) /\ Sine(2, <<a, b>>) = 1 - Sine(3, <<a, b>>)
ASSUME \A v, w \in {0, 1}, a, b \in Grid : Mixed(0, <<v, w, a, b>>) = 1 - Mixed(1, <<v, w, a, b>>)
ASSUME \A s, c, h \in 0..2 : \A f \in 0..2 : Stagger(f, <<s, c, h>>) \in {0, 1}
ASSUME \A d, e \in 1..10 : d # e => Led[d] # Led[e]
ASSUME \A f \in 0..9 : \A sal \in {20000, 60000, 90000, 140000}, age \in {25, 50, 70}, el \in 0..4, loan \in {50000, 250000, 450000} :
         Agrawal(f, <<sal, 0, age, el, 1, 3, 600000, 25, loan>>) \in {0, 1}
VARIABLES fn, want, ys, fns
Init == fn \in 0..2 /\ want = 1 /\ ys = <<>> /\ fns = <<fn>>
(* the next sample kept is the first one drawn whose label is the wanted one *)
Sample == ys' = Append(ys, want) /\ want' = 1 - want /\ UNCHANGED <<fn, fns>>
Drift == \E g \in 0..2 : g # fn /\ fn' = g /\ fns' = Append(fns, g) /\ UNCHANGED <<want, ys>>
Next == Len(ys) + Len(fns) < Depth /\ (Sample \/ Drift)
Ones == Cardinality({k \in 1..Len(ys) : ys[k] = 1})
Balanced == (2 * Ones - Len(ys)) \in {0, 1}
Changes == \A k \in 1..(Len(fns) - 1) : fns[k] # fns[k + 1]
=============================================================================
