----------------------------- MODULE History_MC -----------------------------
(* Histories of one marker in a 3 x 3-vertex grid (2 x 2 cells, some of them air): every order of three operations.     *)
EXTENDS History
CONSTANTS Inc, Temps, Steps
VARIABLES mk, n, seen, tags
vars == <<mk, n, seen, tags>>
U0 == 4
S0 == [Nx |-> 3, Nz |-> 3, U |-> U0, per |-> 0]
Mats == <<<<1, 3, 1>>, <<-1, 1, 2>>, <<0, 2, 0>>>>
Lgr == {<<0, 0, 0, 0>>, <<64, 0, 0, -64>>, <<0, 128, 0, 0>>}
Q0 == 256
Init == /\ tags \in [1..4 -> {-1, 30}] /\ n = 0
        /\ \E x \in {0, 1, 3, 4, 7, 8}, z \in {0, 2, 5, 8} : mk = [x |-> x, z |-> z, st |-> 0, pk |-> 0, ph |-> 0, F |-> <<Q0, 0, 0, Q0>>, T |-> 0, d |-> 0]
        /\ seen = {0}
Strain == \E inc \in [1..4 -> Inc] : \A q \in {Strained(S0, mk.x, mk.z, inc, tags)} :
             mk' = [mk EXCEPT !.st = mk.st + (IF q[2] = 0 THEN 0 ELSE RDiv(60 * q[1], q[2])), !.d = IF q[2] = 0 THEN 0 ELSE RDiv(60 * q[1], q[2])] /\ UNCHANGED seen
Heat == \E T \in Temps : mk' = [mk EXCEPT !.T = T, !.pk = Peak(mk.pk, T), !.d = 0] /\ seen' = seen \cup {T}
Change == mk' = [mk EXCEPT !.ph = Become(Mats, mk.ph, mk.T), !.d = 0] /\ UNCHANGED seen
Stretch == \E L \in Lgr : mk' = [mk EXCEPT !.F = Advance(mk.F, L, Q0), !.d = 0] /\ UNCHANGED seen
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED tags /\ (Strain \/ Heat \/ Change \/ Stretch)
Spec == Init /\ [][Next]_vars
Forward == [][mk'.st >= mk.st /\ mk'.pk >= mk.pk]_vars
Ceiling == mk.d <= 60 * Most(Inc) /\ mk.d >= 0
Running == mk.pk = Most(seen)
NoAirStrain == (\A c \in 1..4 : tags[c] = 30) => mk.st = 0
Legal == [][mk'.ph # mk.ph => Due(Mats[mk.ph + 1][1], Mats[mk.ph + 1][2], mk.T) /\ mk'.ph = Mats[mk.ph + 1][3]]_vars
Turned == Det(mk.F) > 0
=============================================================================
