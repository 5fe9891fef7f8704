--------------------------- MODULE Population_MC ---------------------------
(* Histories of a small population on a 3 x 3 grid (16 quarter cells): markers are lost, reseeded, and flow in. *)
EXTENDS Population
CONSTANTS Start, Cap, Steps
VARIABLES s, id, tag, n, act, old
vars == <<s, id, tag, n, act, old>>
U0 == 8
AirSets == {{}, {4}, {3, 4}}
Grid(a, m) == [Nx |-> 3, Nz |-> 3, U |-> U0, ax |-> 1, az |-> 1, thr |-> 1, air |-> [k \in 1..4 |-> IF k \in a THEN 1 ELSE 0], top |-> [k \in 1..4 |-> 100], ini |-> [k \in 1..4 |-> 100],
               sed |-> {}, fz |-> 0, slack |-> 0, m |-> m, cap |-> Cap, per |-> 0]
Spots == {<<1, 1>>, <<4, 4>>, <<9, 2>>, <<15, 7>>, <<16, 16>>, <<7, 13>>}
HomeMap(g) == [k \in Active(g) |-> Homes(g, g.m[k])]
Init == \E a \in AirSets : \E P \in SUBSET Spots : Cardinality(P) = Start /\
        LET q == CHOOSE f \in [1..Start -> P] : \A i, j \in 1..Start : i # j => f[i] # f[j]
        IN s = Grid(a, [k \in 1..Start |-> <<q[k][1], q[k][2], 1>>]) /\ id = [k \in 1..Start |-> k] /\ tag = [k \in 1..Start |-> 0] /\ n = 0 /\ act = "start" /\ old = <<>>
Lose == \E k \in Active(s) : s' = [s EXCEPT !.m[k][3] = -1] /\ UNCHANGED <<id, tag>> /\ act' = "lose"
Put(g, ids, slot, m, i) == IF slot <= Len(g.m) THEN <<[g EXCEPT !.m[slot] = m], [ids EXCEPT ![slot] = i]>> ELSE <<[g EXCEPT !.m = Append(g.m, m)], Append(ids, i)>>
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Fill(_, _, _, _, _)
Fill(g, ids, H, todo, g0) == IF todo = {} THEN <<g, ids>>
   ELSE LET c == CHOOSE c \in todo : TRUE
            src == MinS(Sources(g0, H, c))
            slot == IF Free(g) # {} THEN MinS(Free(g)) ELSE Len(g.m) + 1
            r == Put(g, ids, slot, <<Centre(g, c)[1], Centre(g, c)[2], g0.m[src][3]>>, ids[src])
        IN Fill(r[1], r[2], H, todo \ {c}, g0)
Todo(g) == LET H == HomeMap(g) IN {c \in Cells(g) : MustFill(g, H, c) /\ Around(H, c) # {} /\ Below(g, c)}
Pad(t, L) == [k \in 1..L |-> IF k <= Len(t) THEN t[k] ELSE 0]
Reseed == /\ Active(s) # {}
          /\ Needed(s, Cardinality(Todo(s))) <= Cap           \* otherwise the run stops
          /\ LET r == Fill(s, id, HomeMap(s), Todo(s), s) IN s' = r[1] /\ id' = r[2] /\ tag' = Pad(tag, Len(r[1].m))
          /\ act' = "reseed"
(* markers flow in by a quarter of a cell from both sides; they were tagged before *)
Shift(m) == IF m[3] = -1 THEN m ELSE IF m[1] < 8 THEN <<m[1] + 3, m[2], m[3]>> ELSE IF m[1] > 8 THEN <<m[1] - 3, m[2], m[3]>> ELSE m
RECURSIVE Clone(_, _, _)
Clone(g, ids, todo) == IF todo = {} THEN <<g, ids>>
   ELSE LET k == MinS(todo)  slot == IF Free(g) # {} THEN MinS(Free(g)) ELSE Len(g.m) + 1
            r == Put(g, ids, slot, Twin(g, k), ids[k])
        IN Clone(r[1], r[2], todo \ {k})
Inflow == LET t == [k \in 1..Len(s.m) |-> IF Tagged(s, s.m[k], 0) THEN 1 ELSE 0]
              g == [s EXCEPT !.m = [k \in 1..Len(s.m) |-> Shift(s.m[k])]]
          IN /\ Needed(g, Cardinality(Entered(g, t, 0))) <= Cap
             /\ LET r == Clone(g, id, Entered(g, t, 0)) IN s' = r[1] /\ id' = r[2] /\ tag' = Pad(t, Len(r[1].m))
             /\ act' = "inflow"
Next == n < Steps /\ n' = n + 1 /\ old' = <<s, id>> /\ (Lose \/ Reseed \/ Inflow)
Spec == Init /\ [][Next]_vars
Capacity == Len(s.m) <= Cap /\ Len(id) = Len(s.m)
Inside == \A k \in Active(s) : s.m[k][1] >= 0 /\ s.m[k][1] <= 16 /\ s.m[k][2] >= 0 /\ s.m[k][2] <= 16
(* reseeding: nobody changed, every quarter cell of material with neighbours is populated, and doing it again adds only what had no neighbour before *)
Untouched == act = "reseed" => \A k \in Active(old[1]) : s.m[k] = old[1].m[k] /\ id[k] = old[2][k]
Populated == act = "reseed" => LET H == HomeMap(s) H0 == HomeMap(old[1]) IN \A c \in Cells(s) : ~Airy(s, c) /\ Around(H0, c) # {} => Surely(H, c) >= 1
NoneInAir == act = "reseed" => \A k \in Active(s) \ Active(old[1]) : ~Airy(s, <<Fine(s.m[k][1], U0, 3), Fine(s.m[k][2], U0, 3)>>)
Slots == act \in {"reseed", "inflow"} => LET new == Active(s) \ Active(old[1]) IN SlotsOK(old[1], new, Cardinality(new)) /\ Len(s.m) = Needed(old[1], Cardinality(new))
Lineage == \A k \in 1..Len(id) : id[k] \in 1..Start                      \* every marker descends from an original one
Once == act = "inflow" => Cardinality(Active(s)) - Cardinality(Active(old[1])) = Cardinality({k \in Active(old[1]) : tag[k] = 1 /\ (FromWest(s, s.m[k], 0) \/ FromEast(s, s.m[k], 0))})
=============================================================================
