----------------------------- MODULE Parallel_MC -----------------------------
(* All pairs of small thread programs over two words, all interleavings: a word whose access records are harmless ends with the value of the serial run.
   Operations: ld (register := word), st (word := register), same (word := 7), back (word := value found), add (under a lock, word += 1 or 2),
   max (look, and if larger, under a lock look again and write), big (as max without the second look). *)
EXTENDS Parallel
CONSTANTS Steps, Kinds, Recheck, Guard
Ops == {[k |-> k, x |-> x] : k \in Kinds, x \in {1, 2}}
Progs == UNION {[1..n -> Ops] : n \in 1..Steps}
VARIABLES P, pc, reg, mem, half
vars == <<P, pc, reg, mem, half>>
Val0 == <<3, 4>>
Mine == <<5, 6>>                                                                       \* what a thread offers to max, and adds
Do(op, t, r, m) ==                                                                     \* serial meaning: <<register, memory>>
  CASE op.k = "ld" -> <<m[op.x], m>>
    [] op.k = "st" -> <<r, [m EXCEPT ![op.x] = r]>>
    [] op.k = "same" -> <<r, [m EXCEPT ![op.x] = 7]>>
    [] op.k = "back" -> <<r, [m EXCEPT ![op.x] = Val0[op.x]]>>
    [] op.k = "add" -> <<r, [m EXCEPT ![op.x] = @ + t]>>
    [] op.k \in {"max", "big"} -> <<r, [m EXCEPT ![op.x] = Max2(@, Mine[t])]>>
RECURSIVE Run(_, _, _, _, _)
Run(p, i, t, r, m) == IF i > Len(p) THEN m ELSE LET d == Do(p[i], t, r, m) IN Run(p, i + 1, t, d[1], d[2])
After == Run(P[2], 1, 2, 20, Run(P[1], 1, 1, 10, Val0))
(* what is recorded about a thread and a word when the threads run one after the other *)
On(p, x) == {i \in 1..Len(p) : p[i].x = x}
Reads(o) == o.k \in {"ld", "add", "max", "big"}
Writes(o) == o.k \in {"st", "same", "back", "add"}                                      \* and max where it wins
Wins(t, x, m) == Mine[t] > m[x]
Rec(p, t, x, m0) ==
  LET W == {i \in On(p, x) : Writes(p[i]) \/ (p[i].k \in {"max", "big"} /\ Wins(t, x, m0))}
      R == {i \in On(p, x) : Reads(p[i])}
      X == {i \in R : ~\E j \in W : j < i}
      sets == {p[i].k : i \in W}
      v == IF sets = {"same"} THEN 1 ELSE IF sets = {"back"} THEN 0 ELSE IF sets = {} THEN 0 ELSE -1
  IN [t |-> t, r |-> IF R = {} THEN 0 ELSE 1, x |-> IF X = {} THEN 0 ELSE 1, w |-> IF W = {} THEN 0 ELSE 1, v |-> v,
      lr |-> IF \A i \in R : p[i].k = "add" THEN <<0>> ELSE <<>>, lw |-> IF \A i \in W : p[i].k \in {"add", "max", "big"} THEN <<0>> ELSE <<>>]
Recs(x) == LET a == Rec(P[1], 1, x, Val0) b == Rec(P[2], 2, x, Val0) IN SelectSeq(<<a, b>>, LAMBDA c : c.r + c.w > 0)
Kindsof(x) == UNION {{P[t][i].k : i \in On(P[t], x)} : t \in {1, 2}}
Ok(x) == CASE Guard = "full" -> Harmless(Recs(x)) /\ (Rechecked(Recs(x)) /\ ~OneThread(Recs(x)) /\ ~SameValue(Recs(x)) => Kindsof(x) \subseteq {"add"} \/ Kindsof(x) \subseteq {"max", "big"})
           [] Guard = "value" -> OneThread(Recs(x)) \/ \A i \in 1..Len(Recs(x)) : Recs(x)[i].w = 1 => Recs(x)[i].v = 1
           [] Guard = "none" -> TRUE
Init == /\ P \in [{1, 2} -> Progs] /\ pc = <<1, 1>> /\ reg = <<10, 20>> /\ mem = Val0 /\ half = <<0, 0>>
        /\ Ok(1) /\ Ok(2)
Step(t) == \A op \in {P[t][i] : i \in {pc[t]} \cap 1..Len(P[t])} :
  /\ IF op.k \in {"max", "big"} /\ half[t] = 0 /\ mem[op.x] < Mine[t]
     THEN half' = [half EXCEPT ![t] = 1] /\ UNCHANGED <<pc, reg, mem>>                   \* has looked; not yet in the lock
     ELSE LET d == Do(op, t, reg[t], mem)
              m == IF op.k = "big" /\ ~Recheck /\ half[t] = 1 THEN [mem EXCEPT ![op.x] = Mine[t]] ELSE d[2] IN
          /\ half' = [half EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ reg' = [reg EXCEPT ![t] = d[1]] /\ mem' = m
  /\ P' = P
Next == \E t \in {1, 2} : pc[t] <= Len(P[t]) /\ Step(t)
Spec == Init /\ [][Next]_vars
Finished == \A t \in {1, 2} : pc[t] > Len(P[t])
ScheduleFree == Finished => mem = After
=============================================================================
