------------------------------ MODULE Parallel ------------------------------
(* When does a parallel region give the same result under every schedule?
   A region is a set of threads.  Between two barriers each thread reads and writes words of memory; the access record of one thread to one word is
     [t: thread, r: it reads, x: it reads before it has written, w: it writes, v: the value it leaves (0: the value found, k > 0: some other value,
      -1: it writes different values), lr, lw: the locks held at each read, write].
   Harmless(S) is the verdict on the records S of one word by all threads. *)
EXTENDS Util
Locks(s) == {s[i] : i \in 1..Len(s)}
OneThread(S) == \A a, b \in 1..Len(S) : a # b => S[a].w = 0 /\ S[b].w = 0                             \* only read by several threads
SameValue(S) == \E v \in {S[a].v : a \in {b \in 1..Len(S) : S[b].w = 1}} :                              \* every write leaves the same value, and nobody can tell when
                   /\ v >= 0 /\ \A a \in 1..Len(S) : S[a].w = 1 => S[a].v = v
                   /\ v = 0 \/ \A a, b \in 1..Len(S) : a # b /\ S[a].w = 1 => S[b].x = 0
Held(c) == IF c.r = 1 /\ c.w = 1 THEN Locks(c.lr) \cap Locks(c.lw) ELSE IF c.w = 1 THEN Locks(c.lw) ELSE Locks(c.lr)
Locked(S) == \A a, b \in 1..Len(S) : a # b /\ S[a].w = 1 => Held(S[a]) \cap Held(S[b]) # {}           \* every access under a common lock
Rechecked(S) == \A a, b \in 1..Len(S) : a # b /\ S[a].w = 1 /\ S[b].w = 1 => Locks(S[a].lw) \cap Locks(S[b].lw) # {}   \* looked at freely, changed under a common lock
Harmless(S) == OneThread(S) \/ SameValue(S) \/ Locked(S) \/ Rechecked(S)
(* ---------- the unknowns are shared out in blocks, each thread assembles the rows of its block, and the rows are put together ---------- *)
Blocks(n, k) == [t \in 1..k |-> LET b == n \div k IN [lo |-> (t - 1) * b + 1, hi |-> IF t = k THEN n ELSE t * b]]
RECURSIVE Cat(_, _, _)
Cat(rows, i, j) == IF i > j THEN <<>> ELSE rows[i] \o Cat(rows, i + 1, j)
Local(rows, B) == [ptr |-> [r \in B.lo..B.hi |-> Len(Cat(rows, B.lo, r - 1))], val |-> Cat(rows, B.lo, B.hi)]
RECURSIVE Before(_, _)
Before(parts, t) == IF t = 1 THEN 0 ELSE Before(parts, t - 1) + Len(parts[t - 1].val)
RECURSIVE Values(_, _)
Values(parts, t) == IF t > Len(parts) THEN <<>> ELSE parts[t].val \o Values(parts, t + 1)
Merge(n, bl, parts, Off(_, _)) == [ptr |-> [r \in 1..n |-> LET t == CHOOSE u \in 1..Len(parts) : bl[u].lo <= r /\ r <= bl[u].hi IN parts[t].ptr[r] + Off(parts, t)], val |-> Values(parts, 1)]
Serial(n, rows) == [ptr |-> [r \in 1..n |-> Len(Cat(rows, 1, r - 1))], val |-> Cat(rows, 1, n)]
=============================================================================
