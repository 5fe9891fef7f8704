--------------------------- MODULE Transfer_Trace ---------------------------
(* Recorded transfers.  e: fields of s, typ (node types), K (scale of the results), tol, dw (uncertainty of the positions), *)
(* Avg: r (results times K), kp (node left as it was);  Perc: r[phase] (fractions times K).                                 *)
EXTENDS Transfer, TraceLib
VARIABLE i
e == Trace[i]
S == [U |-> e.U, nx |-> e.nx, nz |-> e.nz, ox |-> e.ox, oz |-> e.oz, st |-> e.st, per |-> e.per, cyc |-> e.cyc, m |-> e.m]
Air(c) == e.typ[c] \in {30, 31}
(* markers that can contribute to a node: nearby ones, so that the sums stay short *)
Close(s, n) == SelectSeq(s.m, LAMBDA k : k[3] # -1 /\ Abs(k[2] - s.oz - n[2] * s.U) <= 2 * s.U /\ (s.per = 1 \/ Abs(k[1] - s.ox - n[1] * s.U) <= 2 * s.U))
Q(s, n) == Contrib([s EXCEPT !.m = Close(s, n)], n[1], n[2])
(* periodic domain, wide stencil, nodes that are not cyclic: only the range of the result is fixed *)
Loose(s, n) == s.per = 1 /\ s.cyc = 0 /\ s.st = 9 /\ n[1] \in {0, s.nx - 1}
Range(s) == LET S0 == {s.m[k][4] : k \in Active(s)} IN <<CHOOSE x \in S0 : \A y \in S0 : x <= y, CHOOSE x \in S0 : \A y \in S0 : x >= y>>
(* room for the rounding of recorded positions: half a unit per coordinate *)
Slack(s, q) == IF e.dw = 0 \/ SumW(q, Len(q)) = 0 THEN 0
               ELSE LET n == Cardinality({k \in 1..Len(q) : q[k][1] > 0}) IN RDiv((Highest(q) - Lowest(q)) * n * Reach(s), SumW(q, Len(q))) * e.K + e.K
Expect(s, c) == Once(LAMBDA q : LET a == Average(q, e.K) IN IF Air(c) \/ a = <<>> THEN <<>> ELSE <<a[1], Slack(s, q), e.K * Lowest(q), e.K * Highest(q)>>, Q(s, Node(s, c)))
Small(s, c) == e.dw # 0 /\ LET q == Q(s, Node(s, c)) IN SumW(q, Len(q)) < 8 * s.U            \* hardly any weight: the recorded positions do not decide
One(s, c, x, r, kp) == IF x = <<>> THEN ChkV("a node without markers (or in the air) keeps its value", kp = 1 \/ e.dw # 0, <<c, r>>)
                   ELSE ChkV("the weighted average of the markers around", Near(r, x[1], e.tol + x[2]), <<c, r, x>>) /\ ChkV("between the extremes", r >= x[3] - e.tol /\ r <= x[4] + e.tol, <<c, r, x>>)
Seam(s) == s.per = 1 /\ e.cyc = 0 /\ e.ce \in {0, -1}      \* vertices and Vx nodes: the two walls are one line
AvgNode(s, c) ==
   LET n == Node(s, c) IN
   IF Loose(s, n) THEN Active(s) = {} \/ ChkV("within the range of all markers", e.dw # 0 \/ (e.r[c] >= e.K * Range(s)[1] - e.tol /\ e.r[c] <= e.K * Range(s)[2] + e.tol), <<c, e.r[c]>>)
   ELSE IF Seam(s) /\ n[1] \in {0, s.nx - 1}
   THEN LET a == n[2] * s.nx + 1  b == n[2] * s.nx + s.nx IN
        \A xa \in {Expect(s, a)} : \A xb \in {Expect(s, b)} :
           IF xa = <<>> \/ xb = <<>> THEN TRUE ELSE IF e.mixed = 1 THEN ChkV("between the values at both walls", e.r[c] >= Min2(xa[1], xb[1]) - e.tol - 1 /\ e.r[c] <= Max2(xa[1], xb[1]) + e.tol + 1, <<c, e.r[c], xa, xb>>) ELSE Small(s, a) \/ Small(s, b) \/ ChkV("the mean of both walls", Near(2 * e.r[c], xa[1] + xb[1], 2 * e.tol + xa[2] + xb[2] + 1), <<c, e.r[c], xa, xb>>)
   ELSE \A x \in {Expect(s, c)} : Small(s, c) \/ One(s, c, x, e.r[c], e.kp[c])
SeamEq(s) == Seam(s) => \A l \in 0..s.nz - 1 : ChkV("both walls agree", e.r[l * s.nx + 1] = e.r[l * s.nx + s.nx], l)
Avg == e.e = "Avg" /\ (\A s \in {S} : SeamEq(s) /\ \A c \in 1..s.nx * s.nz : AvgNode(s, c)) = TRUE
Frac(s, c, p) == \* fraction of a phase at a node, times K; <<>> without markers; and its uncertainty
   Once(LAMBDA q : LET w == SumW(q, Len(q)) n == {k \in 1..Len(q) : q[k][1] > 0} IN
        IF w = 0 THEN <<>> ELSE <<RDiv(e.K * SumP(q, p - 1, Len(q)), w), IF e.dw = 0 THEN 0 ELSE RDiv(Cardinality(n) * Reach(s), w) * e.K + e.K \div 20>>, Q(s, Node(s, c)))
Opposite(s, c) == LET n == Node(s, c) IN n[2] * s.nx + s.nx - n[1]
PercNode(s, c) ==
   IF Air(c) \/ Loose(s, Node(s, c)) \/ Small(s, c) THEN TRUE
   ELSE /\ \A p \in 1..Len(e.r) : \A x \in {Frac(s, c, p)} :
             /\ ChkV("fraction of a phase", IF x = <<>> THEN e.r[p][c] = 0 ELSE
                      \/ Near(e.r[p][c], x[1], 1 + x[2])
                      \/ e.dw # 0 /\ Seam(s) /\ Node(s, c)[1] \in {0, s.nx - 1}        \* a run may make both walls equal afterwards
                         /\ \A y \in {Frac(s, Opposite(s, c), p)} : y # <<>> /\ Near(2 * e.r[p][c], x[1] + y[1], 3 + x[2] + y[2]), <<c, p, e.r[p][c], x>>)
             /\ ChkV("fractions are not negative", e.r[p][c] >= 0, <<c, p>>)
             /\ p # 1 \/ x = <<>> \/ ChkV("fractions sum to one where there are markers", Near(SeqSum([k \in 1..Len(e.r) |-> e.r[k][c]]), e.K, Len(e.r)), c)
Perc == e.e = "Perc" /\ (\A s \in {S} : \A c \in 1..s.nx * s.nz : PercNode(s, c)) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ (IF e.e = "Avg" THEN Avg ELSE Perc) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
