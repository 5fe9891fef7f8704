-------------------------- MODULE Topography_Trace --------------------------
(* Recorded surface operations.  Positions as in Topography (D units per cell), heights in integer units; unit cases exact,      *)
(* whole runs (e.run = 1) rounded.                                                                                              *)
EXTENDS Topography, TraceLib
VARIABLE i
e == Trace[i]
G == [ncx |-> e.ncx, D |-> e.D]
C == [x |-> e.x, ph |-> e.ph]
(* heights: M units per unit of e.v; h0: heights before (incremental update) or zeros *)
Topo(g) == \A m \in {[k \in 1..g.ncx |-> Mean(g, C, e.v, k - 1, e.M)]} :
   /\ \A k \in 0..g.ncx : ChkV("height is the weighted mean of the surface markers", Near(2 * e.h[k + 1], Height2(g, m, k) + 2 * e.M * e.h0[Min2(Max2(k, 1), g.ncx - 1) + 1], e.slack), <<k, e.h[k + 1], Height2(g, m, k)>>)
   /\ \A k \in 1..g.ncx : ChkV("the line of a column joins the heights", Near(e.lw[k], e.h[k], 1) /\ Near(e.le[k], e.h[k + 1], 1), <<k, e.lw[k], e.le[k]>>)
   /\ \A k \in 1..g.ncx : ChkV("line of the previous heights", e.run = 1 \/ (Near(e.lw0[k], e.M * e.hp[k], 1) /\ Near(e.le0[k], e.M * e.hp[k + 1], 1)), k)
   /\ \A k \in 1..g.ncx : ChkV("heights of half columns", e.run = 1 \/ (Near(4 * e.hf[2 * k - 1], 3 * e.h[k] + e.h[k + 1], 6) /\ Near(4 * e.hf[2 * k], e.h[k] + 3 * e.h[k + 1], 6)), k)
(* completing the chain; before: x z z0 ph, after: x1 z1 z01 ph1; heights h (hp before), D times line values compared with D times z; full: the capacity *)
Grow(g) ==
   LET n == Len(e.x)  gone == {k \in 1..n : Out(g, e.x[k])}  poor == {q \in 0..2 * g.ncx - 1 : Poor(g, C, q)}  need == 2 * Cardinality(poor)  n1 == Len(e.x1)
       fresh == gone \cup (n + 1..n1)  reused == {k \in gone : e.ph1[k] # -1} IN
   IF e.stop > 0 THEN ChkV("stopped only when the chain is full", n + need + 2 >= e.full, <<n, need, e.full>>)
   ELSE /\ ChkV("no more surface markers than allocated", n1 <= e.full, <<n1, e.full>>)
        /\ ChkV("no surface marker is lost or moved", \A k \in 1..n \ gone : e.x1[k] = e.x[k] /\ e.z1[k] = e.z[k] /\ e.ph1[k] = 0, n)
        /\ ChkV("markers outside are recycled or stay inactive", \A k \in gone : e.ph1[k] = -1 \/ ~Out(g, e.x1[k]), gone)
        /\ ChkV("slots are appended only when none is free", n1 = n + Max2(0, need - Cardinality(gone)), <<n, n1, need>>)
        /\ ChkV("two new markers in every poor half column", Cardinality(reused) + n1 - n = need /\ {e.x1[k] : k \in reused \cup (n + 1..n1)} = UNION {NewX(g, q) : q \in poor}, <<reused, poor>>)
        /\ \A k \in reused \cup (n + 1..n1) : /\ ChkV("a new marker lies on the surface", Near(g.D * e.z1[k], LineD(g, e.h, e.x1[k]), e.tol), <<k, e.x1[k], e.z1[k]>>)
                                              /\ ChkV("and on the previous surface before", Near(g.D * e.z01[k], LineD(g, e.hp, e.x1[k]), e.tol), <<k, e.x1[k], e.z01[k]>>)
                                              /\ ChkV("a new marker is active", e.ph1[k] = 0, k)
        /\ ChkV("every half column has surface markers", \A q \in 0..2 * g.ncx - 1 : \E k \in 1..n1 : e.ph1[k] # -1 /\ ~Out(g, e.x1[k]) /\ Half(g, e.x1[k]) = q, n1)
(* put back on the line *)
Snap(g) == /\ ChkV("number of surface markers", Len(e.x1) = Len(e.x), Len(e.x1))
           /\ \A k \in 1..Len(e.x) : ChkV("surface marker lies on the line", e.x1[k] = e.x[k] /\ Near(g.D * e.z1[k], LineD(g, e.h, e.x[k]), e.tol) /\ e.z01[k] = e.z1[k] /\ e.ph1[k] = e.ph[k], <<k, e.x[k], e.z1[k]>>)
Below(g) == \A k \in 1..Len(e.x) : ChkV("initial surface never above the surface", e.x1[k] = e.x[k] /\ Near(g.D * e.z1[k], Min2(g.D * e.z[k], LineD(g, e.h, e.x[k])), e.tol), <<k, e.z[k], e.z1[k]>>)
Clean(g) == \A k \in 1..Len(e.x) :
   LET d == g.D * e.z[k] - LineD(g, e.h, e.x[k]) IN
   /\ ChkV("position of a marker", e.same = 1, k)
   /\ (e.run = 1 /\ Near(d, 0, e.tol)) \/ ChkV("a marker is dropped exactly when above the surface", e.ph1[k] = (IF d > 0 THEN -1 ELSE e.ph[k]), <<k, e.ph[k], e.ph1[k], d>>)
New(g) == /\ ChkV("number of surface markers", Len(e.x1) = 23 * g.ncx /\ Len(e.x1) <= e.full, Len(e.x1))
          /\ \A k \in 1..Len(e.x1) : ChkV("equally spaced surface markers", Near(46 * e.x1[k], (2 * k - 1) * g.D, 23) /\ e.ph1[k] = 0 /\ e.z1[k] = 0 /\ e.z01[k] = 0, <<k, e.x1[k]>>)
(* surface processes *)
Valley == {k \in 2..Len(e.h) - 1 : 2 * Abs(e.X0 + (k - 1) * e.D) < e.W}
Proc(g) == \A w \in {IF e.sp \in {1, 5} THEN SubSteps(e.h, e.n, e.r, e.s, e.base, IF e.sp = 5 THEN Valley ELSE {}, IF e.sp = 5 /\ Valley # {} THEN e.cut \div Cardinality(Valley) ELSE 0)
                     ELSE IF e.sp = 2 THEN Fill(e.h, e.base, e.s) ELSE e.h} :
   \A k \in 1..Len(w) : ChkV("surface processes follow their rule", Near(e.h1[k], w[k], e.tol), <<k, e.h[k], e.h1[k], w[k]>>)
(* sediment: quarter positions of each column, half way between the previous and the new surface where it rose *)
Spots(g) == {(2 * q + 1) * (g.D \div 8) : q \in 0..4 * g.ncx - 1}
Rose(g, x) == LineD(g, e.h, x) > LineD(g, e.hp, x)
Sed(g) == LET Q == {x \in Spots(g) : Rose(g, x)} IN
   IF e.stop > 0 THEN ChkV("stopped only when no room", e.n0 + Cardinality(Q) > e.full, <<e.n0, Cardinality(Q), e.full>>)
   ELSE /\ ChkV("room for the sediment", e.n1 <= e.full, <<e.n1, e.full>>) /\ ChkV("other markers are left alone", e.kept = 1, e.kept)
        /\ ChkV("one marker at each place where the surface rose", e.n1 = e.n0 + Cardinality(Q) /\ {e.x1[k] : k \in DOMAIN e.x1} = Q, <<e.n0, e.n1, Q>>)
        /\ \A k \in DOMAIN e.x1 : /\ ChkV("between the surfaces", 2 * g.D * e.z1[k] = LineD(g, e.h, e.x1[k]) + LineD(g, e.hp, e.x1[k]), <<k, e.z1[k]>>)
                                  /\ ChkV("sediment phase", e.ph1[k] = IF e.My % 2 = 1 THEN e.s1 ELSE e.s2, <<k, e.ph1[k]>>)
                                  /\ \A f \in DOMAIN e.val : ChkV("state of new sediment", e.val[f][k] = (IF f \in {"Fxx", "Fzz", "T", "T0", "Tmax"} THEN 1 ELSE IF f = "d" THEN 10 + e.ph1[k] ELSE IF f = "x0" THEN e.x1[k] ELSE IF f = "z0" THEN e.z1[k] ELSE 0), <<f, k, e.val[f][k]>>)
(* zero mean *)
Zero(g) == LET n == Len(e.h)  m == SeqSum(e.h)  Q == {k \in DOMAIN e.z : e.ph[k] # -1}  c == Sum(e.z, Q) IN
   /\ \A k \in 1..n : ChkV("heights without their mean", Near(n * e.h1[k], n * e.h[k] - m, e.tol * n), <<k, e.h[k], e.h1[k]>>)
   /\ \A k \in Q : ChkV("surface markers without their mean", Near(Cardinality(Q) * e.z1[k], Cardinality(Q) * e.z[k] - c, e.tol * Cardinality(Q)), <<k, e.z[k], e.z1[k]>>)
(* end of a sub-step of a run: heights finite, mean removed if asked *)
End(g) == /\ ChkV("finite heights", e.finite = 1, e.finite)
          /\ e.zero = 0 \/ ChkV("zero mean topography", Near(SeqSum(e.h), 0, e.tol * Len(e.h)), e.h)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ (\A g \in {G} : CASE e.e = "Topo" -> Topo(g) [] e.e = "Grow" -> Grow(g) [] e.e = "Snap" -> Snap(g) [] e.e = "Below" -> Below(g) [] e.e = "Clean" -> Clean(g) [] e.e = "New" -> New(g)
                             [] e.e = "Proc" -> Proc(g) [] e.e = "Sed" -> Sed(g) [] e.e = "Zero" -> Zero(g) [] e.e = "End" -> End(g)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
