-------------------------- MODULE Population_Trace --------------------------
(* Recorded calls of the reseeding and inflow routines.  Event fields besides those of s: n1 (slots after), r: per slot *)
(* <<x, z, phase, fresh, untouched, source (1-based, 0 unknown), all copied fields equal>>, stop (the run was stopped). *)
EXTENDS Population, TraceLib
VARIABLE i
e == Trace[i]
SetOf(q) == {q[k] : k \in 1..Len(q)}
S == [Nx |-> e.Nx, Nz |-> e.Nz, U |-> e.U, ax |-> e.ax, az |-> e.az, thr |-> e.thr, air |-> e.air, top |-> e.top, ini |-> e.ini, sed |-> SetOf(e.sed), fz |-> e.fz, slack |-> e.slack, m |-> e.m, cap |-> e.cap, per |-> e.per]
Fresh == {k \in 1..Len(e.r) : e.r[k][4] = 1}
Old(s) == \A k \in 1..Len(e.m) : k \in Fresh \/ ChkV("existing markers are untouched", e.r[k][5] = 1, <<k, e.m[k], e.r[k]>>)
OnlyFree(s) == ChkV("only free slots are taken", Fresh \cap Active(s) = {}, Fresh)
CellOf(s, m) == <<Fine(m[1], s.U, s.Nx), Fine(m[2], s.U, s.Nz)>>
(* values a new marker takes from the grid: <<value * 64>> for every field *)
Interp(s, k) == \A w \in {Weights(s, e.r[k][1], e.r[k][2])} :
   LET num == w[1][2] * e.base[w[1][1]] + w[2][2] * e.base[w[2][1]] + w[3][2] * e.base[w[3][1]] + w[4][2] * e.base[w[4][1]]
       den == w[1][2] + w[2][2] + w[3][2] + w[4][2]
   IN IF den = 0 THEN TRUE ELSE \A q \in 1..8 : ChkV("grid value taken by a new marker", Abs(e.r[k][7 + q] * den - 64 * num) <= 2 * den, <<q, e.r[k], num, den>>)
VInterp(s, k) ==
   LET U == s.U  x == e.r[k][1]  z == e.r[k][2]  a == Clamp(CeilDiv(x, U) - 1, 0, s.Nx - 2)  b == Clamp(CeilDiv(z, U) - 1, 0, s.Nz - 2)
       p == x - a * U  q == z - b * U  v(c, d) == e.bvert[c + d * s.Nx + 1]
       num == (U - p) * (U - q) * v(a, b) + p * (U - q) * v(a + 1, b) + (U - p) * q * v(a, b + 1) + p * q * v(a + 1, b + 1)
   IN ChkV("vertex value taken by a new marker", Abs(e.r[k][16] * U * U - 64 * num) <= 2 * U * U, <<e.r[k], num>>)
ReseedH(s, H) ==
   LET new == Fresh  cellOf == [k \in new |-> CellOf(s, e.r[k])]
       must == {c \in Cells(s) : MustFill(s, H, c) /\ SurelyAround(H, c) # {} /\ Below(s, c)}
       may == {c \in Cells(s) : MayFill(s, H, c) /\ Around(H, c) # {} /\ (Below(s, c) \/ ~Above(s, c) \/ e.mode = 1)}
       filled == {cellOf[k] : k \in new}
   IN IF e.stop # 0
      THEN ChkV("the run stops only for lack of room or neighbours",
                e.stop > 0 /\ e.stop # 66 /\ (Needed(s, Cardinality(may)) >= s.cap \/ \E c \in Cells(s) : MayFill(s, H, c) /\ SurelyAround(H, c) = {}), <<e.stop, s.cap, Cardinality(may)>>)
      ELSE /\ Old(s)
           /\ OnlyFree(s)
           /\ ChkV("capacity", Len(e.r) <= s.cap, Len(e.r))
           /\ ChkV("every thin quarter cell gets a marker", must \subseteq filled, must \ filled)
           /\ ChkV("only thin quarter cells of material get one", filled \subseteq may, filled \ may)
           /\ ChkV("one marker each", Cardinality(filled) = Cardinality(new), <<filled, new>>)
           /\ ChkV("free slots first, then appended", SlotsOK(s, new, Cardinality(new)) /\ Len(e.r) = Needed(s, Cardinality(new)), new)
           /\ \A k \in new : /\ ChkV("at the centre of the quarter cell", Near(e.r[k][1], Centre(s, cellOf[k])[1], e.fz) /\ Near(e.r[k][2], Centre(s, cellOf[k])[2], e.fz), e.r[k])
                             /\ ChkV("copies the nearest marker", SetOf(e.r[k][6]) \cap Sources(s, H, cellOf[k]) # {}, <<e.r[k], cellOf[k], Sources(s, H, cellOf[k])>>)
                             /\ ChkV("copies the whole state", e.r[k][7] = 1, e.r[k])
                             /\ e.direct = 1 \/ (Interp(s, k) /\ VInterp(s, k))
Reseed == /\ e.e = "Reseed"
          /\ (\A s \in {S} : \A H \in {[k \in Active(s) |-> Homes(s, s.m[k])]} : ReseedH(s, H)) = TRUE
(* inflow: e.t are the positions and phases when tagged, e.m those after the motion *)
InflowS(s) ==
   LET tag(d) == [k \in 1..Len(e.m) |-> IF Tagged(s, e.t[k], d) THEN 1 ELSE 0]
       less == Entered(s, tag(-s.fz), -s.fz)  ent == Entered(s, tag(s.fz), s.fz)  new == Fresh
       from == [k \in new |-> {q \in SetOf(e.r[k][6]) : LET t == Twin(s, q) IN Near(e.r[k][1], t[1], s.fz) /\ Near(e.r[k][2], t[2], s.fz) /\ e.r[k][3] = t[3]}]
   IN /\ ChkV("tagged", \A k \in 1..Len(e.m) : e.stop # 0 \/ e.tag[k] \in {tag(-s.fz)[k], tag(s.fz)[k]}, tag(0))
      /\ IF e.stop # 0 THEN ChkV("stops only for lack of room", e.stop > 0 /\ e.stop # 66 /\ Needed(s, Cardinality(ent)) >= s.cap, <<e.stop, ent>>)
         ELSE /\ Old(s) /\ OnlyFree(s)
              /\ ChkV("capacity", Len(e.r) <= s.cap, Len(e.r))
              /\ \A k \in new : /\ ChkV("a twin of one marker, half a cell outwards", Cardinality(from[k]) = 1 /\ from[k] \subseteq ent, e.r[k])
                                /\ ChkV("copies the whole state", e.r[k][7] = 1, e.r[k])
              /\ ChkV("each marker that entered is doubled once", LET u == UNION {from[k] : k \in new} IN Cardinality(new) = Cardinality(u) /\ less \subseteq u, <<ent, [k \in new |-> e.r[k]]>>)
              /\ ChkV("free slots first, then appended", SlotsOK(s, new, Cardinality(new)) /\ Len(e.r) = Needed(s, Cardinality(new)), new)
Inflow == e.e = "Inflow" /\ (\A s \in {S} : InflowS(s)) = TRUE
Init == i = 1
Next == i <= Len(Trace) /\ (IF e.e = "Reseed" THEN Reseed ELSE Inflow) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
