------------------------------ MODULE Thermal ------------------------------
(* The implicit energy balance of one thermal step on ncx x ncz cells.                                                  *)
(* A case r holds: ncx, ncz; ax = 1/dx^2, az = 1/dz^2, iz = 1/dz; ty, va: condition type and value on the cells and on  *)
(* one row of ghost cells around them; kx, kz: conductivities of the faces; C = density*capacity/dt; and per cell the   *)
(* heat sources.  Temperatures are integers.                                                                            *)
EXTENDS Util
Air == 30
Cell(r, k, l) == 1 + k + l * r.ncx
Ext(r, k, l) == 1 + (k + 1) + (l + 1) * (r.ncx + 2)
Ty(r, k, l) == r.ty[Ext(r, k, l)]
Va(r, k, l) == r.va[Ext(r, k, l)]
Inside(r, k, l) == k >= 0 /\ k < r.ncx /\ l >= 0 /\ l < r.ncz
Cells(r) == {d \in (0..(r.ncx-1)) \X (0..(r.ncz-1)) : Ty(r, d[1], d[2]) # Air}
Dirs == {<<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>>}
(* conductivity of the face of cell (k, l) towards dr *)
K(r, k, l, dr) == CASE dr = <<-1, 0>> -> r.kx[1 + k + (l + 1) * (r.ncx + 1)]
                    [] dr = <<1, 0>>  -> r.kx[2 + k + (l + 1) * (r.ncx + 1)]
                    [] dr = <<0, -1>> -> r.kz[2 + k + l * (r.ncx + 2)]
                    [] dr = <<0, 1>>  -> r.kz[2 + k + (l + 1) * (r.ncx + 2)]
A(r, dr) == IF dr[1] # 0 THEN r.ax ELSE r.az
(* conductivity towards the air: mean over the faces, not below the smallest of the grid *)
Ks(r, k, l) == Max2((K(r, k, l, <<-1, 0>>) + K(r, k, l, <<1, 0>>) + K(r, k, l, <<0, -1>>) + K(r, k, l, <<0, 1>>)) \div 4, r.mink)
Wrap(r, k) == k = -1 \/ k = r.ncx
Other(r, k) == IF k = -1 THEN r.ncx - 1 ELSE IF k = r.ncx THEN 0 ELSE k
(* a face: conductance, and what is on the other side: a cell, a held temperature, a given flow, or nothing *)
Surface(r, k, l, dr) == IF Ty(r, k, l) = 1 THEN [g |-> 2 * Ks(r, k, l) * A(r, dr), kind |-> "held", v |-> Va(r, k, l)] ELSE [g |-> 0, kind |-> "none"]
Face(r, k, l, dr) ==
  LET x == k + dr[1] z == l + dr[2] IN
  IF Inside(r, x, z)
  THEN IF Ty(r, x, z) = Air THEN Surface(r, k, l, dr) ELSE [g |-> K(r, k, l, dr) * A(r, dr), kind |-> "cell", c |-> Cell(r, x, z)]
  ELSE CASE Ty(r, x, z) = 1 -> [g |-> 2 * K(r, k, l, dr) * A(r, dr), kind |-> "held", v |-> Va(r, x, z)]
         [] Ty(r, x, z) = -2 /\ Wrap(r, x) -> IF Ty(r, Other(r, x), l) = Air THEN Surface(r, k, l, dr) ELSE [g |-> K(r, k, l, dr) * A(r, dr), kind |-> "cell", c |-> Cell(r, Other(r, x), l)]
         [] Ty(r, x, z) = 0 /\ dr = <<0, -1>> -> [g |-> 0, kind |-> "flow", q |-> -Va(r, x, z) * r.iz]
         [] OTHER -> [g |-> 0, kind |-> "none"]
Gain(r, T, k, l, dr) ==
  LET f == Face(r, k, l, dr) t == T[Cell(r, k, l)] IN
  CASE f.kind = "cell" -> f.g * (T[f.c] - t)
    [] f.kind = "held" -> f.g * (f.v - t)
    [] f.kind = "flow" -> f.q
    [] OTHER -> 0
Gains(r, T, k, l) == Gain(r, T, k, l, <<-1, 0>>) + Gain(r, T, k, l, <<1, 0>>) + Gain(r, T, k, l, <<0, -1>>) + Gain(r, T, k, l, <<0, 1>>)
Weight(r, k, l) == Face(r, k, l, <<-1, 0>>).g + Face(r, k, l, <<1, 0>>).g + Face(r, k, l, <<0, -1>>).g + Face(r, k, l, <<0, 1>>).g
(* heat stored over the step less what came in: zero *)
Imbalance(r, T0, T1, S, k, l) == LET c == Cell(r, k, l) IN r.C[c] * (T1[c] - T0[c]) - S[c] - Gains(r, T1, k, l)
Closed(r) == \A d \in Cells(r) : \A dr \in Dirs : LET f == Face(r, d[1], d[2], dr) IN f.kind \in {"cell", "none"} \/ (f.kind = "flow" /\ f.q = 0)
Heat(r, T) == SumTo([c \in 1..(r.ncx * r.ncz) |-> IF <<(c-1) % r.ncx, (c-1) \div r.ncx>> \in Cells(r) THEN r.C[c] * T[c] ELSE 0], r.ncx * r.ncz)
(* everything the new temperatures are bounded by when there are no sources *)
Pool(r, T0) == {T0[Cell(r, d[1], d[2])] : d \in Cells(r)} \cup UNION {UNION {LET f == Face(r, d[1], d[2], dr) IN IF f.kind = "held" /\ f.g > 0 THEN {f.v} ELSE {} : dr \in Dirs} : d \in Cells(r)}
Flowing(r) == \E d \in Cells(r) : \E dr \in Dirs : LET f == Face(r, d[1], d[2], dr) IN f.kind = "flow" /\ f.q # 0
Highest(s) == CHOOSE x \in s : \A y \in s : y <= x
Lowest(s) == CHOOSE x \in s : \A y \in s : y >= x
Symmetric(r) == \A d \in Cells(r) : \A dr \in Dirs : LET f == Face(r, d[1], d[2], dr) IN
   f.kind = "cell" => \E b \in Cells(r) : Cell(r, b[1], b[2]) = f.c /\ LET h == Face(r, b[1], b[2], <<-dr[1], -dr[2]>>) IN h.kind = "cell" /\ h.c = Cell(r, d[1], d[2]) /\ h.g = f.g
============================================================================
