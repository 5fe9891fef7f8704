--------------------------- MODULE Boundary_Trace ---------------------------
EXTENDS Boundary, TraceLib
VARIABLE i
e == Trace[i]
Nx == e.Nx
Nz == e.Nz
nc == Nx - 1
mc == Nz - 1
Grid(n, m, air, t, v, T, V, P, who) ==
   /\ ChkV(who, T = TypeSet(n, m, air, t), <<T, TypeSet(n, m, air, t)>>)
   /\ \A c \in Nodes(n, m) : air[c+1] = 0 => ChkV(who \o " value", V[c+1] = Stored(t[c+1], v[c+1]), <<c, V[c+1], t[c+1], v[c+1]>>)
   /\ \A c \in Nodes(n, m) : ChkV(who \o " asked at its own position and place", P[c+1] = (IF air[c+1] = 1 THEN -1 ELSE Pos(c, n, m)), <<c, P[c+1]>>)
GhostSet(T, V, off, who) == \A k \in 0..(nc-1) : \A l \in 0..(mc-1) :
   LET c == k + l * nc a == e.airC[c+1] p == Ext(k, l, nc) + 1 w == nc + 2
       Side(p2, pos) == ChkV(who, T[p2] = e.tT[pos+1] /\ V[p2] = TVal(pos, k, l) + off, <<k, l, pos, T[p2], V[p2]>>)
   IN /\ (a = 0 /\ k = 0) => Side(p - 1, W)
      /\ (a = 0 /\ k = nc - 1) => Side(p + 1, E)
      /\ (a = 0 /\ l = 0) => Side(p - w, S)
      /\ (a = 0 /\ l = mc - 1) => Side(p + w, N)
      /\ IF a = 0 /\ l < mc - 1 /\ e.airC[c+1+nc] = 1 THEN Side(p, FREESURF) ELSE ChkV(who \o " inner", T[p] = (IF a = 1 THEN 30 ELSE -1), <<k, l, T[p]>>)
Set == /\ e.e = "Set"
       /\ Chk("an inconsistent set-up is refused", ValidTypes(Nx, Nz + 1, e.airU, e.tu) /\ ValidTypes(Nx + 1, Nz, e.airV, e.tv))
       /\ Grid(Nx, Nz + 1, e.airU, e.tu, e.vu, e.Tu, e.Vu, e.Pu, "Vx types")
       /\ Grid(Nx + 1, Nz, e.airV, e.tv, e.vv, e.Tv, e.Vv, e.Pv, "Vz types")
       /\ \A c \in Nodes(nc, mc) : ChkV("P types", e.Tp[c+1] = PType(c, nc, mc, e.airC, e.hasP, e.tp), <<c, e.Tp[c+1]>>)
       /\ e.hasT = 1 => (Chk("temperature set-up asked with the cell's own place and temperature", e.badT = 0) /\ Chk("composition set-up asked with the composition of the cell", e.badX = 0) /\ GhostSet(e.Tt, e.Vt, 0, "T ghosts") /\ GhostSet(e.Tc, e.Vc, 7, "X ghosts"))
       /\ e.flux = 1 => ChkV("lateral flux", e.west = SeqSum([l \in 1..(Nz+1) |-> IF e.airU[(l-1)*Nx+1] = 1 THEN 0 ELSE e.vu[(l-1)*Nx+1]])
                                         /\ e.east = SeqSum([l \in 1..(Nz+1) |-> IF e.airU[(l-1)*Nx+Nx] = 1 THEN 0 ELSE e.vu[(l-1)*Nx+Nx]]), <<e.west, e.east>>)
Refused == e.e = "Refused" /\ Chk("a consistent set-up is accepted", ~(ValidTypes(Nx, Nz + 1, e.airU, e.tu) /\ ValidTypes(Nx + 1, Nz, e.airV, e.tv)))
Stock == /\ e.e = "Stock"
         /\ \A c \in Nodes(Nx, Nz + 1) : LET q == StockVx(e.style, Pos(c, Nx, Nz + 1), e.x[K(c, Nx) + 1], e.bkg, e.Lz) IN ChkV("stock Vx", e.Tu[c+1] = q[1] /\ (q[1] \in {0, 11, 13} => Near(e.Vu[c+1], Stored(q[1], q[2]), e.tol)), <<c, e.Tu[c+1], e.Vu[c+1], q>>)
         /\ \A c \in Nodes(Nx + 1, Nz) : LET q == StockVz(e.style, Pos(c, Nx + 1, Nz), e.z[L(c, Nx + 1) + 1], e.bkg) IN ChkV("stock Vz", e.Tv[c+1] = q[1] /\ (q[1] \in {0, 11, 13} => Near(e.Vv[c+1], Stored(q[1], q[2]), e.tol)), <<c, e.Tv[c+1], e.Vv[c+1], q>>)
         /\ Chk("stock P", \A c \in Nodes(nc, mc) : e.Tp[c+1] = -1)
Fields == /\ e.e = "Fields"
          /\ ChkV("Vx honours the conditions", HonourU(e.u1, e.tu, e.vu, Nx, Nz + 1, e.tol), <<e.u1, e.tu, e.vu>>)
          /\ ChkV("Vz honours the conditions", HonourV(e.v1, e.tv, e.vv, Nx + 1, Nz, e.tol), <<e.v1, e.tv, e.vv>>)
          /\ e.keep = 1 => Chk("only ghosts are updated", UntouchedU(e.u0, e.u1, e.tu, Nx, Nz + 1) /\ UntouchedV(e.v0, e.v1, e.tv, Nx + 1, Nz))
          /\ e.keep = 2 => Chk("air carries no velocity", (\A c \in DOMAIN e.u1 : e.tu[c] = 30 => e.u1[c] = 0) /\ (\A c \in DOMAIN e.v1 : e.tv[c] = 30 => e.v1[c] = 0))
Init == i = 1
Next == i <= Len(Trace) /\ (Set \/ Refused \/ Stock \/ Fields) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
