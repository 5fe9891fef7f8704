-------------------------- MODULE Numbering_Trace --------------------------
EXTENDS Numbering, TraceLib
VARIABLE i
e == Trace[i]
Num == /\ e.e \in {"Number", "Apply"}
       /\ ChkV("number of unknowns", Counts(e.tu, e.tv, e.tp, e.neq, e.nmom, e.ncont), <<e.neq, e.nmom, e.ncont>>)
       /\ ChkV("every unknown has its own number, without gaps", OneToOne(e.tu, e.tv, e.tp, e.eu, e.ev, e.ep, e.neq, e.nmom), <<e.eu, e.ev, e.ep>>)
       /\ ChkV("nothing else is numbered, periodic copies share", Unnumbered(e.tu, e.tv, e.tp, e.eu, e.ev, e.ep, e.Nx), <<e.eu, e.ev, e.ep>>)
Vec == e.vec = 1 => Chk("the solution vector holds each unknown at its number",
          /\ \A c \in Unk(e.tu, FreeU) : e.x[e.eu[c] + 1] = e.u0[c]
          /\ \A c \in Unk(e.tv, FreeV) : e.x[e.ev[c] + 1] = e.v0[c]
          /\ \A c \in Unk(e.tp, FreeP) : e.x[e.ep[c] + 1] = e.p0[c])
Apply == e.e = "Apply" =>
       /\ ChkV("horizontal velocity moves by its own entry", Moved(e.tu, e.u0, e.u1, e.eu, e.d, e.a, FreeU, e.tol), <<e.u0, e.u1>>)
       /\ ChkV("vertical velocity moves by its own entry", Moved(e.tv, e.v0, e.v1, e.ev, e.d, e.a, FreeV, e.tol), <<e.v0, e.v1>>)
       /\ ChkV("pressure moves by its own entry", Moved(e.tp, e.p0, e.p1, e.ep, e.d, e.a, FreeP, e.tol), <<e.p0, e.p1>>)
       /\ Chk("prescribed and air nodes are left", Kept(e.tu, e.u0, e.u1, {0, 30}) /\ Kept(e.tv, e.v0, e.v1, {0, 30}) /\ Kept(e.tp, e.p0, e.p1, {0, 30, 31}))
       /\ ChkV("the result honours the boundary conditions", HonourU(e.u1, e.tu, e.vu, e.Nx, e.Nz + 1, e.tol) /\ HonourV(e.v1, e.tv, e.vv, e.Nx + 1, e.Nz, e.tol), <<e.u1, e.v1>>)
Init == i = 1
Next == i <= Len(Trace) /\ Num /\ Vec /\ Apply /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
