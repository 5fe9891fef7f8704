------------------------- MODULE Constitutive_MC -------------------------
(* A material point strained, heated, pressed and loaded step by step: strength, melt, density and stress stay within bounds and change without jumps. *)
EXTENDS Constitutive
CONSTANTS Kind, Break
VARIABLES s, x, y
vars == <<s, x, y>>
(* softening *)
Law(v0, v1, a, b, z) == IF Break = "overshoot" /\ z >= a /\ z < b THEN v0 + ((v1 - v0) * z) \div (b - a) ELSE Soften(v0, v1, a, b, z)
SoftInit == \E v0 \in 0..6 : \E v1 \in 0..6 : \E a \in 0..4 : \E b \in (a+1)..7 : s = <<v0 * 84, v1 * 84, a, b>> /\ x = 0 /\ y = Law(v0 * 84, v1 * 84, a, b, 0)
SoftNext == x < 9 /\ \E d \in 0..2 : x' = x + d /\ y' = Law(s[1], s[2], s[3], s[4], x + d) /\ UNCHANGED s
SoftBound == Kind = "soft" => Within(y, s[1], s[2], 0) /\ (x < s[3] => y = s[1]) /\ (x >= s[4] => y = s[2])
SoftStep == Kind = "soft" => /\ (s[1] >= s[2] => y' <= y) /\ (s[1] <= s[2] => y' >= y)
                             /\ Abs(y' - y) * (s[4] - s[3]) <= Abs(s[1] - s[2]) * (x' - x) + (s[4] - s[3])
(* melting: heated and pressed; relaxes towards the equilibrium fraction *)
Eq(m, p, t) == IF Break = "comma" /\ m = 11 /\ p <= 1200 THEN LET so == Min2(88900 - Recip(17900, p + 54) + 2000, Liquidus(m, p) - 10000) IN Mul(t - so, ONE, Liquidus(m, p) - so) ELSE Equilibrium(m, p, t, (t - 87315) \div 693)
Ps == {1, 53, 200, 600, 1000, 1200, 1201, 1600, 1601, 3000, 6000, 9999, 10000, 10001, 12000}
MeltInit == \E m \in {1, 10, 11, 40, 41} : \E p \in Ps : \E tau \in {0, 2} : s = <<m, p, tau>> /\ x = 70000 /\ y = 0
MeltNext == x < 260000 /\ \E d \in {9000, 24000} : x' = x + d /\ y' = Relaxed(Eq(s[1], s[2], x + d), y, s[3], 1) /\ UNCHANGED s
MeltBound == Kind = "melt" => /\ y \in 0..ONE
                              /\ (s[1] # 1 /\ x <= Solidus(s[1], s[2]) => y = 0) /\ (s[3] = 0 /\ s[1] # 1 /\ x >= Liquidus(s[1], s[2]) => y >= ONE - 10)
MeltStep == Kind = "melt" => y' >= y \/ x' = x
(* solidus and liquidus: ordered, without jumps larger than the published ones (12 K), nor in the model *)
Curves == Kind = "melt" /\ x = 70000 => \A m \in {10, 11, 40, 41} :
   /\ \A p \in Ps : Solidus(m, p) <= Liquidus(m, p) - 10000
   /\ \A q \in {1200, 1600, 10000} : Near(Solidus(m, q), Solidus(m, q + 1), 1200)
   /\ \A t \in {95000, 100000, 120000} : Near(Eq(11, 1200, t), Eq(11, 1201, t), 100)
(* tables *)
Vs == {0, 3, 8}
TabInit == \E v \in [1..6 -> Vs] : \E i \in 0..1 : \E j \in 0..0 : \E r \in {0, 3, 8} : s = <<v, i, j, r>> /\ x = 0 /\ y = Table2(v, 3, i, 0, j, r)
TabNext == x < 8 /\ x' = x + 1 /\ y' = Table2(s[1], 3, s[2], x + 1, s[3], s[4]) /\ UNCHANGED s
Corner(a, b) == s[1][1 + s[2] + a + (s[3] + b) * 3]
TabBound == Kind = "table" => /\ \E c \in {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>} : y <= 64 * Corner(c[1], c[2])
                              /\ \E c \in {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>} : y >= 64 * Corner(c[1], c[2])
                              /\ (x = 0 /\ s[4] = 0 => y = 64 * Corner(0, 0)) /\ (x = 8 /\ s[4] = 8 => y = 64 * Corner(1, 1))
                              /\ (x = 8 /\ s[2] = 0 => y = Table2(s[1], 3, 1, 0, s[3], s[4]))
TabStep == Kind = "table" => Abs(y' - y) <= 64
(* loading: constant viscosity v (unit 1), spring h, viscoplastic v2; strength Y grows with pressure by dilation d *)
LoadInit == \E v \in {1, 2, 4} : \E v2 \in {0, 1, 3} : \E c \in {0, 24, 96} : \E d \in {0, 2} : s = <<v, v2, c, d>> /\ x = 0 /\ y = <<0, 0>>
(* e: strain rate; trial 2 v e; T = trial - v g, T = c + d g + v2 g *)
Return(q, e) == LET tv == 2 * q[1] * e IN IF tv <= q[3] THEN <<tv, 0>> ELSE LET den == q[1] + q[2] + q[4]  g == ((tv - q[3]) * 420) \div den IN <<IF Break = "sum" THEN q[3] + ((2 * q[2] + q[4]) * g) \div 420 ELSE tv - (q[1] * g) \div 420, g>>
LoadNext == x < 60 /\ \E d \in {0, 1, 5} : x' = x + d /\ y' = Return(s, x + d) /\ UNCHANGED s
LoadBound == Kind = "load" => /\ y[1] <= 2 * s[1] * x /\ y[2] >= 0 /\ y[1] >= Min2(2 * s[1] * x, s[3])
                              /\ y[1] <= s[3] + ((s[2] + s[4]) * y[2]) \div 420 + 1
LoadStep == Kind = "load" => y'[1] >= y[1] /\ y'[1] - y[1] <= 2 * s[1] * (x' - x) + 1
(* creep: heavier stress, more strain rate; more mechanisms, more strain rate *)
CreepInit == \E b1 \in {-4, -1, 0, 1, 3} : \E n1 \in 1..3 : \E b2 \in {-2, 0, 2} : \E n2 \in {1, 4} : s = <<[b |-> b1, n |-> n1], [b |-> b2, n |-> n2]>> /\ x = 0 /\ y = 0
CreepNext == x < 12000 /\ x' = x + 500 /\ y' = Rate(s, x + 500, 2) /\ UNCHANGED s
CreepBound == Kind = "creep" => y >= Creep(s[1], x) /\ y >= Creep(s[2], x)
CreepStep == Kind = "creep" => y' >= y
Init == CASE Kind = "soft" -> SoftInit [] Kind = "melt" -> MeltInit [] Kind = "table" -> TabInit [] Kind = "load" -> LoadInit [] Kind = "creep" -> CreepInit
Next == CASE Kind = "soft" -> SoftNext [] Kind = "melt" -> MeltNext [] Kind = "table" -> TabNext [] Kind = "load" -> LoadNext [] Kind = "creep" -> CreepNext
Spec == Init /\ [][Next]_vars
Bounds == SoftBound /\ MeltBound /\ Curves /\ TabBound /\ LoadBound /\ CreepBound
Smooth == [][SoftStep /\ MeltStep /\ TabStep /\ LoadStep /\ CreepStep]_vars
===========================================================================
