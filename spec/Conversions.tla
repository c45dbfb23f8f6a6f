----------------------------- MODULE Conversions -----------------------------
(* A motion that walks through its representations. Each conversion is one    *)
(* step; the state is the exact motion denoted:                               *)
(*   T transform, R rotation, Q quaternion, A angle and axis, E roll pitch    *)
(*   yaw, S six-dimensional position, P planar pose, X three-dimensional and  *)
(*   Y two-dimensional position, D displacement.                              *)
EXTENDS Motions

(* conversion |-> <<from, to, how lossy its floating point evaluation is>>: the *)
(* cosine of half an angle, or the angle of it, near a half-turn or identity  *)
Table == [
  T_R |-> <<"T","R",0>>, T_R_in |-> <<"T","R",0>>,
  R_T |-> <<"R","T",0>>, 
  R_E |-> <<"R","E",0>>, T_E |-> <<"T","E",0>>, Q_E |-> <<"Q","E",0>>, Q_E_in |-> <<"Q","E",0>>,
  E_T |-> <<"E","T",0>>, E_T_nums |-> <<"E","T",0>>, E_T_member |-> <<"E","T",0>>, E_R |-> <<"E","R",0>>, E_R_member |-> <<"E","R",0>>,
  E_Q |-> <<"E","Q",0>>, E_Q_in |-> <<"E","Q",0>>,
  T_S |-> <<"T","S",0>>, T_S_in |-> <<"T","S",0>>, S_T |-> <<"S","T",0>>, S_T_nums |-> <<"S","T",0>>, S_T_member |-> <<"S","T",0>>,
  S_D |-> <<"S","D",0>>,
  T_P |-> <<"T","P",0>>, T_P_in |-> <<"T","P",0>>, P_T |-> <<"P","T",0>>, P_T_in |-> <<"P","T",0>>,
  P_S |-> <<"P","S",0>>, P_S_in |-> <<"P","S",0>>, S_P |-> <<"S","P",0>>, S_P_in |-> <<"S","P",0>>,
  P_Y |-> <<"P","Y",0>>, P_Y_in |-> <<"P","Y",0>>, Y_P |-> <<"Y","P",0>>, T_Y |-> <<"T","Y",0>>, T_Y_in |-> <<"T","Y",0>>,
  T_X |-> <<"T","X",0>>, T_X_in |-> <<"T","X",0>>, X_T |-> <<"X","T",0>>, X_T_rotvec |-> <<"X","T",0>>, X_T_rotvec_in |-> <<"X","T",0>>,
  X_S |-> <<"X","S",0>>, X_S_in |-> <<"X","S",0>>, S_X |-> <<"S","X",0>>,
  Q_T |-> <<"Q","T",0>>, T_Q |-> <<"T","Q",1>>, Q_R |-> <<"Q","R",0>>, Q_R_in |-> <<"Q","R",0>>, Q_R_nums |-> <<"Q","R",0>>, Q_R_member |-> <<"Q","R",0>>,
  Q_A |-> <<"Q","A",1>>, Q_A_list |-> <<"Q","A",1>>, A_Q |-> <<"A","Q",0>>, A_Q_member |-> <<"A","Q",0>>,
  A_R |-> <<"A","R",0>>, A_R_vec |-> <<"A","R",0>>, A_R_member |-> <<"A","R",0>>,
  T_D |-> <<"T","D",1>>, D_T |-> <<"D","T",0>>,
  eigen34 |-> <<"T","T",0>>, eigen34_in |-> <<"T","T",0>>, affine |-> <<"T","T",0>>, eigen3 |-> <<"T","R",0>>, eigenq |-> <<"T","Q",1>>, eigenv |-> <<"X","X",0>>,
  qi |-> <<"T","T",1>>, qiP |-> <<"P","P",0>> ]

RotOnly(mo)   == MkMotion(mo.m, <<0,0,0>>, mo.d)
PosOnly(mo)   == MkMotion(VScale(mo.d, I9), mo.t, mo.d)
FlatPos(mo)   == MkMotion(VScale(mo.d, I9), << mo.t[1], mo.t[2], 0 >>, mo.d)
IsPlanar(mo)  == mo.m[3] = 0 /\ mo.m[6] = 0 /\ mo.m[9] = mo.d
Flattened(mo) == MkMotion(mo.m, << mo.t[1], mo.t[2], 0 >>, mo.d)
(* what remains of the motion in representation r *)
Reduced(r, mo) == CASE r \in { "R", "Q", "A", "E" } -> RotOnly(mo) [] r = "X" -> PosOnly(mo) [] r = "Y" -> FlatPos(mo)
                    [] r = "P" -> Flattened(mo) [] OTHER -> mo
(* a planar pose can not show a rotation out of the plane *)
Exact(r, mo) == r = "P" => IsPlanar(mo)

TurnRot(k, a, b) == LET u == Turn(a, b) IN AxisRot(k, u.c, u.s, u.n)
RpyOf(w) == Compose(TurnRot(3, w[3][1], w[3][2]), Compose(TurnRot(2, w[2][1], w[2][2]), TurnRot(1, w[1][1], w[1][2])))
Placed(mo, t, e) == Compose(MkMotion(VScale(e, I9), t, e), mo)
(* rotation by the angle with cosine c/n and sine s/n about the unit axis u/g *)
AxisAngle(u, g, a, b) ==
  LET w == Turn(a, b) v == w.n - w.c IN
  MkMotion([i \in 1..9 |-> LET r == ((i - 1) \div 3) + 1 c == ((i - 1) % 3) + 1 IN
     v * u[r] * u[c] + (IF r = c THEN w.c * g * g ELSE 0) + w.s * g * (CASE i = 2 -> -u[3] [] i = 3 -> u[2] [] i = 4 -> u[3] [] i = 6 -> -u[1] [] i = 7 -> -u[2] [] i = 8 -> u[1] [] OTHER -> 0)],
     <<0,0,0>>, w.n * g * g)
(* the motion a constructor denotes *)
Made(op) ==
  CASE op.f = "T" -> Motion12(op.v, op.d)
    [] op.f = "R" -> RotOnly(Motion12(op.v, op.d))
    [] op.f \in { "axes_xy", "axes_xz", "axes_yz", "axes_xyz" } -> RotOnly(Motion12(op.v, op.d))
    [] op.f \in { "Q", "Qneg" } -> LET n == NormQ3(op.v, op.d) IN Norm(OfQuaternion(n.q, n.qd))
    \* a small rotation: the terms of second order do not show
    [] op.f = "Qnear" -> [m |-> << op.d, -2 * op.v[3], 2 * op.v[2], 2 * op.v[3], op.d, -2 * op.v[1], -2 * op.v[2], 2 * op.v[1], op.d >>, t |-> <<0,0,0>>, d |-> op.d]
    [] op.f = "D" -> LET n == NormQ3(op.v, op.d) IN Placed(Norm(OfQuaternion(n.q, n.qd)), op.t, op.e)
    [] op.f = "A" -> AxisAngle(op.v, op.d, op.w[1][1], op.w[1][2])
    [] op.f = "E" -> RpyOf(op.w)
    [] op.f = "S" -> Placed(RpyOf(op.w), op.t, op.e)
    [] op.f = "P" -> Placed(TurnRot(3, op.w[1][1], op.w[1][2]), <<op.t[1], op.t[2], 0>>, op.e)
    [] op.f = "polar" -> LET r == TurnRot(3, op.w[1][1], op.w[1][2]) IN Compose(r, MkMotion(VScale(op.e, I9), <<op.t[1], 0, 0>>, op.e))
    [] op.f = "polar_Y" -> LET r == TurnRot(3, op.w[1][1], op.w[1][2]) IN PosOnly(Compose(r, MkMotion(VScale(op.e, I9), <<op.t[1], 0, 0>>, op.e)))
    [] op.f = "X" -> MkMotion(VScale(op.e, I9), op.t, op.e)
    [] op.f \in { "pos_T", "pos_T_member", "pos_T_ctor" } -> MkMotion(VScale(op.e, I9), op.t, op.e)
    [] op.f = "Y" -> MkMotion(VScale(op.e, I9), <<op.t[1], op.t[2], 0>>, op.e)
    [] op.f \in { "rot_T", "rot_T_member", "rot_R", "rot_R_member", "rotvec" } -> TurnRot(op.k, op.w[1][1], op.w[1][2])
    [] op.f = "rot_half" -> TurnRot(op.k, 0, 2)
    [] op.f = "rot_quarter" -> TurnRot(3, 0, 1)
    [] op.f \in { "rotvec_pos", "rotvec_pos_in" } -> Placed(TurnRot(op.k, op.w[1][1], op.w[1][2]), op.t, op.e)
MadeRep(f) ==
  CASE f \in { "T", "rot_T", "rot_T_member", "pos_T", "pos_T_member", "pos_T_ctor", "rotvec", "rotvec_pos", "rotvec_pos_in" } -> "T"
    [] f \in { "R", "rot_R", "rot_R_member", "rot_half", "rot_quarter", "axes_xy", "axes_xz", "axes_yz", "axes_xyz" } -> "R"
    [] f \in { "Q", "Qneg", "Qnear" } -> "Q"
    [] f = "polar" -> "P" [] f = "polar_Y" -> "Y"
    [] OTHER -> f
(* half-open ranges in which roll pitch yaw and angles are unique, in 10^-7 *)
Principal(w) == Abs(Angle(w[1][1], w[1][2])) <= 30000000 /\ Abs(Angle(w[2][1], w[2][2])) <= 12500000 /\ Abs(Angle(w[3][1], w[3][2])) <= 30000000
=============================================================================
