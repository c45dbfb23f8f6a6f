// needs: types/altransform.cpp types/alrotation.cpp types/alquaternion.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation3d.cpp types/aldisplacement.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// A motion that walks through its representations (see spec/Conversions.tla).
#include "common.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/altransform.h>
#include "qi_stub.h"
#include <almath/scenegraph/almatheigen.h>
#include <almath/scenegraph/almathqigeometry.hpp>
using namespace AL::Math;
typedef std::array<double, 12> Mot;  // rotation (row major), translation

struct Any {
  std::string rep;
  Transform T;
  Rotation R;
  Quaternion Q;
  float A[4];
  Rotation3D E;
  Position6D S;
  Pose2D P;
  Position3D X;
  Position2D Y;
  Displacement D;
  Any() {  // nothing an in-place form could mistake for a fresh value
    T.r1_c1 = T.r2_c3 = T.r3_c2 = 7.f, T.r1_c2 = T.r2_c2 = -3.f, T.r3_c1 = 5.f, T.r1_c4 = 40.f, T.r2_c4 = -41.f, T.r3_c4 = 42.f, T.r1_c3 = T.r2_c1 = T.r3_c3 = 2.f;
    R.r1_c1 = R.r2_c3 = R.r3_c2 = 7.f, R.r1_c2 = R.r2_c2 = -3.f, R.r3_c1 = 5.f, R.r1_c3 = R.r2_c1 = R.r3_c3 = 2.f;
    Q = Quaternion(3.f, -4.f, 5.f, 6.f);
    A[0] = A[1] = A[2] = A[3] = 9.f;
    E = Rotation3D(3.f, -2.f, 1.f);
    S = Position6D(31.f, 32.f, -33.f, 3.f, -2.f, 1.f);
    P = Pose2D(21.f, 22.f, 2.5f);
    X = Position3D(11.f, 12.f, 13.f);
    Y = Position2D(14.f, 15.f);
    D = Displacement(Position3D(1.f, 2.f, 3.f), Quaternion(3.f, -4.f, 5.f, 6.f));
  }
};
static const Mot ID = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0};
static Mot of(const Transform &t) { return {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3, t.r1_c4, t.r2_c4, t.r3_c4}; }
static Mot of(const Rotation &t) { return {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3, 0, 0, 0}; }
static Mot of(const Quaternion &q) {
  const double w = q.w, x = q.x, y = q.y, z = q.z;
  return {w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
          2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z, 0, 0, 0};
}
static Mot axis(const float *A) {
  const double c = std::cos((double)A[0]), s = std::sin((double)A[0]), x = A[1], y = A[2], z = A[3], v = 1 - c, n = x * x + y * y + z * z;
  if (std::fabs(n - 1) > 1e-3) return {n, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};  // not an axis
  return {c + v * x * x, v * x * y - s * z, v * x * z + s * y, v * x * y + s * z, c + v * y * y, v * y * z - s * x, v * x * z - s * y, v * y * z + s * x, c + v * z * z, 0, 0, 0};
}
static Mot rpy(double r, double p, double y) {
  const double cr = std::cos(r), sr = std::sin(r), cp = std::cos(p), sp = std::sin(p), cy = std::cos(y), sy = std::sin(y);
  return {cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, -sp, cp * sr, cp * cr, 0, 0, 0};
}
static Mot at(Mot m, double x, double y, double z) { m[9] = x, m[10] = y, m[11] = z; return m; }
static json show(const Any &a) {
  Mot m;
  json o = {{"r", "ok"}, {"rep", a.rep}, {"rpy", {0, 0, 0}}, {"th", 0}};
  const std::string &r = a.rep;
  if (r == "T") m = of(a.T);
  else if (r == "R") m = of(a.R);
  else if (r == "Q") m = of(a.Q);
  else if (r == "A") m = axis(a.A);
  else if (r == "E") m = rpy(a.E.wx, a.E.wy, a.E.wz), o["rpy"] = {fix(a.E.wx, 1e4), fix(a.E.wy, 1e4), fix(a.E.wz, 1e4)};
  else if (r == "S") m = at(rpy(a.S.wx, a.S.wy, a.S.wz), a.S.x, a.S.y, a.S.z), o["rpy"] = {fix(a.S.wx, 1e4), fix(a.S.wy, 1e4), fix(a.S.wz, 1e4)};
  else if (r == "P") m = at(rpy(0, 0, a.P.theta), a.P.x, a.P.y, 0), o["th"] = fix(a.P.theta, 1e4);
  else if (r == "X") m = at(ID, a.X.x, a.X.y, a.X.z);
  else if (r == "Y") m = at(ID, a.Y.x, a.Y.y, 0);
  else m = at(of(a.D.Q), a.D.P.x, a.D.P.y, a.D.P.z);
  json v = json::array();
  for (double x : m) v.push_back(fix(x, 1e4));
  o["m"] = v;
  return o;
}
static float num(const json &v, int i, double d) { return static_cast<float>(v.at(i).get<double>() / d); }
static float angle(const json &w) { return static_cast<float>(w.at(0).get<int>() * std::atan2(4., 3.) + w.at(1).get<int>() * std::acos(0.)); }
static Position3D column(const json &v, int i, double d) { return Position3D(num(v, i, d), num(v, i + 3, d), num(v, i + 6, d)); }
static const int MASK[] = {AXIS_MASK_X, AXIS_MASK_Y, AXIS_MASK_Z};

// a matrix given to four digits is made a rotation again
static json rounded(const json &op) {
  json o = op;
  const std::string f = op.at("f");
  if (op.value("d", 0) == 10000 && (f == "T" || f == "R" || f[0] == 'a'))
    for (int r = 0; r < 3; ++r) {
      double n = 0;
      for (int c = 0; c < 3; ++c) n += std::pow(op["v"][3 * r + c].get<double>(), 2);
      for (int c = 0; c < 3; ++c) o["v"][3 * r + c] = op["v"][3 * r + c].get<double>() * 1e4 / std::sqrt(n);
    }
  return o;
}
static void make(const json &given, Any &a) {
  const json op = rounded(given);
  const std::string f = op.at("f");
  auto t = [&](int i) { return num(op.at("t"), i, op.at("e")); };
  auto v = [&](int i) { return num(op.at("v"), i, op.at("d")); };
  auto w = [&](int i) { return angle(op.at("w").at(i)); };
  a = Any();
  if (f == "T") {
    a.rep = "T";
    a.T.r1_c1 = v(0), a.T.r1_c2 = v(1), a.T.r1_c3 = v(2), a.T.r2_c1 = v(3), a.T.r2_c2 = v(4), a.T.r2_c3 = v(5), a.T.r3_c1 = v(6), a.T.r3_c2 = v(7), a.T.r3_c3 = v(8);
    a.T.r1_c4 = v(9), a.T.r2_c4 = v(10), a.T.r3_c4 = v(11);
  } else if (f == "R") {
    a.rep = "R";
    a.R.r1_c1 = v(0), a.R.r1_c2 = v(1), a.R.r1_c3 = v(2), a.R.r2_c1 = v(3), a.R.r2_c2 = v(4), a.R.r2_c3 = v(5), a.R.r3_c1 = v(6), a.R.r3_c2 = v(7), a.R.r3_c3 = v(8);
  } else if (f.substr(0, 5) == "axes_") {
    a.rep = "R";
    const json &m = op.at("v");
    const double d = op.at("d");
    const Position3D x = column(m, 0, d), y = column(m, 1, d), z = column(m, 2, d);
    a.R = f == "axes_xy" ? rotationFromAxesXY(x, y) : f == "axes_xz" ? rotationFromAxesXZ(x, z) : f == "axes_yz" ? rotationFromAxesYZ(y, z) : rotationFromAxesXYZ(x, y, z);
  } else if (f == "Q") a.rep = "Q", a.Q = Quaternion(v(0), v(1), v(2), v(3));
  else if (f == "Qnear") a.rep = "Q", a.Q = Quaternion(1.f, v(0), v(1), v(2));
  else if (f == "Qneg") a.rep = "Q", a.Q = Quaternion(-v(0), -v(1), -v(2), -v(3));
  else if (f == "D") a.rep = "D", a.D = Displacement(Position3D(t(0), t(1), t(2)), Quaternion(v(0), v(1), v(2), v(3)));
  else if (f == "A") a.rep = "A", a.A[0] = w(0), a.A[1] = v(0), a.A[2] = v(1), a.A[3] = v(2);
  else if (f == "E") a.rep = "E", a.E = Rotation3D(w(0), w(1), w(2));
  else if (f == "S") a.rep = "S", a.S = Position6D(t(0), t(1), t(2), w(0), w(1), w(2));
  else if (f == "P") a.rep = "P", a.P = Pose2D(t(0), t(1), w(0));
  else if (f == "polar") a.rep = "P", a.P = Pose2D::fromPolarCoordinates(t(0), w(0));
  else if (f == "polar_Y") a.rep = "Y", a.Y = Position2D::fromPolarCoordinates(t(0), w(0));
  else if (f == "X") a.rep = "X", a.X = Position3D(t(0), t(1), t(2));
  else if (f == "Y") a.rep = "Y", a.Y = Position2D(t(0), t(1));
  else if (f == "pos_T") a.rep = "T", a.T = transformFromPosition(t(0), t(1), t(2));
  else if (f == "pos_T_member") a.rep = "T", a.T = Transform::fromPosition(t(0), t(1), t(2));
  else if (f == "pos_T_ctor") a.rep = "T", a.T = Transform(t(0), t(1), t(2));
  else {
    const int k = op.at("k").get<int>() - 1;
    if (k < 0 || k > 2) throw BadInput("axis");
    const float th = op.contains("w") ? w(0) : 0.f;
    if (f == "rot_T") a.rep = "T", a.T = k == 0 ? transformFromRotX(th) : k == 1 ? transformFromRotY(th) : transformFromRotZ(th);
    else if (f == "rot_T_member") a.rep = "T", a.T = k == 0 ? Transform::fromRotX(th) : k == 1 ? Transform::fromRotY(th) : Transform::fromRotZ(th);
    else if (f == "rot_R") a.rep = "R", a.R = k == 0 ? rotationFromRotX(th) : k == 1 ? rotationFromRotY(th) : rotationFromRotZ(th);
    else if (f == "rot_R_member") a.rep = "R", a.R = k == 0 ? Rotation::fromRotX(th) : k == 1 ? Rotation::fromRotY(th) : Rotation::fromRotZ(th);
    else if (f == "rot_half") a.rep = "R", a.R = k == 0 ? Rotation::fromRotXPi() : k == 1 ? Rotation::fromRotYPi() : Rotation::fromRotZPi();
    else if (f == "rot_quarter") a.rep = "R", a.R = Rotation::fromRotZHalfPi();
    else if (f == "rotvec") a.rep = "T", a.T = transformFromRotVec(MASK[k], th);
    else if (f == "rotvec_pos") a.rep = "T", a.T = transformFromRotVec(MASK[k], th, Position3D(t(0), t(1), t(2)));
    else if (f == "rotvec_pos_in") a.rep = "T", transformFromRotVecInPlace(MASK[k], th, Position3D(t(0), t(1), t(2)), a.T);
    else throw BadInput("make " + f);
  }
}

typedef std::function<void(const Any &, Any &)> Step;
#define STEP [](const Any &a, Any &b)
static const std::map<std::string, Step> STEPS = {
  {"T_R", STEP { b.R = rotationFromTransform(a.T); }}, {"T_R_in", STEP { rotationFromTransformInPlace(a.T, b.R); }},
  {"R_T", STEP { b.T = transformFromRotation(a.R); }},
  {"R_E", STEP { b.E = rotation3DFromRotation(a.R); }}, {"T_E", STEP { b.E = rotation3DFromTransform(a.T); }},
  {"Q_E", STEP { b.E = rotation3DFromQuaternion(a.Q); }}, {"Q_E_in", STEP { rotation3DFromQuaternion(a.Q, b.E); }},
  {"E_T", STEP { b.T = transformFromRotation3D(a.E); }}, {"E_T_nums", STEP { b.T = transformFrom3DRotation(a.E.wx, a.E.wy, a.E.wz); }},
  {"E_T_member", STEP { b.T = Transform::from3DRotation(a.E.wx, a.E.wy, a.E.wz); }},
  {"E_R", STEP { b.R = rotationFrom3DRotation(a.E.wx, a.E.wy, a.E.wz); }}, {"E_R_member", STEP { b.R = Rotation::from3DRotation(a.E.wx, a.E.wy, a.E.wz); }},
  {"E_Q", STEP { b.Q = quaternionFromRotation3D(a.E); }}, {"E_Q_in", STEP { quaternionFromRotation3D(a.E, b.Q); }},
  {"T_S", STEP { b.S = position6DFromTransform(a.T); }}, {"T_S_in", STEP { position6DFromTransformInPlace(a.T, b.S); }},
  {"S_T", STEP { b.T = transformFromPosition6D(a.S); }}, {"S_T_nums", STEP { b.T = transformFromPosition(a.S.x, a.S.y, a.S.z, a.S.wx, a.S.wy, a.S.wz); }},
  {"S_T_member", STEP { b.T = Transform::fromPosition(a.S.x, a.S.y, a.S.z, a.S.wx, a.S.wy, a.S.wz); }},
  {"S_D", STEP { quaternionPosition3DFromPosition6D(a.S, b.D.Q, b.D.P); }},
  {"T_P", STEP { b.P = pose2DFromTransform(a.T); }}, {"T_P_in", STEP { pose2DFromTransformInPlace(a.T, b.P); }},
  {"P_T", STEP { b.T = transformFromPose2D(a.P); }}, {"P_T_in", STEP { transformFromPose2DInPlace(a.P, b.T); }},
  {"P_S", STEP { b.S = position6DFromPose2D(a.P); }}, {"P_S_in", STEP { position6DFromPose2DInPlace(a.P, b.S); }},
  {"S_P", STEP { b.P = pose2DFromPosition6D(a.S); }}, {"S_P_in", STEP { pose2DFromPosition6DInPlace(a.S, b.P); }},
  {"P_Y", STEP { b.Y = position2DFromPose2D(a.P); }}, {"P_Y_in", STEP { position2DFromPose2DInPlace(a.P, b.Y); }},
  {"Y_P", STEP { b.P = pose2DFromPosition2D(a.Y, 0.f); }},
  {"T_Y", STEP { b.Y = position2DFromTransform(a.T); }}, {"T_Y_in", STEP { position2DFromTransformInPlace(a.T, b.Y); }},
  {"T_X", STEP { b.X = position3DFromTransform(a.T); }}, {"T_X_in", STEP { position3DFromTransformInPlace(a.T, b.X); }},
  {"X_T", STEP { b.T = transformFromPosition3D(a.X); }}, {"X_T_rotvec", STEP { b.T = transformFromRotVec(a.X); }}, {"X_T_rotvec_in", STEP { transformFromRotVecInPlace(a.X, b.T); }},
  {"X_S", STEP { b.S = position6DFromPosition3D(a.X); }}, {"X_S_in", STEP { position6DFromPosition3DInPlace(a.X, b.S); }},
  {"S_X", STEP { b.X = position3DFromPosition6D(a.S); }},
  {"Q_T", STEP { b.T = transformFromQuaternion(a.Q); }}, {"T_Q", STEP { b.Q = quaternionFromTransform(a.T); }},
  {"Q_R", STEP { b.R = rotationFromQuaternion(a.Q); }}, {"Q_R_in", STEP { rotationFromQuaternion(a.Q, b.R); }},
  {"Q_R_nums", STEP { b.R = rotationFromQuaternion(a.Q.w, a.Q.x, a.Q.y, a.Q.z); }}, {"Q_R_member", STEP { b.R = Rotation::fromQuaternion(a.Q.w, a.Q.x, a.Q.y, a.Q.z); }},
  {"Q_A", STEP { angleAndAxisRotationFromQuaternion(a.Q, b.A[0], b.A[1], b.A[2], b.A[3]); }},
  {"Q_A_list", STEP {
     const std::vector<float> v = angleAndAxisRotationFromQuaternion(a.Q);
     for (int i = 0; i < 4; ++i) b.A[i] = v.at(i);
   }},
  {"A_Q", STEP { b.Q = quaternionFromAngleAndAxisRotation(a.A[0], a.A[1], a.A[2], a.A[3]); }}, {"A_Q_member", STEP { b.Q = Quaternion::fromAngleAndAxisRotation(a.A[0], a.A[1], a.A[2], a.A[3]); }},
  {"A_R", STEP { b.R = rotationFromAngleDirection(a.A[0], a.A[1], a.A[2], a.A[3]); }}, {"A_R_vec", STEP { b.R = rotationFromAngleDirection(a.A[0], Position3D(a.A[1], a.A[2], a.A[3])); }},
  {"A_R_member", STEP { b.R = Rotation::fromAngleDirection(a.A[0], a.A[1], a.A[2], a.A[3]); }},
  {"T_D", STEP { b.D = displacementFromTransform(a.T); }}, {"D_T", STEP { b.T = transformFromDisplacement(a.D); }},
  {"eigen34", STEP { b.T = toALMathTransform(toEigenMatrix34(a.T)); }}, {"eigen34_in", STEP { toALMathTransform(toEigenMatrix34(a.T), b.T); }},
  {"affine", STEP { b.T = toALMathTransform(toEigenAffineCompact3(a.T)); }},
  {"eigen3", STEP {
     const Eigen::Matrix3f m = toEigenMatrix3(a.T);
     b.R.r1_c1 = m(0, 0), b.R.r1_c2 = m(0, 1), b.R.r1_c3 = m(0, 2), b.R.r2_c1 = m(1, 0), b.R.r2_c2 = m(1, 1), b.R.r2_c3 = m(1, 2), b.R.r3_c1 = m(2, 0), b.R.r3_c2 = m(2, 1), b.R.r3_c3 = m(2, 2);
   }},
  {"eigenq", STEP { const auto q = toEigenQuaternion<float>(a.T); b.Q = Quaternion(q.w(), q.x(), q.y(), q.z()); }},
  {"eigenv", STEP { b.X = toALMathPosition3D(toEigenVector3(a.X)); }},
  {"qi", STEP { b.T = transformFromQiTransform(qiTransformFromALMath(a.T)); }}, {"qiP", STEP { b.P = pose2DFromQiTransform(qiTransformFromPose2D(a.P)); }},
};

static json run(const json &h) {
  Any a;
  json out = json::array();
  for (const json &op : h.at("ops")) {
    const std::string o = op.at("op");
    auto t = [&](int i) { return num(op.at("t"), i, op.at("e")); };
    try {
      if (o == "make") make(op, a);
      else if (o == "to") {
        const std::string f = op.at("f"), to = op.at("to");
        if (!STEPS.count(f)) throw BadInput("conversion " + f);
        Any b;
        STEPS.at(f)(a, b);
        b.rep = to;
        a = b;
      } else if (o == "rot_into") {
        Any b;
        b.rep = "T";
        b.T.r1_c4 = t(0), b.T.r2_c4 = t(1), b.T.r3_c4 = t(2);
        transformFromRotationInPlace(a.R, b.T);
        a = b;
      } else if (o == "pos_into") {
        Any b;
        json m = op;
        m["f"] = "T";
        for (int i = 0; i < 3; ++i) m["v"].push_back(7);
        make(m, b);
        transformFromPosition3DInPlace(a.X, b.T);
        a = b;
      } else if (o == "with_pos") {
        Any b;
        b.rep = "T";
        b.T = op.at("g") == "nums" ? transformFromRotationPosition3D(a.R, t(0), t(1), t(2)) : transformFromRotationPosition3D(a.R, Position3D(t(0), t(1), t(2)));
        a = b;
      } else if (o == "with_angle") {
        Any b;
        b.rep = "P";
        if (op.at("g") == "in") pose2DFromPosition2DInPlace(a.Y, angle(op.at("w").at(0)), b.P);
        else b.P = pose2DFromPosition2D(a.Y, angle(op.at("w").at(0)));
        a = b;
      } else if (o == "bad_axis") {
        const float x = num(op.at("v"), 0, op.at("d")), y = num(op.at("v"), 1, op.at("d")), z = num(op.at("v"), 2, op.at("d")), th = angle(op.at("w").at(0));
        if (op.at("g") == "member") Rotation::fromAngleDirection(th, x, y, z);
        else if (op.at("g") == "vec") rotationFromAngleDirection(th, Position3D(x, y, z));
        else rotationFromAngleDirection(th, x, y, z);
      } else
        throw BadInput("op " + o);
      out.push_back(show(a));
    } catch (const BadInput &) {
      throw;
    } catch (const json::exception &) {
      throw;
    } catch (const std::exception &) {
      out.push_back({{"r", "throw"}, {"rep", ""}, {"m", json::array()}, {"rpy", {0, 0, 0}}, {"th", 0}});
    }
  }
  return {{"ops", h.at("ops")}, {"obs", out}};
}

int main(int argc, char **argv) { return run_histories(argc, argv, run); }
