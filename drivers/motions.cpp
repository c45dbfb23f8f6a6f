// needs: types/altransform.cpp types/alrotation.cpp types/alquaternion.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation3d.cpp types/aldisplacement.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// Programs over registers of one kind of motion (see spec/Motions.tla).
#include "common.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/types/altransform.h>
#include <type_traits>
#include "qi_stub.h"
#include <almath/scenegraph/qigeometry.h>
using namespace AL::Math;
static const double TOL = 0.25;

// a transform of qi::geometry
struct G {
  qi::geometry::Transform t;
  G() : t(qi::geometry::makeTransform(qi::geometry::makeQuaternion(0, 0, 0, 1), qi::geometry::makeVector3(0, 0, 0))) {}
  G operator*(const G &o) const { G r; r.t = t * o.t; return r; }
  G &operator*=(const G &o) { t = t * o.t; return *this; }
};
static std::vector<double> flat(const G &g) {
  const auto &q = g.t.rotation;
  const auto &p = g.t.translation;
  return {q.w, q.x, q.y, q.z, p.x, p.y, p.z};
}

static std::vector<double> flat(const Transform &t) {
  return {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3, t.r1_c4, t.r2_c4, t.r3_c4};
}
static std::vector<double> flat(const Rotation &r) { return {r.r1_c1, r.r1_c2, r.r1_c3, r.r2_c1, r.r2_c2, r.r2_c3, r.r3_c1, r.r3_c2, r.r3_c3}; }
static std::vector<double> flat(const Quaternion &q) { return {q.w, q.x, q.y, q.z}; }
static std::vector<double> flat(const Pose2D &p) { return {p.x, p.y, std::cos((double)p.theta), std::sin((double)p.theta)}; }
static std::vector<double> flat(const Displacement &p) { return {p.Q.w, p.Q.x, p.Q.y, p.Q.z, p.P.x, p.P.y, p.P.z}; }
static void angle(json &o, const Pose2D &p) { o["th"] = fix(p.theta, 1e5); }
template <typename M> static void angle(json &, const M &) {}

static float num(const json &v, int i, double d) { return static_cast<float>(v.at(i).get<double>() / d); }
static void load(Transform &t, const json &x) {
  const json &v = x.at("v");
  const double d = x.at("d");
  t.r1_c1 = num(v, 0, d), t.r1_c2 = num(v, 1, d), t.r1_c3 = num(v, 2, d);
  t.r2_c1 = num(v, 3, d), t.r2_c2 = num(v, 4, d), t.r2_c3 = num(v, 5, d);
  t.r3_c1 = num(v, 6, d), t.r3_c2 = num(v, 7, d), t.r3_c3 = num(v, 8, d);
  t.r1_c4 = num(v, 9, d), t.r2_c4 = num(v, 10, d), t.r3_c4 = num(v, 11, d);
}
static void load(Rotation &t, const json &x) {
  const json &v = x.at("v");
  const double d = x.at("d");
  t.r1_c1 = num(v, 0, d), t.r1_c2 = num(v, 1, d), t.r1_c3 = num(v, 2, d);
  t.r2_c1 = num(v, 3, d), t.r2_c2 = num(v, 4, d), t.r2_c3 = num(v, 5, d);
  t.r3_c1 = num(v, 6, d), t.r3_c2 = num(v, 7, d), t.r3_c3 = num(v, 8, d);
}
static void load(Quaternion &q, const json &x) {
  const json &v = x.at("v");
  const double d = x.at("d");
  q = Quaternion(num(v, 0, d), num(v, 1, d), num(v, 2, d), num(v, 3, d));
}
static void load(Pose2D &p, const json &x) {
  const json &v = x.at("v");
  const double d = x.at("d");
  p = Pose2D(num(v, 0, d), num(v, 1, d), static_cast<float>(x.at("a").get<int>() * std::atan2(4., 3.) + x.at("b").get<int>() * std::acos(0.)));
}

static void load(Displacement &p, const json &x) {
  const json &v = x.at("v"), &t = x.at("t");
  const double d = x.at("d"), e = x.at("e");
  p = Displacement(Position3D(num(t, 0, e), num(t, 1, e), num(t, 2, e)), Quaternion(num(v, 0, d), num(v, 1, d), num(v, 2, d), num(v, 3, d)));
}

static void load(G &g, const json &x) {
  const json &v = x.at("v"), &t = x.at("t");
  const double d = x.at("d"), e = x.at("e");
  using namespace qi::geometry;
  qi::geometry::Quaternion q = makeQuaternion(v.at(1).get<int>() / d, v.at(2).get<int>() / d, v.at(3).get<int>() / d, v.at(0).get<int>() / d);
  if (x.contains("w")) q = makeQuaternionFromAngleAxis(2 * (x.at("w").at(0).get<int>() * std::atan2(4., 3.) + x.at("w").at(1).get<int>() * std::acos(0.)),
                                                     makeVector3(x.at("u").at(0), x.at("u").at(1), x.at("u").at(2)));
  g.t = makeTransform(q, makeVector3(t.at(0).get<int>() / e, t.at(1).get<int>() / e, t.at(2).get<int>() / e));
}
[[noreturn]] static void unknown(const std::string &f) { throw BadInput("unknown form " + f); }

// products
static void pre(const Transform &a, Transform &b) { transformPreMultiply(a, b); }
template <typename M> static void pre(const M &, M &) { unknown("pre"); }
// inverses
static void inv(const std::string &f, const Transform &a, Transform &r) {
  if (f == "member") r = a.inverse();
  else if (f == "free") transformInverse(a, r);
  else if (f == "free2") r = transformInverse(a);
  else if (f == "pinv") r = pinv(a);
  else if (f == "inplace") transformInvertInPlace(r);
  else unknown(f);
}
static void inv(const std::string &f, const Rotation &a, Rotation &r) {
  if (f == "member") r = a.transpose();
  else if (f == "free2") r = transpose(a);
  else unknown(f);
}
static void inv(const std::string &f, const Quaternion &a, Quaternion &r) {
  if (f == "member") r = a.inverse();
  else if (f == "free") quaternionInverse(a, r);
  else if (f == "free2") r = quaternionInverse(a);
  else unknown(f);
}
static void inv(const std::string &f, const Pose2D &a, Pose2D &r) {
  if (f == "member") r = a.inverse();
  else if (f == "free") pose2DInverse(a, r);
  else if (f == "free2") r = pose2DInverse(a);
  else if (f == "pinv") r = pinv(a);
  else if (f == "inplace") pose2dInvertInPlace(r);
  else unknown(f);
}
static void inv(const std::string &, const G &a, G &r) { r.t = inverse(a.t); }
template <typename M> static void inv(const std::string &f, const M &, M &) { unknown(f); }
static Transform diff(const std::string &f, const Transform &a, const Transform &b) { return f == "member" ? a.diff(b) : transformDiff(a, b); }
static Pose2D diff(const std::string &f, const Pose2D &a, const Pose2D &b) { return f == "member" ? a.diff(b) : pose2dDiff(a, b); }
template <typename M> static M diff(const std::string &f, const M &, const M &) { unknown(f); }
// normalising
static void normalise(const std::string &f, Transform &a) { f == "member" ? a.normalizeTransform() : normalizeTransform(a); }
static void normalise(const std::string &f, Rotation &a) { f == "member" ? a.normalizeRotation() : normalizeRotation(a); }
static void normalise(const std::string &f, Quaternion &a) { a = f == "member" ? a.normalize() : normalize(a); }
static void normalise(const std::string &f, G &a) {
  if (f == "member") qi::geometry::normalize(a.t.rotation);
  else a.t.rotation = qi::geometry::normalized(a.t.rotation);
}
template <typename M> static void normalise(const std::string &f, M &) { unknown(f); }
// columns (or the whole) scaled before normalising
static void scale(Transform &t, const json &s) {
  const float x = s.at(0), y = s.at(1), z = s.at(2);
  t.r1_c1 *= x, t.r2_c1 *= x, t.r3_c1 *= x, t.r1_c2 *= y, t.r2_c2 *= y, t.r3_c2 *= y, t.r1_c3 *= z, t.r2_c3 *= z, t.r3_c3 *= z;
}
static void scale(Rotation &t, const json &s) {
  const float x = s.at(0), y = s.at(1), z = s.at(2);
  t.r1_c1 *= x, t.r2_c1 *= x, t.r3_c1 *= x, t.r1_c2 *= y, t.r2_c2 *= y, t.r3_c2 *= y, t.r1_c3 *= z, t.r2_c3 *= z, t.r3_c3 *= z;
}
static void scale(Quaternion &q, const json &s) {
  const float x = s.at(0);
  q = Quaternion(q.w * x, q.x * x, q.y * x, q.z * x);
}
static void scale(G &g, const json &s) {
  const double x = s.at(0);
  auto &q = g.t.rotation;
  q.w *= x, q.x *= x, q.y *= x, q.z *= x;
}
template <typename M> static void scale(M &, const json &) { unknown("scale"); }
// acting on points
static std::vector<double> act(const std::string &f, const Transform &t, float x, float y, float z) {
  if (f == "flat") {
    const Position3D p = t * Position2D(x, y);
    return {p.x, p.y, p.z};
  }
  const Position3D p = t * Position3D(x, y, z);
  return {p.x, p.y, p.z};
}
static std::vector<double> act(const std::string &f, const Rotation &t, float x, float y, float z) {
  if (f == "velocity") {
    const Velocity3D p = t * Velocity3D(x, y, z);
    return {p.xd, p.yd, p.zd};
  }
  if (f == "inplace") {
    applyRotation(t, x, y, z);
    return {x, y, z};
  }
  const Position3D p = t * Position3D(x, y, z);
  return {p.x, p.y, p.z};
}
static std::vector<double> act(const std::string &, const Quaternion &t, float x, float y, float z) {
  const Position3D p = t * Position3D(x, y, z);
  return {p.x, p.y, p.z};
}
static std::vector<double> act(const std::string &, const Pose2D &t, float x, float y, float) {
  const Position2D p = t * Position2D(x, y);
  return {p.x, p.y};
}
static std::vector<double> act(const std::string &, const G &g, float x, float y, float z) {
  const Eigen::Vector3d p = toEigenAffine3d(g.t) * Eigen::Vector3d(x, y, z);
  return {p.x(), p.y(), p.z()};
}
template <typename M> static std::vector<double> act(const std::string &f, const M &, float, float, float) { unknown(f); }
// measures
static json roots(double v, double L) { return {fix(v, L), fix(v, 10 * L), fix(v, 100 * L)}; }
static bool is(const Transform &t, float e) { return t.isTransform(e); }
static bool is(const Rotation &t, float e) { return t.isRotation(e); }
static bool is(const G &g, float e) { return qi::geometry::isNormalized(g.t.rotation, e); }
template <typename M> static bool is(const M &, float) { unknown("is"); }
static double det(const std::string &f, const Transform &t) {
  if (f == "member") return t.determinant();
  if (f == "free") return determinant(t);
  std::vector<float> v;
  t.toVector(v);
  if (f == "twelve") v.resize(12);
  return determinant(v);
}
static double det(const std::string &f, const Rotation &t) { return f == "member" ? t.determinant() : determinant(t); }
template <typename M> static double det(const std::string &, const M &) { unknown("det"); }
static double nrm(const std::string &f, const Transform &t) { return f == "member" ? t.norm() : norm(t); }
static double nrm(const std::string &f, const Quaternion &t) { return f == "member" ? t.norm() : norm(t); }
static double nrm(const std::string &, const Pose2D &t) { return t.norm(); }
static double nrm(const std::string &, const G &g) { return qi::geometry::norm(g.t.rotation); }
template <typename M> static double nrm(const std::string &, const M &) { unknown("norm"); }
static double dist(const std::string &f, const Transform &a, const Transform &b) { return f == "member" ? a.distance(b) : transformDistance(a, b); }
static double dist(const std::string &f, const Pose2D &a, const Pose2D &b) { return f == "member" ? a.distance(b) : distance(a, b); }
template <typename M> static double dist(const std::string &, const M &, const M &) { unknown("dist"); }
static double distsq(const std::string &f, const Transform &a, const Transform &b) { return f == "member" ? a.distanceSquared(b) : transformDistanceSquared(a, b); }
static double distsq(const std::string &f, const Pose2D &a, const Pose2D &b) { return f == "member" ? a.distanceSquared(b) : distanceSquared(a, b); }
template <typename M> static double distsq(const std::string &, const M &, const M &) { unknown("distsq"); }
static void columns(Transform &t, const json &v) {
  json w = v;
  for (int i = 0; i < 3; ++i) w.push_back(i + 1);
  load(t, {{"v", w}, {"d", 1}});
}
static void columns(Rotation &t, const json &v) { load(t, {{"v", v}, {"d", 1}}); }
static bool same(const G &a, const G &b) { return isNear(a.t, b.t, 1e-9); }
template <typename M> static bool same(const M &, const M &) { unknown("same"); }
template <typename M> static void columns(M &, const json &) { unknown("matrix"); }

template <typename M> static json run(const json &h) {
  const double D = h.at("D");
  M reg[3];
  json out = json::array();
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op"), f = op.value("f", std::string());
    const int r = op.at("r").get<int>() - 1;
    const int a = op.value("a", 1) - 1, b = op.value("b", 1) - 1;
    if (r < 0 || r > 2 || a < 0 || a > 2 || b < 0 || b > 2) throw BadInput("no such register");
    json obs = json::object();
    if (o == "load") load(reg[r], op.at("x"));
    else if (o == "ident") reg[r] = M();
    else if (o == "mul") {
      if (f == "asg") {
        M &res = (reg[r] *= reg[b]);
        obs["self"] = &res == &reg[r];
      } else if (f == "pre") pre(reg[a], reg[r]);
      else reg[r] = reg[a] * reg[b];
    } else if (o == "inv") inv(f, reg[a], reg[r]);
    else if (o == "diff") reg[r] = diff(f, reg[a], reg[b]);
    else if (o == "normalise") {
      scale(reg[r], op.at("s"));
      normalise(f, reg[r]);
    } else if (o == "act") {
      const json &p = op.at("p");
      const double e = op.at("e");
      json q = json::array();
      for (double x : act(f, reg[r], num(p, 0, e), num(p, 1, e), num(p, 2, e))) q.push_back(grid(x, op.at("D"), TOL));
      obs["p"] = q;
    } else if (o == "meas") {
      const std::string what = op.at("what");
      const double L = op.at("L");
      if (what == "det") obs["n"] = grid(det(f, reg[r]), L, TOL);
      else if (what == "norm") {
        const double n = nrm(f, reg[r]);
        obs["roots"] = roots(n, L);
        obs["n"] = grid(n, L, TOL);
      } else if (what == "dist") obs["roots"] = roots(dist(f, reg[r], reg[b]), L);
      else if (what == "distsq") obs["n"] = fix(distsq(f, reg[r], reg[b]), L * L);
      else if (what == "same") obs["is"] = same(reg[r], reg[b]);
      else if (what == "is") obs["is"] = is(reg[r], 1e-4f);
      else throw BadInput("unknown measure");
    } else if (o == "matrix") {  // any matrix: its determinant, and whether it is a rotation
      M m;
      columns(m, op.at("v"));
      obs["n"] = fix(det(f, m), 100.);
      obs["is"] = is(m, 1e-4f);
    } else throw BadInput("unknown operation " + o);
    json v = json::array();
    for (double x : flat(reg[r])) v.push_back(grid(x, D, TOL));
    obs["v"] = v;
    angle(obs, reg[r]);
    out.push_back(obs);
  }
  return {{"kind", h.at("kind")}, {"D", h.at("D")}, {"ops", h.at("ops")}, {"obs", out}};
}

int main(int argc, char **argv) {
  return run_histories(argc, argv, [](const json &h) {
    const std::string k = h.at("kind");
    if (k == "T") return run<Transform>(h);
    if (k == "R") return run<Rotation>(h);
    if (k == "Q") return run<Quaternion>(h);
    if (k == "D") return run<Displacement>(h);
    if (k == "G") return run<G>(h);
    if (k == "P") return run<Pose2D>(h);
    throw BadInput("unknown kind");
  });
}
