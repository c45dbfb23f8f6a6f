// needs: types/altransform.cpp types/alrotation.cpp types/alquaternion.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation3d.cpp types/aldisplacement.cpp types/alaxismask.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// Vectors in other frames, frames on directions, projections on axes (see spec/Frames.tla).
#include "common.h"
#include "vectypes.h"
using namespace AL::Math;

static double part(const json &v, const json &d, int i) { return v.at(i).get<double>() / d.get<double>(); }
static Transform motion(const json &v, const json &d) {
  Transform r;
  float *p[] = {&r.r1_c1, &r.r1_c2, &r.r1_c3, &r.r2_c1, &r.r2_c2, &r.r2_c3, &r.r3_c1, &r.r3_c2, &r.r3_c3, &r.r1_c4, &r.r2_c4, &r.r3_c4};
  for (int i = 0; i < 12; ++i) *p[i] = static_cast<float>(part(v, d, i));
  return r;
}
static json shown(const Transform &t) {
  json v = json::array();
  for (double x : {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3, t.r1_c4, t.r2_c4, t.r3_c4}) v.push_back(fix(x, 1e4));
  return v;
}
template <typename X> static json shown(const X &x) {
  json v = json::array();
  for (float f : vec::values(x)) v.push_back(fix(f, 1e4));
  return v;
}
template <typename X> static X load(const json &op) {
  std::vector<float> v;
  for (std::size_t i = 0; i < op.at("v").size(); ++i) v.push_back(static_cast<float>(part(op.at("v"), op.at("d"), i)));
  return vec::from<X>(v);
}
template <> Transform load<Transform>(const json &op) { return motion(op.at("v"), op.at("d")); }

static void change(const Transform &h, const Velocity6D &a, Velocity6D &r, const json &op) { op.at("inv") == 1 ? changeReferenceTransposeVelocity6D(h, a, r) : changeReferenceVelocity6D(h, a, r); }
static void change(const Transform &h, const Position6D &a, Position6D &r, const json &op) { op.at("inv") == 1 ? changeReferenceTransposePosition6D(h, a, r) : changeReferencePosition6D(h, a, r); }
static void change(const Transform &h, const Transform &a, Transform &r, const json &op) { op.at("inv") == 1 ? changeReferenceTransposeTransform(h, a, r) : changeReferenceTransform(h, a, r); }
static void change(const Transform &h, const Position3D &a, Position3D &r, const json &op) {
  if (op.at("f") == "in") op.at("inv") == 1 ? changeReferenceTransposePosition3DInPlace(h, r) : changeReferencePosition3DInPlace(h, r);
  else op.at("inv") == 1 ? changeReferenceTransposePosition3D(h, a, r) : changeReferencePosition3D(h, a, r);
}
static void change(const Transform &, const Pose2D &a, Pose2D &r, const json &op) {
  const float t = static_cast<float>(op.at("ta").get<int>() * std::atan2(4., 3.) + op.at("tb").get<int>() * std::acos(0.));
  if (op.at("f") == "in") changeReferencePose2DInPlace(t, r);
  else changeReferencePose2D(t, a, r);
}
template <typename X> static const Transform &chosen(const json &op, const Transform *frames, const X *) { return frames[op.at("h").get<int>() - 1]; }
template <> const Transform &chosen<Transform>(const json &op, const Transform *frames, const Transform *reg) {
  const int h = op.at("h");
  return h > 2 ? reg[h - 3] : frames[h - 1];
}
template <typename X> static json machine(const json &h) {
  Transform frames[2], before[2];
  for (int i = 0; i < 2; ++i) before[i] = frames[i] = motion(h.at("frames").at(i).at("v"), h.at("frames").at(i).at("d"));
  X reg[3];
  for (auto &x : reg) x = X();
  json r = h;
  r["obs"] = json::array();
  for (const auto &op : h.at("ops")) {
    X &out = reg[op.at("r").get<int>() - 1];
    if (op.at("op") == "load") out = load<X>(op);
    else change(chosen<X>(op, frames, reg), reg[op.at("a").get<int>() - 1], out, op);
    json e = json::object();
    e["regs"] = json::array();
    for (const auto &x : reg) e["regs"].push_back(shown(x));
    e["kept"] = vec::values(frames[0]) == vec::values(before[0]) && vec::values(frames[1]) == vec::values(before[1]) ? 1 : 0;
    r["obs"].push_back(e);
  }
  return r;
}
static json others(const json &h) {
  json r = h;
  r["obs"] = json::array();
  for (const auto &op : h.at("ops")) {
    const json &u = op.at("u");
    const double s = op.at("e");
    const Position3D axis(static_cast<float>(u.at(0).get<double>() / s), static_cast<float>(u.at(1).get<double>() / s), static_cast<float>(u.at(2).get<double>() / s));
    const bool in = op.at("f") == "in";
    json e = json::object();
    e["r"] = "ok";
    try {
      if (op.at("op") == "orth") {
        Transform t(1.f, 2.f, 3.f);
        t.r1_c1 = 5.f;
        if (in) orthogonalSpace(axis, t);
        else t = orthogonalSpace(axis);
        e["v"] = shown(t);
      } else if (op.at("v").size() == 12) {
        Transform t = motion(op.at("v"), op.at("d"));
        if (in) axisRotationProjectionInPlace(axis, t);
        else t = axisRotationProjection(axis, t);
        e["v"] = shown(t);
      } else {
        Rotation t = load<Rotation>(op);
        if (in) axisRotationProjectionInPlace(axis, t);
        else t = axisRotationProjection(axis, t);
        e["v"] = shown(t);
      }
    } catch (const std::exception &) {
      e["r"] = "throw";
    }
    r["obs"].push_back(e);
  }
  return r;
}
static json run(const json &h) {
  const std::string k = h.at("kind");
  if (k == "V") return machine<Velocity6D>(h);
  if (k == "P") return machine<Position6D>(h);
  if (k == "X") return machine<Position3D>(h);
  if (k == "T") return machine<Transform>(h);
  if (k == "L") return machine<Pose2D>(h);
  return others(h);
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
