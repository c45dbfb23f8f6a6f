// needs: types/altransform.cpp types/alrotation.cpp types/alquaternion.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation3d.cpp types/aldisplacement.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// Programs on a path along a screw (see spec/Screws.tla).
#include "common.h"
#include <almath/scenegraph/almatheigen.h>
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <deque>
using namespace AL::Math;

static json flat(const Transform &t) {
  json v = json::array();
  for (double x : {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2, t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3, t.r1_c4, t.r2_c4, t.r3_c4}) v.push_back(fix(x, 1e4));
  return v;
}
template <typename V> static json six(const V &v) {
  json r = json::array();
  for (float x : v.toVector()) r.push_back(fix(x, 1e4));
  return r;
}
struct D12 {
  double m[9], t[3];
};
static Transform rounded(const D12 &x) {
  Transform r;
  float *p[] = {&r.r1_c1, &r.r1_c2, &r.r1_c3, &r.r2_c1, &r.r2_c2, &r.r2_c3, &r.r3_c1, &r.r3_c2, &r.r3_c3, &r.r1_c4, &r.r2_c4, &r.r3_c4};
  for (int i = 0; i < 9; ++i) *p[i] = static_cast<float>(x.m[i]);
  for (int i = 0; i < 3; ++i) *p[9 + i] = static_cast<float>(x.t[i]);
  return r;
}
struct Path {
  D12 base;
  double u[3], p[3], th, h;
  explicit Path(const json &x) {
    const json &b = x.at("base"), &s = x.at("s");
    for (int i = 0; i < 9; ++i) base.m[i] = b.at("v").at(i).get<double>() / b.at("d").get<double>();
    for (int i = 0; i < 3; ++i) base.t[i] = b.at("v").at(9 + i).get<double>() / b.at("d").get<double>();
    for (int i = 0; i < 3; ++i) u[i] = s.at("u").at(i).get<double>() / s.at("g").get<double>(), p[i] = s.at("p").at(i).get<double>() / s.at("e").get<double>();
    th = s.at("a").get<int>() * std::atan2(4., 3.) + s.at("b").get<int>() * std::acos(0.) + s.at("j").get<int>() / 10000.;
    h = s.at("h").get<double>() / s.at("e").get<double>();
  }
  // the input: the motion k steps along the path
  Transform at(int k) const {
    const double c = std::cos(k * th), s = std::sin(k * th), v = 1 - c;
    const D12 r = {{c + v * u[0] * u[0], v * u[0] * u[1] - s * u[2], v * u[0] * u[2] + s * u[1], v * u[1] * u[0] + s * u[2], c + v * u[1] * u[1], v * u[1] * u[2] - s * u[0],
                    v * u[2] * u[0] - s * u[1], v * u[2] * u[1] + s * u[0], c + v * u[2] * u[2]}, {0, 0, 0}};
    double t[3];
    for (int i = 0; i < 3; ++i) t[i] = p[i] + k * h * u[i] - r.m[3 * i] * p[0] - r.m[3 * i + 1] * p[1] - r.m[3 * i + 2] * p[2];
    D12 o;
    for (int i = 0; i < 3; ++i) {
      o.t[i] = base.t[i];
      for (int j = 0; j < 3; ++j) {
        o.t[i] += base.m[3 * i + j] * t[j];
        o.m[3 * i + j] = base.m[3 * i] * r.m[j] + base.m[3 * i + 1] * r.m[3 + j] + base.m[3 * i + 2] * r.m[6 + j];
      }
    }
    return rounded(o);
  }
  Velocity6D twist(int k) const {
    const double w[3] = {k * th * u[0], k * th * u[1], k * th * u[2]};
    return Velocity6D(k * h * u[0] - (w[1] * p[2] - w[2] * p[1]), k * h * u[1] - (w[2] * p[0] - w[0] * p[2]), k * h * u[2] - (w[0] * p[1] - w[1] * p[0]), w[0], w[1], w[2]);
  }
};
static Velocity6D logarithm(const std::string &f, const Transform &t) {
  if (f != "in") return transformLogarithm(t);
  Velocity6D v(1.f, 2.f, 3.f, 4.f, 5.f, 6.f);
  transformLogarithmInPlace(t, v);
  return v;
}
static Transform exponential(const std::string &f, const Velocity6D &v) {
  if (f != "in") return velocityExponential(v);
  Transform t(1.f, 2.f, 3.f);
  t.r1_c1 = 5.f;
  velocityExponentialInPlace(v, t);
  return t;
}
static json run(const json &h) {
  const Path path(h);
  Transform reg[3];
  for (auto &r : reg) r = path.at(0);
  json r = h;
  r["obs"] = json::array();
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op"), f = op.value("f", "");
    const int i = op.at("r").get<int>() - 1, a = op.value("a", 1) - 1, b = op.value("b", 1) - 1;
    json e = json::object();
    if (o == "load") reg[i] = path.at(op.at("k"));
    else if (o == "mean") {
      const float d = static_cast<float>(op.at("n").get<double>() / op.at("m").get<double>());
      if (f == "in") transformMeanInPlace(reg[a], reg[b], d, reg[i]);
      else reg[i] = transformMean(reg[a], reg[b], d);
    } else if (o == "bad") {
      const float d = static_cast<float>(op.at("n").get<double>() / op.at("m").get<double>());
      Transform out;
      e["r"] = "none";
      try {
        if (f == "in") transformMeanInPlace(reg[a], reg[b], d, out);
        else out = transformMean(reg[a], reg[b], d);
      } catch (const std::exception &) {
        e["r"] = "throw";
      }
    } else if (o == "go") reg[i] = reg[a] * exponential(f, path.twist(op.at("k")));
    else if (o == "trip") reg[i] = reg[a] * exponential(f, logarithm(f, reg[a].inverse() * reg[b]));
    else if (o == "log") e["v"] = six(logarithm(f, reg[a].inverse() * reg[b]));
    else if (o == "diff") {
      Position6D p(1.f, 2.f, 3.f, 4.f, 5.f, 6.f);
      if (f == "in") position6DFromTransformDiffInPlace(reg[a], reg[b], p);
      else p = position6DFromTransformDiff(reg[a], reg[b]);
      e["v"] = six(p);
    } else if (o == "avg") {
      std::vector<Transform> ts;
      for (const auto &k : op.at("ks")) ts.push_back(path.at(k));
      e["r"] = "ok";
      try {
        if (f == "deque") e["v"] = flat(averageTransforms(std::deque<Transform>(ts.begin(), ts.end())));
        else if (f == "const") { const std::vector<Transform> &c = ts; e["v"] = flat(averageTransforms(c)); }
        else e["v"] = flat(averageTransforms(ts));
      } catch (const std::exception &) {
        e["r"] = "throw";
      }
    } else if (o == "half") {
      const int k = op.at("k");
      D12 x = {{k == 1 ? 1. : -1., 0, 0, 0, k == 2 ? 1. : -1., 0, 0, 0, k == 3 ? 1. : -1.}, {0, 0, 0}};
      for (int c = 0; c < 3; ++c) x.t[c] = op.at("t").at(c).get<double>() / op.at("e").get<double>();
      const Velocity6D v = logarithm(f, rounded(x));
      e["v"] = flat(exponential(f, v));
      const json s = six(v);
      e["w"] = json::array({s[3], s[4], s[5]});
    } else throw BadInput("unknown op " + o);
    e["m"] = flat(reg[i]);
    r["obs"].push_back(e);
  }
  return r;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
