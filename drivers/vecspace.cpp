// needs: types/altransform.cpp types/alrotation.cpp types/alquaternion.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation3d.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// Programs on three registers of one vector-like type (see spec/VecSpace.tla).
#include "common.h"
#include "vectypes.h"
using namespace AL::Math;

// all components of a program are scaled by this power of two
static double Z = 1;
template <typename X> static json exact(const X &x) {
  json r = json::array();
  for (float v : vec::values(x)) r.push_back(grid(v / Z, 64, 0));
  return r;
}
template <typename X> static json digits(const X &x, double d) {
  json r = json::array();
  for (float v : vec::values(x)) r.push_back(fix(v, d));
  return r;
}
static float ratio(const json &op) { return static_cast<float>(op.at("n").get<double>() / op.at("d").get<double>()); }
static float back(const json &op) { return static_cast<float>(op.at("d").get<double>() / op.at("n").get<double>()); }

// what only some types have
template <typename X> struct Has { static const bool linear = false, neg = false, scale = false, left = false, norm = false, unit = false, metric = false, eq = false, one = false, compound = false; };
#define HAS(T, L, NG, S, LF, N, U, M, E, O) template <> struct Has<T> { static const bool linear = L, neg = NG, scale = S, left = LF, norm = N, unit = U, metric = M, eq = E, one = O, compound = L && !std::is_same<T, Velocity6D>::value; };
HAS(Position2D, 1, 1, 1, 1, 1, 1, 1, 1, 1)
HAS(Position3D, 1, 1, 1, 0, 1, 1, 1, 1, 1)
HAS(Position6D, 1, 1, 1, 0, 1, 1, 1, 1, 1)
HAS(Velocity3D, 1, 1, 1, 1, 1, 1, 0, 1, 1)
HAS(Velocity6D, 1, 1, 1, 1, 1, 1, 0, 1, 1)
HAS(Rotation3D, 1, 0, 1, 0, 1, 0, 0, 1, 1)
HAS(Pose2D, 1, 1, 1, 0, 1, 1, 1, 1, 1)
HAS(Quaternion, 0, 0, 1, 0, 1, 1, 0, 1, 0)
HAS(Rotation, 0, 0, 0, 0, 0, 0, 0, 1, 0)
HAS(Transform, 0, 0, 0, 0, 0, 0, 0, 1, 0)
#define WHEN(x, ...) if constexpr (Has<X>::x) { __VA_ARGS__ } else throw BadInput(#x);
static float freeNorm(const Pose2D &p) { return p.norm(); }
template <typename X> static float freeNorm(const X &p) { return norm(p); }
static Quaternion freeUnit(const Quaternion &p) { return normalize(p); }
static Pose2D freeUnit(const Pose2D &p) { return p.normalize(); }
template <typename X> static X freeUnit(const X &p) { return normalize(p); }
static Position6D memberUnit(const Position6D &p) { return normalize(p); }
template <typename X> static X memberUnit(const X &p) { return p.normalize(); }

template <typename X> static json program(const json &h) {
  X reg[3];
  const std::size_t N = vec::parts(reg[0]).size();
  for (X &x : reg) x = vec::from<X>(std::vector<float>(N, 0.f));
  json r = h;
  r["obs"] = json::array();
  Z = std::ldexp(1., h.value("z", 0));
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op"), f = op.value("f", "");
    const int i = op.at("r").get<int>() - 1, ia = op.value("a", 1) - 1, ib = op.value("b", 1) - 1;
    if (i < 0 || i > 2 || ia < 0 || ia > 2 || ib < 0 || ib > 2) throw BadInput("register");
    X &a = reg[ia], &b = reg[ib], &x = reg[i];
    const bool self = f == "self" || f == "div_self", member = f == "member";
    if (self && o != "zero" && o != "quot" && i != ia) throw BadInput("compound form");
    json e = {{"ref", 1}};
    if (o == "load") {
      std::vector<float> v;
      for (const auto &c : op.at("v")) v.push_back(static_cast<float>(Z * c.get<double>() / 64));
      if (v.size() != N) throw BadInput("size");
      x = vec::from<X>(v);
    } else if (o == "all") { WHEN(one, x = X(static_cast<float>(Z * op.at("c").get<double>() / 64));)
    } else if (o == "none") { if constexpr (std::is_same<X, PositionAndVelocity>::value) x = X(); else { WHEN(one, x = X();) }
    } else if (o == "add") { if (self) { WHEN(compound, e["ref"] = (&(x += b) == &x) ? 1 : 0;) } else { WHEN(linear, x = a + b;) }
    } else if (o == "sub") { if (self) { WHEN(compound, e["ref"] = (&(x -= b) == &x) ? 1 : 0;) } else { WHEN(linear, x = a - b;) }
    } else if (o == "neg") { WHEN(neg, x = -a;)
    } else if (o == "pos") { WHEN(neg, x = +a;)
    } else if (o == "mul") {
      if (f == "right") { WHEN(scale, x = a * ratio(op);) }
      else if (f == "left") { WHEN(left, x = ratio(op) * a;) }
      else if (f == "self") { WHEN(scale, e["ref"] = (&(x *= ratio(op)) == &x) ? 1 : 0;) }
      else if (f == "div") { WHEN(scale, x = a / back(op);) }
      else if (f == "div_self") { WHEN(scale, e["ref"] = (&(x /= back(op)) == &x) ? 1 : 0;) }
      else throw BadInput("mul form");
    } else if (o == "zero") {
      WHEN(scale,
        const float z = op.at("s").get<int>() < 0 ? -0.f : 0.f;
        e["q"] = "none";
        try {
          if (self) x /= z;
          else (void)(x / z);
        } catch (const std::exception &) { e["q"] = "throw"; })
    } else if (o == "quot") {
      WHEN(scale,
        const float s = op.at("s").get<float>();
        X q = a;
        if (self) q /= s; else q = a / s;
        e["v"] = digits(q, 6400 / Z);)
    } else if (o == "near") {
      const int t = op.at("e");
      e["q"] = (t == -1 ? a.isNear(b) : a.isNear(b, t == -2 ? -1.f / 64 : static_cast<float>(Z * t / 64.))) ? 1 : 0;
    } else if (o == "eq") { WHEN(eq, e["q"] = (a == b) ? 1 : 0; e["n"] = (a != b) ? 1 : 0;)
    } else if (o == "norm") { WHEN(norm, e["q"] = fix(member ? a.norm() : freeNorm(a), 6400 / Z);)
    } else if (o == "unit") {
      WHEN(unit,
        e["q"] = "ok";
        try {
          const X u = member ? memberUnit(a) : freeUnit(a);
          e["v"] = digits(u, 1e4);
          if (std::is_same<X, Pose2D>::value) e["v"].erase(2);
          e["g"] = exact(u);
        } catch (const std::exception &) { e["q"] = "throw"; })
    } else if (o == "dist") {
      WHEN(metric, e["q"] = fix(member ? a.distance(b) : distance(a, b), 6400 / Z); e["n"] = grid(member ? a.distanceSquared(b) : distanceSquared(a, b), 4096 / Z / Z, 0);)
    } else if (o == "dot" || o == "cross" || o == "angle" || o == "ortho" || o == "isunit" || o == "veloc" || o == "back") {
      if constexpr (std::is_same<X, Position2D>::value || std::is_same<X, Pose2D>::value) {
        if (o == "angle") {
          const float t = a.getAngle();
          e["q"] = fix(t, 1e4), e["v"] = {fix(std::cos((double)t), 1e4), fix(std::sin((double)t), 1e4)};
        }
      }
      if constexpr (std::is_same<X, Position2D>::value) {
        if (o == "dot") e["q"] = grid(member ? a.dotProduct(b) : dotProduct(a, b), 4096 / Z / Z, 0);
        if (o == "cross") {
          float c = 99.f;
          if (f == "out") crossProduct(a, b, c); else c = member ? a.crossProduct(b) : crossProduct(a, b);
          e["v"] = json::array({grid(c, 4096 / Z / Z, 0)});
        }
      }
      if constexpr (std::is_same<X, Position3D>::value) {
        if (o == "dot") e["q"] = grid(member ? a.dotProduct(b) : dotProduct(a, b), 4096 / Z / Z, 0);
        if (o == "cross") {
          Position3D c(9.f, 8.f, 7.f);
          if (f == "out") {
            const Position3D keep[3] = {reg[0], reg[1], reg[2]};
            crossProduct(a, b, x);
            c = x;
            for (int k = 0; k < 3; ++k) reg[k] = keep[k];
          } else c = member ? a.crossProduct(b) : crossProduct(a, b);
          e["v"] = json::array({grid(c.x, 4096 / Z / Z, 0), grid(c.y, 4096 / Z / Z, 0), grid(c.z, 4096 / Z / Z, 0)});
        }
        if (o == "ortho") {
          const int t = op.at("e");
          const float ep = static_cast<float>(Z * Z * t / 4096.);
          e["q"] = (t == -1 ? (member ? a.isOrthogonal(b) : isOrthogonal(a, b)) : (member ? a.isOrthogonal(b, ep) : isOrthogonal(a, b, ep))) ? 1 : 0;
        }
        if (o == "isunit") {
          const int t = op.at("e");
          const float ep = static_cast<float>(t / 64.);
          e["q"] = (t == -1 ? (member ? a.isUnitVector() : isUnitVector(a)) : (member ? a.isUnitVector(ep) : isUnitVector(a, ep))) ? 1 : 0;
        }
      }
      if constexpr (std::is_same<X, Position3D>::value || std::is_same<X, Position6D>::value)
        if (o == "veloc") e["g"] = exact(ratio(op) * a);
      if constexpr (std::is_same<X, Velocity6D>::value)
        if (o == "back") e["g"] = exact(position6DFromVelocity6D(a));
      if (e.size() < 2) throw BadInput("op " + o);
    } else throw BadInput("unknown op " + o);
    e["m"] = json::array();
    for (const X &y : reg) e["m"].push_back(exact(y));
    r["obs"].push_back(e);
  }
  return r;
}
static json run(const json &h) {
  const std::string t = h.at("ty");
  if (t == "Y") return program<Position2D>(h);
  if (t == "X") return program<Position3D>(h);
  if (t == "S") return program<Position6D>(h);
  if (t == "V") return program<Velocity3D>(h);
  if (t == "W") return program<Velocity6D>(h);
  if (t == "E") return program<Rotation3D>(h);
  if (t == "P") return program<Pose2D>(h);
  if (t == "Q") return program<Quaternion>(h);
  if (t == "R") return program<Rotation>(h);
  if (t == "T") return program<Transform>(h);
  if (t == "D") return program<Displacement>(h);
  if (t == "K") return program<PositionAndVelocity>(h);
  if (t == "L") return program<TransformAndVelocity6D>(h);
  throw BadInput("type " + t);
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
