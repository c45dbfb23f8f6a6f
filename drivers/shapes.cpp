// needs: geometrics/shapes3d.cpp geometrics/shapes3d_utils.cpp tools/altransformhelpers.cpp tools/almathio.cpp tools/altrigonometry.cpp tools/almath.cpp types/alposition3d.cpp types/altransform.cpp
#include "common.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <cstring>
#include <memory>
#include <type_traits>
using namespace AL::Math;

static json words(float x) {
  unsigned u;
  std::memcpy(&u, &x, 4);
  return json::array({std::to_string(u & 0xffff), std::to_string(u >> 16)});
}
static float unwords(const json &w) {
  unsigned u = std::stoul(w.at(0).get<std::string>()) | std::stoul(w.at(1).get<std::string>()) << 16;
  float x;
  std::memcpy(&x, &u, 4);
  return x;
}
static json dims(const Sphere &s) { return json::array({words(s.getRadius())}); }
static json dims(const RoundedRectangle &s) { return json::array({words(s.getHalfExtentX()), words(s.getHalfExtentY()), words(s.getRadius())}); }
static json dims(const Pill &s) { return json::array({words(s.getHalfExtent()), words(s.getRadius())}); }
static json dims(const Rectangle &s) { return json::array({words(s.getHalfExtentX()), words(s.getHalfExtentY())}); }
static json dims(const Plane &) { return json::array(); }
static json dims(const HalfSpace &) { return json::array(); }
static json dims(const HalfLine &) { return json::array(); }

typedef NotImplementedShape3DVisitor Base;
struct Recorder : Base {
  std::string own;
  const void *expected = nullptr;
  mutable json calls = json::array();
  Recorder(const std::string &o) : own(o) {}
  Recorder(const std::string &o, const std::string &m) : Base(m), own(o) {}
  template <typename S> void on(const std::string &kind, const S &s) const {
    if (own == "all" || own == kind)
      calls.push_back({{"kind", kind}, {"dims", dims(s)}});
    else
      Base::visit(s);
  }
  void visit(const Pill &s) const { on("pill", s); }
  void visit(const Sphere &s) const { on("sphere", s); }
  void visit(const RoundedRectangle &s) const { on("roundedrectangle", s); }
  void visit(const Plane &s) const { on("plane", s); }
  void visit(const HalfSpace &s) const { on("halfspace", s); }
  void visit(const Rectangle &s) const { on("rectangle", s); }
  void visit(const HalfLine &s) const { on("halfline", s); }
};

static json visit(const json &op) {
  const std::string k = op.at("shape").at("kind");
  std::vector<float> d;
  for (const auto &w : op["shape"].at("dims")) d.push_back(unwords(w));
  std::unique_ptr<Shape3D> s;
  json got;
  auto made = [&](auto *p) {
    typedef typename std::remove_pointer<decltype(p)>::type S;
    got = dims(*p);
    s.reset(new S(*p));  // a copy is the same solid
    delete p;
  };
  if (k == "sphere") made(new Sphere(d.at(0)));
  else if (k == "roundedrectangle") made(new RoundedRectangle(d.at(0), d.at(1), d.at(2)));
  else if (k == "pill") made(new Pill(d.at(0), d.at(1)));
  else if (k == "rectangle") made(new Rectangle(d.at(0), d.at(1)));
  else if (k == "plane") made(new Plane());
  else if (k == "halfspace") made(new HalfSpace());
  else if (k == "halfline") made(new HalfLine());
  else throw BadInput("unknown solid");
  const std::string own = op.at("visitor").at("own"), msg = op["visitor"].at("msg");
  std::unique_ptr<Shape3DVisitor> v;
  Recorder *rec = nullptr;
  if (own == "none") v.reset(msg.empty() ? new Base() : new Base(msg));
  else v.reset(rec = msg.empty() ? new Recorder(own) : new Recorder(own, msg));
  json res = {{"r", "ok"}, {"msg", ""}};
  try {
    s->accept(*v);
  } catch (const std::runtime_error &e) {
    res["r"] = "throw";
    res["msg"] = e.what();
  }
  res["calls"] = rec ? rec->calls : json::array();
  return {{"got", got}, {"res", res}};
}

static json pill(const json &h) {
  const double e = h.at("e"), G = 10000, C = 10000;
  auto P = [&](const json &a) { return Position3D(a[0].get<double>() / e, a[1].get<double>() / e, a[2].get<double>() / e); };
  Position3D A = P(h.at("a")), B = P(h.at("b")), pa(9, 9, 9), pb(9, 9, 9);
  float hl = 77;
  Transform T(7, 7, 7);
  computePillParameters(A, B, hl, T);
  getSphereCentersFromPill(hl, T, pa, pb);
  json o;
  o["G"] = G;
  o["C"] = C;
  o["g"] = {fix(T.r1_c1, G), fix(T.r1_c2, G), fix(T.r1_c3, G), fix(T.r2_c1, G), fix(T.r2_c2, G), fix(T.r2_c3, G), fix(T.r3_c1, G), fix(T.r3_c2, G), fix(T.r3_c3, G)};
  for (auto &x : o["g"]) if (std::labs(x.get<long>()) > 12000) x = 12000;  // keeps the products of the specification in range
  auto cl = [&](double v) { long x = fix(v, C); return x > 1000000 ? 1000000L : x < -1000000 ? -1000000L : x; };
  o["c"] = {cl(T.r1_c4), cl(T.r2_c4), cl(T.r3_c4)};
  o["hl"] = cl(hl);
  o["pa"] = {cl(pa.x), cl(pa.y), cl(pa.z)};
  o["pb"] = {cl(pb.x), cl(pb.y), cl(pb.z)};
  return o;
}

static json run(const json &h) {
  json r = h;
  if (h.at("kind") == "pill") {
    r["o"] = pill(h);
    return r;
  }
  r["obs"] = json::array();
  for (const auto &op : h.at("ops")) r["obs"].push_back(visit(op));
  return r;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
