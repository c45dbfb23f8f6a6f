// needs: tools/almath.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation.cpp types/alrotation3d.cpp types/altransform.cpp types/alquaternion.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp tools/altransformhelpers.cpp
// Angles and intervals (see spec/Angles.tla).
#include "common.h"
#include <almath/tools/almath.h>
#include <almath/tools/altrigonometry.h>
#include <cstring>
#include <limits>
using namespace AL::Math;

static const int INF = 1000000;  // this number and above: no bound
static float number(int v) {
  if (v >= INF) return std::numeric_limits<float>::infinity();
  if (v <= -INF) return -std::numeric_limits<float>::infinity();
  return static_cast<float>(v / 8.0);
}
static json unnumber(float v) {
  if (std::isinf(v)) return v > 0 ? INF : -INF;
  return grid(v, 8, 0);
}
static bool inside(float v) { return v > -PI && v <= PI; }
static void reduce(const json &op, float x, json &e) {
  float r = x;
  if (op.value("f", "") == "place") modulo2PIInPlace(r);
  else r = modulo2PI(x);
  float again = r;
  modulo2PIInPlace(again);
  e["r"] = fix(r, 1e7), e["in"] = inside(r) ? 1 : 0, e["again"] = again == r ? 1 : 0, e["was"] = inside(x) ? 1 : 0, e["same"] = r == x ? 1 : 0;
}
static json run(const json &h) {
  std::vector<float> a, w;
  std::vector<int> weights;
  std::vector<std::vector<float>> l;
  json r = h;
  r["obs"] = json::array();
  for (auto &op : r["ops"]) {
    const std::string o = op.at("op"), form = op.value("f", "");
    json e = json::object();
    if (o == "push") {
      const json &p = op.at("p");
      a.push_back(static_cast<float>(std::atan2(p.at(1).get<double>(), p.at(0).get<double>()) + 2 * M_PI * p.at(3).get<int>()));
      weights.push_back(op.at("w"));
    } else if (o == "weights") weights = op.at("w").get<std::vector<int>>();
    else if (o == "clear") a.clear(), weights.clear();
    else if (o == "swap") std::reverse(a.begin(), a.end()), std::reverse(weights.begin(), weights.end());
    else if (o == "lists") {
      l.clear();
      for (const auto &v : op.at("l")) {
        l.emplace_back();
        for (const auto &c : v) l.back().push_back(number(c));
      }
    } else if (o == "mean" || o == "wmean") {
      w.clear();
      for (int v : weights) w.push_back(static_cast<float>(std::ldexp(v, op.value("e", 0))));
      try {
        const float m = o == "mean" ? meanAngle(a) : weightedMeanAngle(a, w);
        e["q"] = 1, e["in"] = inside(m) ? 1 : 0, e["d"] = {fix(std::cos(double(m)), 1e5), fix(std::sin(double(m)), 1e5)};
      } catch (const std::exception &) {
        e["q"] = 0, e["in"] = 0, e["d"] = {0, 0};
      }
    } else if (o == "reduce") reduce(op, static_cast<float>(2 * M_PI * (op.at("n").get<int>() / 240.0 + op.at("k").get<int>())), e);
    else if (o == "float") {
      const std::uint32_t b = std::stoul(op.at("b").get<std::string>(), nullptr, 16);
      float x;
      std::memcpy(&x, &b, 4);
      reduce(op, x, e);
    } else if (o == "clip") {
      const float lo = number(op.at("lo")), hi = number(op.at("hi"));
      bool q;
      if (form == "all") q = clipData(lo, hi, l);
      else if (form == "list") q = clipData(lo, hi, l.at(op.at("i").get<int>() - 1));
      else q = clipData(lo, hi, l.at(op.at("i").get<int>() - 1).at(op.at("j").get<int>() - 1));
      e["q"] = q ? 1 : 0, e["l"] = json::array();
      for (const auto &v : l) {
        e["l"].push_back(json::array());
        for (float c : v) e["l"].back().push_back(unnumber(c));
      }
    } else throw BadInput("op " + o);
    r["obs"].push_back(e);
  }
  return r;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
