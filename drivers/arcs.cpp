// needs: tools/aldubinscurve.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation.cpp types/alrotation3d.cpp types/altransform.cpp types/alquaternion.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/almathio.cpp
// Paths of two turns and a line (see spec/Arcs.tla).
#include "common.h"
#include <almath/tools/aldubinscurve.h>
using namespace AL::Math;

static json run(const json &h) {
  const double s = h.at("s");
  json r = h;
  r["obs"] = json::array();
  for (const auto &q : h.at("ops")) {
    const double t = q.at("a").get<int>() * std::atan2(4., 3.) + q.at("b").get<int>() * std::acos(0.);
    const Pose2D target(static_cast<float>(q.at("x").get<double>() / s), static_cast<float>(q.at("y").get<double>() / s), static_cast<float>(t));
    json e = json::object();
    e["r"] = "ok";
    try {
      const std::vector<Pose2D> p = getDubinsSolutions(target, static_cast<float>(q.at("r").get<double>() / s));
      e["n"] = p.size();
      if (p.size() == 3) {
        const auto point = [&](const Pose2D &x) { return json::array({fix(x.x, s), fix(x.y, s)}); };
        const auto heading = [](const Pose2D &x) { return json::array({fix(std::cos(static_cast<double>(x.theta)), 1e4), fix(std::sin(static_cast<double>(x.theta)), 1e4)}); };
        e["p1"] = point(p[0]);
        e["p2"] = point(p[1]);
        e["h"] = heading(p[0]);
        e["h2"] = heading(p[1]);
        e["last"] = p[2].x == target.x && p[2].y == target.y && p[2].theta == target.theta ? 1 : 0;
      }
    } catch (const std::exception &) {
      e["r"] = "throw";
    }
    r["obs"].push_back(e);
  }
  return r;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
