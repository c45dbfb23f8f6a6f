// needs: tools/avoidfootcollision.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation.cpp types/alrotation3d.cpp types/altransform.cpp types/alquaternion.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/almathio.cpp
// Footsteps (see spec/Feet.tla).
#include "common.h"
#include <almath/tools/avoidfootcollision.h>
#include <cstring>
using namespace AL::Math;

static json run(const json &h) {
  const double s = h.at("s");   // units per metre
  const auto point = [&](const json &p) { return Position2D(static_cast<float>(p.at(0).get<double>() / s), static_cast<float>(p.at(1).get<double>() / s)); };
  const auto pose = [&](const json &p) { return Pose2D(static_cast<float>(p.at(0).get<double>() / s), static_cast<float>(p.at(1).get<double>() / s), static_cast<float>(p.at(2).get<double>() / 1e4)); };
  std::vector<std::vector<Position2D>> boxes;
  for (const auto &b : h.at("boxes")) {
    boxes.emplace_back();
    for (const auto &p : b) boxes.back().push_back(point(p));
  }
  const auto box = [&](const json &i) -> const std::vector<Position2D> & { return boxes.at(i.get<int>() - 1); };
  Pose2D m;
  json r = h;
  r["obs"] = json::array();
  const auto same = [](float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0; };
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op");
    const Pose2D before = m;
    json e = json::object();
    if (o == "move") m = pose(op.at("m"));
    else if (o == "clip") e["r"] = clipFootWithEllipse(static_cast<float>(op.at("a").get<double>() / s), static_cast<float>(op.at("b").get<double>() / s), m) ? 1 : 0;
    else if (o == "avoid") e["r"] = avoidFootCollision(boxes.at(0), boxes.at(1), op.at("left") == 1, m) ? 1 : 0;
    else if (o == "turn") dichotomie(box(op.at("f")), box(op.at("g")), m);
    else if (o == "box") {
      std::vector<Position2D> p(3, Position2D(9.f, 9.f));
      computeBox(box(op.at("f")), m, p);
      e["p"] = json::array();
      for (const auto &q : p) e["p"].push_back(json::array({fix(q.x, 16 * s), fix(q.y, 16 * s)}));
    } else if (o == "hit") {
      std::vector<Position2D> p, q;
      computeBox(box(op.at("f")), pose(op.at("p")), p);
      computeBox(box(op.at("g")), pose(op.at("q")), q);
      e["r"] = areTwoBoxesInCollision(p, q) ? 1 : 0;
    } else if (o == "seg") {
      Position2D c;
      const json &g = op.at("s");
      e["r"] = intersectionSegment2D(point(g.at(0)), point(g.at(1)), point(g.at(2)), point(g.at(3)), c) ? 1 : 0;
      e["c"] = json::array({fix(c.x, 16 * s), fix(c.y, 16 * s)});
    } else throw BadInput("unknown op " + o);
    e["m"] = json::array({fix(m.x, 16 * s), fix(m.y, 16 * s), fix(m.theta, 1e4)});
    e["placekept"] = same(m.x, before.x) && same(m.y, before.y) ? 1 : 0;
    e["turnkept"] = same(m.theta, before.theta) ? 1 : 0;
    r["obs"].push_back(e);
  }
  return r;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
