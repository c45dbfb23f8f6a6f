// needs: types/occupancymapparams.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation.cpp types/alrotation3d.cpp types/altransform.cpp types/alquaternion.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// Maps: pixels and metres (see spec/MapFrame.tla).
#include "common.h"
#include <almath/types/occupancymapparams.h>
#include <memory>
using namespace AL::Math;

static json run(const json &h) {
  const double unit = h.at("unit");
  const auto f = [&](const json &v) { return static_cast<float>(v.get<double>() / unit); };
  const auto point = [&](const json &v) { return Position2D(f(v.at(0)), f(v.at(1))); };
  const auto pixel = [&](const json &v) { return Point2Di(v.at(0).get<int>(), v.at(1).get<int>()); };
  const auto turn = [](const json &op) { return static_cast<float>(op.value("a", 0) / 64.0); };
  std::unique_ptr<OccupancyMapParams> m;
  json r = h;
  r["obs"] = json::array();
  for (auto &op : r["ops"]) {
    const std::string o = op.at("op"), form = op.value("f", "");
    json e = json::object();
    if (o == "new") {
      if (form == "default") m.reset(new OccupancyMapParams(op.at("size").get<int>(), f(op.at("res")), point(op.at("c"))));
      else m.reset(new OccupancyMapParams(op.at("size").get<int>(), f(op.at("res")), point(op.at("c")), static_cast<float>(op.at("t").get<int>() / 16.0)));
    } else if (!m) throw BadInput("no map");
    else if (o == "center") m->initOriginOffset(point(op.at("c")));
    else if (o == "origin") m->originOffset = point(op.at("c"));
    else if (o == "res") m->metersPerPixel = f(op.at("res"));
    else if (o == "size") m->size = op.at("size");
    else if (o == "metric") {
      const Point2Di p = pixel(op.at("p"));
      if (form == "pose") {
        if (!op.contains("a")) op["a"] = 40;
        const Pose2D d = m->getPoseFromPixel(op.value("g", 0) ? Pose2Di(p, turn(op)) : Pose2Di(p.x, p.y, turn(op)));
        e["v"] = {fix(d.x, unit * 10), fix(d.y, unit * 10), grid(d.theta, 64, 0)};
      } else {
        const Position2D d = m->getPositionFromPixel(p);
        e["v"] = {fix(d.x, unit * 10), fix(d.y, unit * 10)};
      }
    } else if (o == "pixel") {
      const Position2D d = point(op.at("d"));
      const Pose2D q(d.x, d.y, turn(op));
      const Point2Di p = form == "pose" ? m->getPixelFromPose(q) : form == "position" ? m->getPixelFromPosition(d) : form == "delta" ? m->getDeltaPixelFromDeltaPosition(d)
                         : OccupancyMapParams::getPixelFromOffsetAndScale(q, m->metersPerPixel, m->originOffset);
      e["p"] = {p.x, p.y};
    } else if (o == "there") {  // to metres and back
      const Point2Di p = pixel(op.at("p"));
      const Point2Di q = form == "pose" ? m->getPixelFromPose(m->getPoseFromPixel(Pose2Di(p, turn(op)))) : m->getPixelFromPosition(m->getPositionFromPixel(p));
      e["p"] = {q.x, q.y};
    } else if (o == "same") {
      const json &a = op.at("a"), &b = op.at("b");
      e["q"] = (a.size() < 3 ? pixel(a) == pixel(b) : Pose2Di(pixel(a), static_cast<float>(a.at(2).get<int>() / 64.0)) == Pose2Di(pixel(b), static_cast<float>(b.at(2).get<int>() / 64.0))) ? 1 : 0;
    } else throw BadInput("op " + o);
    e["s"] = {m->size, grid(m->obstacleProbabilityThreshold, 16, 0), fix(m->metersPerPixel, unit * 10), fix(m->originOffset.x, unit * 10), fix(m->originOffset.y, unit * 10),
              grid(m->getObstacleProbabilityThreshold(), 16, 0)};
    r["obs"].push_back(e);
  }
  return r;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
