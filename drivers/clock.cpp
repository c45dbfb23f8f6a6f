// needs: types/alpose2d.cpp
// Durations and ROS times (see spec/Clock.tla). The clocks themselves are stand-ins (include/).
#include "common.h"
#include <almath/scenegraph/qirostime.h>
#include <algorithm>
using namespace AL::Math;
static const int64_t G = 1000000000;
static int64_t count(const json &q) {
  const __int128 x = (static_cast<__int128>(q.at(0).get<int64_t>()) * G + q.at(1).get<int64_t>()) * G + q.at(2).get<int64_t>();
  if (x != static_cast<int64_t>(x)) throw BadInput("count does not fit");
  return static_cast<int64_t>(x);
}
static json limbs(int64_t x) {
  int64_t s = x / G, c = x % G;
  if (c < 0) c += G, --s;
  int64_t a = s / G, b = s % G;
  if (b < 0) b += G, --a;
  return json::array({a, b, c});
}
static json run(const json &h) {
  qi::Duration q(0);
  ros::Time r = ros::TIME_MIN;
  json e = h;
  e["obs"] = json::array();
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op");
    if (o == "set") q = qi::Duration(count(op.at("q")));
    else if (o == "advance") q = qi::Duration(q.count() + count(op.at("q")));
    else if (o == "to") r = toValidRosTime(q);
    else if (o == "ros") { const int64_t n = op.at("r").at(0).get<int64_t>() * G + op.at("r").at(1).get<int64_t>(); r = ros::Time(static_cast<uint32_t>(n), op.at("r").at(2)); }
    else if (o == "back") q = toQiDuration(r);
    else throw BadInput("unknown op " + o);
    e["obs"].push_back({{"q", limbs(q.count())}, {"r", json::array({r.sec / G, r.sec % G, r.nsec})}});
  }
  return e;
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
