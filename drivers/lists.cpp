// needs: types/altransform.cpp types/alrotation.cpp types/alquaternion.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation3d.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp types/alaxismask.cpp tools/almath.cpp tools/altransformhelpers.cpp tools/altrigonometry.cpp tools/almathio.cpp
// Values as lists of numbers and as text (see spec/Lists.tla).
#include "common.h"
#include "vectypes.h"
#include <almath/tools/almathio.h>
#include <almath/types/alaxismask.h>
#include <almath/scenegraph/almatheigen.h>
#include <sstream>
#include "qi_stub.h"
#include <almath/scenegraph/qigeometry.h>
using namespace AL::Math;
typedef std::vector<float> List;

static json units(const List &l) {
  json r = json::array();
  for (float v : l) r.push_back(grid(v, 8, 0));
  return r;
}
static List numbers(const json &v) {
  List l;
  for (const auto &c : v) l.push_back(static_cast<float>(c.get<double>() / 8));
  return l;
}
struct State {
  List l;
  List::iterator at;
  std::stringstream text;
};
template <typename X> struct Is {
  static const bool pair = std::is_same<X, TransformAndVelocity6D>::value, q = std::is_same<X, PositionAndVelocity>::value;
  static const bool fill = !pair && !q && !std::is_same<X, Rotation3D>::value && !std::is_same<X, Quaternion>::value && !std::is_same<X, Rotation>::value;
  static const bool spaced = std::is_same<X, Position3D>::value || std::is_same<X, Rotation3D>::value || std::is_same<X, Velocity6D>::value || std::is_same<X, Transform>::value ||
                             std::is_same<X, Position6D>::value || std::is_same<X, Quaternion>::value;
};
// the numbers and the names in a text
static void words(const std::string &t, json &e) {
  e["v"] = json::array(), e["n"] = json::array();
  for (std::size_t i = 0; i < t.size();) {
    const char c = t[i];
    if (std::isdigit(c) || ((c == '-' || c == '+' || c == '.') && i + 1 < t.size() && (std::isdigit(t[i + 1]) || t[i + 1] == '.'))) {
      char *end;
      const double d = std::strtod(t.c_str() + i, &end);
      e["v"].push_back(grid(d, 8, 1e-9));
      i = end - t.c_str();
    } else if (std::isalpha(c)) {
      std::size_t j = i;
      while (j < t.size() && std::isalnum(t[j])) ++j;
      e["n"].push_back(t.substr(i, j - i));
      i = j;
    } else ++i;
  }
}
// what a value of qi::geometry says
static void said(const std::string &ty, const List &v, json &e) {
  using namespace qi::geometry;
  std::stringstream s;
  if (ty == "GV") s << makeVector3(v.at(0), v.at(1), v.at(2));
  else if (ty == "GQ") s << makeQuaternion(v.at(0), v.at(1), v.at(2), v.at(3));
  else s << makeTransform(makeQuaternion(v.at(0), v.at(1), v.at(2), v.at(3)), makeVector3(v.at(4), v.at(5), v.at(6)));
  words(s.str(), e);
}
template <typename X> static void perform(const json &op, State &s, json &e) {
  const std::string o = op.at("op"), f = op.value("f", "");
  X x = vec::from<X>(List(64, 5.f));
  if (o == "take") {
    if constexpr (!Is<X>::pair && !Is<X>::q) {
      const int p = op.at("p"), n = op.at("n");
      if (p + n > (int)s.l.size()) e["v"] = {OFFGRID};   // the code left a shorter list than it promised
      else e["v"] = units(vec::values(X(List(s.l.begin() + p, s.l.begin() + p + n))));
    } else throw BadInput("take");
    return;
  }
  const List v = numbers(op.at("v"));
  if (v.size() != vec::parts(x).size()) throw BadInput("size of value");
  x = vec::from<X>(v);
  if (o == "fill") {
    if constexpr (Is<X>::fill) x.writeToVector(s.at);
    else throw BadInput("fill");
  } else if (o == "to") {
    if constexpr (!Is<X>::pair) {
      if (f == "into") x.toVector(s.l);
      else s.l = x.toVector();
    } else throw BadInput("to");
    s.at = s.l.begin();
  } else if (o == "to12") {
    if constexpr (std::is_same<X, Transform>::value) {
      if (f == "into") transformToFloatVector(x, s.l);
      else s.l = transformToFloatVector(x);
    } else throw BadInput("to12");
    s.at = s.l.begin();
  } else if (o == "eigen") {
    // through the type of a linear algebra library, and back
    if constexpr (std::is_same<X, Velocity6D>::value) {
      Eigen::Matrix<float, 6, 1> m;
      for (int i = 0; i < 6; ++i) m[i] = v[i];
      Velocity6D w(9.f, 9.f, 9.f, 9.f, 9.f, 9.f);
      toALMathVelocity6D(m, w);
      s.l = (f == "into" ? w : toALMathVelocity6D(m)).toVector();
    } else if constexpr (std::is_same<X, Position3D>::value) {
      const Eigen::Vector3f m = toEigenVector3(x);
      s.l = toALMathPosition3D(m).toVector();
    } else throw BadInput("eigen");
    s.at = s.l.begin();
  } else if (o == "print") {
    std::string t;
    if (f == "spaced") {
      if constexpr (Is<X>::spaced) t = toSpaceSeparated(x);
      else throw BadInput("spaced");
    } else {
      s.text.str("");
      s.text << x;
      t = s.text.str();
    }
    words(t, e);
  } else throw BadInput("op " + o);
}
static json run(const json &h) {
  State s;
  s.at = s.l.begin();
  json r = h;
  r["obs"] = json::array();
  static const std::map<std::string, int> MASKS = {{"X", AXIS_MASK_X}, {"Y", AXIS_MASK_Y}, {"XY", AXIS_MASK_XY}, {"Z", AXIS_MASK_Z}, {"WX", AXIS_MASK_WX}, {"WY", AXIS_MASK_WY}, {"WZ", AXIS_MASK_WZ},
    {"WYWZ", AXIS_MASK_WYWZ}, {"ALL", AXIS_MASK_ALL}, {"VEL", AXIS_MASK_VEL}, {"ROT", AXIS_MASK_ROT}, {"NONE", AXIS_MASK_NONE}, {"PLANEZ", AXIS_MASK_PLANEZ}};
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op"), t = op.value("ty", "");
    json e = json::object();
    if (o == "set") s.l = numbers(op.at("l")), s.at = s.l.begin();
    else if (o == "mask") e["q"] = static_cast<int>(AXIS_MASK(MASKS.at(op.at("m"))).to_ulong()) == MASKS.at(op.at("m")) ? MASKS.at(op.at("m")) : -1;
    else if (o == "ismask") e["q"] = isAxisMask(op.at("n").get<int>()) ? 1 : 0;
    else if (t == "Y") perform<Position2D>(op, s, e);
    else if (t == "X") perform<Position3D>(op, s, e);
    else if (t == "S") perform<Position6D>(op, s, e);
    else if (t == "V") perform<Velocity3D>(op, s, e);
    else if (t == "W") perform<Velocity6D>(op, s, e);
    else if (t == "E") perform<Rotation3D>(op, s, e);
    else if (t == "P") perform<Pose2D>(op, s, e);
    else if (t == "Q") perform<Quaternion>(op, s, e);
    else if (t == "R") perform<Rotation>(op, s, e);
    else if (t == "T") perform<Transform>(op, s, e);
    else if (t == "K") perform<PositionAndVelocity>(op, s, e);
    else if (t == "L") perform<TransformAndVelocity6D>(op, s, e);
    else if (t[0] == 'G' && o == "print") said(t, numbers(op.at("v")), e);
    else throw BadInput("op " + o);
    e["l"] = units(s.l);
    e["c"] = static_cast<int>(s.at - s.l.begin());
    r["obs"].push_back(e);
  }
  return r;
}
int main(int argc, char **argv) {
  std::cerr.rdbuf(nullptr);  // the library warns about wrong sizes
  return run_histories(argc, argv, run);
}
