// needs: scenegraph/urdf.cpp
// Executes programs over pose registers on the real code, and readings of texts.
#include "urdf_doc.h"
#include <almath/scenegraph/urdfeigen.h>
#include <cstring>

using urdf::Pose;
using urdf::Array3d;

static json words(double x) {
  unsigned long long u;
  std::memcpy(&u, &x, 8);
  json r = json::array();
  for (int i = 0; i < 4; ++i) r.push_back((u >> (16 * i)) & 0xffff);
  return r;
}
static double unwords(const json &w) {
  unsigned long long u = 0;
  for (int i = 0; i < 4; ++i) u |= w.at(i).get<unsigned long long>() << (16 * i);
  double x;
  std::memcpy(&x, &u, 8);
  return x;
}
static json words3(const Array3d &a) { return {words(a[0]), words(a[1]), words(a[2])}; }
static Array3d unwords3(const json &a) { return {{unwords(a.at(0)), unwords(a.at(1)), unwords(a.at(2))}}; }

template <typename R, typename T> static json twelve(const R &m, const T &t, double DD) {
  json r = json::array();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.push_back(grid(m(i, j), DD));
  for (int i = 0; i < 3; ++i) r.push_back(grid(t[i], DD));
  return r;
}
static json own(const Pose &p, double DD) {
  const Array3d r = p.rpy();
  const double cr = std::cos(r[0]), sr = std::sin(r[0]), cp = std::cos(r[1]), sp = std::sin(r[1]),
               cy = std::cos(r[2]), sy = std::sin(r[2]);
  Eigen::Matrix3d X, Y, Z, m;
  X << 1, 0, 0, 0, cr, -sr, 0, sr, cr;
  Y << cp, 0, sp, 0, 1, 0, -sp, 0, cp;
  Z << cy, -sy, 0, sy, cy, 0, 0, 0, 1;
  m = Z * Y * X;
  return twelve(m, p.xyz(), DD);
}

static std::string text_of(const json &chars) {
  std::string s;
  for (const auto &c : chars) s += c.get<std::string>() == "VT" ? "\v" : c.get<std::string>();
  return s;
}
static ptree reread(const ptree &t) {
  std::stringstream ss;
  boost::property_tree::write_xml(ss, t);
  ptree r;
  boost::property_tree::read_xml(ss, r);
  return r;
}

static json program(const json &h) {
  json r = h;
  r["obs"] = json::array();
  const double DD = h.at("D");
  Pose reg[4];
  for (const auto &op : h.at("ops")) {
    const std::string k = op.at("op");
    json o = json::object();
    if (k == "text") {
      ptree pt;
      if (!op.at("xyz").empty()) pt.put("<xmlattr>.xyz", text_of(op["xyz"][0]));
      if (!op.at("rpy").empty()) pt.put("<xmlattr>.rpy", text_of(op["rpy"][0]));
      const double G = op.at("D");
      o["x"] = o["y"] = o["tx"] = json::array();
      o["some"] = false;
      try {
        const Pose p = Pose::from_ptree(pt);
        o["r"] = "ok";
        for (int i = 0; i < 3; ++i) {
          o["x"].push_back(grid(p.xyz()[i], G));
          o["y"].push_back(grid(p.rpy()[i], G));
        }
      } catch (const std::exception &) {
        o["r"] = "throw";
      }
      if (!op["xyz"].empty()) {
        urdf::Array3dTranslator tr;
        if (auto v = tr.get_value(text_of(op["xyz"][0]))) {
          o["some"] = true;
          for (int i = 0; i < 3; ++i) o["tx"].push_back(grid((*v)[i], G));
        }
      }
      r["obs"].push_back(o);
      continue;
    }
    if (k == "vec") {
      ptree pt;
      pt.put("e.<xmlattr>.v", unwords3(op.at("v")), urdf::Array3dTranslator());
      if (op.value("xml", false)) pt = reread(pt);
      const auto v = pt.get_optional<Array3d>("e.<xmlattr>.v", urdf::Array3dTranslator());
      o["some"] = bool(v);
      if (v) o["v"] = words3(*v);
      r["obs"].push_back(o);
      continue;
    }
    Pose &t = reg[op.at("r").get<int>()];
    if (k == "load") {
      const double d = op.at("d");
      t = Pose({{op["xyz"][0].get<double>() / d, op["xyz"][1].get<double>() / d, op["xyz"][2].get<double>() / d}},
               {{0, 0, 0}});
      Array3d a;
      for (int i = 0; i < 3; ++i) {
        const json &q = op["rpy"][i];
        a[i] = std::atan2(q[1].get<double>(), q[0].get<double>());
        if (op.contains("turns")) a[i] += 2 * M_PI * op["turns"][i].get<int>();
      }
      t = Pose(t.xyz(), a);
    } else if (k == "raw") {
      t = Pose(unwords3(op.at("xb")), unwords3(op.at("rb")));
    } else if (k == "mul") {
      t = reg[op.at("a").get<int>()] * reg[op.at("b").get<int>()];
    } else if (k == "inv") {
      t = reg[op.at("a").get<int>()].inverse();
    } else if (k == "trip") {
      const Pose src = reg[op.at("a").get<int>()];
      o["isid"] = is_identity(src);
      boost::optional<ptree> e = src.to_ptree();
      o["absent"] = !e;
      const std::string via = op.at("via");
      if (via == "ptree") {
        t = e ? Pose::from_ptree(*e) : Pose::from_ptree(boost::optional<const ptree &>());
      } else {
        ptree doc;
        doc.put("joint.<xmlattr>.name", "j");
        if (e) doc.put_child("joint.origin", *e);
        if (via == "xml") doc = reread(doc);
        const ptree &el = doc.get_child("joint");
        t = via == "inertial" ? urdf::Inertial(el).origin() : via == "visual" ? urdf::Visual(el).origin() : urdf::Joint(el).origin();
      }
    } else if (k == "eq") {
      const Pose &a = reg[op.at("a").get<int>()], &b = reg[op.at("b").get<int>()];
      o["eq"] = a == b;
      o["ne"] = a != b;
    } else {
      throw BadInput("unknown op " + k);
    }
    o["xb"] = words3(t.xyz());
    o["rb"] = words3(t.rpy());
    o["own"] = own(t, DD);
    const Eigen::Isometry3d E = AL::Math::toEigenTransform(t);
    o["lib"] = twelve(E.linear(), E.translation(), DD);
    r["obs"].push_back(o);
  }
  return r;
}

int main(int argc, char **argv) { return run_histories(argc, argv, program); }
