// Executes histories of operations on robot descriptions and records the whole document,
// the live tree and a fresh reading of the document after each of them.
// needs: scenegraph/urdf.cpp
#include "urdf_doc.h"

// ------------------------------------------------------------------ observers
struct Rec : urdf::RobotTree::JointConstVisitor {
  json ev = json::array();
  std::set<std::string> prune;
  bool discover(const ptree &j) override {
    const std::string n = j.get<std::string>("<xmlattr>.name");
    ev.push_back(json::array({"d", n}));
    return prune.count(n) == 0;
  }
  void finish(const ptree &j) override {
    ev.push_back(json::array({"f", j.get<std::string>("<xmlattr>.name")}));
  }
};
struct RecMut : urdf::RobotTree::JointVisitor {
  json ev = json::array();
  std::set<std::string> prune;
  bool discover(ptree &j) override {
    const std::string n = j.get<std::string>("<xmlattr>.name");
    ev.push_back(json::array({"d", n}));
    return prune.count(n) == 0;
  }
  void finish(ptree &j) override {
    ev.push_back(json::array({"f", j.get<std::string>("<xmlattr>.name")}));
  }
};
static json view(urdf::RobotTree &t, const std::set<std::string> &links, const std::set<std::string> &joints) {
  json v;
  v["root"] = t.root_link();
  Rec r;
  static_cast<const urdf::RobotTree &>(t).traverse_joints(r);
  v["walk"] = r.ev;
  v["links"] = json::array();
  v["joints"] = json::array();
  const urdf::RobotTree &ct = t;
  for (const auto &n : links) {
    try {
      if (ct.link(n).get<std::string>("<xmlattr>.name") == n && &t.link(n) == &ct.link(n)) v["links"].push_back(n);
      else v["links"].push_back("!" + n);
    } catch (const std::exception &) {
    }
  }
  for (const auto &n : joints) {
    try {
      if (ct.joint(n).get<std::string>("<xmlattr>.name") == n && &t.joint(n) == &ct.joint(n)) v["joints"].push_back(n);
      else v["joints"].push_back("!" + n);
    } catch (const std::exception &) {
    }
  }
  return v;
}
static std::set<std::string> strs(const json &a) {
  std::set<std::string> s;
  for (const auto &x : a) s.insert(x.get<std::string>());
  return s;
}

// ------------------------------------------------------------------ accessors
static json acc_val(std::vector<double> v) {
  json a = json::array();
  for (double x : v) a.push_back(grid(x, 8, 1e-9));
  return {{"st", "ok"}, {"v", a}, {"s", ""}};
}
static json acc_a3(const urdf::Array3d &v) { return acc_val(std::vector<double>(v.begin(), v.end())); }
static json acc_str(const std::string &s) { return {{"st", "ok"}, {"v", json::array()}, {"s", s}}; }
static json acc_none() { return {{"st", "none"}, {"v", json::array()}, {"s", ""}}; }
template <typename F>
static json acc(F f) {
  try {
    return f();
  } catch (const std::exception &) {
    return {{"st", "throw"}, {"v", json::array()}, {"s", ""}};
  }
}
static std::string n8(const json &v) { return num(v.get<double>() / 8); }
static std::string t8(const json &v) { return n8(v[0]) + " " + n8(v[1]) + " " + n8(v[2]); }
static json acc_opt(const boost::optional<double> &v) { return v ? acc_val({*v}) : acc_none(); }

static json read_mode(const json &h) {
  const json &f = h["f"];
  const std::string what = h["what"];
  ptree pt;
  auto putn = [&](const char *k, const char *path) {
    if (f.contains(k)) pt.put(path, f[k].is_array() ? t8(f[k]) : f[k].is_string() ? f[k].get<std::string>() : n8(f[k]));
  };
  json a;
  if (f.contains("origin0")) pt.put("origin", "");
  putn("xyz", "origin.<xmlattr>.xyz");
  putn("rpy", "origin.<xmlattr>.rpy");
  auto origin = [&](auto &&e) {
    a["xyz"] = acc([&] { return acc_a3(e.origin().xyz()); });
    a["rpy"] = acc([&] { return acc_a3(e.origin().rpy()); });
  };
  if (what == "joint") {
    putn("name", "<xmlattr>.name");
    putn("ty", "<xmlattr>.type");
    putn("pa", "parent.<xmlattr>.link");
    putn("ch", "child.<xmlattr>.link");
    putn("ax", "axis.<xmlattr>.xyz");
    putn("lower", "limit.<xmlattr>.lower");
    putn("upper", "limit.<xmlattr>.upper");
    putn("effort", "limit.<xmlattr>.effort");
    putn("velocity", "limit.<xmlattr>.velocity");
    putn("mimic", "mimic.<xmlattr>.joint");
    putn("mult", "mimic.<xmlattr>.multiplier");
    putn("off", "mimic.<xmlattr>.offset");
    urdf::Joint j(pt);
    a["name"] = acc([&] { return acc_str(j.name()); });
    a["pa"] = acc([&] { return acc_str(j.parent_link()); });
    a["ch"] = acc([&] { return acc_str(j.child_link()); });
    a["ty"] = acc([&] {
      const char *nm[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"};
      const urdf::Joint::Type ty[] = {urdf::Joint::revolute, urdf::Joint::continuous, urdf::Joint::prismatic,
                                      urdf::Joint::fixed, urdf::Joint::floating, urdf::Joint::planar};
      for (int i = 0; i < 6; ++i)
        if (j.type() == ty[i]) return acc_str(nm[i]);
      return acc_str("?");
    });
    a["axis"] = acc([&] { return acc_a3(j.axis()); });
    a["limit"] = acc([&] {
      auto l = j.limit_lower_upper();
      return l ? acc_val({l->first, l->second}) : acc_none();
    });
    a["effort"] = acc([&] { return acc_opt(j.limit_effort()); });
    a["velocity"] = acc([&] { return acc_opt(j.limit_velocity()); });
    a["mimic"] = acc([&] { return j.mimic() ? acc_str(j.mimic()->joint()) : acc_none(); });
    a["mult"] = acc([&] { return j.mimic() ? acc_val({j.mimic()->multiplier()}) : acc_none(); });
    a["off"] = acc([&] { return j.mimic() ? acc_val({j.mimic()->offset()}) : acc_none(); });
    origin(j);
  } else if (what == "inertial") {
    putn("mass", "mass.<xmlattr>.value");
    for (const char *k : {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"}) putn(k, (std::string("inertia.<xmlattr>.") + k).c_str());
    urdf::Inertial i(pt);
    a["mass"] = acc([&] { return acc_val({i.mass()}); });
    a["ixx"] = acc([&] { return acc_val({i.ixx()}); });
    a["ixy"] = acc([&] { return acc_val({i.ixy()}); });
    a["ixz"] = acc([&] { return acc_val({i.ixz()}); });
    a["iyy"] = acc([&] { return acc_val({i.iyy()}); });
    a["iyz"] = acc([&] { return acc_val({i.iyz()}); });
    a["izz"] = acc([&] { return acc_val({i.izz()}); });
    origin(i);
  } else if (what == "visual") {
    const std::string sh = f["shape"];
    if (sh != "nogeometry") {
      pt.put("geometry", "");
      if (sh == "none")
        pt.put("geometry.torus", "");
      else {
        const std::string b = "geometry." + sh;
        pt.put(b, "");
        putn("size", (b + ".<xmlattr>.size").c_str());
        putn("radius", (b + ".<xmlattr>.radius").c_str());
        putn("length", (b + ".<xmlattr>.length").c_str());
        putn("filename", (b + ".<xmlattr>.filename").c_str());
        putn("scale", (b + ".<xmlattr>.scale").c_str());
      }
    }
    urdf::Visual v(pt);
    for (const char *k : {"size", "radius", "length", "filename", "scale"}) a[k] = acc_none();
    a["shape"] = acc([&] {
      urdf::Geometry g = v.geometry();
      if (auto *x = boost::get<urdf::Box>(&g)) {
        a["size"] = acc([&] { return acc_a3(x->size()); });
        return acc_str("box");
      }
      if (auto *x = boost::get<urdf::Cylinder>(&g)) {
        a["radius"] = acc([&] { return acc_val({x->radius()}); });
        a["length"] = acc([&] { return acc_val({x->length()}); });
        return acc_str("cylinder");
      }
      if (auto *x = boost::get<urdf::Sphere>(&g)) {
        a["radius"] = acc([&] { return acc_val({x->radius()}); });
        return acc_str("sphere");
      }
      auto *x = boost::get<urdf::Mesh>(&g);
      a["filename"] = acc([&] { return acc_str(x->filename()); });
      a["scale"] = acc([&] { return acc_a3(x->scale()); });
      return acc_str("mesh");
    });
    origin(v);
  } else {
    putn("name", "<xmlattr>.name");
    putn("mass", "inertial.mass.<xmlattr>.value");
    for (int i = 0; i < f["visuals"].get<int>(); ++i) {
      pt.add("visual", "");
      pt.add("collision", "");
    }
    urdf::Link l(pt);
    a["name"] = acc([&] { return acc_str(l.name()); });
    a["mass"] = acc([&] { return l.inertial() ? acc_val({l.inertial()->mass()}) : acc_none(); });
    a["visuals"] = acc([&] {
      int n = 0;
      for (const auto &v : l.visuals()) {
        (void)v;
        ++n;
      }
      return acc_val({n / 1.});
    });
    if (a["visuals"]["st"] == "ok") a["visuals"]["v"][0] = a["visuals"]["v"][0].get<long>() / 8;
  }
  return {{"what", what}, {"f", f}, {"acc", a}};
}

static json one(const json &h) {
  if (h.value("mode", "") == "read") return read_mode(h);
  ptree root;
  ptree &robot = root.put_child("robot", ptree());
  build(robot, h["doc"]);
  std::set<std::string> links, joints;
  for (const auto &c : robot) {
    const std::string n = c.second.get<std::string>("<xmlattr>.name", "");
    if (c.first == "link") links.insert(n);
    if (c.first == "joint") joints.insert(n);
  }
  json out;
  const bool lean = h.value("lean", false);
  out["doc"] = project(robot);
  const ptree before = robot;
  std::unique_ptr<urdf::RobotTree> tree;
  json open;
  try {
    tree.reset(new urdf::RobotTree(robot));
    open["ok"] = true;
    open["root"] = tree->root_link();
    const bool wantflat = !h.value("noflat", false);
    open["flat"] = wantflat ? static_cast<const urdf::RobotTree &>(*tree).is_mimic_tree_flat() : false;
    open["view"] = view(*tree, links, joints);
  } catch (const std::exception &e) {
    open["ok"] = false;
    open["root"] = "";
    open["flat"] = false;
  }
  open["same"] = (before == robot);
  out["open"] = open;
  out["steps"] = json::array();
  if (h.contains("q")) out["q"] = h["q"];
  if (!tree) return out;
  for (const auto &op : h.value("ops", json::array())) {
    const std::string k = op["op"];
    json st;
    st["op"] = op;
    st["ret"] = json::array();
    st["ev"] = json::array();
    st["txt"] = "";
    bool ok = true;
    try {
      if (k == "rm_root") tree->rm_root_joint();
      else if (k == "rm_leaf") tree->rm_leaf_joint(op["n"]);
      else if (k == "define_root") tree->define_as_root_link(op["n"]);
      else if (k == "transport") {
        urdf::Array3d x{{op["xyz"][0], op["xyz"][1], op["xyz"][2]}};
        urdf::Array3d r{{ang(op["rpy"][0]), ang(op["rpy"][1]), ang(op["rpy"][2])}};
        tree->transport_root_link_frame(urdf::Pose(x, r));
        ptree tmp;
        tmp.put("origin.<xmlattr>.xyz", num(x[0]) + " " + num(x[1]) + " " + num(x[2]));
        tmp.put("origin.<xmlattr>.rpy", num(r[0]) + " " + num(r[1]) + " " + num(r[2]));
        bool g = true;
        st["pose"] = pose12(motion_of(tmp), g);
      } else if (k == "remove_if") {
        auto sel = strs(op["sel"]);
        for (const auto &n : urdf::removeSubTreeIfJoint(
                 *tree, [&sel](const ptree &j) { return sel.count(j.get<std::string>("<xmlattr>.name")) > 0; }))
          st["ret"].push_back(n);
      } else if (k == "traverse") {
        Rec r;
        r.prune = strs(op["prune"]);
        static_cast<const urdf::RobotTree &>(*tree).traverse_joints(r);
        st["ev"] = r.ev;
        RecMut r2;
        r2.prune = r.prune;
        tree->traverse_joints(r2);
        if (r2.ev != r.ev) st["ev"].push_back(json::array({"x", "mutable traversal differs"}));
      } else if (k == "dot") {
        std::ostringstream os;
        urdf::UrdfDotPrinterVisitor v(os);
        static_cast<const urdf::RobotTree &>(*tree).traverse_joints(v);
        std::istringstream is(os.str());
        std::string l;
        while (std::getline(is, l)) {
          const auto b = l.find_first_not_of(" \t");
          if (b != std::string::npos) st["ret"].push_back(l.substr(b));
        }
      } else if (k == "make_fixed") urdf::makeJointFixed(*tree, op["n"]);
      else if (k == "make_floating") urdf::makeJointFloating(*tree, op["n"]);
      else if (k == "cont_fixed") {
        for (const auto &n : urdf::makeContinuousJointsFixed(*tree)) st["ret"].push_back(n);
      } else if (k == "squash") urdf::squashJointMass(*tree, op["n"]);
      else if (k == "squash_all") urdf::squashFixedJointsMass(*tree);
      else if (k == "massless") {
        for (const auto &n : urdf::makeMasslessJointsFixed(*tree)) st["ret"].push_back(n);
      } else if (k == "filenames") {
        json calls = json::array();
        urdf::robot::transform_filenames(robot, [&](std::string s) {
          calls.push_back(s);
          return "new:" + s;
        });
        st["ret"] = calls;
      } else if (k == "put_name") {
        // renaming elements found through the tree is only legal for elements not indexed: use a copy
        ptree copy = tree->link(op["n"]);
        urdf::put_name(copy, op["to"]);
        st["ret"] = flatten(copy);
      } else
        throw BadInput("unknown op " + k);
    } catch (const BadInput &) {
      throw;
    } catch (const json::exception &) {
      throw;
    } catch (const std::exception &e) {
      ok = false;
    }
    st["ok"] = ok;
    st["doc"] = project(robot);
    st["live"] = view(*tree, links, joints);
    json fr;
    ptree copy = robot;
    try {
      urdf::RobotTree ft(copy);
      fr = view(ft, links, joints);
      fr["ok"] = true;
    } catch (const std::exception &e) {
      fr["ok"] = false;
    }
    st["fresh"] = fr;
    out["steps"].push_back(st);
  }
  return out;
}

int main(int argc, char **argv) { return run_histories(argc, argv, one); }
