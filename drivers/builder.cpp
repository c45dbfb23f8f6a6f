// Translates robot descriptions into builder calls, and pushes requests through chains of builders.
// needs: scenegraph/urdf.cpp scenegraph/urdfrigidbodysystemtraverser.cpp
#include "urdf_doc.h"
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
#include <almath/scenegraph/rigidbodysystembuilder.h>
#include <memory>

namespace B = AL::RigidBodySystemBuilder;
template <typename T> struct Other { typedef float type; };
template <> struct Other<float> { typedef double type; };

static json grid12(const Eigen::Matrix3d &R, const Eigen::Vector3d &t, bool &g) {
  json a = json::array();
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k) a.push_back(grid(R(i, k), D, 0.05));
  for (int i = 0; i < 3; ++i) a.push_back(grid(t(i), D, 0.05));
  for (auto &v : a)
    if (v == OFFGRID) g = false;
  return a;
}
static json si10(double mass, const Eigen::Vector3d &c, const Eigen::Matrix3d &I, bool &g) {
  Eigen::Matrix3d S = 0.5 * I.trace() * Eigen::Matrix3d::Identity() - I;
  if ((I - I.transpose()).norm() > 1e-6) g = false;
  S = (S + mass * c * c.transpose()).eval();
  json a = json::array();
  a.push_back(grid(mass, 1, 0.01));
  for (int i = 0; i < 3; ++i) a.push_back(grid(mass * c(i), SID, 0.05));
  for (int i = 0; i < 3; ++i)
    for (int k = i; k < 3; ++k) a.push_back(grid(S(i, k), SID, 0.05));
  for (auto &v : a)
    if (v == OFFGRID) g = false;
  return a;
}
static const char *kind_of(B::JointType t) {
  switch (t) {
    case B::JointType::FreeFlyer: return "free";
    case B::JointType::Rx: return "rx";
    case B::JointType::Ry: return "ry";
    case B::JointType::Rz: return "rz";
  }
  return "?";
}
static B::JointType of_kind(const std::string &s) {
  return s == "free" ? B::JointType::FreeFlyer : s == "rx" ? B::JointType::Rx : s == "ry" ? B::JointType::Ry : B::JointType::Rz;
}

struct Back {
  B::Config cfg;
  std::set<std::string> refuse;
  json calls = json::array();
};
template <typename T>
struct Recorder : B::Interface<T> {
  Back &b;
  explicit Recorder(Back &b) : b(b) {}
  const B::Config &config() const override { return b.cfg; }
  void addLink(B::LinkData<T> l) override {
    if (b.refuse.count(l.new_body)) throw std::runtime_error("refused");
    bool g = true;
    json x = {{"c", "body"}, {"pa", l.parent_body}, {"n", l.new_body}, {"jn", l.new_joint}, {"ty", kind_of(l.joint_type)}};
    x["p"] = grid12(l.pose_parent_new.linear().template cast<double>(), l.pose_parent_new.translation().template cast<double>(), g);
    x["si"] = si10(l.body_mass.mass, l.body_mass.center_of_mass.template cast<double>(),
                   l.body_mass.rotational_inertia.template cast<double>(), g);
    x["g"] = g;
    b.calls.push_back(x);
  }
  void addStaticFrame(B::StaticFrameData<T> f) override {
    if (b.refuse.count(f.new_static_frame)) throw std::runtime_error("refused");
    bool g = true;
    json x = {{"c", "frame"}, {"pa", f.parent_frame}, {"n", f.new_static_frame}, {"jn", f.new_static_transform}};
    x["p"] = grid12(f.pose_parent_new.linear().template cast<double>(), f.pose_parent_new.translation().template cast<double>(), g);
    x["g"] = g;
    b.calls.push_back(x);
  }
};
struct Chain {
  Back &back;
  std::vector<std::shared_ptr<void>> own;
  template <typename T, typename X, typename... A>
  B::Interface<T> &keep(A &&...a) {
    auto p = std::make_shared<X>(a...);
    own.push_back(p);
    return *p;
  }
  template <typename T>
  B::Interface<T> &make(const json &chain, size_t i) {
    if (i == chain.size()) return keep<T, Recorder<T>>(back);
    const std::string k = chain[i];
    if (k == "cast") {
      typedef typename Other<T>::type O;
      B::Interface<O> &next = make<O>(chain, i + 1);
      return keep<T, B::Adapter<T, O>>(next);
    }
    B::Interface<T> &next = make<T>(chain, i + 1);
    if (k == "names") return keep<T, B::NamesChecker<T>>(next);
    if (k == "eraser") return keep<T, B::InertiaEraser<T>>(next);
    if (k == "plain") return keep<T, B::Decorator<T>>(next);
    throw BadInput("chain " + k);
  }
};

// both options are off unless asked for
template <typename T> static void walk(B::Interface<double> &front, T &from, bool rmroot, bool contfixed) {
  if (contfixed) AL::buildRigidBodySystemFromUrdf(front, from, rmroot, contfixed);
  else if (rmroot) AL::buildRigidBodySystemFromUrdf(front, from, rmroot);
  else AL::buildRigidBodySystemFromUrdf(front, from);
}
static json one(const json &h) {
  const json &cf = h.at("cfg");
  Back back;
  back.cfg.no_static_frame = cf.at("nosf");
  back.cfg.joint_name_format = cf.at("pre").get<std::string>() + "%1%" + cf.at("suf").get<std::string>();
  back.cfg.galilean_frame = cf.at("gal");
  json out = {{"kind", h.at("kind")}, {"cfg", cf}, {"chain", h.at("chain")}};
  Chain chain{back, {}};
  if (h.at("kind") == "robot") {
    ptree root;
    ptree &robot = root.put_child("robot", ptree());
    build(robot, h.at("doc"));
    out["doc"] = project(robot);
    for (auto &e : out["doc"]) {
      if (!e["g"].get<bool>()) throw BadInput("document off grid");
      e.erase("at");
    }
    out["rmroot"] = h.at("rmroot");
    out["contfixed"] = h.at("contfixed");
    B::Interface<double> &front = chain.make<double>(h.at("chain"), 0);
    bool ok = true;
    try {
      if (h.at("stream").get<bool>()) {
        std::stringstream ss;
        boost::property_tree::write_xml(ss, root);
        walk(front, ss, h.at("rmroot").get<bool>(), h.at("contfixed").get<bool>());
      } else
        walk(front, root, h.at("rmroot").get<bool>(), h.at("contfixed").get<bool>());
    } catch (const std::exception &) {
      ok = false;
    }
    out["ok"] = ok;
  } else {
    for (const auto &r : h.at("refuse")) back.refuse.insert(r.get<std::string>());
    out["refuse"] = h.at("refuse");
    out["reqs"] = json::array();
    out["res"] = json::array();
    B::Interface<double> &front = chain.make<double>(h.at("chain"), 0);
    typedef B::Interface<double> I;
    for (const auto &q : h.at("reqs")) {
      ptree tmp;
      put_origin(tmp, q);
      const Mo m = motion_of(tmp);
      I::Pose pose;
      pose.linear() = m.R;
      pose.translation() = m.t;
      json r = {{"c", q.at("c")}, {"pa", q.at("pa")}, {"n", q.at("n")}, {"jn", q.value("jn", "")},
                {"named", q.contains("jn")}, {"conv", q.at("conv")}};
      bool g = true, ok = true;
      r["p"] = grid12(m.R, m.t, g);
      I::BodyMass bm;
      const std::string pa = q.at("pa"), n = q.at("n"), jn = q.value("jn", "");
      const bool body = q.at("c") == "body", conv = q.at("conv"), named = q.contains("jn");
      if (body) {
        r["ty"] = q.at("ty");
        bm.mass = q.at("mass");
        const json &c = q.at("com"), &i = q.at("I");
        bm.center_of_mass = I::Vector3(c[0], c[1], c[2]);
        bm.rotational_inertia << i[0], i[1], i[2], i[1], i[3], i[4], i[2], i[4], i[5];
        r["si"] = si10(bm.mass, bm.center_of_mass, bm.rotational_inertia, g);
      }
      if (!g) throw BadInput("request off grid");
      const std::string j = named ? jn : front.config().joint_name(n);
      try {
        if (body) {
          const B::JointType ty = of_kind(q.at("ty"));
          if (!conv) front.addLink(I::Link{pa, n, j, pose, ty, bm});
          else if (named) front.add(pa, n, pose, ty, bm, jn);
          else front.add(pa, n, pose, ty, bm);
        } else {
          if (!conv) front.addStaticFrame(I::StaticFrame{pa, n, j, pose});
          else if (named) front.add(pa, n, pose, jn);
          else front.add(pa, n, pose);
        }
      } catch (const std::exception &) {
        ok = false;
      }
      out["reqs"].push_back(r);
      out["res"].push_back(ok);
    }
  }
  out["calls"] = back.calls;
  return out;
}
int main(int argc, char **argv) { return run_histories(argc, argv, one); }
