// needs: scenegraph/urdf.cpp tools/almath.cpp types/alpose2d.cpp types/alposition2d.cpp types/alposition3d.cpp types/alposition6d.cpp types/alvelocity3d.cpp types/alvelocity6d.cpp types/alrotation.cpp types/alrotation3d.cpp types/altransform.cpp types/alquaternion.cpp types/aldisplacement.cpp types/alpositionandvelocity.cpp types/altransformandvelocity6d.cpp types/alaxismask.cpp tools/altransformhelpers.cpp tools/almathio.cpp
// Inertial values of rigid bodies (see spec/Bodies.tla).
#include "common.h"
#include <almath/scenegraph/urdfeigen.h>
#include <almath/tools/almath.h>
#include <Eigen/Geometry>
using namespace AL::Math;
namespace urdf = AL::urdf;

static urdf::Array3d angles(const json &rpy) {
  urdf::Array3d a;
  for (int k = 0; k < 3; ++k) a[k] = std::atan2(rpy.at(k).at(1).get<double>(), rpy.at(k).at(0).get<double>());
  return a;
}
static urdf::Array3d triple(const json &t) { return urdf::Array3d{{t.at(0).get<double>(), t.at(1).get<double>(), t.at(2).get<double>()}}; }
// the exact rotation, from the cosines and sines
static Eigen::Matrix3d exact(const json &rpy) {
  Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
  for (int k = 2; k >= 0; --k) {
    const double n = rpy.at(k).at(2), c = rpy.at(k).at(0).get<double>() / n, s = rpy.at(k).at(1).get<double>() / n;
    const int i = (k + 1) % 3, j = (k + 2) % 3;
    Eigen::Matrix3d r = Eigen::Matrix3d::Identity();
    r(i, i) = r(j, j) = c;
    r(j, i) = s;
    r(i, j) = -s;
    m = m * r;
  }
  return m;
}
template <class M>
static json cells(const M &m, double K, double tol = 1e-3) {
  json r = json::array();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.push_back(grid(m(i, j), K, tol));
  return r;
}
static boost::property_tree::ptree inertial(const json &op) {
  boost::property_tree::ptree pt;
  const char *k[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  pt.put("mass.<xmlattr>.value", op.at("m").get<double>());
  for (int i = 0; i < 6; ++i) pt.put(std::string("inertia.<xmlattr>.") + k[i], op.at("I").at(i).get<double>());
  const urdf::Pose p(triple(op.at("t")), angles(op.at("rpy")));
  const auto o = p.to_ptree();
  if (o) pt.put_child("origin", *o);
  return pt;
}
template <class Scalar>
static Eigen::Matrix<Scalar, 3, 3> tensor(const json &I) {
  Eigen::Matrix<Scalar, 3, 3> m;
  const int at[9] = {0, 1, 2, 1, 3, 4, 2, 4, 5};
  for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = static_cast<Scalar>(I.at(at[i]).get<double>());
  return m;
}

template <class Scalar, class EPose>
static json run_as(const json &h) {
  typedef Eigen::Matrix<Scalar, 3, 3> M3;
  typedef Eigen::Matrix<Scalar, 3, 1> V3;
  const double tol = sizeof(Scalar) == 8 ? 1e-3 : 2e-2;
  struct Body { Scalar m = 0; EPose p = EPose::Identity(); M3 I = M3::Zero(); };
  Body regs[4];
  M3 acc = M3::Zero();
  json r = h;
  r["obs"] = json::array();
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op");
    json e = json::object();
    const auto shown = [&](const Body &b) {
      e["M"] = grid(b.m, 1, 1e-6);
      e["c"] = json::array();
      for (int i = 0; i < 3; ++i) e["c"].push_back(grid(b.p.translation()[i], op.at("M").get<double>(), tol));
      e["d"] = op.at("d");
      e["R"] = cells(M3(b.p.linear()), op.at("d").get<double>(), tol);
      e["K"] = op.at("K");
      e["I"] = cells(b.I, op.at("K").get<double>(), sizeof(Scalar) == 8 ? 1e-2 : 5e-2);
    };
    if (o == "place") {
      Body &b = regs[op.at("r").get<int>() - 1];
      b.m = static_cast<Scalar>(op.at("m").get<double>());
      b.p = EPose::Identity();
      b.p.linear() = exact(op.at("rpy")).cast<Scalar>();
      for (int i = 0; i < 3; ++i) b.p.translation()[i] = static_cast<Scalar>(op.at("t").at(i).get<double>());
      b.I = tensor<Scalar>(op.at("I"));
    } else if (o == "read") {
      Body &b = regs[op.at("r").get<int>() - 1];
      auto pt = inertial(op);
      V3 com;
      b.m = Scalar(-1);
      urdfInertialToEigen(urdf::Inertial(pt), b.m, com, b.I);
      b.p = EPose::Identity();
      b.p.translation() = com;
      shown(b);
    } else if (o == "squash") {
      Body a = regs[op.at("a").get<int>() - 1], b = regs[op.at("b").get<int>() - 1], c;
      c.m = Scalar(99);      // leftovers must not matter
      c.p.linear() = M3::Constant(Scalar(7));
      c.I = M3::Constant(Scalar(5));
      squashInertial(a.m, a.p, a.I, b.m, b.p, b.I, c.m, c.p, c.I);
      const Body &x = regs[op.at("a").get<int>() - 1], &y = regs[op.at("b").get<int>() - 1];
      e["same"] = a.m == x.m && a.p.matrix() == x.p.matrix() && a.I == x.I && b.m == y.m && b.p.matrix() == y.p.matrix() && b.I == y.I ? 1 : 0;
      regs[op.at("c").get<int>() - 1] = c;
      shown(c);
    } else if (o == "acc") {
      acc = tensor<Scalar>(op.at("I"));
    } else if (o == "add") {
      V3 p;
      for (int i = 0; i < 3; ++i) p[i] = static_cast<Scalar>(op.at("p").at(i).get<double>());
      addPointMassInertia(static_cast<Scalar>(op.at("m").get<double>()), p, acc);
      e["I"] = cells(acc, 1, tol);
    } else if (o == "point") {
      std::vector<float> v(op.at("n").get<int>(), 3.f);
      pointMassRotationalInertia(op.at("m"), Position3D(op.at("p").at(0), op.at("p").at(1), op.at("p").at(2)), v);
      e["I"] = json::array();
      for (float x : v) e["I"].push_back(grid(x, 1));
    } else if (o == "rpy") {
      const urdf::Array3d a = angles(op.at("rpy"));
      const double d = op.at("d");
      const Eigen::Matrix3d m = eigenQuaternionFromUrdfRpy(a).toRotationMatrix();
      e["d"] = op.at("d");
      e["quat"] = cells(m, d, 1e-6);
      const Eigen::Isometry3d t = toEigenTransform(urdf::Pose(triple(op.at("t")), a));
      e["pose"] = cells(Eigen::Matrix3d(t.linear()), d, 1e-6);
      e["t"] = json::array({grid(t.translation()[0], 1), grid(t.translation()[1], 1), grid(t.translation()[2], 1)});
      e["back"] = cells(eigenQuaternionFromUrdfRpy(urdfRpyFromEigenMatrix3(m)).toRotationMatrix(), d, 1e-6);
    } else throw BadInput("unknown op " + o);
    r["obs"].push_back(e);
  }
  return r;
}
static json run(const json &h) {
  const std::string as = h.value("as", "d");
  if (as == "f") return run_as<float, Eigen::AffineCompact3f>(h);
  if (as == "i") return run_as<double, Eigen::Isometry3d>(h);
  return run_as<double, Eigen::Transform<double, 3, Eigen::AffineCompact, Eigen::DontAlign>>(h);
}
int main(int argc, char **argv) { return run_histories(argc, argv, run); }
