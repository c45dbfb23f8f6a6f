// The geometric types as fixed lists of components, in the documented order.
#pragma once
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransform.h>
#include <almath/types/altransformandvelocity6d.h>
#include <array>
#include <vector>
namespace vec {
using namespace AL::Math;
inline std::vector<float *> parts(Position2D &p) { return {&p.x, &p.y}; }
inline std::vector<float *> parts(Position3D &p) { return {&p.x, &p.y, &p.z}; }
inline std::vector<float *> parts(Position6D &p) { return {&p.x, &p.y, &p.z, &p.wx, &p.wy, &p.wz}; }
inline std::vector<float *> parts(Velocity3D &p) { return {&p.xd, &p.yd, &p.zd}; }
inline std::vector<float *> parts(Velocity6D &p) { return {&p.xd, &p.yd, &p.zd, &p.wxd, &p.wyd, &p.wzd}; }
inline std::vector<float *> parts(Rotation3D &p) { return {&p.wx, &p.wy, &p.wz}; }
inline std::vector<float *> parts(Pose2D &p) { return {&p.x, &p.y, &p.theta}; }
inline std::vector<float *> parts(Quaternion &p) { return {&p.w, &p.x, &p.y, &p.z}; }
inline std::vector<float *> parts(Rotation &p) { return {&p.r1_c1, &p.r1_c2, &p.r1_c3, &p.r2_c1, &p.r2_c2, &p.r2_c3, &p.r3_c1, &p.r3_c2, &p.r3_c3}; }
inline std::vector<float *> parts(Transform &p) { return {&p.r1_c1, &p.r1_c2, &p.r1_c3, &p.r1_c4, &p.r2_c1, &p.r2_c2, &p.r2_c3, &p.r2_c4, &p.r3_c1, &p.r3_c2, &p.r3_c3, &p.r3_c4}; }
inline std::vector<float *> parts(PositionAndVelocity &p) { return {&p.q, &p.dq}; }
inline std::vector<float *> join(std::vector<float *> a, const std::vector<float *> &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
inline std::vector<float *> parts(Displacement &p) { return join(parts(p.P), parts(p.Q)); }
inline std::vector<float *> parts(TransformAndVelocity6D &p) { return join(parts(p.T), parts(p.V)); }
template <typename X> std::vector<float> values(const X &x) {
  X y = x;
  std::vector<float> r;
  for (float *p : parts(y)) r.push_back(*p);
  return r;
}
template <typename X> X from(const std::vector<float> &v) {
  X x;
  std::size_t i = 0;
  for (float *p : parts(x)) *p = v.at(i++);
  return x;
}
}  // namespace vec
