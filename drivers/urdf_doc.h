// Builds robot descriptions from the inputs of the checks and projects documents for the specification.
#pragma once
#include "common.h"
#include <almath/scenegraph/urdf.h>
#include <boost/property_tree/xml_parser.hpp>
#include <Eigen/Geometry>
#include <array>
#include <map>
#include <set>
#include <sstream>

using AL::urdf::ptree;
namespace urdf = AL::urdf;
static const double D = 625.;     // poses
static const double SID = 1250.;  // moments

static std::string num(double v) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static std::string trip(const json &a) {
  return num(a[0]) + " " + num(a[1]) + " " + num(a[2]);
}
// angles are given as [c, s] or [c, s, turns]
static double ang(const json &a) {
  double t = std::atan2(a[1].get<double>(), a[0].get<double>());
  if (a.size() > 2) t += 2 * M_PI * a[2].get<double>();
  return t;
}
static void put_origin(ptree &pt, const json &e) {
  if (e.contains("xyz")) pt.put("origin.<xmlattr>.xyz", trip(e["xyz"]));
  if (e.contains("rpy"))
    pt.put("origin.<xmlattr>.rpy",
           num(ang(e["rpy"][0])) + " " + num(ang(e["rpy"][1])) + " " + num(ang(e["rpy"][2])));
}
static void put_extra(ptree &pt, const json &e) {
  if (e.contains("x"))
    for (const auto &kv : e["x"]) {
      // "+path" adds a new sibling, otherwise put
      std::string p = kv[0];
      if (p[0] == '+')
        pt.add(p.substr(1), kv[1].get<std::string>());
      else
        pt.put(p, kv[1].get<std::string>());
    }
}

static void build(ptree &robot, const json &doc) {
  for (const auto &e : doc) {
    const std::string k = e["k"];
    if (k == "link") {
      ptree &l = robot.add("link", "");
      l.put("<xmlattr>.name", e["n"].get<std::string>());
      if (e.contains("els"))
        for (const auto &c : e["els"]) {
          ptree &pt = l.add(c["k"].get<std::string>(), "");
          put_origin(pt, c);
          if (c["k"] == "inertial") {
            pt.put("mass.<xmlattr>.value", num(c["mass"]));
            const char *nm[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
            for (int i = 0; i < 6; ++i)
              pt.put(std::string("inertia.<xmlattr>.") + nm[i], num(c["I"][i]));
          }
          put_extra(pt, c);
        }
      put_extra(l, e);
    } else if (k == "joint") {
      ptree &j = robot.add("joint", "");
      j.put("<xmlattr>.name", e["n"].get<std::string>());
      j.put("<xmlattr>.type", e["ty"].get<std::string>());
      put_origin(j, e);
      j.put("parent.<xmlattr>.link", e["pa"].get<std::string>());
      j.put("child.<xmlattr>.link", e["ch"].get<std::string>());
      if (e.contains("ax")) j.put("axis.<xmlattr>.xyz", trip(e["ax"]));
      if (e.contains("mi") && e["mi"] != "") j.put("mimic.<xmlattr>.joint", e["mi"].get<std::string>());
      put_extra(j, e);
    } else {
      ptree &o = robot.add(k, "");
      put_extra(o, e);
    }
  }
}

// ------------------------------------------------------------------ projection
// independent readers (not the library's)
static bool triple(const boost::optional<std::string> &s, double (&v)[3], double d0, double d1, double d2) {
  v[0] = d0; v[1] = d1; v[2] = d2;
  if (!s) return true;
  std::istringstream is(*s);
  std::string w;
  for (int i = 0; i < 3; ++i) {
    if (!(is >> w)) return false;
    char *end;
    v[i] = std::strtod(w.c_str(), &end);
    if (*end) return false;
  }
  return !(is >> w);
}
struct Mo {
  Eigen::Matrix3d R;
  Eigen::Vector3d t;
  bool ok;
};
static Mo motion_of(const ptree &pt) {
  double x[3], r[3];
  Mo m;
  m.ok = triple(pt.get_optional<std::string>("origin.<xmlattr>.xyz"), x, 0, 0, 0) &
         triple(pt.get_optional<std::string>("origin.<xmlattr>.rpy"), r, 0, 0, 0);
  const double cr = std::cos(r[0]), sr = std::sin(r[0]), cp = std::cos(r[1]), sp = std::sin(r[1]),
               cy = std::cos(r[2]), sy = std::sin(r[2]);
  Eigen::Matrix3d X, Y, Z;
  X << 1, 0, 0, 0, cr, -sr, 0, sr, cr;
  Y << cp, 0, sp, 0, 1, 0, -sp, 0, cp;
  Z << cy, -sy, 0, sy, cy, 0, 0, 0, 1;
  m.R = Z * Y * X;
  m.t = Eigen::Vector3d(x[0], x[1], x[2]);
  return m;
}
static json pose12(const Mo &m, bool &g) {
  json a = json::array();
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k) a.push_back(grid(m.R(i, k), D));
  for (int i = 0; i < 3; ++i) a.push_back(grid(m.t(i), D));
  for (auto &v : a)
    if (v == OFFGRID) g = false;
  if (!m.ok) g = false;
  return a;
}
static double getd(const ptree &pt, const char *p, bool &g) {
  auto s = pt.get_optional<std::string>(p);
  if (!s) { g = false; return 0; }
  return std::strtod(s->c_str(), nullptr);
}
static json spatial(const ptree &pt, const Mo &m, bool &g) {
  const double mass = getd(pt, "mass.<xmlattr>.value", g);
  Eigen::Matrix3d I;
  I(0, 0) = getd(pt, "inertia.<xmlattr>.ixx", g);
  I(0, 1) = I(1, 0) = getd(pt, "inertia.<xmlattr>.ixy", g);
  I(0, 2) = I(2, 0) = getd(pt, "inertia.<xmlattr>.ixz", g);
  I(1, 1) = getd(pt, "inertia.<xmlattr>.iyy", g);
  I(1, 2) = I(2, 1) = getd(pt, "inertia.<xmlattr>.iyz", g);
  I(2, 2) = getd(pt, "inertia.<xmlattr>.izz", g);
  Eigen::Matrix3d S = 0.5 * I.trace() * Eigen::Matrix3d::Identity() - I;
  S = (m.R * S * m.R.transpose() + mass * m.t * m.t.transpose()).eval();
  Eigen::Vector3d h = mass * m.t;
  json a = json::array();
  a.push_back(grid(mass, 1));
  for (int i = 0; i < 3; ++i) a.push_back(grid(h(i), SID));
  a.push_back(grid(S(0, 0), SID));
  a.push_back(grid(S(0, 1), SID));
  a.push_back(grid(S(0, 2), SID));
  a.push_back(grid(S(1, 1), SID));
  a.push_back(grid(S(1, 2), SID));
  a.push_back(grid(S(2, 2), SID));
  for (auto &v : a)
    if (v == OFFGRID) g = false;
  return a;
}
// flattened element content: [[key, key, ...], path with positions, text] for every node but the
// attribute containers themselves
static void flat(const ptree &pt, json &keys, const std::string &path, json &out) {
  std::map<std::string, int> seen;
  for (const auto &c : pt) {
    const std::string id = c.first + "#" + std::to_string(seen[c.first]++);
    const std::string p = path.empty() ? id : path + "/" + id;
    keys.push_back(c.first);
    if (c.first != "<xmlattr>") out.push_back(json::array({keys, p, c.second.data()}));
    flat(c.second, keys, p, out);
    keys.erase(keys.size() - 1);
  }
}
static json flatten(const ptree &pt) {
  json out = json::array(), keys = json::array();
  flat(pt, keys, "", out);
  return out;
}
static json project(const ptree &robot) {
  json doc = json::array();
  for (const auto &c : robot) {
    json e;
    bool g = true;
    e["k"] = c.first;
    e["at"] = flatten(c.second);
    e["n"] = c.second.get<std::string>("<xmlattr>.name", "");
    if (c.first == "link") {
      e["els"] = json::array();
      for (const auto &x : c.second) {
        if (x.first != "inertial" && x.first != "visual" && x.first != "collision") continue;
        const Mo m = motion_of(x.second);
        json el;
        el["k"] = x.first;
        bool gp = true;   // the pose of an inertial element need not be on the grid: si says what it means
        el["p"] = pose12(m, gp);
        if (x.first == "inertial" ? !m.ok : !gp) g = false;
        if (x.first == "inertial") el["si"] = spatial(x.second, m, g);
        e["els"].push_back(el);
      }
    } else if (c.first == "joint") {
      e["ty"] = c.second.get<std::string>("<xmlattr>.type", "");
      e["pa"] = c.second.get<std::string>("parent.<xmlattr>.link", "");
      e["ch"] = c.second.get<std::string>("child.<xmlattr>.link", "");
      e["mi"] = c.second.get<std::string>("mimic.<xmlattr>.joint", "");
      e["p"] = pose12(motion_of(c.second), g);
      double a[3];
      if (!triple(c.second.get_optional<std::string>("axis.<xmlattr>.xyz"), a, 1, 0, 0)) g = false;
      e["ax"] = json::array({grid(a[0], 5), grid(a[1], 5), grid(a[2], 5)});
      for (auto &v : e["ax"])
        if (v == OFFGRID) g = false;
    }
    e["g"] = g;
    doc.push_back(e);
  }
  return doc;
}

