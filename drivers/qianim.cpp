// needs: scenegraph/qianim.cpp
// Animations: histories of edits (Q01), fields and validation (Q02).
#include "common.h"
#include <almath/scenegraph/qianim.h>
#include <boost/property_tree/ptree.hpp>
#include <cstring>
#include <set>
using namespace AL::qianim;
using namespace AL::qianim::V2;

static const std::set<std::string> NUMERIC = {"frame", "fps", "value", "abscissaParam", "ordinateParam"};

static json dump(const std::string &tag, const ptree &t) {
  json at = json::array(), ch = json::array();
  for (const auto &c : t) {
    if (c.first == "<xmlattr>") {
      for (const auto &a : c.second) {
        const std::string v = a.second.data();
        char *e = nullptr;
        const double x = std::strtod(v.c_str(), &e);
        if (NUMERIC.count(a.first) && !v.empty() && *e == 0)
          at.push_back({a.first, "", grid(x, 4, 1e-9)});
        else
          at.push_back({a.first, v.empty() && NUMERIC.count(a.first) ? "(empty)" : v, 0});
      }
    } else
      ch.push_back(dump(c.first, c.second));
  }
  return {{"k", tag}, {"at", at}, {"d", t.data()}, {"ch", ch}};
}

static ptree &make(ptree &t, const json &d) {
  // "late": attributes come after the children in the document
  const bool late = d.value("late", false);
  auto attrs = [&] {
    if (d.contains("at"))
      for (const auto &a : d["at"]) t.put(ptree::path_type("<xmlattr>|" + a[0].get<std::string>(), '|'), a[1].get<std::string>());
  };
  t.data() = d.value("d", "");
  if (!late) attrs();
  if (d.contains("ch"))
    for (const auto &c : d["ch"]) make(t.push_back(std::make_pair(c.at("k").get<std::string>(), ptree()))->second, c);
  if (late) attrs();
  return t;
}

// the element at a path of child positions (attributes not counted)
static ptree &at(ptree &t, const json &path, size_t i = 0) {
  if (i == path.size()) return t;
  int n = 0;
  for (auto &c : t)
    if (c.first != "<xmlattr>" && ++n == path[i].get<int>()) return at(c.second, path, i + 1);
  throw BadInput("no such path");
}
static int position(const ptree &t, const ptree *c) {
  int n = 0;
  for (const auto &x : t) {
    if (x.first == "<xmlattr>") continue;
    ++n;
    if (&x.second == c) return n;
  }
  return -1;
}
static Side side(const json &op) { return op.at("side") == "left" ? Side::left : Side::right; }
static Unit unit(const std::string &u) {
  return u == "radian" ? Unit::radian : u == "degree" ? Unit::degree : u == "meter" ? Unit::meter : Unit::dimensionless;
}

static json edits(const json &h) {
  ptree root;
  make(root, h.at("doc"));
  json steps = json::array();
  json first = dump("root", root);
  for (const json &op0 : h.at("ops")) {
    json op = op0;
    if (!op.contains("path")) op["path"] = json::array();
    const std::string o = op.at("op");
    json r = {{"st", "ok"}, {"idx", 0}, {"n", 0}, {"seq", json::array()}};
    ptree *tp = nullptr;
    try {
      tp = &at(root, op["path"]);
    } catch (const BadInput &) {   // the element the history counts on is not there
      if (h.value("loose", false)) continue;
      throw;
    }
    ptree &t = *tp;
    const ptree &ct = t;
    try {
      auto found = [&](const ptree *p) { r["idx"] = position(t, p); };
      auto both = [&](const optional<ptree &> &a, const optional<const ptree &> &b) {
        if (bool(a) != bool(b) || (a && &*a != &*b)) r["st"] = "the const and mutable forms differ";
        else if (a) found(&*a);
        else r["st"] = "none";
      };
      if (o == "req_key") found(&ActuatorCurve::require_key(t, op.at("f")));
      else if (o == "get_key") {
        const int f = op.at("f");
        both(ActuatorCurve::get_key_optional(t, f), ActuatorCurve::get_key_optional(ct, f));
        bool thrown = false;
        const ptree *p = nullptr;
        try {
          p = &ActuatorCurve::get_key(ct, f);
          if (p != &ActuatorCurve::get_key(t, f)) r["st"] = "get_key forms differ";
        } catch (const std::exception &) { thrown = true; }
        if (thrown != (r["st"] == "none") || (p && position(t, p) != r["idx"])) r["st"] = "get_key differs";
      }
      else if (o == "add_label") found(&Labels::add_label(t, op.at("f"), op.at("v")));
      else if (o == "req_tan") found(&Key::require_tangent(t, side(op)));
      else if (o == "get_tan") {
        both(Key::get_tangent_optional(t, side(op)), Key::get_tangent_optional(ct, side(op)));
        bool thrown = false;
        const ptree *p = nullptr;
        try {
          p = &Key::get_tangent(ct, side(op));
          if (p != &Key::get_tangent(t, side(op))) r["st"] = "get_tangent forms differ";
        } catch (const std::exception &) { thrown = true; }
        if (thrown != (r["st"] == "none") || (p && position(t, p) != r["idx"])) r["st"] = "get_tangent differs";
      }
      else if (o == "put_tan") found(&Key::put_tangent(t, side(op), op.at("a").get<double>() / 4, op.at("o").get<double>() / 4));
      else if (o == "erase_tan") r["n"] = Key::erase_tangent(t, side(op));
      else if (o == "req_curve") found(&Animation::require_actuatorcurve(t, op.at("n")));
      else if (o == "add_labels") found(&Animation::add_labels(t));
      else if (o == "req_anim") found(&require_animation(t));
      else if (o == "get_anim") {
        const ptree *a = nullptr, *b = nullptr;
        try { a = &get_animation(ct); } catch (const std::exception &) {}
        b = &get_animation(t);
        if (a != b) r["st"] = "the const and mutable forms differ";
        else found(b);
      }
      else if (o == "put_frame") Key::put_frame(t, op.at("i"));
      else if (o == "put_fps") ActuatorCurve::put_fps(t, op.at("i"));
      else if (o == "put_mute") ActuatorCurve::put_mute(t, op.at("b"));
      else if (o == "put_unit") ActuatorCurve::put_unit(t, unit(op.at("u")));
      else if (o == "put_actuator") ActuatorCurve::put_actuator(t, op.at("n"));
      else if (o == "put_value") Key::put_value<double>(t, op.at("q").get<double>() / 4);
      else if (o == "other") t.add_child(op.at("k").get<std::string>(), ptree());
      else if (o == "list") {
        const std::string of = op.at("of");
        json again = json::array();
        r["said"] = json::array();
        const auto list = [&](const auto &these, auto &&those) {
          for (const ptree &k : these) r["seq"].push_back(position(t, &k));
          for (const ptree &k : those) again.push_back(position(t, &k));
        };
        if (of == "Key") list(ActuatorCurve::get_keys(ct), ActuatorCurve::get_keys(t));
        else if (of == "Label") {
          list(Labels::get_labels(ct), Labels::get_labels(t));
          for (const ptree &k : Labels::get_labels(ct)) r["said"].push_back(Label::get_value(k));
        }
        else if (of == "ActuatorCurve") list(Animation::get_actuatorcurves(ct), Animation::get_actuatorcurves(t));
        else if (of == "Labels") list(Animation::get_labels(ct), Animation::get_labels(t));
        else throw BadInput("list of " + of);
        if (again != r["seq"]) r["seq"].push_back(-5);
      } else
        throw BadInput("unknown operation " + o);
    } catch (const BadInput &) {
      throw;
    } catch (const json::exception &) {
      throw;
    } catch (const std::exception &) {
      r["st"] = "throw";
      r["idx"] = 0;
    }
    steps.push_back({{"op", op}, {"r", r}, {"doc", dump("root", root)}});
  }
  return {{"doc", first}, {"steps", steps}};
}

// ------------------------------------------------------------------- fields
template <typename T> static json bits(T x) {
  unsigned long long u = 0;
  std::memcpy(&u, &x, sizeof x);
  json r = json::array();
  for (int i = 0; i < 4; ++i) r.push_back(std::to_string((u >> (16 * i)) & 0xffff));
  return r;
}
template <typename T> static T unbits(const json &w) {
  unsigned long long u = 0;
  for (int i = 0; i < 4; ++i) u |= std::stoull(w.at(i).get<std::string>()) << (16 * i);
  T x;
  std::memcpy(&x, &u, sizeof x);
  return x;
}
static std::string name(Unit u) {
  return u == Unit::radian ? "radian" : u == Unit::degree ? "degree" : u == Unit::meter ? "meter" : u == Unit::dimensionless ? "dimensionless" : "?";
}
static void get(const json &h, const ptree &t, json &r) {
  const std::string f = h.at("field");
  const bool single = h.value("single", false);
  if (f == "frame") r["goti"] = h.value("label", false) ? Label::get_frame(t) : Key::get_frame(t);
  else if (f == "fps") r["goti"] = h.value("label", false) ? Labels::get_fps(t) : ActuatorCurve::get_fps(t);
  else if (f == "value") r["gotw"] = single ? bits(Key::get_value<float>(t)) : bits(Key::get_value<double>(t));
  else if (f == "abscissa") r["gotw"] = single ? bits(Tangent::get_abscissa<float>(t)) : bits(Tangent::get_abscissa<double>(t));
  else if (f == "ordinate") r["gotw"] = single ? bits(Tangent::get_ordinate<float>(t)) : bits(Tangent::get_ordinate<double>(t));
  else if (f == "side") r["gotw"] = {Tangent::get_side(t) == Side::left ? "left" : "right"};
  else if (f == "unit") r["gotw"] = {name(ActuatorCurve::get_unit(t))};
  else if (f == "mute") r["gotw"] = {ActuatorCurve::get_mute(t) ? "true" : "false"};
  else if (f == "actuator") r["gotw"] = {ActuatorCurve::get_actuator(t)};
  else if (f == "version") Animation::check_version(t);
  else throw BadInput("unknown field");
}
template <typename T> static void put_number(const std::string &f, ptree &t, const json &w) {
  const T x = unbits<T>(w);
  if (f == "value") Key::put_value<T>(t, x);
  else if (f == "abscissa") Tangent::put_abscissa<T>(t, x);
  else Tangent::put_ordinate<T>(t, x);
}
static std::string attribute(const std::string &f) {
  return f == "abscissa" || f == "ordinate" ? f + "Param" : f == "version" ? "typeVersion" : f;
}
static json fields(const json &h) {
  json r = h;
  ptree t;
  r["goti"] = 0;
  r["gotw"] = json::array();
  r["get"] = "ok";
  const std::string f = h.at("field");
  if (h.at("what") == "read") {
    if (h.at("present").get<bool>()) t.put(ptree::path_type("<xmlattr>|" + attribute(f), '|'), h.at("text").get<std::string>());
  } else {
    for (const auto &a : h.at("before")) t.put(ptree::path_type("<xmlattr>|" + a[0].get<std::string>(), '|'), a[1].get<std::string>());
    t.add_child("a", ptree("b"));
    const ptree before = t;
    r["put"] = "ok";
    try {
      const bool single = h.value("single", false);
      if (f == "frame") Key::put_frame(t, h.at("i"));
      else if (f == "fps") ActuatorCurve::put_fps(t, h.at("i"));
      else if (f == "side") Tangent::put_side(t, h.at("w")[0] == "left" ? Side::left : Side::right);
      else if (f == "unit") ActuatorCurve::put_unit(t, unit(h.at("w")[0]));
      else if (f == "mute") ActuatorCurve::put_mute(t, h.at("w")[0] == "true");
      else if (f == "actuator") ActuatorCurve::put_actuator(t, h.at("w")[0]);
      else if (single) put_number<float>(f, t, h.at("w"));
      else put_number<double>(f, t, h.at("w"));
    } catch (const json::exception &) {
      throw;
    } catch (const std::exception &) {
      r["put"] = "throw";
    }
    r["same"] = (t == before);
    // nothing else changes
    if (t.get<std::string>("a", "") != "b" || t.size() > 2 || t.get_child("<xmlattr>", ptree()).size() >
        before.get_child("<xmlattr>", ptree()).size() + 1) r["put"] = "something else changed";
    const ptree attrs = before.get_child("<xmlattr>", ptree());
    for (const auto &a : attrs)
      if (a.first != attribute(f) && t.get<std::string>(ptree::path_type("<xmlattr>|" + a.first, '|'), "?") != a.second.data())
        r["put"] = "another attribute changed";
  }
  try {
    get(h, t, r);
  } catch (const BadInput &) {
    throw;
  } catch (const std::exception &) {
    r["get"] = "throw";
  }
  return r;
}

static json check(const json &h) {
  ptree t;
  make(t, h.at("doc"));
  json r = {{"what", "check"}, {"doc", dump("Animation", t)}};
  auto st = [](const std::function<void()> &f) {
    try {
      f();
      return "ok";
    } catch (const std::exception &) {
      return "throw";
    }
  };
  r["all"] = st([&] { Animation::check_all(t); });
  r["version"] = st([&] { Animation::check_version(t); });
  r["curves"] = json::array();
  for (const ptree &c : Animation::get_actuatorcurves(static_cast<const ptree &>(t)))
    r["curves"].push_back({st([&] { ActuatorCurve::check_cubic_bezier<double>(c); }),
                           st([&] { ActuatorCurve::check_cubic_bezier<float>(c); })});
  // the arcs between neighbouring keys, as far as they can be read
  r["arcs"] = json::array();
  for (const ptree &c : Animation::get_actuatorcurves(static_cast<const ptree &>(t))) {
    json arcs = json::array(), single = json::array();
    try {
      const auto keys = ActuatorCurve::get_keys(c);
      int n = 0;
      const auto pair = [&](const ptree &a, const ptree &b) {
        ++n;
        Key::apply_cubic_bezier<double>(a, b, [&](int f0, double v0, double da, double dv, double db, double dw, int f3, double v3) {
          arcs.push_back({4L * f0, grid(v0, 4), grid(da, 4), grid(dv, 4), grid(db, 4), grid(dw, 4), 4L * f3, grid(v3, 4)});
        });
        Key::apply_cubic_bezier<float>(a, b, [&](int f0, float v0, float da, float dv, float db, float dw, int f3, float v3) {
          single.push_back({4L * f0, grid(v0, 4), grid(da, 4), grid(dv, 4), grid(db, 4), grid(dw, 4), 4L * f3, grid(v3, 4)});
        });
      };
      adjacent_for_each(keys.begin(), keys.end(), pair);
      if (arcs != single) arcs = json::array({"single and double precision differ"});
    } catch (const std::exception &) {
      arcs = json::array({"throw"});
    }
    r["arcs"].push_back(arcs);
  }
  if (dump("Animation", t) != r["doc"]) r["all"] = "validation changed the document";
  return r;
}

int main(int argc, char **argv) {
  return run_histories(argc, argv, [](const json &h) {
    const std::string m = h.at("mode");
    return m == "edits" ? edits(h) : m == "field" ? fields(h) : check(h);
  });
}
