// needs: scenegraph/mesh.cpp scenegraph/meshfactory.cpp scenegraph/colladabuilder.cpp scenegraph/colladascenebuilder.cpp scenegraph/scenebuilder.cpp geometrics/shapes3d.cpp types/altransform.cpp types/alrotation.cpp types/alposition3d.cpp
// Meshes: protocol histories (M01), generated boxes (M02), exported scenes (M03).
#include "common.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/scenegraph/colladabuilder.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/types/altransform.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace AL;
using boost::property_tree::ptree;

static json ints(const std::vector<float> &v, double D) {
  json r = json::array();
  for (float x : v) r.push_back(D == 1 ? grid(x, D) : fix(x, D));
  return r;
}
static json idx(const std::vector<size_t> &v) {
  json r = json::array();
  for (size_t x : v) r.push_back(x < 2000000000u ? static_cast<long>(x) : -7L);
  return r;
}
static long small(size_t x) { return x < 2000000000u ? static_cast<long>(x) : -7L; }

static json dump(const Mesh &m, double D) {
  json d;
  d["tex"] = m.withTexCoords();
  d["stride"] = small(m.verticesStride());
  d["pos"] = ints(m.positions(), D);
  d["nrm"] = ints(m.normals(), D);
  d["txc"] = ints(m.texCoords(), D);
  d["verts"] = idx(m.vertices());
  d["vc"] = idx(m.polygonVerticesCounts());
  d["nb"] = {small(m.positionsNb()), small(m.normalsNb()), small(m.texCoordsNb()), small(m.verticesNb()), small(m.polygonsNb())};
  json a[5];
  for (auto &x : a) x = json::array();
  for (size_t i = 0; i < m.positionsNb(); ++i)
    for (int k = 0; k < 3; ++k) a[0].push_back(grid(m.positionPtrAt(i)[k], D));
  for (size_t i = 0; i < m.normalsNb(); ++i)
    for (int k = 0; k < 3; ++k) a[1].push_back(grid(m.normalPtrAt(i)[k], D));
  for (size_t i = 0; i < m.texCoordsNb(); ++i)
    for (int k = 0; k < 2; ++k) a[2].push_back(grid(m.texCoordPtrAt(i)[k], D));
  for (size_t i = 0; i < m.verticesNb(); ++i)
    for (size_t k = 0; k < m.verticesStride(); ++k)
      a[3].push_back(small(m.vertexPtrAt(i)[k == 0 ? size_t(Mesh::positionOffset) : k == 1 ? size_t(Mesh::normalOffset) : size_t(Mesh::texCoordOffset)]));
  for (size_t i = 0; i < m.polygonsNb(); ++i) a[4].push_back(small(m.polygonVerticesCountAt(i)));
  if (D == 1) d["at"] = {a[0], a[1], a[2], a[3], a[4]};
  return d;
}

static size_t index_of(const json &op) { return static_cast<size_t>(op.at("i").get<long>()); }

// applies one protocol operation; returns the index it returned or -1
static long apply(Mesh &m, const json &op) {
  const std::string o = op.at("op");
  auto v = [&](int k) { return op.at("v").at(k).get<float>(); };
  if (o == "position") return small(m.position(v(0), v(1), v(2)));
  if (o == "normal") return small(m.normal(v(0), v(1), v(2)));
  if (o == "normalAt") { m.normal(index_of(op)); return -1; }
  if (o == "texCoord") return small(m.texCoord(v(0), v(1)));
  if (o == "texCoordAt") { m.texCoord(index_of(op)); return -1; }
  if (o == "begin") {
    const std::string w = op.at("mode");
    m.begin(w == "POLYGON" ? Mesh::POLYGON : w == "TRIANGLES" ? Mesh::TRIANGLES : Mesh::QUADS);
    return -1;
  }
  if (o == "vertexAt") { m.vertex(index_of(op)); return -1; }
  if (o == "vertex") { m.vertex(v(0), v(1), v(2)); return -1; }
  if (o == "end") { m.end(); return -1; }
  throw BadInput("unknown operation " + o);
}

static json protocol(const json &h) {
  Mesh m(h.at("tex").get<bool>());
  json steps = json::array();
  for (const json &op : h.at("ops")) {
    json s;
    s["op"] = op;
    s["ret"] = -1;
    try {
      s["ret"] = apply(m, op);
      s["st"] = "ok";
    } catch (const BadInput &) {
      throw;
    } catch (const std::exception &) {
      s["st"] = "throw";
    }
    s["d"] = dump(m, 1);
    steps.push_back(s);
  }
  return {{"tex", h.at("tex")}, {"steps", steps}};
}

// ------------------------------------------------------------------ factory
static json factory(const json &h) {
  const float x = h.at("x").get<int>() / 4.f, y = h.at("y").get<int>() / 4.f, z = h.at("z").get<int>() / 4.f;
  const float rad = h.at("r").get<int>() / 4.f;
  const int n = h.at("n");
  Mesh m;
  json r = h;
  if (h.at("pre").get<bool>()) {  // something else is in the mesh already
    m.normal(0, 1, 0);
    m.position(9, 9, 9);
    m.begin(Mesh::POLYGON);
    m.vertex(0), m.vertex(9, 8, 9), m.vertex(8, 9, 9);
    m.end();
  }
  r["base"] = {small(m.positionsNb()), small(m.normalsNb()), small(m.verticesNb()), small(m.polygonsNb())};
  if (h.at("round").get<bool>())
    h.at("pre").get<bool>() ? addRoundedBoxMesh(x, y, z, rad, n, m) : void(m = createRoundedBoxMesh(x, y, z, rad, n));
  else
    h.at("pre").get<bool>() ? addBoxMesh(x, y, z, m) : void(m = createBoxMesh(x, y, z));
  json P = json::array(), N = json::array();
  auto trip = [](const float *p, double D) { return json{fix(p[0], D), fix(p[1], D), fix(p[2], D)}; };
  for (size_t i = 0; i < m.positionsNb(); ++i) P.push_back(trip(m.positionPtrAt(i), 1000));
  for (size_t i = 0; i < m.normalsNb(); ++i) N.push_back(trip(m.normalPtrAt(i), 1000));
  json faces = json::array();
  size_t v = 0;
  for (size_t f = 0; f < m.polygonsNb(); ++f) {
    json c = json::array();
    for (size_t k = 0; k < m.polygonVerticesCountAt(f); ++k, ++v) {
      const size_t *q = m.vertexPtrAt(v);
      c.push_back({small(q[0]), small(q[1])});
    }
    faces.push_back(c);
  }
  r["P"] = P;
  r["N"] = N;
  r["F"] = faces;
  return r;
}

// -------------------------------------------------------------------- scene
static std::vector<std::string> words(const std::string &s) {
  std::istringstream in(s);
  std::vector<std::string> r;
  for (std::string w; in >> w;) r.push_back(w);
  return r;
}
static json numbers(const std::string &s, double D) {
  json r = json::array();
  for (const auto &w : words(s)) {
    char *e = nullptr;
    const double x = std::strtod(w.c_str(), &e);
    r.push_back(*e ? OFFGRID : fix(x, D));
  }
  return r;
}
// indexes and counts must be written as integers
static json integers(const std::string &s) {
  json r = json::array();
  for (const auto &w : words(s)) {
    char *e = nullptr;
    const long x = std::strtol(w.c_str(), &e, 10);
    r.push_back(*e || w.size() > 9 ? OFFGRID : x);
  }
  return r;
}
static long one(const ptree &t, const std::string &p) {
  const json v = integers(t.get<std::string>(p, "x"));
  return v.size() == 1 ? v[0].get<long>() : OFFGRID;
}
static std::string attr(const ptree &t, const std::string &p) { return t.get<std::string>(p, "?"); }

// every id with the tag of its element, every reference with the tag it comes from
static void ids(const ptree &t, const std::string &tag, json &def, json &ref) {
  for (const auto &c : t) {
    if (c.first == "<xmlattr>") {
      for (const auto &a : c.second) {
        const std::string v = a.second.data();
        if (a.first == "id") def.push_back({v, tag});
        if (a.first == "url" || a.first == "source" || a.first == "target") ref.push_back({v, tag, a.first});
      }
    } else {
      ids(c.second, c.first, def, ref);
    }
  }
}
static json source(const ptree &s, double D, bool big) {
  json r;
  r["id"] = attr(s, "<xmlattr>.id");
  const auto w = words(s.get<std::string>("float_array", ""));
  r["data"] = big ? json::array() : numbers(s.get<std::string>("float_array", ""), D);
  r["len"] = small(w.size());
  r["count"] = one(s, "float_array.<xmlattr>.count");
  r["acount"] = one(s, "technique_common.accessor.<xmlattr>.count");
  r["stride"] = one(s, "technique_common.accessor.<xmlattr>.stride");
  r["asource"] = attr(s, "technique_common.accessor.<xmlattr>.source");
  r["arrayid"] = attr(s, "float_array.<xmlattr>.id");
  json p = json::array();
  if (auto a = s.get_child_optional("technique_common.accessor"))
    for (const auto &c : *a)
      if (c.first == "param") p.push_back({attr(c.second, "<xmlattr>.name"), attr(c.second, "<xmlattr>.type")});
  r["params"] = p;
  return r;
}
static json scene_dump(const ptree &doc, double D) {
  json r, def = json::array(), ref = json::array(), geos = json::array(), nodes = json::array();
  ids(doc, "", def, ref);
  for (const auto &g : doc.get_child("COLLADA.library_geometries")) {
    if (g.first != "geometry") continue;
    json x;
    x["id"] = attr(g.second, "<xmlattr>.id");
    const ptree empty;
    const ptree &m = g.second.get_child("mesh", empty);
    json srcs = json::array();
    const bool big = g.second.get<std::string>("mesh.source.float_array", "").size() > 1000000;
    for (const auto &s : m)
      if (s.first == "source") srcs.push_back(source(s.second, D, big));
    x["sources"] = srcs;
    x["vid"] = attr(m, "vertices.<xmlattr>.id");
    x["vin"] = {attr(m, "vertices.input.<xmlattr>.semantic"), attr(m, "vertices.input.<xmlattr>.source")};
    json in = json::array();
    if (auto p = m.get_child_optional("polylist"))
      for (const auto &c : *p)
        if (c.first == "input")
          in.push_back({{"sem", attr(c.second, "<xmlattr>.semantic")},
                        {"src", attr(c.second, "<xmlattr>.source")},
                        {"off", one(c.second, "<xmlattr>.offset")}});
    x["inputs"] = in;
    x["count"] = one(m, "polylist.<xmlattr>.count");
    x["symbol"] = attr(m, "polylist.<xmlattr>.material");
    x["vcount"] = integers(m.get<std::string>("polylist.vcount", ""));
    x["p"] = integers(m.get<std::string>("polylist.p", ""));
    geos.push_back(x);
  }
  json scenes = json::array();
  for (const auto &s : doc.get_child("COLLADA.library_visual_scenes")) {
    if (s.first != "visual_scene") continue;
    scenes.push_back(attr(s.second, "<xmlattr>.id"));
    for (const auto &n : s.second)
      if (n.first == "node") {
        const std::string b = "instance_geometry.bind_material.technique_common.instance_material.<xmlattr>.";
        nodes.push_back({{"matrix", numbers(n.second.get<std::string>("matrix", ""), D)},
                         {"url", attr(n.second, "instance_geometry.<xmlattr>.url")},
                         {"geoms", small(n.second.count("instance_geometry"))},
                         {"symbol", attr(n.second, b + "symbol")},
                         {"target", attr(n.second, b + "target")}});
      }
  }
  json mats = json::array(), fx = json::array();
  for (const auto &c : doc.get_child("COLLADA.library_materials"))
    if (c.first == "material") mats.push_back({attr(c.second, "<xmlattr>.id"), attr(c.second, "instance_effect.<xmlattr>.url")});
  for (const auto &c : doc.get_child("COLLADA.library_effects"))
    if (c.first == "effect")
      fx.push_back({{"id", attr(c.second, "<xmlattr>.id")},
                    {"color", numbers(c.second.get<std::string>("profile_COMMON.technique.phong.diffuse.color", ""), D)}});
  r["def"] = def;
  r["ref"] = ref;
  r["geos"] = geos;
  r["nodes"] = nodes;
  r["scenes"] = scenes;
  r["inst"] = attr(doc, "COLLADA.scene.instance_visual_scene.<xmlattr>.url");
  r["mats"] = mats;
  r["fx"] = fx;
  return r;
}

static Mesh build(const json &spec) {
  Mesh m(spec.value("tex", false));
  for (const json &op : spec.at("ops")) {
    if (op.at("op") == "fill") {
      for (long i = op.at("n").get<long>(); i > 0; --i) m.position(1, 2, 3);
      continue;
    }
    apply(m, op);
  }
  return m;
}

static json scene(const json &h) {
  const double D = 4000;
  SceneBuilder::Config cfg;
  if (h.contains("color")) {
    cfg.color.r = h["color"][0].get<float>() / 4, cfg.color.g = h["color"][1].get<float>() / 4;
    cfg.color.b = h["color"][2].get<float>() / 4, cfg.color.a = h["color"][3].get<float>() / 4;
  }
  cfg.nbArcVertices = h.value("arc", 2);
  std::map<int, std::unique_ptr<ColladaSceneBuilder>> b;
  b[0].reset(new ColladaSceneBuilder(cfg));
  json steps = json::array();
  for (const json &op : h.at("ops")) {
    json s;
    s["op"] = op;
    s["st"] = "ok";
    const std::string o = op.at("op");
    const int w = op.at("b");
    s["mesh"] = json::object();
    try {
      auto tf = [&] {
        Math::Transform t;
        float *p = &t.r1_c1;
        for (int i = 0; i < 12; ++i) p[i] = op.at("tf").at(i).get<float>() / 4;
        return t;
      };
      auto aff = [&] {
        Eigen::Affine3f t = Eigen::Affine3f::Identity();
        for (int i = 0; i < 12; ++i) t.matrix()(i / 4, i % 4) = op.at("tf").at(i).get<float>() / 4;
        return t;
      };
      if (o == "mesh" || o == "mesh_tf") {
        const Mesh m = build(op.at("mesh"));
        if (!op.at("mesh").value("big", false)) s["mesh"] = dump(m, D);
        else {
          json z = dump(Mesh(), D);
          z["verts"] = idx(m.vertices());
          z["vc"] = idx(m.polygonVerticesCounts());
          z["nb"] = {small(m.positionsNb()), small(m.normalsNb()), 0, small(m.verticesNb()), small(m.polygonsNb())};
          s["mesh"] = z;
        }
        if (o == "mesh") b[w]->add(m, aff());
        else b[w]->add(m, tf());
      } else if (o == "shape") {
        const std::string k = op.at("shape");
        auto q = [&](int i) { return op.at("d").at(i).get<float>() / 4; };
        std::unique_ptr<Math::Shape3D> sh;
        if (k == "sphere") sh.reset(new Math::Sphere(q(2)));
        else if (k == "pill") sh.reset(new Math::Pill(q(0), q(2)));
        else if (k == "rrect") sh.reset(new Math::RoundedRectangle(q(0), q(1), q(2)));
        else if (k == "rect") sh.reset(new Math::Rectangle(q(0), q(1)));
        else if (k == "plane") sh.reset(new Math::Plane());
        else if (k == "halfspace") sh.reset(new Math::HalfSpace());
        else sh.reset(new Math::HalfLine());
        // the mesh a shape stands for is the one the mesh factory makes
        const int n = cfg.nbArcVertices;
        Mesh m;
        if (k == "sphere") m = createRoundedBoxMesh(0, 0, 0, q(2), n);
        if (k == "pill") m = createRoundedBoxMesh(0, 0, q(0), q(2), n);
        if (k == "rrect") m = createRoundedBoxMesh(q(0), q(1), 0, q(2), n);
        s["mesh"] = dump(m, D);
        if (k == "sphere" && op.value("direct", false)) b[w]->add(static_cast<Math::Sphere &>(*sh), tf());
        else if (k == "pill" && op.value("direct", false)) b[w]->add(static_cast<Math::Pill &>(*sh), tf());
        else if (k == "rrect" && op.value("direct", false)) b[w]->add(static_cast<Math::RoundedRectangle &>(*sh), tf());
        else b[w]->add(*sh, tf());
      } else if (o == "copy") {
        b[op.at("to").get<int>()].reset(new ColladaSceneBuilder(*b.at(w)));
      } else if (o == "assign") {
        const int to = op.at("to");
        if (!b.count(to)) b[to].reset(new ColladaSceneBuilder());
        *b[to] = *b.at(w);
      } else if (o == "drop") {
        b.erase(w);
      } else if (o == "export") {
      } else
        throw BadInput("unknown operation " + o);
    } catch (const BadInput &) {
      throw;
    } catch (const json::exception &) {
      throw;
    } catch (const std::exception &) {
      s["st"] = "throw";
    }
    json docs = json::array();
    for (const auto &x : b) {
      std::ostringstream os;
      os << *x.second;
      std::istringstream is(os.str());
      ptree t;
      read_xml(is, t);
      json d = scene_dump(t, D);
      d["b"] = x.first;
      docs.push_back(d);
    }
    s["docs"] = docs;
    steps.push_back(s);
  }
  return {{"steps", steps}, {"color", h.contains("color") ? h["color"] : json{2, 2, 2, 2}}};
}

int main(int argc, char **argv) {
  return run_histories(argc, argv, [](const json &h) {
    const std::string m = h.at("mode");
    return m == "mesh" ? protocol(h) : m == "factory" ? factory(h) : scene(h);
  });
}
