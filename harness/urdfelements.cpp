// sources: src/scenegraph/urdf.cpp
// random elements and small robots: what the readers return, and what edits of a document keep
#include <almath/scenegraph/urdf.h>
#include <almath/scenegraph/urdfeigen.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <string>

using namespace AL::urdf;
static std::mt19937_64 rng;
static std::string trace;
static void fail(const std::string &what)
{
  std::printf("history: %s\n%s\n", trace.c_str(), what.c_str());
  std::exit(1);
}
static double D() { return rng() % 3 ? (double(rng() % 81) - 40) / 8 : double(rng() % 3) - 1; }
static Array3d A() { return rng() % 5 ? Array3d{{D(), D(), D()}} : Array3d{{0, 0, 0}}; }
static void number(const std::string &what, double got, double want)
{
  if (!(std::abs(got - want) <= 1e-9 * (1 + std::abs(want))))
    fail(what + ": " + std::to_string(got) + ", expected " + std::to_string(want));
}
static void triple(const std::string &what, Array3d const &got, Array3d const &want)
{
  for (int i = 0; i < 3; ++i) number(what + "[" + std::to_string(i) + "]", got[i], want[i]);
}
static void put(ptree &t, const std::string &path, Array3d const &v) { t.put(path, v, Array3dTranslator()); }
template <class F> static bool throws(F f)
{
  try { f(); return false; }
  catch (std::exception const &) { return true; }
}

static const char *const types[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"};

static void readers()
{
  ptree t;
  const bool a = rng() % 2, b = rng() % 2, c = rng() % 2;
  const double x = D(), y = D();
  const Array3d u = A(), v = A();
  trace = "reading elements with attributes present or absent";
  if (a) t.put("<xmlattr>.multiplier", x);
  if (b) t.put("<xmlattr>.offset", y);
  number("multiplier", Mimic(t).multiplier(), a ? x : 1);
  number("offset", Mimic(t).offset(), b ? y : 0);
  ptree j;
  Joint joint(j);
  if (a) put(j, "axis.<xmlattr>.xyz", u);
  triple("axis", joint.axis(), a ? u : Array3d{{1, 0, 0}});
  if (c) j.put("origin", "");
  if (c && a) put(j, "origin.<xmlattr>.xyz", u);
  if (c && b) put(j, "origin.<xmlattr>.rpy", v);
  for (int k = 0; k < 3; ++k)
  {
    const Pose p = k == 0 ? joint.origin() : k == 1 ? Visual(j).origin() : Inertial(j).origin();
    triple("origin xyz", p.xyz(), c && a ? u : Array3d{{0, 0, 0}});
    triple("origin rpy", p.rpy(), c && b ? v : Array3d{{0, 0, 0}});
  }
  if (a) j.put("limit.<xmlattr>.lower", x);
  if (b) j.put("limit.<xmlattr>.upper", y);
  if (c) j.put("limit.<xmlattr>.effort", x);
  if (a) j.put("limit.<xmlattr>.velocity", y);
  const auto l = joint.limit_lower_upper();
  if (bool(l) != (a || b)) fail("limits reported or not");
  if (l) number("lower", l->first, a ? x : 0), number("upper", l->second, b ? y : 0);
  if (bool(joint.limit_effort()) != c || bool(joint.limit_velocity()) != a) fail("effort or velocity reported or not");
  if (c) number("effort", *joint.limit_effort(), x);
  if (a) number("velocity", *joint.limit_velocity(), y);
  if (bool(joint.mimic())) fail("a mimic out of nothing");
  if (c) j.put("mimic.<xmlattr>.multiplier", x);
  if (bool(joint.mimic()) != c) fail("mimic reported or not");
  if (c) number("mimic", joint.mimic()->multiplier(), x);
  for (int i = 0; i < 6; ++i)
  {
    j.put("<xmlattr>.type", types[i]);
    if (int(joint.type()) != i) fail(std::string("type ") + types[i]);
  }
  j.put("<xmlattr>.type", "hinge");
  if (!throws([&] { joint.type(); })) fail("an unknown type is accepted");
  ptree i;
  const char *const n[] = {"mass.<xmlattr>.value", "inertia.<xmlattr>.ixx", "inertia.<xmlattr>.ixy", "inertia.<xmlattr>.ixz",
                           "inertia.<xmlattr>.iyy", "inertia.<xmlattr>.iyz", "inertia.<xmlattr>.izz"};
  double m[7];
  for (int k = 0; k < 7; ++k) i.put(n[k], m[k] = D());
  const Inertial in(i);
  const double got[] = {in.mass(), in.ixx(), in.ixy(), in.ixz(), in.iyy(), in.iyz(), in.izz()};
  for (int k = 0; k < 7; ++k) number(n[k], got[k], m[k]);
  ptree g;
  if (!throws([&] { Box(g).size(); }) || !throws([&] { Cylinder(g).radius(); }) || !throws([&] { Cylinder(g).length(); }) ||
      !throws([&] { Sphere(g).radius(); })) fail("a missing size is accepted");
  triple("scale", Mesh(g).scale(), Array3d{{1, 1, 1}});
  put(g, "<xmlattr>.size", u);
  put(g, "<xmlattr>.scale", v);
  g.put("<xmlattr>.radius", x);
  g.put("<xmlattr>.length", y);
  triple("size", Box(g).size(), u);
  triple("scale", Mesh(g).scale(), v);
  number("radius", Cylinder(g).radius(), x);
  number("length", Cylinder(g).length(), y);
  number("radius", Sphere(g).radius(), x);
  trace = "element of a pose";
  const auto e = Pose(u, v).to_ptree();
  if (bool(e) == (is_zero(u) && is_zero(v))) fail("an element or none");
  if (e)
  {
    const Pose p = Pose::from_ptree(*e);
    triple("xyz", p.xyz(), u);
    triple("rpy", p.rpy(), v);
    if (bool(e->get_child_optional("<xmlattr>.xyz")) == is_zero(u)) fail("xyz is left out or not");
    if (bool(e->get_child_optional("<xmlattr>.rpy")) == is_zero(v)) fail("rpy is left out or not");
  }
}

// ---------------------------------------------------------------- a chain of three links
static const char *const links[] = {"l0", "l1", "l2"};
static ptree chain(bool first, int massless)
{
  ptree r;
  for (int i = 0; i < 3; ++i)
  {
    ptree l;
    l.put("<xmlattr>.name", links[i]);
    if (i != massless)
    {
      if (rng() % 4) put(l, "inertial.origin.<xmlattr>.xyz", A());
      if (rng() % 2) put(l, "inertial.origin.<xmlattr>.rpy", A());
      l.put("inertial.mass.<xmlattr>.value", 1 + double(rng() % 8));
      const char *const n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
      for (auto k : n) l.put(std::string("inertial.inertia.<xmlattr>.") + k, D());
    }
    r.add_child("link", l);
  }
  for (int i = 0; i < 2; ++i)
  {
    ptree j;
    j.put("<xmlattr>.name", i ? "j1" : "j0");
    j.put("<xmlattr>.type", types[rng() % (first ? 6 : 4)]);
    j.put("parent.<xmlattr>.link", links[i]);
    j.put("child.<xmlattr>.link", links[i + 1]);
    if (first || rng() % 4)
    {
      if (rng() % 4) put(j, "origin.<xmlattr>.xyz", A());
      if (rng() % 2) put(j, "origin.<xmlattr>.rpy", A());
    }
    if (rng() % 2) put(j, "axis.<xmlattr>.xyz", A());
    r.add_child("joint", j);
  }
  return r;
}
typedef Eigen::Isometry3d T;
static T pose(Pose const &p) { return AL::Math::toEigenTransform(p); }
static void same(const std::string &what, Eigen::MatrixXd const &a, Eigen::MatrixXd const &b)
{
  if (!((a - b).cwiseAbs().maxCoeff() <= 1e-7 * (1 + b.cwiseAbs().maxCoeff()))) fail(what);
}
// world poses of the inertials, and directions of the joint axes, in the frame of the first inertial
static void look(ptree &doc, std::map<std::string, T> &in, std::map<std::string, Eigen::Vector3d> &axes, std::map<std::string, std::string> &child)
{
  RobotTree r(doc);
  std::map<std::string, T> w;
  w[r.root_link()] = T::Identity();
  for (int k = 0; k < 3; ++k)
    for (auto n : {"j0", "j1"})
    {
      Joint j(static_cast<RobotTree const &>(r).joint(n));
      if (!w.count(j.parent_link())) continue;
      w[j.child_link()] = w[j.parent_link()] * pose(j.origin());
      Array3d a = j.axis();
      axes[n] = w[j.child_link()].linear() * Eigen::Vector3d(a[0], a[1], a[2]);
      child[n] = j.child_link();
    }
  for (auto n : links)
  {
    const Link l(static_cast<RobotTree const &>(r).link(n));
    in[n] = w[n] * (l.inertial() ? pose(l.inertial()->origin()) : T::Identity());
  }
  const T f = in["l0"].inverse();
  for (auto &p : in) p.second = f * p.second;
  for (auto &p : axes) p.second = f.linear() * p.second;
}

static void reroot()
{
  ptree doc = chain(false, -1);
  std::map<std::string, T> a, b;
  std::map<std::string, Eigen::Vector3d> x, y;
  std::map<std::string, std::string> c, d;
  const int k = 1 + rng() % 2;
  trace = std::string("define_as_root_link ") + links[k];
  look(doc, a, x, c);
  {
    RobotTree r(doc);
    r.define_as_root_link(links[k]);
    if (r.root_link() != links[k]) fail("another root");
  }
  look(doc, b, y, d);
  for (auto n : links) same(std::string("the inertial of ") + n + " has moved", b[n].matrix(), a[n].matrix());
  int i = 0;
  for (auto n : {"j0", "j1"})
  {
    RobotTree r(doc);
    const Joint::Type t = Joint(static_cast<RobotTree const &>(r).joint(n)).type();
    const bool flipped = i++ < k;
    if ((c[n] != d[n]) != flipped) fail(std::string(n) + " is flipped or not");
    if (t == Joint::fixed || t == Joint::floating) continue;
    same(std::string("the axis of ") + n, y[n], flipped ? Eigen::Vector3d(-x[n]) : x[n]);
  }
}

static void squash()
{
  const int massless = int(rng() % 3) - 1;
  ptree doc = chain(true, massless);
  if (rng() % 3 == 0)                  // the inertial of the child comes to be where the frame of the parent is
    for (auto &c : doc)
      if (c.first == "joint" && c.second.get<std::string>("<xmlattr>.name") == "j0")
      {
        put(c.second, "origin.<xmlattr>.xyz", Array3d{{-1, 0, 0}});
        if (auto o = c.second.get_child_optional("origin.<xmlattr>")) o->erase("rpy");
      }
      else if (c.first == "link" && c.second.get<std::string>("<xmlattr>.name") == "l1" && massless != 1)
        put(c.second, "inertial.origin.<xmlattr>.xyz", Array3d{{1, 0, 0}});
  trace = "squashJointMass(j0), massless link " + std::to_string(massless);
  RobotTree r(doc);
  const RobotTree &k = r;
  const T jp = pose(Joint(k.joint("j0")).origin());
  double mass = 0;
  Eigen::Vector3d sum(0, 0, 0);
  bool any = false;
  T want = T::Identity();
  const bool moved = massless == 0;
  for (int i = 0; i < 2; ++i)
    if (auto in = Link(k.link(links[i])).inertial())
    {
      any = true;
      const T p = (i ? jp : T::Identity()) * pose(in->origin());
      if (i) want = p;
      mass += in->mass();
      sum += in->mass() * p.translation();
    }
  const ptree parent = k.link("l0"), child = k.link("l1");
  squashJointMass(r, "j0");
  if (massless == 1)
  {
    if (k.link("l0") != parent || k.link("l1") != child) fail("a massless child changes a link");
    return;
  }
  auto in = Link(k.link("l0")).inertial();
  if (bool(in) != any) fail("the parent has an inertial or not");
  if (Link(k.link("l1")).inertial()) fail("the child keeps its inertial");
  if (!in) return;
  number("mass", in->mass(), mass);
  const T p = pose(in->origin());
  same("centre of mass", p.translation() * mass, sum);
  if (moved)
  {
    same("pose of the inertial of the child", p.matrix(), want.matrix());
    number("ixy", in->ixy(), child.get<double>("inertial.inertia.<xmlattr>.ixy"));
  }
}

static void kinds()
{
  ptree doc = chain(false, -1);
  RobotTree r(doc);
  const bool fixed = rng() % 2;
  trace = fixed ? "makeJointFixed" : "makeJointFloating";
  ptree want = r.joint("j1");
  want.put("<xmlattr>.type", fixed ? "fixed" : "floating");
  want.erase("axis");
  if (fixed) makeJointFixed(r, "j1");
  else makeJointFloating(r, "j1");
  if (r.joint("j1") != want) fail("the joint is not as expected");
}

int main(int argc, char **argv)
{
  rng.seed(argc > 1 ? std::atoll(argv[1]) : 1);
  const long n = argc > 2 ? std::atol(argv[2]) : 1000;
  for (long i = 0; i < n; ++i)
  {
    readers();
    reroot();
    squash();
    kinds();
  }
  std::printf("%ld histories\n", n);
}
