// sources: src/scenegraph/mesh.cpp src/scenegraph/meshfactory.cpp
// box and rounded box meshes of sampled sizes, appended to meshes with some contents, checked geometrically:
// every edge is used once in each direction, normals are outward units, every corner lies on the surface
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <string>
#include <vector>

using AL::Mesh;
static std::string trace;

static void fail(const std::string &what)
{
  std::printf("history: %s\n%s\n", trace.c_str(), what.c_str());
  std::exit(1);
}

struct V
{
  double x, y, z;
};
static V sub(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }

int main(int argc, char **argv)
{
  std::setvbuf(stdout, 0, _IONBF, 0);
  std::mt19937 rng(argc > 1 ? std::atoi(argv[1]) : 1);
  const int N = (argc > 2 ? std::atoi(argv[2]) : 2000) / 2;
  auto u = [&](int n) { return int(rng() % n); };
  for (int h = 0; h < N; ++h)
  {
    const bool plain = u(4) == 0;
    float he[3];
    // a plain box has a volume; a rounded one may be a pill, a disc or a ball
    for (float &e : he) e = (!plain && u(4) == 0) ? 0.0f : (1 + u(60)) / 16.0f;
    const float r = plain ? 0.0f : (1 + u(40)) / 16.0f;
    const int n = u(6);
    char b[200];
    const bool box = plain && u(2);
    std::snprintf(b, sizeof b, "%s(%g, %g, %g, %g, %d)", box ? "box" : "rounded box", he[0], he[1], he[2], r, n);
    trace = b;
    Mesh m;
    const int before = u(3);
    for (int i = 0; i < before; ++i)
    {
      trace += i ? "; and another triangle" : "; added after a triangle";
      m.normal(0, 0, 1);
      m.begin(Mesh::TRIANGLES);
      m.vertex(9, 0, 0), m.vertex(9, 1, 0), m.vertex(8, 1, 0);
      m.end();
    }
    const std::vector<float> pos0 = m.positions(), nrm0 = m.normals();
    const std::vector<size_t> ver0 = m.vertices(), cnt0 = m.polygonVerticesCounts();
    if (before || u(2))
    {
      if (box)
        AL::addBoxMesh(he[0], he[1], he[2], m);
      else
        AL::addRoundedBoxMesh(he[0], he[1], he[2], r, n, m);
    }
    else
      m = box ? AL::createBoxMesh(he[0], he[1], he[2]) : AL::createRoundedBoxMesh(he[0], he[1], he[2], r, n);
    if (!std::equal(pos0.begin(), pos0.end(), m.positions().begin()) || !std::equal(nrm0.begin(), nrm0.end(), m.normals().begin()) ||
        !std::equal(ver0.begin(), ver0.end(), m.vertices().begin()) ||
        !std::equal(cnt0.begin(), cnt0.end(), m.polygonVerticesCounts().begin()))
      fail("what was in the mesh is changed");
    const double tol = 1e-4 * (he[0] + he[1] + he[2] + r);
    auto P = [&](size_t i) { const float *p = m.positionPtrAt(i); return V{p[0], p[1], p[2]}; };
    // corners at the same place are one point
    std::vector<V> pts;
    auto id = [&](V p) {
      for (size_t i = 0; i < pts.size(); ++i)
      {
        const V d = sub(p, pts[i]);
        if (dot(d, d) < tol * tol) return i;
      }
      pts.push_back(p);
      return pts.size() - 1;
    };
    std::map<std::pair<size_t, size_t>, int> edges;
    size_t v = ver0.size() / 2;
    double vol = 0;
    for (size_t f = cnt0.size(); f < m.polygonsNb(); ++f)
    {
      const size_t k = m.polygonVerticesCountAt(f);
      std::vector<size_t> ids;
      std::vector<V> ps, ns;
      for (size_t i = 0; i < k; ++i, ++v)
      {
        if (v >= m.verticesNb()) fail("the counts exceed the vertices");
        const size_t *t = m.vertexPtrAt(v);
        if (t[0] * 3 < pos0.size() || t[0] >= m.positionsNb() || t[1] * 3 < nrm0.size() || t[1] >= m.normalsNb())
          fail("a corner refers to another part of the mesh");
        const V p = P(t[0]);
        const float *q = m.normalPtrAt(t[1]);
        const V nn = {q[0], q[1], q[2]};
        if (std::fabs(dot(nn, nn) - 1) > 1e-4) fail("a normal is not a unit");
        // nearest point of the inner box; the surface is at distance r from it, along the normal
        V c = p;
        c.x = std::max<double>(-he[0], std::min<double>(he[0], c.x));
        c.y = std::max<double>(-he[1], std::min<double>(he[1], c.y));
        c.z = std::max<double>(-he[2], std::min<double>(he[2], c.z));
        const V d = sub(p, c);
        if (r > 0)
        {
          if (std::fabs(std::sqrt(dot(d, d)) - r) > 0.005 * r + tol) fail("a corner is not on the rounded surface");
          const V e = sub(d, V{r * nn.x, r * nn.y, r * nn.z});
          if (dot(e, e) > (0.005 * r + tol) * (0.005 * r + tol)) fail("a normal is not that of the surface at its corner");
        }
        else if (std::fabs(std::fabs(p.x) - he[0]) > tol || std::fabs(std::fabs(p.y) - he[1]) > tol || std::fabs(std::fabs(p.z) - he[2]) > tol ||
                 std::fabs(dot(nn, p) - std::fabs(nn.x * he[0]) - std::fabs(nn.y * he[1]) - std::fabs(nn.z * he[2])) > tol)
          fail("a corner is not on the face its normal says");
        const size_t w = id(p);
        if (ids.empty() || ids.back() != w) ids.push_back(w), ps.push_back(p), ns.push_back(nn);
      }
      while (ids.size() > 1 && ids.front() == ids.back()) ids.pop_back(), ps.pop_back(), ns.pop_back();
      if (ids.size() < 3) continue;                 // a degenerate face has no edge
      V a = {0, 0, 0};
      for (size_t i = 0; i < ids.size(); ++i)
      {
        ++edges[{ids[i], ids[(i + 1) % ids.size()]}];
        const V c = cross(ps[i], ps[(i + 1) % ids.size()]);
        a.x += c.x, a.y += c.y, a.z += c.z;
      }
      for (size_t i = 1; i + 1 < ids.size(); ++i) vol += dot(ps[0], cross(ps[i], ps[i + 1])) / 6;
      double s = 0;
      for (const V &x : ns) s += dot(a, x);
      if (s <= 0) fail("a face is clockwise seen from outside");
    }
    if (v != m.verticesNb()) fail("vertices that belong to no polygon");
    for (auto &e : edges)
      if (e.second != 1 || !edges.count({e.first.second, e.first.first}) ) fail("the surface is not closed");
    for (int k = 0; k < 24; ++k)
    {
      double q[3];
      for (int c = 0; c < 3; ++c) q[c] = (k >> c & 1 ? -1 : 1) * (he[c] + (k / 8 == c ? r : 0));
      bool found = false;
      for (const V &p : pts)
      {
        const V d = sub(p, V{q[0], q[1], q[2]});
        found = found || dot(d, d) < (0.005 * r + tol) * (0.005 * r + tol);
      }
      if (!found) fail("a corner of a flat face is missing");
    }
    const double inner = 8.0 * he[0] * he[1] * he[2];
    const double outer = 8.0 * (he[0] + r) * (he[1] + r) * (he[2] + r);
    if (vol < inner * 0.999 || vol > outer * 1.001) fail("the volume is not between those of the inner and outer boxes");
  }
  std::printf("%d histories\n", N);
}
