// sources: src/scenegraph/mesh.cpp src/scenegraph/meshfactory.cpp
// random build histories of Mesh against buffers written down directly
#include <almath/scenegraph/mesh.h>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>

using AL::Mesh;
static std::string trace;

struct Oracle
{
  bool tex;
  std::vector<float> pos, nrm, tc;
  std::vector<size_t> ver, cnt;
  int mode = -1;
  size_t pending = 0;
  long n = -1, t = -1;
};

static void fail(const char *what)
{
  std::printf("history: %s\n%s\n", trace.c_str(), what);
  std::exit(1);
}

static void compare(const Mesh &m, const Oracle &o)
{
  if (m.withTexCoords() != o.tex) fail("withTexCoords differs");
  if (m.positions() != o.pos) fail("positions differ");
  if (m.normals() != o.nrm) fail("normals differ");
  if (m.texCoords() != o.tc) fail("texture coordinates differ");
  if (m.vertices() != o.ver) fail("vertices differ");
  if (m.polygonVerticesCounts() != o.cnt) fail("polygon vertex counts differ");
  const size_t s = o.tex ? 3 : 2;
  if (m.verticesStride() != s || m.positionsNb() != o.pos.size() / 3 || m.normalsNb() != o.nrm.size() / 3 ||
      m.texCoordsNb() != o.tc.size() / 2 || m.verticesNb() != o.ver.size() / s || m.polygonsNb() != o.cnt.size())
    fail("a count differs");
  for (size_t i = 0; i < m.positionsNb(); ++i)
    for (int k = 0; k < 3; ++k)
      if (m.positionPtrAt(i)[k] != o.pos[3 * i + k]) fail("positionPtrAt differs");
  for (size_t i = 0; i < m.normalsNb(); ++i)
    for (int k = 0; k < 3; ++k)
      if (m.normalPtrAt(i)[k] != o.nrm[3 * i + k]) fail("normalPtrAt differs");
  for (size_t i = 0; i < m.texCoordsNb(); ++i)
    for (int k = 0; k < 2; ++k)
      if (m.texCoordPtrAt(i)[k] != o.tc[2 * i + k]) fail("texCoordPtrAt differs");
  for (size_t i = 0; i < m.verticesNb(); ++i)
    for (size_t k = 0; k < s; ++k)
      if (m.vertexPtrAt(i)[k] != o.ver[s * i + k]) fail("vertexPtrAt differs");
  for (size_t i = 0; i < m.polygonsNb(); ++i)
    if (m.polygonVerticesCountAt(i) != o.cnt[i]) fail("polygonVerticesCountAt differs");
}

static std::string S(float v)
{
  char b[40];
  std::snprintf(b, sizeof b, "%g", v);
  return b;
}

int main(int argc, char **argv)
{
  std::setvbuf(stdout, 0, _IONBF, 0);
  std::mt19937 rng(argc > 1 ? std::atoi(argv[1]) : 1);
  const int N = argc > 2 ? std::atoi(argv[2]) : 2000;
  auto u = [&](int n) { return int(rng() % n); };
  auto val = [&]() { return (u(33) - 16) / 8.0f; };
  const float N3[6][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0.6f, 0.8f, 0}, {0, -0.8f, 0.6f}, {-1, 0, 0}};
  for (int h = 0; h < N; ++h)
  {
    Oracle o;
    o.tex = u(2);
    Mesh m(o.tex);
    trace = o.tex ? "mesh with texture coordinates" : "mesh";
    const int steps = 1 + u(60);
    for (int s = 0; s < steps; ++s)
    {
      bool refused = false, want = false;
      size_t got = 0, exp = 0;
      bool index = false;
      try
      {
        switch (u(10))
        {
        case 0:
        {
          const float x = val(), y = val(), z = val();
          trace += "; position(" + S(x) + "," + S(y) + "," + S(z) + ")";
          index = true, exp = o.pos.size() / 3;
          for (float v : {x, y, z}) o.pos.push_back(v);
          got = m.position(x, y, z);
          break;
        }
        case 1:
        {
          const float *v = N3[u(6)];
          trace += "; normal(" + S(v[0]) + "," + S(v[1]) + "," + S(v[2]) + ")";
          index = true, exp = o.n = o.nrm.size() / 3;
          o.nrm.insert(o.nrm.end(), v, v + 3);
          got = m.normal(v[0], v[1], v[2]);
          break;
        }
        case 2:
        {
          const float x = val(), y = val();
          trace += "; texCoord(" + S(x) + "," + S(y) + ")";
          index = true, exp = o.t = o.tc.size() / 2;
          o.tc.push_back(x), o.tc.push_back(y);
          got = m.texCoord(x, y);
          break;
        }
        case 3:
        {
          const size_t i = u(int(o.nrm.size() / 3) + 2);
          trace += "; normal(#" + std::to_string(i) + ")";
          want = i >= o.nrm.size() / 3;
          if (!want) o.n = i;
          m.normal(i);
          break;
        }
        case 4:
        {
          const size_t i = u(int(o.tc.size() / 2) + 2);
          trace += "; texCoord(#" + std::to_string(i) + ")";
          want = i >= o.tc.size() / 2;
          if (!want) o.t = i;
          m.texCoord(i);
          break;
        }
        case 5:
        {
          const int k = u(3);
          trace += "; begin(" + std::to_string(k) + ")";
          want = o.mode >= 0;
          if (!want) o.mode = k;
          m.begin(Mesh::Mode(k));
          break;
        }
        case 6:
        {
          trace += "; end()";
          const int k = o.mode == 1 ? 3 : 4;
          want = o.mode < 0 || (o.mode > 0 && o.pending % k);
          if (!want)
          {
            if (o.mode == 0)
            {
              if (o.pending) o.cnt.push_back(o.pending);
            }
            else
              for (size_t i = 0; i < o.pending / k; ++i) o.cnt.push_back(k);
            o.mode = -1, o.pending = 0;
          }
          m.end();
          break;
        }
        default:
        {
          const bool byPos = u(3) == 0;
          const float x = val(), y = val(), z = val();
          size_t i = u(int(o.pos.size() / 3) + 1);
          trace += byPos ? "; vertex(" + S(x) + "," + S(y) + "," + S(z) + ")" : "; vertex(#" + std::to_string(i) + ")";
          const bool open = o.mode >= 0;
          want = !open || o.n < 0 || (o.tex && o.t < 0) || (!byPos && i >= o.pos.size() / 3);
          if (byPos && open)
          {
            i = o.pos.size() / 3;
            for (float v : {x, y, z}) o.pos.push_back(v);
          }
          if (!want)
          {
            o.ver.push_back(i), o.ver.push_back(o.n);
            if (o.tex) o.ver.push_back(o.t);
            ++o.pending;
          }
          if (byPos)
            m.vertex(x, y, z);
          else
            m.vertex(i);
        }
        }
      }
      catch (const std::exception &)
      {
        refused = true;
      }
      if (refused != want) fail(want ? "the last call is not refused" : "the last call is refused");
      if (index && got != exp) fail("the index returned differs");
      // a refused vertex(x,y,z) may or may not have recorded its position
      if (refused && m.positions().size() + 3 == o.pos.size()) o.pos.resize(o.pos.size() - 3);
      compare(m, o);
    }
  }
  std::printf("%d histories\n", N);
}
