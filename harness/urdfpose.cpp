// sources: src/scenegraph/urdf.cpp
// random poses of URDF documents against matrices written down directly; the angles are compared as rotations
#include <almath/scenegraph/urdfeigen.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>

typedef Eigen::Matrix3d M;
typedef Eigen::Vector3d V;
using AL::urdf::Array3d;
using AL::urdf::Pose;
static std::mt19937_64 rng;
static std::string trace;

static double U(double s = 2)
{
  switch (rng() % 8)
  {
  case 0: return 0;
  case 1: return (double(rng() % 9) - 4) * M_PI / 2;
  }
  return std::uniform_real_distribution<double>(-s, s)(rng);
}

static std::string S(const char *n, const Array3d &v)
{
  char b[120];
  std::snprintf(b, sizeof b, " %s=(%.17g, %.17g, %.17g)", n, v[0], v[1], v[2]);
  return b;
}

static void close(const char *what, const M &a, const M &b)
{
  if ((a - b).cwiseAbs().maxCoeff() <= 1e-7 * (1 + b.cwiseAbs().maxCoeff())) return;
  std::printf("history: %s\n%s differs:\n", trace.c_str(), what);
  for (int i = 0; i < 3; ++i) std::printf("%g %g %g   expected %g %g %g\n", a(i, 0), a(i, 1), a(i, 2), b(i, 0), b(i, 1), b(i, 2));
  std::exit(1);
}

static void close(const char *what, const V &a, const V &b) { close(what, M(a.asDiagonal()), M(b.asDiagonal())); }
static V vec(const Array3d &a) { return V(a[0], a[1], a[2]); }

static M rot(const Array3d &a)
{
  const double r = a[0], p = a[1], y = a[2];
  M z, w, x;
  z << std::cos(y), -std::sin(y), 0, std::sin(y), std::cos(y), 0, 0, 0, 1;
  w << std::cos(p), 0, std::sin(p), 0, 1, 0, -std::sin(p), 0, std::cos(p);
  x << 1, 0, 0, 0, std::cos(r), -std::sin(r), 0, std::sin(r), std::cos(r);
  return z * w * x;
}

static Array3d three(double s, bool zero)
{
  return zero ? Array3d{{0, 0, 0}} : Array3d{{U(s), U(s), U(s)}};
}

int main(int argc, char **argv)
{
  rng.seed(argc > 1 ? std::strtoull(argv[1], 0, 10) : 1);
  const int N = argc > 2 ? std::atoi(argv[2]) : 1000;
  for (int n = 0; n < N; ++n)
  {
    const Array3d t = three(2, rng() % 5 == 0), a = three(4, rng() % 5 == 0), u = three(2, rng() % 5 == 0), b = three(4, rng() % 5 == 0);
    trace = S("xyz", t) + S("rpy", a) + S("xyz2", u) + S("rpy2", b);
    const Pose p(t, a), q(u, b);
    const M A = rot(a), B = rot(b);
    const Eigen::Quaterniond e = AL::Math::eigenQuaternionFromUrdfRpy(a);
    close("eigenQuaternionFromUrdfRpy", e.toRotationMatrix(), A);
    close("its norm", V(e.norm(), 0, 0), V(1, 0, 0));
    const Eigen::Isometry3d T = AL::Math::toEigenTransform(p);
    close("toEigenTransform (rotation)", M(T.linear()), A);
    close("toEigenTransform (translation)", V(T.translation()), vec(t));
    const Array3d back = AL::Math::urdfRpyFromEigenMatrix3(A);
    close("urdfRpyFromEigenMatrix3", rot(back), A);
    const Pose c = p * q, i = p.inverse();
    close("product (rotation)", rot(c.rpy()), A * B);
    close("product (translation)", vec(c.xyz()), vec(t) + A * vec(u));
    close("inverse (rotation)", rot(i.rpy()), A.transpose());
    close("inverse (translation)", vec(i.xyz()), -(A.transpose() * vec(t)));
  }
  std::printf("%d histories\n", N);
}
