// sources: src/scenegraph/urdf.cpp
// random bodies: the functions of urdfeigen.h against sums over point masses and matrix formulas written down directly
#include <almath/scenegraph/urdfeigen.h>
#include <boost/property_tree/ptree.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>

typedef Eigen::Matrix3d M;
typedef Eigen::Vector3d V;
typedef Eigen::Transform<double, 3, Eigen::AffineCompact> Pose;
static std::mt19937_64 rng;
static std::string trace;

static double U(double s = 2)
{
  if (rng() % 6 == 0) return 0;
  return std::uniform_real_distribution<double>(-s, s)(rng);
}

static std::string S(const char *n, double v)
{
  char b[80];
  std::snprintf(b, sizeof b, " %s=%.17g", n, v);
  return b;
}

static void close(const char *what, const M &a, const M &b)
{
  if ((a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.cwiseAbs().maxCoeff())) return;
  std::printf("history: %s\n%s differs:\n", trace.c_str(), what);
  for (int i = 0; i < 3; ++i) std::printf("%g %g %g   expected %g %g %g\n", a(i, 0), a(i, 1), a(i, 2), b(i, 0), b(i, 1), b(i, 2));
  std::exit(1);
}

static void close(const char *what, const V &a, const V &b)
{
  close(what, M(a.asDiagonal()), M(b.asDiagonal()));
}

static M rot(double r, double p, double y)
{
  M z, w, x;
  z << std::cos(y), -std::sin(y), 0, std::sin(y), std::cos(y), 0, 0, 0, 1;
  w << std::cos(p), 0, std::sin(p), 0, 1, 0, -std::sin(p), 0, std::cos(p);
  x << 1, 0, 0, 0, std::cos(r), -std::sin(r), 0, std::sin(r), std::cos(r);
  return z * w * x;
}

static M point(double m, const V &p) { return m * (p.dot(p) * M::Identity() - p * p.transpose()); }

static M sym()
{
  M m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = U();
  return m;
}

int main(int argc, char **argv)
{
  rng.seed(argc > 1 ? std::strtoull(argv[1], 0, 10) : 1);
  const int N = argc > 2 ? std::atoi(argv[2]) : 1000;
  for (int n = 0; n < N; ++n)
  {
    double ma = U(), mb = U();
    if (std::abs(ma + mb) < 0.1) ma += 5;
    const double ea[3] = {U(4), U(4), U(4)}, eb[3] = {U(4), U(4), U(4)};
    const V pa(U(), U(), U()), pb(U(), U(), U());
    const M ia = sym(), ib = sym(), Ra = rot(ea[0], ea[1], ea[2]), Rb = rot(eb[0], eb[1], eb[2]);
    trace = S("ma", ma) + S("mb", mb);
    for (int i = 0; i < 3; ++i) trace += S("pa", pa[i]) + S("pb", pb[i]) + S("rpya", ea[i]) + S("rpyb", eb[i]);
    for (int i = 0; i < 9; ++i) trace += S("ia", ia.data()[i]) + S("ib", ib.data()[i]);
    // a point mass
    M one = ia;
    AL::Math::addPointMassInertia(mb, pb, one);
    close("addPointMassInertia", one, ia + point(mb, pb));
    // two bodies
    Pose A, B, C;
    A.linear() = Ra, A.translation() = pa, B.linear() = Rb, B.translation() = pb;
    double mc;
    M ic;
    AL::Math::squashInertial(ma, A, ia, mb, B, ib, mc, C, ic);
    const V com = (ma * pa + mb * pb) / (ma + mb);
    close("mass", V(mc, 0, 0), V(ma + mb, 0, 0));
    close("centre of mass", V(C.translation()), com);
    close("orientation", M(C.linear()), Ra);
    const M want = Ra * ia * Ra.transpose() + point(ma, pa - com) + Rb * ib * Rb.transpose() + point(mb, pb - com);
    close("inertia of the compound", ic, Ra.transpose() * want * Ra);
    // the inertial of a document
    boost::property_tree::ptree pt;
    auto put3 = [&](const char *k, double a, double b, double c) {
      char s[200];
      std::snprintf(s, sizeof s, "%.17g %.17g %.17g", a, b, c);
      pt.put(k, s);
    };
    auto put = [&](const char *k, double a) {
      char s[60];
      std::snprintf(s, sizeof s, "%.17g", a);
      pt.put(k, s);
    };
    put3("origin.<xmlattr>.xyz", pb[0], pb[1], pb[2]);
    put3("origin.<xmlattr>.rpy", eb[0], eb[1], eb[2]);
    put("mass.<xmlattr>.value", mb);
    put("inertia.<xmlattr>.ixx", ib(0, 0));
    put("inertia.<xmlattr>.ixy", ib(0, 1));
    put("inertia.<xmlattr>.ixz", ib(0, 2));
    put("inertia.<xmlattr>.iyy", ib(1, 1));
    put("inertia.<xmlattr>.iyz", ib(1, 2));
    put("inertia.<xmlattr>.izz", ib(2, 2));
    const AL::urdf::Inertial in(pt);
    close("toEigenMatrix3", AL::Math::toEigenMatrix3(in), ib);
    double m;
    V c;
    M i3;
    AL::Math::urdfInertialToEigen(in, m, c, i3);
    close("mass", V(m, 0, 0), V(mb, 0, 0));
    close("centre of mass", c, pb);
    close("urdfInertialToEigen", i3, Rb * ib * Rb.transpose());
  }
  std::printf("%d histories\n", N);
}
