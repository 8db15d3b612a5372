// sources: src/types/*.cpp src/tools/altransformhelpers.cpp src/tools/almath.cpp
// random transforms and ranges of transforms against entries and sums written down directly
#include <almath/scenegraph/almatheigen.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <vector>

using namespace AL::Math;
static std::mt19937_64 rng;
static std::string trace;

static double U(double s)
{
  if (rng() % 8 == 0) return 0;
  return std::uniform_real_distribution<double>(-s, s)(rng);
}

static void same(const char *what, double a, double b, double tol)
{
  if (std::abs(a - b) <= tol * (1 + std::abs(b))) return;
  std::printf("history: %s\n%s: %.9g, expected %.9g\n", trace.c_str(), what, a, b);
  std::exit(1);
}

static Transform transform(Eigen::Matrix3d &R, Eigen::Vector3d &p)
{
  double r = U(3.2), y = U(1.5), z = U(3.2);
  if (rng() % 6 == 0) r = M_PI;
  if (rng() % 6 == 0) z = M_PI;
  R = (Eigen::AngleAxisd(z, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(y, Eigen::Vector3d::UnitY()) *
       Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())).toRotationMatrix();
  p = Eigen::Vector3d(U(3), U(3), U(3));
  Transform t;
  float *f = &t.r1_c1;
  for (int i = 0; i < 3; ++i)
  {
    for (int j = 0; j < 3; ++j) f[4 * i + j] = float(R(i, j));
    f[4 * i + 3] = float(p[i]);
  }
  char b[400];
  std::snprintf(b, sizeof b, " [%.9g %.9g %.9g %.9g; %.9g %.9g %.9g %.9g; %.9g %.9g %.9g %.9g]", f[0], f[1], f[2], f[3], f[4], f[5],
                f[6], f[7], f[8], f[9], f[10], f[11]);
  trace += b;
  return t;
}

int main(int argc, char **argv)
{
  rng.seed(argc > 1 ? std::strtoull(argv[1], 0, 10) : 1);
  const int N = argc > 2 ? std::atoi(argv[2]) : 1000;
  for (int n = 0; n < N; ++n)
  {
    trace.clear();
    Eigen::Matrix3d R;
    Eigen::Vector3d p;
    const Transform t = transform(R, p);
    const float *f = &t.r1_c1;
    const Matrix34f m = toEigenMatrix34(t);
    const Eigen::Matrix3f m3 = toEigenMatrix3(t);
    const Eigen::AffineCompact3f ac = toEigenAffineCompact3(t);
    Eigen::Affine3f af;
    af.matrix() << f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], 0, 0, 0, 1;
    Transform t2, t3;
    toALMathTransform(m, t2);
    toALMathTransform(af, t3);
    const Transform t4 = toALMathTransform(m), t5 = toALMathTransform(ac), t6 = toALMathTransform(af);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 4; ++j)
      {
        const float v = f[4 * i + j];
        same("toEigenMatrix34", m(i, j), v, 0);
        same("toEigenAffineCompact3", ac.matrix()(i, j), v, 0);
        if (j < 3) same("toEigenMatrix3", m3(i, j), v, 0);
        for (const Transform *q : {(const Transform *)&t2, (const Transform *)&t3, &t4, &t5, &t6})
          same("toALMathTransform", (&q->r1_c1)[4 * i + j], v, 0);
      }
    const Eigen::Vector3f v3 = toEigenVector3(Position3D(f[3], f[7], f[11]));
    const Position3D p3 = toALMathPosition3D(v3);
    for (int i = 0; i < 3; ++i)
    {
      same("toEigenVector3", v3[i], f[4 * i + 3], 0);
      same("toALMathPosition3D", (&p3.x)[i], f[4 * i + 3], 0);
    }
    Vector6f w;
    for (int i = 0; i < 6; ++i) w[i] = float(U(2));
    Velocity6D a, b = toALMathVelocity6D(w);
    toALMathVelocity6D(w, a);
    for (int i = 0; i < 6; ++i)
    {
      same("toALMathVelocity6D", (&a.xd)[i], w[i], 0);
      same("toALMathVelocity6D", (&b.xd)[i], w[i], 0);
    }
    const Eigen::Quaternionf q = toEigenQuaternion<float>(t);
    same("norm of the quaternion", q.norm(), 1, 1e-4);
    const Eigen::Matrix3f qr = q.toRotationMatrix();
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) same("rotation of the quaternion", qr(i, j), R(i, j), 2e-3);
    // averages
    std::vector<Transform> r;
    const size_t k = rng() % 6;
    Eigen::Vector3d mean(0, 0, 0);
    Eigen::Vector4d sum(0, 0, 0, 0), first;
    bool sure = true;
    trace.clear();
    for (size_t i = 0; i < k; ++i)
    {
      r.push_back(transform(R, p));
      mean += p / double(k);
      const Eigen::Vector4d c = Eigen::Quaterniond(R).coeffs();
      if (i == 0) first = c;
      if (std::abs(c.dot(first)) < 1e-2) sure = false;   // rounding may choose the other side
      sum += c.dot(first) >= 0 ? c : Eigen::Vector4d(-c);
    }
    bool thrown = false;
    Transform av;
    try { av = averageTransforms(r); } catch (const std::runtime_error &) { thrown = true; }
    same("averageTransforms throws", thrown, k == 0, 0);
    if (k == 0) continue;
    for (int i = 0; i < 3; ++i) same("translation of the average", (&av.r1_c1)[4 * i + 3], mean[i], 1e-4);
    if (!sure || sum.norm() < 0.1) continue;
    sum.normalize();
    const Eigen::Matrix3d ar = Eigen::Quaterniond(sum[3], sum[0], sum[1], sum[2]).toRotationMatrix();
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) same("rotation of the average", (&av.r1_c1)[4 * i + j], ar(i, j), 1e-2);
  }
  std::printf("%d histories\n", N);
}
