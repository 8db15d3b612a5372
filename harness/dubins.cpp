// sources: src/tools/aldubinscurve.cpp src/types/alpose2d.cpp src/types/alposition2d.cpp
// random targets: the checkpoints of getDubinsSolutions against the definition of a shortest tangent
#include <almath/tools/aldubinscurve.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <stdexcept>

using AL::Math::Pose2D;

static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }

int main(int argc, char **argv)
{
  std::setvbuf(stdout, 0, _IONBF, 0);
  std::mt19937 rng(argc > 1 ? std::atoi(argv[1]) : 1);
  const int N = argc > 2 ? std::atoi(argv[2]) : 2000;
  std::uniform_real_distribution<double> U(-1, 1);
  for (int h = 0; h < N; ++h)
  {
    const float R = float(rng() % 4 ? 0.05 + std::fabs(U(rng)) : (1 + rng() % 8) * 0.25);
    const double d = R * (rng() % 8 ? 4.01 + 20 * std::fabs(U(rng)) : 3.95 * std::fabs(U(rng)));
    double a = 3.14159265358979 * U(rng), t = 2 * 3.14159265358979 * U(rng);
    if (rng() % 4 == 0) a = (int(rng() % 9) - 4) * 0.785398163397448;
    if (rng() % 4 == 0) t = (int(rng() % 9) - 4) * 0.785398163397448;
    const Pose2D p(float(d * std::cos(a)), float(d * std::sin(a)), float(t));
    std::printf("history: target (%.9g, %.9g, %.9g), radius %.9g\n", p.x, p.y, p.theta, R);
    const double dist = std::sqrt(double(p.x) * p.x + double(p.y) * p.y);
    std::vector<Pose2D> s;
    try
    {
      s = AL::Math::getDubinsSolutions(p, R);
    }
    catch (const std::exception &)
    {
      if (dist > 4.0001 * R) { std::printf("refused\n"); return 1; }
      continue;
    }
    if (dist < 3.9999 * R) { std::printf("not refused\n"); return 1; }
    if (s.size() != 3) { std::printf("%d checkpoints\n", int(s.size())); return 1; }
    if (!(s[2].x == p.x && s[2].y == p.y && s[2].theta == p.theta)) { std::printf("the last checkpoint is not the target\n"); return 1; }
    const double tol = 2e-4 * (1 + dist), x = s[1].x - s[0].x, y = s[1].y - s[0].y, len = std::sqrt(x * x + y * y);
    double best = 1e30;
    bool ok = false;
    for (int k = 0; k < 4; ++k)
    {
      const int u = k & 1 ? 1 : -1, v = k & 2 ? 1 : -1;
      const double cx = p.x - std::sin(p.theta) * R * v, cy = p.y + std::cos(p.theta) * R * v;
      const double dx = cx, dy = cy - R * u;
      const double l2 = dx * dx + dy * dy - (u == v ? 0 : 4 * double(R) * R);
      best = std::min(best, l2 > 0 ? std::sqrt(l2) : 0.0);
      const double ax = s[0].x, ay = s[0].y - R * u, bx = s[1].x - cx, by = s[1].y - cy;
      ok = ok || (close(std::sqrt(ax * ax + ay * ay), R, tol) && close(std::sqrt(bx * bx + by * by), R, tol) &&
                  close(ax * x + ay * y, 0, tol * (R + len)) && close(bx * x + by * y, 0, tol * (R + len)) &&
                  u * (ax * y - ay * x) >= -tol * (R + len) && v * (bx * y - by * x) >= -tol * (R + len) &&
                  close(len * len, l2, 4 * tol * (len + R)));
    }
    if (!ok) { std::printf("(%g, %g) to (%g, %g) is not a tangent of the circles\n", s[0].x, s[0].y, s[1].x, s[1].y); return 1; }
    if (len > best + 8 * tol + (best < 0.1 * R ? R : 0)) { std::printf("length %g, shortest %g\n", len, best); return 1; }
    if (len > 0.01 * R)
      for (int i = 0; i < 2; ++i)
        if (!close(std::cos(s[i].theta), x / len, 1e-2) || !close(std::sin(s[i].theta), y / len, 1e-2))
        {
          std::printf("checkpoint %d heads to %g, the segment to %g\n", i, s[i].theta, std::atan2(y, x));
          return 1;
        }
  }
  std::printf("%d histories\n", N);
  return 0;
}
