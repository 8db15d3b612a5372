// sources: src/dsp/digitalfilter.cpp
// random histories of DigitalFilter against the difference equation written down directly
#include <almath/dsp/digitalfilter.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <random>
#include <string>
#include <vector>

using AL::Math::DSP::DigitalFilter;
static std::string trace;

struct Oracle
{
  std::vector<double> wi = {1.0}, wo;
  std::deque<double> in, out;
  double g = 1.0;
  double step(double x)
  {
    push(in, wi.size(), x / g);
    double y = x;
    if (in.size() == wi.size() && out.size() == wo.size())
    {
      y = 0;
      for (size_t i = 0; i < wi.size(); ++i) y += in[i] * wi[i];
      for (size_t i = 0; i < wo.size(); ++i) y += out[i] * wo[i];
    }
    push(out, wo.size(), y);
    return y;
  }
  static void push(std::deque<double> &q, size_t cap, double v)
  {
    q.push_back(v);
    while (q.size() > cap) q.pop_front();
  }
};

int main(int argc, char **argv)
{
  std::setvbuf(stdout, 0, _IONBF, 0);
  std::mt19937 rng(argc > 1 ? std::atoi(argv[1]) : 1);
  const int N = argc > 2 ? std::atoi(argv[2]) : 2000;
  auto u = [&](int n) { return int(rng() % n); };
  auto val = [&]() { return (u(17) - 8) / 8.0f; };
  for (int h = 0; h < N; ++h)
  {
    DigitalFilter f;
    Oracle o;
    trace = "default filter";
    const int steps = 1 + u(40);
    for (int s = 0; s < steps; ++s)
    {
      const int k = u(12);
      if (k == 0 && (s == 0 || u(4) == 0))
      {
        // a new configuration on empty histories
        f.resetFilter();
        o.in.clear();
        o.out.clear();
        std::vector<float> wi(u(5)), wo(u(4));
        for (auto &w : wi) w = val();
        for (auto &w : wo) w = val();
        const float g = std::vector<float>{1.0f, 2.0f, 0.5f, -4.0f}[u(4)];
        f.configureFilter(wi, wo, g);
        o.wi.assign(wi.begin(), wi.end());
        o.wo.assign(wo.begin(), wo.end());
        o.g = g;
        trace += "; reset; configure in={";
        for (auto w : wi) trace += " " + std::to_string(w);
        trace += " } out={";
        for (auto w : wo) trace += " " + std::to_string(w);
        trace += " } gain=" + std::to_string(g);
      }
      else if (k == 1 && u(3) == 0)
      {
        f.resetFilter();
        o.in.clear();
        o.out.clear();
        trace += "; reset";
      }
      else
      {
        const float x = val();
        trace += "; process " + std::to_string(x);
        if (s == 0) std::printf("%s\n", trace.c_str());
        const double y = f.processFilter(x), e = o.step(x);
        if (!(std::fabs(y - e) <= 1e-4 * (1 + std::fabs(e))))
        {
          std::printf("history: %s\noutput %g, expected %g\n%d histories\n", trace.c_str(), y, e, h + 1);
          return 1;
        }
        if (std::fabs(e) > 1e3)
          break;
      }
    }
  }
  std::printf("%d histories\n", N);
  return 0;
}
