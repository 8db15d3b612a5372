// sources: src/scenegraph/qianim.cpp
// random attributes of animation documents against what the format says of them
#include <almath/scenegraph/qianim.h>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>

using namespace AL::qianim;
using namespace AL::qianim::V2;
static std::mt19937_64 rng;
static std::string trace;

static void fail(const std::string &what)
{
  std::printf("history: %s\n%s\n", trace.c_str(), what.c_str());
  std::exit(1);
}

// 0: returned, 1: std::invalid_argument, 2: ptree_bad_path, 3: std::runtime_error, 4: something else
template <class F>
static int kind(F f)
{
  try { f(); return 0; }
  catch (const std::invalid_argument &) { return 1; }
  catch (const boost::property_tree::ptree_bad_path &) { return 2; }
  catch (const std::runtime_error &) { return 3; }
  catch (...) { return 4; }
}

static void expect(const char *what, int got, int want)
{
  if (got != want) fail(std::string(what) + ": outcome " + std::to_string(got) + ", expected " + std::to_string(want) +
                        " (0 returns, 1 invalid_argument, 2 bad path, 3 runtime_error)");
}

static int I() { const int v[] = {-1000, -2, -1, 0, 1, 2, 3, 25, 1000}; return v[rng() % 9]; }
static double D() { return rng() % 4 ? (double(rng() % 81) - 40) / 8 : I(); }

static ptree element(const std::string &other)
{
  ptree t;
  t.put("<xmlattr>.other", other);
  if (rng() % 2) t.put("<xmlattr>.value", "0.25");
  return t;
}

template <class G>
static void read_int(const char *what, const char *attr, G g, int least)
{
  const int v = I();
  ptree t = element("x");
  trace = std::string("reading ") + what + " of an element without it";
  expect(what, kind([&] { g(t); }), 2);
  t.put(std::string("<xmlattr>.") + attr, v);
  const ptree old = t;
  int r = 0;
  trace = std::string("reading ") + what + " " + std::to_string(v);
  expect(what, kind([&] { r = g(t); }), v < least ? 1 : 0);
  if (v >= least && r != v) fail("returned " + std::to_string(r));
  if (t != old) fail("the element is modified");
}

template <class G>
static void write_int(const char *what, const char *attr, G g, int least)
{
  const int v = I();
  ptree t = element("x");
  if (rng() % 2) t.put(std::string("<xmlattr>.") + attr, 7);
  ptree want = t;
  if (v >= least) want.put(std::string("<xmlattr>.") + attr, v);
  trace = std::string("writing ") + what + " " + std::to_string(v);
  expect(what, kind([&] { g(t, v); }), v < least ? 1 : 0);
  if (t != want) fail("the element is not the expected one");
}

template <class T>
static void interval()
{
  const int p0 = rng() % 6, p3 = rng() % 6;
  T a[6];
  for (auto &x : a) x = (T)D();
  if (rng() % 3 == 0) a[1] = (T)(p3 - p0);
  if (rng() % 3 == 0) a[3] = (T)(p0 - p3);
  const bool ok = p0 < p3 && 0 <= a[1] && a[1] <= p3 - p0 && a[3] <= 0 && p0 - p3 <= a[3];
  char b[200];
  std::snprintf(b, sizeof b, "check_cubic_bezier(%d, %g, %g, %g, %g, %g, %d, %g)", p0, a[0], a[1], a[2], a[3], a[4], p3, a[5]);
  trace = b;
  expect("interval", kind([&] { Key::check_cubic_bezier<T>(p0, a[0], a[1], a[2], a[3], a[4], p3, a[5]); }), ok ? 0 : 1);
}

int main(int, char **argv)
{
  rng.seed(std::atoi(argv[1]));
  const long n = std::atol(argv[2]);
  for (long k = 0; k < n; ++k)
  {
    read_int("frame", "frame", Key::get_frame, 0);
    write_int("frame", "frame", Key::put_frame, 0);
    read_int("fps", "fps", ActuatorCurve::get_fps, 1);
    write_int("fps", "fps", ActuatorCurve::put_fps, 1);
    interval<float>();
    interval<double>();

    {
      const char *texts[] = {"left", "right", "Left", "", "middle"};
      const int s = rng() % 5;
      ptree t = element("x"), u = t;
      t.put("<xmlattr>.side", texts[s]);
      trace = std::string("reading side ") + texts[s];
      Side r = Side::left;
      expect("side", kind([&] { r = Tangent::get_side(t); }), s < 2 ? 0 : 1);
      if (s < 2 && r != (s ? Side::right : Side::left)) fail("the other side");
      if (s < 2) Tangent::put_side(u, s ? Side::right : Side::left);
      if (s < 2 && t != u) fail("written side");
    }
    {
      const char *texts[] = {"dimensionless", "radian", "degree", "meter", "Radian", "", "m"};
      const Unit units[] = {Unit::dimensionless, Unit::radian, Unit::degree, Unit::meter};
      const int s = rng() % 7;
      ptree t = element("x"), u = t;
      t.put("<xmlattr>.unit", texts[s]);
      trace = std::string("reading unit ") + texts[s];
      Unit r = Unit::meter;
      expect("unit", kind([&] { r = ActuatorCurve::get_unit(t); }), s < 4 ? 0 : 1);
      if (s < 4 && r != units[s]) fail("another unit");
      if (s < 4) ActuatorCurve::put_unit(u, units[s]);
      if (s < 4 && t != u) fail("written unit");
    }
    {
      ptree t;
      trace = "mute";
      if (ActuatorCurve::get_mute(t)) fail("mute by default");
      const bool b = rng() % 2;
      ActuatorCurve::put_mute(t, b);
      if (ActuatorCurve::get_mute(t) != b) fail("written and read back");
    }
    {
      const char *texts[] = {"2.0", "2", "1.0", "", "2.00"};
      const int s = rng() % 5;
      ptree t;
      trace = "version";
      expect("no version", kind([&] { Animation::check_version(t); }), 2);
      t.put("<xmlattr>.typeVersion", texts[s]);
      trace = std::string("version ") + texts[s];
      expect("version", kind([&] { Animation::check_version(t); }), s ? 3 : 0);
    }
    {
      ptree a, b;
      double v[8];
      for (auto &x : v) x = D();
      const int f = rng() % 9, g = rng() % 9;
      Key::put_frame(a, f);
      Key::put_frame(b, g);
      Key::put_value<double>(a, v[0]);
      Key::put_value<double>(b, v[7]);
      const bool order = rng() % 2;
      for (int i = 0; i < 2; ++i)
      {
        const Side s = ((i == 0) == order) ? Side::left : Side::right;
        if (s == Side::left) Key::put_tangent<double>(a, s, 91, 92);
        else Key::put_tangent<double>(a, s, v[1], v[2]);
        if (s == Side::right) Key::put_tangent<double>(b, s, 93, 94);
        else Key::put_tangent<double>(b, s, v[3], v[4]);
      }
      if (rng() % 2) Key::put_tangent<double>(a, Side::right, v[1] = D(), v[2] = D());   // written again
      trace = "points of the curve between two keys";
      bool called = false;
      Key::apply_cubic_bezier<double>(a, b, [&](int p0, double v0, double d1, double v1, double d2, double v2, int p3, double v3) {
        called = true;
        if (p0 != f || p3 != g || v0 != v[0] || d1 != v[1] || v1 != v[2] || d2 != v[3] || v2 != v[4] || v3 != v[7])
          fail("another curve");
      });
      if (!called) fail("not called");
    }
  }
  std::printf("%ld histories\n", n);
}
