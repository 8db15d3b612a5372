// -O0
// instantiates the header-only functions of almath/scenegraph/qianim.h
#include <almath/scenegraph/qianim.h>

namespace AL {
namespace Inst {
typedef qianim::ptree Tree;
using namespace qianim::V2;

void checkFloat(int p0, float v0, float d1, float v1, float d2, float v2, int p3, float v3)
{
  Key::check_cubic_bezier<float>(p0, v0, d1, v1, d2, v2, p3, v3);
}
void checkDouble(int p0, double v0, double d1, double v1, double d2, double v2, int p3, double v3)
{
  Key::check_cubic_bezier<double>(p0, v0, d1, v1, d2, v2, p3, v3);
}

struct Points
{
  double *x;
  void operator()(int p0, double v0, double d1, double v1, double d2, double v2, int p3, double v3)
  {
    x[0] = p0; x[1] = v0; x[2] = d1; x[3] = v1; x[4] = d2; x[5] = v2; x[6] = p3; x[7] = v3;
  }
};
void points(Tree const *p0, Tree const *p3, double *x) { Key::apply_cubic_bezier<double>(*p0, *p3, Points{x}); }

int getFrame(Tree const *t) { return Key::get_frame(*t); }
void putFrame(Tree *t, int v) { Key::put_frame(*t, v); }
double getValue(Tree const *t) { return Key::get_value<double>(*t); }
void putValue(Tree *t, double v) { Key::put_value<double>(*t, v); }
void putTangent(Tree *t, bool side, double a, double o) { Key::put_tangent<double>(*t, (qianim::Side)side, a, o); }
double getAbscissa(Tree const *t) { return Tangent::get_abscissa<double>(*t); }
double getOrdinate(Tree const *t) { return Tangent::get_ordinate<double>(*t); }
bool getSide(Tree const *t) { return (bool)Tangent::get_side(*t); }
void putSide(Tree *t, bool v) { Tangent::put_side(*t, (qianim::Side)v); }
int getFps(Tree const *t) { return ActuatorCurve::get_fps(*t); }
void putFps(Tree *t, int v) { ActuatorCurve::put_fps(*t, v); }
bool getMute(Tree const *t) { return ActuatorCurve::get_mute(*t); }
void putMute(Tree *t, bool v) { ActuatorCurve::put_mute(*t, v); }
int getUnit(Tree const *t) { return (int)ActuatorCurve::get_unit(*t); }
void putUnit(Tree *t, int v) { ActuatorCurve::put_unit(*t, (qianim::Unit)v); }
void checkVersion(Tree const *t) { Animation::check_version(*t); }
}
}
