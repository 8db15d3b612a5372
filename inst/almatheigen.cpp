// loops
// instantiates the header-only functions of almath/scenegraph/almatheigen.h; matrices are stored column by column
#include <almath/scenegraph/almatheigen.h>
#include <vector>

namespace AL {
namespace Inst {
using Math::Transform;

void toEigenMatrix34(Transform const *t, float *m) { *(Math::Matrix34f *)m = Math::toEigenMatrix34(*t); }
void toEigenMatrix3(Transform const *t, float *m) { *(Eigen::Matrix3f *)m = Math::toEigenMatrix3(*t); }
void toEigenVector3(Math::Position3D const *p, float *v) { *(Eigen::Vector3f *)v = Math::toEigenVector3(*p); }
void toEigenAffineCompact3(Transform const *t, float *m) { *(Math::Matrix34f *)m = Math::toEigenAffineCompact3(*t).matrix(); }

void toEigenQuaternion(Transform const *t, float *q)
{
  const Eigen::Quaternion<float> e = Math::toEigenQuaternion<float>(*t);
  q[0] = e.w(), q[1] = e.x(), q[2] = e.y(), q[3] = e.z();
}

typedef Eigen::Matrix<float, 3, 4, Eigen::DontAlign> Matrix34u;
typedef Eigen::Matrix<float, 4, 4, Eigen::DontAlign> Matrix44u;
typedef Eigen::Matrix<float, 6, 1, Eigen::DontAlign> Vector6u;

void toALMathTransformInto(float const *m, Transform *t) { Math::toALMathTransform(*(const Matrix34u *)m, *t); }
void toALMathTransform(float const *m, Transform *t) { *t = Math::toALMathTransform(*(const Matrix34u *)m); }

void affineCompactToALMath(float const *m, Transform *t)
{
  Eigen::AffineCompact3f a;
  a.matrix() = *(const Matrix34u *)m;
  *t = Math::toALMathTransform(a);
}

void affineToALMath(float const *m, Transform *t)
{
  Eigen::Affine3f a;
  a.matrix() = *(const Matrix44u *)m;
  *t = Math::toALMathTransform(a);
}

void affineToALMathInto(float const *m, Transform *t)
{
  Eigen::Affine3f a;
  a.matrix() = *(const Matrix44u *)m;
  Math::toALMathTransform(a, *t);
}

void toALMathPosition3D(float const *m, Math::Position3D *p) { *p = Math::toALMathPosition3D(*(const Eigen::Vector3f *)m); }
void toALMathVelocity6DInto(float const *m, Math::Velocity6D *v) { Math::toALMathVelocity6D(*(const Vector6u *)m, *v); }
void toALMathVelocity6D(float const *m, Math::Velocity6D *v) { *v = Math::toALMathVelocity6D(*(const Vector6u *)m); }

void averageTransforms(std::vector<Transform> const *r, Transform *t) { *t = Math::averageTransforms(*r); }
}
}
