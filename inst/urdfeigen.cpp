// instantiates the header-only functions of almath/scenegraph/urdfeigen.h on the types /repo/src/scenegraph uses;
// 3x3 matrices are 9 and poses 12 doubles, column by column, which is how Eigen stores them
#include <almath/scenegraph/urdfeigen.h>

namespace AL {
namespace Inst {
typedef Eigen::Matrix3d Matrix3;
typedef Eigen::Matrix<double, 3, 1, Eigen::DontAlign> Vector3;
typedef Eigen::Matrix<double, 3, 3, Eigen::DontAlign> Matrix3u;
typedef Eigen::Transform<double, 3, Eigen::AffineCompact> Pose;

void addPointMassInertia(double mass, double const *position, double *inertia)
{
  Math::addPointMassInertia(mass, *(const Eigen::Vector3d *)position, *(Eigen::MatrixBase<Matrix3> *)(Matrix3 *)inertia);
}

void squashInertial(double mass_a, double const *pose_a, double const *inertia_a, double mass_b, double const *pose_b,
                    double const *inertia_b, double *mass_c, double *pose_c, double *inertia_c)
{
  Math::squashInertial(mass_a, *(const Pose *)pose_a, *(const Matrix3 *)inertia_a, mass_b, *(const Pose *)pose_b,
                       *(const Matrix3 *)inertia_b, *mass_c, *(Pose *)pose_c, *(Matrix3 *)inertia_c);
}

void urdfInertialToEigen(urdf::Inertial const *inertial, double *mass, double *com, double *inertia)
{
  Math::urdfInertialToEigen(*inertial, *mass, *(Vector3 *)com, *(Matrix3u *)inertia);
}

void toEigenMatrix3(urdf::Inertial const *inertial, double *inertia)
{
  *(Matrix3 *)inertia = Math::toEigenMatrix3(*inertial);
}

void toEigenTransform(urdf::Pose const *p, double *pose)
{
  const Eigen::Isometry3d t = Math::toEigenTransform(*p);
  for (int i = 0; i < 16; ++i) pose[i] = t.matrix().data()[i];
}

void eigenQuaternionFromUrdfRpy(double const *rpy, double *q)
{
  const Eigen::Quaterniond e = Math::eigenQuaternionFromUrdfRpy(*(const urdf::Array3d *)rpy);
  q[0] = e.w(), q[1] = e.x(), q[2] = e.y(), q[3] = e.z();
}

void urdfRpyFromEigenMatrix3(double const *m, double *rpy)
{
  *(urdf::Array3d *)rpy = Math::urdfRpyFromEigenMatrix3(*(const Matrix3 *)m);
}
}
}
