// keep ptree
// the readers of URDF elements, on the elements they read
#include <src/scenegraph/urdf.cpp>

namespace AL {
namespace Inst {
typedef urdf::ptree Tree;

static void put(double *x, urdf::Array3d const &v)
{
  x[0] = v[0]; x[1] = v[1]; x[2] = v[2];
}
static void put(double *x, urdf::Pose const &p)
{
  put(x, p.xyz());
  put(x + 3, p.rpy());
}

double mimicMultiplier(Tree const *t) { return urdf::Mimic(*t).multiplier(); }
double mimicOffset(Tree const *t) { return urdf::Mimic(*t).offset(); }
int jointType(Tree const *t) { return (int)urdf::Joint(*t).type(); }
void jointAxis(Tree const *t, double *x) { put(x, urdf::Joint(*t).axis()); }
void jointOrigin(Tree const *t, double *x) { put(x, urdf::Joint(*t).origin()); }
void visualOrigin(Tree const *t, double *x) { put(x, urdf::Visual(*t).origin()); }
void inertialOrigin(Tree const *t, double *x) { put(x, urdf::Inertial(*t).origin()); }
void inertial(Tree const *t, double *x)
{
  const urdf::Inertial i(*t);
  x[0] = i.mass(); x[1] = i.ixx(); x[2] = i.ixy(); x[3] = i.ixz(); x[4] = i.iyy(); x[5] = i.iyz(); x[6] = i.izz();
}
bool linkMass(Tree const *t, double *x)
{
  const auto i = urdf::Link(*t).inertial();
  if (!i) return false;
  x[0] = i->mass();
  return true;
}
bool jointLimits(Tree const *t, double *x)
{
  const auto l = urdf::Joint(*t).limit_lower_upper();
  if (!l) return false;
  x[0] = l->first;
  x[1] = l->second;
  return true;
}
bool jointEffort(Tree const *t, double *x)
{
  const auto l = urdf::Joint(*t).limit_effort();
  if (!l) return false;
  x[0] = *l;
  return true;
}
bool jointVelocity(Tree const *t, double *x)
{
  const auto l = urdf::Joint(*t).limit_velocity();
  if (!l) return false;
  x[0] = *l;
  return true;
}
bool jointMimic(Tree const *t, double *x)
{
  const auto m = urdf::Joint(*t).mimic();
  if (!m) return false;
  x[0] = m->multiplier();
  x[1] = m->offset();
  return true;
}
double cylinderRadius(Tree const *t) { return urdf::Cylinder(*t).radius(); }
double cylinderLength(Tree const *t) { return urdf::Cylinder(*t).length(); }
double sphereRadius(Tree const *t) { return urdf::Sphere(*t).radius(); }
void boxSize(Tree const *t, double *x) { put(x, urdf::Box(*t).size()); }
void meshScale(Tree const *t, double *x) { put(x, urdf::Mesh(*t).scale()); }
// what the document says before and after an edit: the trees are blocks the lemma looks into
void fixed(urdf::RobotTree *r, std::string const *name) { urdf::makeJointFixed(*r, *name); }
void floating(urdf::RobotTree *r, std::string const *name) { urdf::makeJointFloating(*r, *name); }
void squash(urdf::RobotTree *r, std::string const *name) { urdf::squashJointMass(*r, *name); }
bool poseTree(double const *x, Tree *t)
{
  const auto r = urdf::Pose(urdf::Array3d{{x[0], x[1], x[2]}}, urdf::Array3d{{x[3], x[4], x[5]}}).to_ptree();
  if (!r) return false;
  *t = *r;
  return true;
}

}

// helpers of the document edits, when they exist under these names
namespace urdf { namespace detail {
void instAbsent();
template <class T> static auto flip(T *t, int) -> decltype(flip_joint_axis(*t)) { flip_joint_axis(*t); }
template <class T> static void flip(T *, long) { instAbsent(); }
void instFlip(ptree *t) { flip(t, 0); }
template <class T> static auto move(Pose const &p, Pose const &i, T *t, bool k, int) -> decltype(premul(p, i, t, k)) { premul(p, i, t, k); }
template <class T> static void move(Pose const &, Pose const &, T *, bool, long) { instAbsent(); }
void instMove(Pose const *p, Pose const *i, ptree *t, bool keep) { move(*p, *i, t, keep, 0); }
} }
}
