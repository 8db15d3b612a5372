"""Source of properties.jsonl and MANIFEST.json (run tools/manifest.py after editing)."""
T = "src/types/"
TOOLS = "src/tools/"
PROPS = []


def P(id, title, statement, text, tests, files, mech, claimed=True, reason=None, note="", over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests, files=files,
                      mech=mech, claimed=claimed, reason=reason, note=note))


P("C01", "Rigid transforms compose, invert and act as a group",
  "For every pair of homogeneous transforms, composition, in-place composition, inversion, relative transform (diff), "
  "pre-multiplication and application to points equal the mathematical block-matrix formulas, also when an argument is the "
  "object itself. On rigid transforms (orthonormal rotation, any translation) composition is associative with the default "
  "transform as identity, inverse() is a two-sided inverse and an involution, and a * transformDiff(a, b) == b.",
  "all transforms (12 arbitrary entries) for the formulas; all rigid transforms (every unit quaternion and translation) for the group laws; self-aliased calls included",
  "the unit tests check a few hand-picked angles and translations and compare to hard-coded tables; a sign or index slip in a block only some inputs exercise stays green",
  ["src/types/altransform.cpp", "almath/types/altransform.h", "src/tools/altransformhelpers.cpp"],
  [("composition / inversion formulas", "src/types/altransform.cpp: operator*=, operator*, inverse, transformInverse, transformInvertInPlace"),
   ("relative transform", "src/types/altransform.cpp: transformDiff, Transform::diff, transformPreMultiply")])

P("C02", "Rotation matrices: product, transpose, determinant, powers, action",
  "For all 3x3 rotation objects, product, in-place product, transpose, inverse and determinant equal the mathematical "
  "matrix operations, and applying a rotation or transform to a 2D/3D/6D quantity is the matrix-vector product. "
  "On orthonormal matrices the product is closed, associative and has the transpose as two-sided inverse.",
  "all 9 matrix entries and all vectors; all rotation matrices for the group laws; self-aliased calls included",
  "tests evaluate a handful of numeric matrices; index and sign errors that vanish on symmetric or axis-aligned samples pass",
  ["src/types/alrotation.cpp", "almath/types/alrotation.h", "src/tools/altransformhelpers.cpp"],
  [("rotation algebra", "src/types/alrotation.cpp: operator*=, transpose, determinant, rotationInverse"),
   ("action on points", "src/tools/altransformhelpers.cpp: operator*(Transform/Rotation, Position…)")])

P("C03", "Rotation and transform constructors denote the documented rotation",
  "Every constructor function that builds a rotation or transform from angles, an axis and an angle, a 3D rotation "
  "vector, a 6D pose or a quaternion returns exactly the documented matrix (elementary rotations, Rz*Ry*Rx order, "
  "Rodrigues), the result is orthonormal with determinant one, and the axis-angle constructors throw for every axis "
  "whose norm differs from one by more than the stated tolerance.",
  "all angles, all axes, all translations",
  "tests use zero and quarter-turn angles, where swapped sines, wrong orders or a wrong sign are often invisible",
  ["src/types/alrotation.cpp", "src/types/altransform.cpp", "src/tools/altransformhelpers.cpp"],
  [("Euler constructors", "src/types/alrotation.cpp: rotationFromRotX/Y/Z, rotationFrom3DRotation; src/types/altransform.cpp: transformFromRotX/Y/Z, transformFrom3DRotation, transformFromPosition"),
   ("Rodrigues", "rotationFromAngleDirection, transformFromAngleDirection…")])

P("C09", "Vector types obey vector-space and metric laws",
  "Positions, planar poses and velocities of every dimension add, subtract, negate, scale, and divide component-wise (in place or not, "
  "also on themselves), dot/cross products, norms, distances and normalisation equal their mathematical definitions, and "
  "division by zero or normalising a null vector throws instead of returning a value.",
  "all component values and scalars; self-aliased calls included",
  "tests check single numeric samples per operator; missing components, asymmetric typos and aliasing are invisible there",
  ["src/types/alposition2d.cpp", "src/types/alposition3d.cpp", "src/types/alposition6d.cpp", "src/types/alvelocity3d.cpp",
   "src/types/alvelocity6d.cpp", "src/types/alpose2d.cpp", "src/types/alpositionandvelocity.cpp", "src/types/altransformandvelocity6d.cpp"],
  [("component-wise operators", "src/types/alposition*.cpp, src/types/alvelocity*.cpp: operators, norm, normalize, dotProduct, crossProduct, distance*")])

P("C10", "Serialisation to and from float vectors is faithful",
  "toVector / writeToVector write every component exactly once in the documented order (16 row-major entries for a "
  "transform, 9 for a rotation) and constructing from a vector of the documented size reads exactly those entries back, "
  "so the round trip is the identity; a vector of any other size yields the default object and never an out-of-range read.",
  "all component values; all vector lengths",
  "tests round-trip one sample per type and one wrong length",
  ["src/types/alposition2d.cpp", "src/types/alposition3d.cpp", "src/types/alposition6d.cpp", "src/types/alpose2d.cpp",
   "src/types/alquaternion.cpp", "src/types/alrotation.cpp", "src/types/alrotation3d.cpp", "src/types/altransform.cpp",
   "src/types/alvelocity3d.cpp", "src/types/alvelocity6d.cpp"],
  [("toVector / writeToVector / vector constructors", "src/types/*.cpp")])

P("C25", "Rotation normalisation and validity predicates",
  "Normalising any rotation or transform re-orthonormalises its axes (third axis direction kept, translation untouched, identity when "
  "degenerate), so the result is a rotation and rotations are left unchanged, and isRotation / isTransform accept exactly the "
  "matrices that are orthonormal with determinant one within the given tolerance.",
  "all matrix entries and tolerances",
  "tests check two or three matrices",
  ["src/types/alrotation.cpp", "src/types/altransform.cpp", "src/tools/altransformhelpers.cpp"],
  [("normalisation", "normalizeRotation, normalizeTransform, Rotation::isRotation, Transform::isTransform")])

P("C04", "Quaternions: algebra, inverse and axis-angle conversion",
  "Quaternion product, in-place product, inverse and rotation of a vector equal the Hamilton algebra for all operands (the object itself "
  "included): associative, with identity (1,0,0,0), multiplicative norm, and conjugation as two-sided inverse on unit "
  "quaternions. Building a quaternion from an angle and an axis yields a unit quaternion for every non-zero axis, angles "
  "about one axis add, and extracting angle and axis from a quaternion normalises it first, so it denotes the same rotation "
  "and never leaves the domain of the inverse cosine.",
  "all quaternions and angles; all unit quaternions for the group laws; every axis",
  "tests compare single products and a few unit axes; a wrong sign on one of the sixteen products or a missing normalisation needs non-symmetric or non-unit operands",
  ["src/types/alquaternion.cpp", "almath/types/alquaternion.h", "src/tools/altransformhelpers.cpp"],
  [("Hamilton product and conjugate", "src/types/alquaternion.cpp: operator*, operator*=, inverse, quaternionInverse"),
   ("axis-angle", "src/types/alquaternion.cpp: quaternionFromAngleAndAxisRotation, angleAndAxisRotationFromQuaternion")])

P("C05", "Quaternions, matrices, transforms and displacements denote the same rotation",
  "Conversions between unit quaternions, rotation matrices, rigid transforms, displacements, Euler angles and axis-angle agree: the matrix of "
  "a product is the product of the matrices, the matrix of the inverse is the transpose, rotating a vector by the quaternion "
  "equals multiplying by its matrix, q and -q give the same matrix, composing displacements equals composing their transforms, "
  "and converting any rigid transform to a quaternion or displacement yields a unit quaternion with non-negative real part that "
  "converts back to the same transform, in every sector of rotations including half turns.",
  "every unit quaternion and translation; every rigid transform; every Euler triple",
  "tests sample a few rotations, so one of the four branches of the matrix-to-quaternion conversion or a transposed entry can be wrong unnoticed",
  ["src/types/alquaternion.cpp", "src/types/aldisplacement.cpp", "src/tools/altransformhelpers.cpp", "almath/types/aldisplacement.h"],
  [("quaternion to matrix", "src/tools/altransformhelpers.cpp / src/types/alrotation.cpp: rotationFromQuaternion, transformFromQuaternion"),
   ("matrix to quaternion", "quaternionFromTransform, displacementFromTransform"),
   ("displacement composition", "src/types/aldisplacement.cpp: operator*, operator*=")])

P("C06", "Roll-pitch-yaw extraction inverts construction, gimbal lock included",
  "For every rotation matrix, rigid transform and unit quaternion, extracting roll/pitch/yaw angles and rebuilding the rotation gives the "
  "original back, in regular attitudes and at both gimbal singularities (pitch of plus or minus a quarter turn); the angles lie in [-pi, pi]; angles with pitch "
  "within a quarter turn come back unchanged (modulo full turns); and the extraction gives the same angles from a "
  "rotation, a transform, a 6D pose and a quaternion of the same attitude.",
  "every rotation matrix (all unit quaternions) plus every gimbal attitude; every Euler triple with positive cosine of pitch",
  "tests use a few small angles, away from gimbal lock and from the other branches of the arc tangent",
  ["src/tools/altransformhelpers.cpp", "src/types/alrotation3d.cpp", "src/types/alquaternion.cpp"],
  [("extraction", "src/tools/altransformhelpers.cpp: rotation3DFromTransform, rotation3DFromRotation, position6DFromTransform(InPlace); rotation3DFromQuaternion"),
   ("construction", "transformFromRotation3D, transformFromPosition6D, rotationFrom3DRotation")])

P("C08", "Planar poses form a group acting on points and embed into rigid transforms",
  "Pose2D composition, in-place composition, inverse (all four spellings) and relative pose obey the group laws of planar "
  "rigid motions for every pose, also when an argument is the object itself; applying a composite pose to a point is applying "
  "the poses in turn; and embedding poses into 3D transforms preserves composition and inversion and is undone by extraction.",
  "all poses (any angle, not only the principal range) and points; self-aliased calls included",
  "tests check isolated poses with zero or quarter-turn angles and never the in-place operator on itself",
  ["src/types/alpose2d.cpp", "almath/types/alpose2d.h", "src/tools/altransformhelpers.cpp"],
  [("group", "src/types/alpose2d.cpp: operator*, operator*=, inverse, pinv, pose2DInverse, pose2dDiff, pose2dInvertInPlace"),
   ("embedding", "transformFromPose2D, pose2DFromTransform")])

P("C11", "Equality and nearness predicates, bit-precise",
  "For every value type, == holds exactly when every component compares equal, != is its exact negation (for NaN too), and "
  "isNear holds exactly when every component differs by at most the tolerance, so it is symmetric, false whenever a NaN is involved, and sensitive to every component; "
  "quaternion nearness accepts both q and -q but not mixtures of signs.",
  "all IEEE single-precision component values including NaN, infinities and signed zeros; all tolerances; self-comparison",
  "tests compare a few objects differing in one component, never each component in turn, never NaN or mixed signs",
  ["src/types/alposition2d.cpp", "src/types/alposition3d.cpp", "src/types/alposition6d.cpp", "src/types/alpose2d.cpp",
   "src/types/alquaternion.cpp", "src/types/alrotation.cpp", "src/types/alrotation3d.cpp", "src/types/altransform.cpp",
   "src/types/alvelocity3d.cpp", "src/types/alvelocity6d.cpp", "src/types/aldisplacement.cpp",
   "src/types/alpositionandvelocity.cpp", "src/types/altransformandvelocity6d.cpp"],
  [("comparison operators", "src/types/*.cpp: operator==, operator!=, isNear")])

P("C12", "Clipping keeps data inside its limits and reports exactly whether it changed",
  "Clipping a value to [min, max] leaves it in the interval, unchanged when it already was inside and at the nearest limit "
  "otherwise, and returns true exactly when it changed it.",
  "all IEEE single-precision values and limits with min <= max",
  "tests clip two or three values",
  ["src/tools/almath.cpp", "almath/tools/almath.h"],
  [("clipData", "src/tools/almath.cpp: clipData")])

P("C26", "Change of reference rotates and only rotates",
  "changeReference* re-expresses velocities, poses, points and transforms in another frame's axes by its rotation part "
  "only (never adding the frame's translation) and changeReferenceTranspose* by the inverse rotation, so on a rigid frame each undoes the "
  "other and lengths are preserved; the planar forms rotate x, y and leave the heading untouched.",
  "all frames and quantities; all rigid frames for the inverse laws",
  "tests use one frame each, typically without distinguishing rows from columns",
  ["src/tools/altransformhelpers.cpp", "src/tools/almath.cpp"],
  [("changeReference*", "src/tools/altransformhelpers.cpp: changeReference{,Transpose}{Velocity6D,Position6D,Position3D,Transform}; src/tools/almath.cpp: changeReferencePose2D")])

P("C28", "Conversions between value types copy exactly the documented components",
  "Projecting and lifting between points, poses, rotations and transforms copies exactly the documented components, zero-fills the "
  "rest, and in-place forms keep the parts documented as kept; axis-selected rotations (axis masks) build the documented "
  "elementary rotation and translation; axis-mask validation accepts exactly 1..63.",
  "all component values, angles and axis masks",
  "tests sample one value per conversion; swapped components with equal samples or a stale component in an in-place form pass",
  ["src/tools/altransformhelpers.cpp", "src/tools/almath.cpp", "src/types/altransform.cpp"],
  [("conversions", "src/tools/altransformhelpers.cpp, src/tools/almath.cpp: xFromY and xFromYInPlace"),
   ("axis rotations and masks", "transformFromRotVec*, isAxisMask")])

P("C29", "Point-mass inertia tensor",
  "The rotational inertia of a point mass is m (|r|^2 I - r r^T) written as nine row-major entries, whatever the vector held before.",
  "all masses and positions; output vectors of every length",
  "tests check one mass and position",
  ["src/tools/altransformhelpers.cpp", "src/tools/almath.cpp"],
  [("pointMassRotationalInertia", "src/tools: pointMassRotationalInertia")])

P("C30", "Pose error between transforms",
  "position6DFromTransformDiff returns the translation difference and half the sum of cross products of corresponding axes: zero for equal poses, "
  "odd under exchange, and for a rotation by theta about a unit axis n exactly sin(theta) n, whatever the base orientation.",
  "all pairs of transforms; every rotation axis, angle and base orientation",
  "tests use single-axis small angles where missing or mixed terms vanish",
  ["src/tools/altransformhelpers.cpp"],
  [("pose error", "src/tools/altransformhelpers.cpp: position6DFromTransformDiff(InPlace)")])

P("C34", "Rotations assembled from their axes",
  "Assembling a rotation from two or three orthonormal axes puts each axis in its column and completes the missing one "
  "right-handedly, so feeding back any rotation's own axes reproduces it, and the documented precondition checks never reject orthonormal axes.",
  "every pair/triple of orthonormal axes, right- or left-handed",
  "tests use one triple of axes",
  ["src/tools/altransformhelpers.cpp", "src/types/alposition3d.cpp"],
  [("rotationFromAxes*", "src/tools/altransformhelpers.cpp: rotationFromAxesXY, XZ, YZ, XYZ")])

P("C07", "Exponential, logarithm and interpolation of rigid transforms",
  "The exponential of a 6D velocity is the rigid transform reached by following it for one time unit, and the logarithm inverts it: "
  "exp(log H) = H for translations, for every turn whose sine is at least 1e-3 and for half turns about any axis not merely close to a principal one, "
  "and log(exp V) = V. The logarithmic mean is H1 exp(d log(H1^-1 H2)): H1 at 0, H2 at 1, H for equal ends, and distances outside [0, 1] are refused.",
  "all velocities and transforms for the closed forms, branch by branch; every rotation axis, angle and translation for the inversion laws; every distance",
  "tests sample quarter turns about the principal axes; small angles, half turns about oblique axes and swapped cross terms of the translation part stay unseen",
  ["src/tools/altransformhelpers.cpp", "almath/tools/altransformhelpers.h"],
  [("exponential and logarithm", "src/tools/altransformhelpers.cpp: velocityExponential(InPlace), transformLogarithm(InPlace)"),
   ("logarithmic mean", "src/tools/altransformhelpers.cpp: transformMean(InPlace)")])

P("C20", "PID controller control law and state",
  "A constructed or (re)initialised controller holds valid parameters (positive period, non-negative gains and threshold), rejected parameters change nothing, "
  "and each feedback is offset + Kp e + Kv de/dt + Ki times the integral of e, with the dead zone removed from the error, no derivative on the first step "
  "after a reset and the caller's period used when one is given. A re-initialised controller behaves exactly like a fresh one.",
  "all parameters, all command / sensor / period values, from every reachable controller state (class invariant)",
  "tests run a few steps of one tuning; state left over by a reset, a stale period or a wrong dead-zone sign need particular histories",
  ["src/dsp/pidcontroller.cpp", "almath/dsp/pidcontroller.h"],
  [("control law", "src/dsp/pidcontroller.cpp: computeFeedback, computeFeedbackAbsolute"),
   ("parameter validation and reset", "src/dsp/pidcontroller.cpp: constructor, initialize, setGains")],
  over=("inputs", "histories"))

P("C13", "Angle reduction",
  "modulo2PI returns, for every angle however large or negative, the angle in ]-pi, pi] that differs from it by a whole number of turns, and leaves angles already there unchanged.",
  "every angle", "tests sample a dozen angles; boundary values and many-turn angles with one sign are easily missed",
  ["src/tools/almath.cpp"], [("angle reduction", "src/tools/almath.cpp: modulo2PI, modulo2PIInPlace")])

P("C14", "Mean of angles",
  "The (weighted) mean of angles is the direction, in ]-pi, pi], of the (weighted) sum of their unit vectors; turning all angles turns the mean, equal weights give the plain mean, "
  "equal angles average to themselves, scaling all weights changes nothing. It is refused with an exception exactly when the sizes differ, a weight is not positive or the sum (nearly) vanishes.",
  "every number of angles, all angles and weights", "tests average a few lists; errors that need a weight of a particular kind, a long list or angles across pi are not sampled",
  ["src/tools/almath.cpp"], [("means", "src/tools/almath.cpp: meanAngle, weightedMeanAngle")])

P("C15", "Foot collision: detection and avoidance",
  "Two convex boxes (corner lists of any length) are reported in collision exactly when two of their sides intersect or the first corner of one lies inside the other. A box moved by a pose is moved "
  "rigidly, corner by corner. A footstep free of collision is kept as it is and reported so; a colliding one is reported and only its orientation is changed: to one between zero and the "
  "requested one that is free of collision (or zero), and at most 1/32 of the requested turn away from one that collides (or from the requested one).",
  "all boxes of any number of corners anywhere, all moves of either support foot",
  "tests use two rectangular feet and a few moves; a wrong support foot, a lost corner or a search that stops on a colliding angle shows only on particular moves",
  ["src/tools/avoidfootcollision.cpp"],
  [("collision of boxes", "src/tools/avoidfootcollision.cpp: areTwoBoxesInCollision, xPointsInsideBox"),
   ("moved box", "src/tools/avoidfootcollision.cpp: computeBox"), ("orientation search", "src/tools/avoidfootcollision.cpp: dichotomie, avoidFootCollision")])

P("C16", "Footstep clipping to an ellipse",
  "Clipping a planar move to an ellipse leaves moves inside it untouched and reports false; a move outside is brought back exactly onto the ellipse along its own "
  "direction, keeps its heading, is never lengthened, and true is reported; clipping twice changes nothing more.",
  "every ellipse (either sign of the half axes) and every move", "tests clip a few moves along the axes, where swapped half axes or a sign error are invisible",
  ["src/tools/avoidfootcollision.cpp"], [("ellipse clipping", "src/tools/avoidfootcollision.cpp: clipFootWithEllipse")])

P("C17", "Intersection of planar segments",
  "Two segments are reported to intersect exactly when they are not parallel (up to the stated 1e-5 tolerance) and share a point; the reported point then lies on both "
  "segments, does not depend on the direction of either, and is left untouched when there is no intersection.",
  "all quadruples of points", "tests cover a handful of configurations; touching end points, vertical segments and reversed orders are only sampled",
  ["src/tools/avoidfootcollision.cpp"], [("segment intersection", "src/tools/avoidfootcollision.cpp: intersectionSegment2D")])

P("C18", "Dubins curves",
  "For every turning radius and every target at least four radii away, the curve is three checkpoints: the end of a first turn on one of the two circles through the start, the beginning of a "
  "last turn on one of the two circles through the target, both headed along the segment between them (up to whole turns), and the target itself, unchanged. The segment is tangent to both circles, "
  "in the direction of travel of each, and no other of the four common tangents (left/right, left/right) is shorter. Nearer targets are refused with an exception.",
  "all radii, targets and target orientations", "tests check two targets; a wrong circle, side or choice of the tangent shows only for particular orientations of the target",
  ["src/tools/aldubinscurve.cpp"], [("tangents and their choice", "src/tools/aldubinscurve.cpp: xGetCircles, xComputeTangent, xGetTangents, xComputeBestTangent"),
   ("checkpoints", "src/tools/aldubinscurve.cpp: getDubinsSolutions")])

P("C19", "Digital filter",
  "A digital filter in any state reachable through its interface: each step records the input divided by the gain and the output produced, dropping the oldest value only when that history is full; "
  "while a history is not yet full the output is the input itself, afterwards it is the weighted sum of the recorded inputs plus that of the recorded outputs, oldest first. "
  "Configuring uses exactly the weights and the gain given, resetting forgets all history and keeps the configuration, a filter built without parameters lets every input through.",
  "all weights, gains and histories of any length, in any sequence of configurations, resets and samples",
  "tests run one short filter from a fresh object; an error in a particular reset, reconfiguration or wrap-around of the histories is not sampled",
  ["src/dsp/digitalfilter.cpp", "almath/dsp/digitalfilter.h"],
  [("recurrence and histories", "src/dsp/digitalfilter.cpp: processFilter"), ("configuration and reset", "src/dsp/digitalfilter.cpp: configureFilter, resetFilter, constructor")],
  over=("inputs", "histories"))

P("C21", "Occupancy map pixels and positions",
  "The pixel of a metric position is the nearest one, in map axes (x right, y down from the origin offset); the position of a pixel is its exact metric position; "
  "a pixel's position maps back to that pixel, a position's pixel lies within half a pixel of it, and a map built around a centre has that centre at its middle pixel. "
  "Displacements in pixels agree with differences of pixels up to one pixel of rounding.",
  "every map (size, scale, centre), every position, pose and pixel", "tests check one map and a few pixels; a flipped axis or an offset of half a pixel shows only away from the symmetric cases",
  ["src/types/occupancymapparams.cpp", "almath/types/occupancymapparams.h"],
  [("pixel/position conversions", "src/types/occupancymapparams.cpp"), ("rounding", "almath/types/occupancymapparams.h: getPixelFromOffsetAndScale")])

P("C22", "Orthonormal bases on an axis, pills and shape parameters",
  "For every non-null axis orthogonalSpace builds an orthonormal direct base whose third axis is along it and keeps the translation it is given; a pill computed from its "
  "two sphere centres is centred between them with its axis from A to B and gives those centres back; shapes return the dimensions they were built with; null axes are refused.",
  "every axis, however close to a coordinate axis; every pair of centres; every transform", "tests use the coordinate axes, where a skewed base cannot be seen",
  ["src/tools/altransformhelpers.cpp", "src/geometrics/shapes3d_utils.cpp", "src/geometrics/shapes3d.cpp"],
  [("orthogonalSpace", "src/tools/altransformhelpers.cpp: orthogonalSpace"), ("pills", "src/geometrics/shapes3d_utils.cpp"),
   ("shape parameters", "src/geometrics/shapes3d.cpp: constructors and getters")])

P("C27", "Projection of a rotation on an axis",
  "Projecting a rotation or transform on an axis yields a rotation about that axis (or is refused with an exception), keeps the translation, gives the same answer in "
  "all four forms, whatever the length of the axis vector, refuses a null axis, and leaves rotations about the axis itself unchanged.",
  "every axis vector and every matrix; every angle about the axis", "tests project two rotations on the coordinate axes",
  ["src/tools/altransformhelpers.cpp"], [("projection", "src/tools/altransformhelpers.cpp: axisRotationProjection, axisRotationProjectionInPlace")],
  note="Known finding: rotations about axes with three non-zero components are not left unchanged (see known_findings.txt).")

P("C23", "Building a mesh",
  "In any state reachable through the building interface of a mesh: a position, normal or texture coordinate is appended to its own buffer and its index is returned, everything recorded before is kept, "
  "a new normal or texture coordinate becomes the selected one, and selecting by index is refused exactly when nothing has that index; a vertex refers to its position and to the selected normal (and texture "
  "coordinates, when the mesh has them) and is refused exactly when no polygon is open or something it refers to is missing; begin is refused exactly when a polygon is open, end exactly when none is open or "
  "a triangle or quad is incomplete, and closing records one count per polygon: all pending vertices for a polygon, threes for triangles, fours for quads.",
  "all meshes in all reachable states, all coordinates and indices, in any order of calls",
  "tests build a few small meshes in the usual order; an index off by one, a stale selection or a lost count shows only in other orders",
  ["src/scenegraph/mesh.cpp", "almath/scenegraph/mesh.h"],
  [("buffers and indices", "src/scenegraph/mesh.cpp: position, normal, texCoord, vertex"), ("polygons", "src/scenegraph/mesh.cpp: begin, end")],
  over=("inputs", "histories"),
  note="The closing assertion of Mesh::end and the debug assertions on normals are not proved (dropped). ")

P("C24", "Box and rounded box meshes",
  "A box mesh, created alone or added to any mesh on which no polygon is open, keeps what the mesh held and adds exactly the surface of the box: eight corners, six unit outward axis normals, six quads, "
  "each on the face of its normal and counter-clockwise seen from outside. A rounded box mesh is a closed surface, oriented outwards, whose corners lie on the rounded surface with the normal of the surface there, and which has the corners of all six flat faces; "
  "null half extents give pills, discs and balls, a null radius gives the box.",
  "all half extents, every mesh it is added to (box: proved); sampled extents, radii and subdivisions (rounded box: bounded)",
  "tests compare one box; a flipped face or an index that ignores what the mesh already holds is not sampled",
  ["src/scenegraph/meshfactory.cpp", "src/scenegraph/mesh.cpp"],
  [("box", "src/scenegraph/meshfactory.cpp: addBoxMesh, createBoxMesh"), ("rounded box", "src/scenegraph/meshfactory.cpp: addRoundedBoxMesh and its helpers")],
  note="The rounded box is checked by a bounded harness (sampled sizes, 0 to 5 arc vertices), never counted as proved. ")

P("C31", "Inertias of rigid bodies",
  "A point mass adds m (|p|^2 1 - p p^T) to an inertia. Two bodies together have the sum of the masses, the mass-weighted centre, and, in the frame of the first body at that centre, the sum of both inertias rotated there "
  "from their own frames plus the parallel-axis terms of both masses. The inertia read from a URDF inertial is the symmetric matrix of its six entries; its conversion has the mass, the origin as centre of mass and the inertia R I R^T for the rotation R of the origin.",
  "all masses with a non-null sum, positions, angles and inertias (real arithmetic)",
  "tests use one rotation about an axis where R and its transpose give the same inertia; a transposed rotation, a swapped product of inertia or a wrong displacement sign passes them",
  ["almath/scenegraph/urdfeigen.h"],
  [("point mass", "almath/scenegraph/urdfeigen.h: addPointMassInertia"), ("compound", "almath/scenegraph/urdfeigen.h: squashInertial"),
   ("document", "almath/scenegraph/urdfeigen.h: urdfInertialToEigen, toEigenMatrix3")],
  note="The header templates are instantiated by /verif/inst/urdfeigen.cpp with Eigen inlined by clang -O1 (EIGEN_DONT_VECTORIZE); the getters of urdf::Inertial, whose contracts C33 proves, return the values of the document. ")

P("C32", "Poses of URDF documents",
  "The roll, pitch and yaw of a URDF pose denote the rotation Rz(yaw) Ry(pitch) Rx(roll), as a unit quaternion and as a transform which rotates, then translates by xyz. The angles extracted from a rotation matrix denote that rotation, gimbal lock included. "
  "The product of two poses is the pose of the product of their transforms and the inverse of a pose the pose of the inverse transform, also when either has null angles or a null translation.",
  "all positions and angles, every rotation matrix (real arithmetic)",
  "tests compose a few poses with right angles; a wrong multiplication order or a sign in the inverse shows only for two general rotations",
  ["almath/scenegraph/urdfeigen.h", "src/scenegraph/urdf.cpp"],
  [("conversion", "almath/scenegraph/urdfeigen.h: eigenQuaternionFromUrdfRpy, toEigenTransform, urdfRpyFromEigenMatrix3"),
   ("group", "src/scenegraph/urdf.cpp: Pose::inverse, operator*(Pose, Pose)")],
  note="Eigen is verified as inlined by clang -O1 (EIGEN_DONT_VECTORIZE); urdfRpyFromEigenMatrix3 is used through its contract, proved by two lemmas, in the product and the inverse. ")

P("C35", "Conversions to and from Eigen, and the average of transforms",
  "Transforms, positions and velocities converted to Eigen matrices, vectors and transforms and back keep every entry at its place, the argument unchanged. The Eigen quaternion of a rigid transform is a unit and denotes its rotation. "
  "The average of a non-empty range of transforms has the mean of the translations and, unless the quaternions cancel, the rotation of the normalised sum of the quaternions, each taken on the side of the first; an empty range throws.",
  "all entries, all rigid transforms (quaternion), ranges of every length (real arithmetic)",
  "tests average ranges of two or three close transforms; a quaternion compared with its predecessor instead of the first, or a sum divided by the wrong count, is not sampled",
  ["almath/scenegraph/almatheigen.h"],
  [("conversions", "almath/scenegraph/almatheigen.h: toEigen*, toALMath*"), ("average", "almath/scenegraph/almatheigen.h: averageTransforms")],
  note="The header templates are instantiated by /verif/inst/almatheigen.cpp with Eigen inlined by clang -O1 (EIGEN_DONT_VECTORIZE, then reg2mem); the average uses toEigenQuaternion as a function of the transform, which a lemma of its own specifies. ")

P("C36", "Attributes and curves of animation documents",
  "A Bezier interval is accepted exactly when its last frame is after its first, its right tangent is between 0 and its duration, and its left tangent between minus its duration and 0; otherwise std::invalid_argument is thrown. "
  "The curve between two keys starts at the first with its right tangent and ends at the second with its left one. Reading and writing a frame (not negative), a rate (positive), a side, a unit, a value, a tangent or a mute flag uses that attribute "
  "and no other, returns what was written, and throws std::invalid_argument for an invalid value without changing the document; only version 2.0 is accepted.",
  "all frames (not negative), all values (real arithmetic), every text of an attribute, attribute present or absent",
  "tests read a few well-formed documents; a tangent taken from the wrong side, or a bound which accepts or refuses an interval ending exactly at its limit, is not sampled",
  ["almath/scenegraph/qianim.h", "src/scenegraph/qianim.cpp"],
  [("intervals", "almath/scenegraph/qianim.h: Key::check_cubic_bezier, Key::apply_cubic_bezier"),
   ("attributes", "src/scenegraph/qianim.cpp: get_frame, put_frame, get_fps, put_fps, get_side, put_side, get_unit, put_unit, get_mute, put_mute, check_version")],
  note="boost::property_tree (get, put and add of one attribute or element), std::string and Key::get_tangent_optional are assumed contracts (specs/ptreemodel.py). Searching keys, erasing tangents and walking whole documents are outside. ")

P("C33", "Elements of URDF documents and the edits which squash or fix joints",
  "Every reader of a URDF element returns the attribute of that element, or its documented default when it is absent (multiplier 1, offset 0, axis (1,0,0), scale (1,1,1), null origin, a null limit when only the other is given, "
  "no limits, mimic or inertial without an element); a missing mandatory attribute or an unknown joint type throws. The element of a pose holds exactly its non-null parts. Making a joint fixed or floating sets its type and removes its axis. "
  "Squashing the mass of a joint leaves the child without inertial and the parent with the compound of both (mass, inertia and origin), or with the child's inertial where it was when the parent had none. "
  "Changing the root link flips the axis of the joints it turns round and premultiplies the origins of the elements whose frame it moves, and changes nothing else of them.",
  "all numbers (real arithmetic), every joint type text, every attribute and element present or absent",
  "tests read a few complete documents; a default of another attribute, an entry of the inertia written at another name, or an origin left behind when the new one is null is not sampled",
  ["almath/scenegraph/urdf.h", "src/scenegraph/urdf.cpp"],
  [("readers", "src/scenegraph/urdf.cpp: Mimic, Joint, Inertial, Box, Cylinder, Sphere, Mesh, Visual, Link; Pose::from_ptree, to_ptree"),
   ("edits", "src/scenegraph/urdf.cpp: makeJointFixed, makeJointFloating, squashJointMass, flip_joint_axis, premul")],
  note="boost::property_tree (elements and attributes by path), std::string and RobotTree::joint, RobotTree::link are assumed contracts (specs/ptreemodel.py). squashJointMass uses toEigenTransform, urdfRpyFromEigenMatrix3 (C32) and squashInertial (C31) through their contracts, premul the product and inverse of poses (C32). "
  "RobotTree itself (boost::multi_index over list iterators: which joints are turned round, in which order) is outside; the harness explores it within bounds. ")

P("C38", "Kinematics are kept when the root link of a URDF robot changes",
  "define_as_root_link, transport_root_link_frame, rm_root_joint and the removal of massless joints keep the relative poses of every inertial, visual and collision element and the motion each joint allows, for every tree of links.",
  "all kinematic trees and all sequences of edits",
  "tests edit two small robots",
  ["src/scenegraph/urdf.cpp"], [("tree", "src/scenegraph/urdf.cpp: RobotTreeP")], claimed=False,
  reason="RobotTreeP is a boost::multi_index_container of list iterators indexed by strings, edited through functors during traversal: an inductive shape invariant of that container is outside the reach of this VC generator. The per-element steps "
         "(premul, flip_joint_axis, the readers, squashJointMass) are proved in C33; the tree walk itself is only explored within bounds by C33's harness, which is not claimed.")

P("C39", "Keys, labels and curves of animation documents are found and inserted in order",
  "get_key_optional, require_key, require_actuatorcurve, add_label and require_animation find an element iff the document has it, and insert a missing one keeping the frames in increasing order.",
  "all documents", "tests use documents with few keys",
  ["almath/scenegraph/qianim.h", "src/scenegraph/qianim.cpp"], [("search", "src/scenegraph/qianim.cpp: get_key_optional, require_key")], claimed=False,
  reason="the search is std::lower_bound over the iterators of a boost::multi_index_container (the children of a property tree): unbounded ordered containers of strings have no contract in this VC generator; attributes and curves between keys are proved in C36")

P("C40", "Collada and rigid-body-system builders report what the scene describes",
  "Every mesh, node, link and static frame given to a builder appears once in the Collada document or in the calls to the user's builder, with its own pose, mass and names; duplicate or unknown names are refused.",
  "all scenes and all call sequences", "tests build three scenes",
  ["src/scenegraph/colladabuilder.cpp", "src/scenegraph/urdfrigidbodysystemtraverser.cpp", "almath/scenegraph/rigidbodysystembuilder.h"],
  [("builders", "src/scenegraph/colladabuilder.cpp; almath/scenegraph/rigidbodysystembuilder.h: NamesChecker")], claimed=False,
  reason="the observable result is generated text (string streams) and sets of strings behind virtual interfaces; contracts over std::set<std::string> and stream contents are outside this VC generator. The numbers handed over (inertias, poses) are proved in C31, C32 and C33")
