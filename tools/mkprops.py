#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
U='src/scenegraph/urdf.cpp'; UH='almath/scenegraph/urdf.h'; UE='almath/scenegraph/urdfeigen.h'
prop('U01','A robot description is accepted exactly when it describes one tree',
 'Opening a robot description succeeds if and only if it has at least one link, link names and joint names are each unique, every joint names an existing parent and child link, every link but one (the root) is the child of exactly one joint and is reachable from the root, and every joint that mimics another mimics an existing joint without any mimicking cycle. The reported root is that one link, and the "mimic relation is flat" query is true exactly when no mimicked joint itself mimics another. A rejected description raises an exception (it never hangs or crashes) and opening never modifies the document.',
 ['inputs'],'Every document of links and joints: all names, parent/child assignments, declaration orders and mimic relations.',
 'The tests open a dozen hand-written documents; acceptance is a global graph property that depends on declaration order and on combinations of several defects.',
 [U,UH],[('index construction with consistency checks',U+' RobotTreeP::RobotTreeP'),('mimic cycle search',U+' transitively_mimics')],
 [('links/joints index','indexed document elements',U+' RobotTreeP')],['urdf::RobotTree constructor','root_link()','is_mimic_tree_flat()'])
prop('U02','Re-rooting and root-frame changes preserve the physical robot',
 'Choosing another link as root, or moving the frame of the root link, never changes the mechanism described: for every value of the joints, every inertial, visual and collision element keeps its pose relative to all the others, and joint names, types, limits and mimic relations are kept. After choosing a root, that link is the root, exactly the joints between the old and the new root are reversed (parent and child swapped, axis negated) and the frame of the new root is the one it had. If a multi-degree-of-freedom joint lies on the path, or the link does not exist, an exception is raised and the document is unchanged.',
 ['inputs','histories'],'Every robot tree, every joint/inertial/visual/collision pose (including rotations), every link chosen, every sequence of such changes.',
 'The tests check two hand-written trees with pure translations; the claim is over all poses, tree shapes and repeated re-rootings.',
 [U,UH,UE],[('transport_root_link_frame',U),('flip_root_link_joint / flip_joint_axis',U),('define_as_root_link',U)],
 [('root_link','current root',U)],['the document after the call','root_link()'])
prop('U03','Structural edits keep document and index consistent, or change nothing',
 'After any sequence of structural edits (removing the root joint, removing a leaf joint, removing all sub-trees selected by a predicate, re-rooting), a fresh reading of the edited document yields exactly the same root, links, joints, parent/child relations and traversal as the live tree, and the document contains exactly the elements that were not removed. Removing the root joint is refused unless the root has exactly one child joint, removing a leaf joint is refused unless the joint exists and its child link has no child joint; sub-tree removal removes exactly the selected joints and their descendants, with their child links, and returns their names in traversal order. A refused edit raises an exception and leaves document and live tree unchanged.',
 ['histories'],'Every sequence of edits, successful or refused, starting from every robot tree.',
 'Tests run each edit once on one tree; consistency must survive every interleaving of edits and failures.',
 [U,UH],[('rm_root_joint / rm_leaf_joint',U),('removeSubTreeIfJoint',U),('multi-index maintenance',U)],
 [('joints','multi-indexed joint iterators',U),('links','link iterators',U)],['document','link()/joint()/root_link()/traverse_joints()'])
prop('U04','Joint traversal is a complete, prunable, file-ordered depth-first walk',
 'A traversal discovers every joint below the root exactly once, parent joints before child joints, and finishes each joint after all joints of its sub-tree; the joints leaving one link are visited in the order in which the document lists them, also after re-rooting or removals. When a visitor answers false on discovering a joint, nothing below that joint is visited, that joint is still finished and its siblings are visited normally. The dot export prints one edge line per joint, in discovery order.',
 ['inputs','histories'],'Every tree shape, document order, pruning choice and prior edit history.',
 'Tests traverse two small trees; order after edits depends on the index internals.',
 [U,UH],[('walk_joint',U),('UrdfDotPrinterVisitor',U)],[],['JointConstVisitor / JointVisitor callbacks','dot output'])
prop('U05','Squashing fixed-joint masses conserves mass, centre of mass and inertia',
 'Merging the mass of fixed-joint children into their parents, for one joint or for all fixed joints, preserves the total mass, the centre of mass and the inertia tensor of each rigid group and hence of the whole robot in every posture, and leaves the child without inertial element. Only links on either side of a fixed joint (or of the joint named) change, and a child without inertial element changes nothing. Replacing massless mobile joints converts to fixed exactly the non-fixed joints whose child link carries no mass once the fixed-joint masses below it have been merged, and returns their names in the order the walk finishes them.',
 ['inputs'],'Every tree, mix of fixed and mobile joints, presence or absence of inertial elements, masses, inertial poses with arbitrary rotations and offsets, and inertia matrices.',
 'Tests use aligned frames (no rotation between inertial frames); the conservation law is over all rotations and tree shapes.',
 [U,UE],[('squashJointMass',U),('squashInertial / addPointMassInertia',UE),('MakeMasslessJointsFixedVisitor',U)],[],['inertial elements of the document','returned names'])
prop('U06','URDF poses form a group and survive their text form exactly',
 'Composing and inverting poses given as translation and roll-pitch-yaw agrees with composing and inverting the rigid transforms they denote, including gimbal-lock angles; pure translations are handled without any rounding of angles. Writing a pose (or any vector of three finite numbers) to the document and reading it back gives bit-identical numbers; an all-zero triple is written as absent and an absent element or attribute reads as zero. The text of a pose or vector is accepted if and only if it is exactly three numbers separated by blanks; otherwise reading it is refused.',
 ['inputs'],'Every finite translation and roll-pitch-yaw, every text of three, fewer, more or malformed numbers.',
 'Tests sample a few angles; both the algebra and the exact text round trip are claims over all doubles.',
 [U,UH,UE],[('Pose::inverse, operator*',U),('Array3dTranslator',U),('max_digits10 stream customisation',UH)],[],['Pose','from_ptree/to_ptree'])
prop('U07','URDF elements read with their documented defaults; rewriting is targeted',
 'Reading joints, links, inertials, visuals, geometries and mimics returns the written values, the documented defaults for optional parts (identity origin, x axis, unit multiplier, zero offset, unit scale, zero for the missing half of a limit pair) and an exception for missing mandatory parts or unknown joint types. Making a joint fixed or floating, making all continuous joints fixed, renaming, and rewriting the file names of textures and of visual and collision meshes change exactly the named attributes and nothing else in the document, and report the joints they changed in traversal order.',
 ['inputs'],'Every combination of present and absent optional parts, joint types, and documents with any number of meshes and textures.',
 'Tests check single elements; the frame condition (nothing else changes) and the combinations are not tested.',
 [U,UH],[('accessor classes',U),('makeJointFixed/makeJointFloating/makeContinuousJointsFixed',U),('transform_filenames',U)],[],['accessor results','document'])
prop('B01','A rigid-body builder receives a well-formed, complete description',
 'Translating a robot description into builder calls emits the root as a free body, every mobile joint as one body and every fixed joint as one static frame, each exactly once, after its parent, in traversal order, with the joint kind, placement, name, and the mass, centre of mass and inertia (expressed in the body frame) of its link after fixed-joint masses were merged; a massless root that carries only mobile joints emits nothing, and unsupported joint types or axes raise an exception. The name-checking builder forwards a request if and only if its parent is known (for a body, as a body) and its names are new, raising otherwise without forwarding, and a request refused here or by the builder behind leaves no trace; the inertia-erasing and scalar-converting builders change only what they are named for.',
 ['inputs','histories'],'Every robot tree with every mix of joint types, axes, masses; every sequence of builder requests.',
 'Tests use one- or two-joint robots; ordering, naming and completeness are claims over all trees and request histories.',
 ['src/scenegraph/urdfrigidbodysystemtraverser.cpp','almath/scenegraph/rigidbodysystembuilder.h','almath/scenegraph/bodymass.h',UE],
 [('UrdfRigidBodySystemTraverser',"src/scenegraph/urdfrigidbodysystemtraverser.cpp"),('NamesChecker, Adapter, InertiaEraser','almath/scenegraph/rigidbodysystembuilder.h')],
 [('known names','bodies, joints, static frames seen so far','almath/scenegraph/rigidbodysystembuilder.h NamesChecker')],['addLink/addStaticFrame calls'])
Q='src/scenegraph/qianim.cpp'; QH='almath/scenegraph/qianim.h'
prop('Q01','Animation keys and labels stay sorted, unique and findable under any edits',
 'Whatever the order in which keys are requested and attributes, comments or other elements are added to a curve, its keys stay sorted by strictly increasing frame, requesting a key returns the existing one when that frame is present and otherwise inserts one, and looking a frame up finds it exactly when it is present. Labels stay sorted by frame and labels with equal frames stay in insertion order. Requesting an actuator curve, a tangent or the animation itself returns the existing element or adds exactly one; erasing tangents of one side removes exactly those, and no operation disturbs unrelated elements. Listing the keys, labels, curves or label groups of an element gives exactly its children of that kind, in document order.',
 ['histories'],'Every sequence of edits of an animation document, including documents with attributes and comments anywhere among the children.',
 'Tests insert a few keys into freshly made curves; the invariant must hold after every edit history and for every interleaving with other children.',
 [Q,QH],[('require_key / get_key_optional (ordered search)',Q),('add_label',Q),('require_tangent, erase_tangent, require_actuatorcurve, require_animation',Q)],
 [('document','property tree of the animation',Q)],['get_keys, get_labels, get_key_optional, document'])
prop('Q02','Animation fields read back what was written and invalid curves are refused',
 'Every field (frame, value, tangent abscissa, ordinate and side, actuator, fps, mute, unit, version) reads back exactly the value written; negative frames, non-positive rates, unknown sides, units or versions and missing mandatory fields are refused with an exception and a refused write changes nothing. Validation of a curve or of a whole animation succeeds if and only if all mandatory fields are valid and every pair of consecutive keys has strictly increasing frames, a right tangent on the first with abscissa between zero and the interval length, and a left tangent on the second with abscissa between minus the interval length and zero. Walking the arcs of a valid curve hands over, for each pair of consecutive keys in order, exactly the frames, values and tangents written.',
 ['inputs'],'All field values, and all curves up to any number of keys with any combination of tangents and abscissae including the bounds.',
 'Tests try one wrong curve per error; acceptance is an if-and-only-if over all combinations and boundary values.',
 [Q,QH],[('field accessors',Q),('check_cubic_bezier, apply_cubic_bezier, check_all',QH)],[],['accessors','exceptions of check functions'])
M='src/scenegraph/mesh.cpp'
prop('M01','Mesh assembly obeys its begin/vertex/end protocol',
 'Building a mesh follows a strict protocol: groups cannot be nested, vertices can only be added inside a group and after a normal has been given, on a mesh with texture coordinates a current texture coordinate is needed too, a triangle (quad) group ends only with a multiple of three (four) vertices and an empty group adds no face. Every accepted vertex is recorded with the position, normal and texture coordinate current at that moment, and a refused call raises an exception and does not add a vertex, open or close a group.',
 ['histories'],'Every sequence of mesh-building calls, legal or not.',
 'Tests run about eight call sequences; the protocol is a claim on all call histories.',
 [M,'almath/scenegraph/mesh.h'],[('protocol checks in begin/vertex/end',M)],
 [('indices, groups, current attributes','mesh under construction','almath/scenegraph/mesh.h')],['accessors and exceptions'])
prop('M02','Generated boxes are closed, outward-oriented surfaces of the right size',
 'A generated box or rounded box is a closed oriented surface (repeated corners of a face counted once): every edge is shared by exactly two faces that run along it in opposite directions, and it has the topology of a sphere. Every vertex lies on the surface of the box (respectively within the rounding radius of the inner box) with extents equal to the requested dimensions, faces are oriented outward and every normal is a unit vector pointing outward and consistent with its faces. A rounded surface is as fine as was asked: with n vertices per arc, it turns by no more than a quarter turn over n + 1 along any edge, and not at all between two rounded corners of the box. Generating into a mesh that already holds something leaves what was there as it was.',
 ['configurations'],'All dimensions, radii and resolutions of the mesh factory.',
 'The tests only write one scene and check nothing geometric; closure and orientation are global properties for every resolution.',
 ['src/scenegraph/meshfactory.cpp','almath/scenegraph/meshfactory.h'],[('createBoxMesh / createRoundedBoxMesh','src/scenegraph/meshfactory.cpp')],[],['mesh accessors'])
prop('M03','Exported scenes are referentially intact and carry the geometry exactly',
 'In an exported scene every identifier is unique, every internal reference resolves to an element of the right kind, and declared counts match the data actually present. Each added mesh is exported with its positions and normals (to six significant digits) and exactly its face sizes and index tuples in order, whatever their magnitude; each added node carries the given transform and material of its geometry, and copies of a scene builder evolve independently. Adding a mesh with texture coordinates, or a shape that has no mesh, is refused with an exception and changes nothing.',
 ['histories','inputs'],'Every sequence of meshes, transforms and shapes added, and every copy made in between.',
 'The tests print a scene and check almost nothing; integrity must hold for every mesh and every add history.',
 ['src/scenegraph/colladabuilder.cpp','src/scenegraph/scenebuilder.cpp','src/scenegraph/colladascenebuilder.cpp','almath/scenegraph/colladabuilder.h'],
 [('ColladaBuilder','src/scenegraph/colladabuilder.cpp'),('SceneBuilder, ColladaSceneBuilder','src/scenegraph/scenebuilder.cpp')],[],['the exported document'])
prop('D01','The digital filter computes its difference equation over any history',
 'A filter just configured or reset outputs its input unchanged until it holds as many inputs (this one included) and as many past outputs as it has weights for them, and from then on outputs the weighted sum of the most recent inputs (each divided by the static gain) and most recent outputs, the last weight applying to the most recent sample. Outputs depend only on the inputs since the last reset: a reset makes the filter indistinguishable from a freshly configured one (a filter in use is to be reset when it is configured anew). A filter that was never configured passes its input through unchanged.',
 ['histories'],'Every weight vector, static gain and input sequence with resets and reconfigurations at any point.',
 'Tests run two fixed filters on one sequence; the recurrence is a claim about every history, including resets in the warm-up phase.',
 ['src/dsp/digitalfilter.cpp','almath/dsp/digitalfilter.h'],[('circular buffers','src/dsp/digitalfilter.cpp processFilter')],
 [('fFilterBufferIn/Out','past samples','almath/dsp/digitalfilter.h')],['processFilter'])
prop('D02','The PID controller computes its control law over any history',
 'The controller output is the static offset plus proportional, derivative and integral terms of the error reduced by the dead-zone threshold, where the derivative is zero on the first step after initialisation and otherwise the change of reduced error over the sample period, and the integral accumulates reduced error times period since the last initialisation; the absolute form takes a magnitude and uses the magnitude of the change. A period passed with a step is used for that step, otherwise the configured one. Negative gains, threshold or offset and non-positive periods are refused with an exception and change nothing, and re-initialisation makes the controller indistinguishable from a new one.',
 ['histories'],'Every parameter set and every sequence of steps, gain changes and re-initialisations.',
 'The tests only construct controllers; no output value is tested.',
 ['src/dsp/pidcontroller.cpp','almath/dsp/pidcontroller.h'],[('computeFeedback, computeFeedbackAbsolute, initialize, setGains','src/dsp/pidcontroller.cpp')],
 [('fErr, fiErr, fFirstIteration','controller memory','almath/dsp/pidcontroller.h')],['computeFeedback return values, exceptions'])
TH='src/tools/altransformhelpers.cpp'
prop('T01','Rigid-motion types obey the group laws and act consistently on points',
 'For rigid transforms, rotation matrices, unit quaternions, displacements and planar poses, composition is associative, identity and inverse behave as in a group, composing then acting on a point equals acting twice, and the difference of two elements composed with the first gives the second. In-place, compound-assignment, free-function and operator forms of the same operation give the same result, also when the result overwrites an operand. Determinants, norms and distances of these types agree with their definitions.',
 ['inputs'],'All rigid transforms, rotations, quaternions, planar poses and points; all operand aliasing patterns.',
 'Tests check single numeric examples; sign or index errors can cancel for aligned or symmetric inputs.',
 ['src/types/altransform.cpp','src/types/alrotation.cpp','src/types/alquaternion.cpp','src/types/alpose2d.cpp',TH],
 [('operators, inverse, diff, pInverse, norm','src/types/*.cpp'),('transformInverse, transformPreMultiply…',TH)],[],['returned values'])
prop('T02','Conversions between representations of a motion agree with each other',
 'Converting between rotation matrix, transform, quaternion, axis-angle, roll-pitch-yaw, planar pose, six-dimensional position and the Eigen and qi::geometry types never changes the motion denoted, for both single-axis and composite constructors and also at gimbal lock and half-turns; converting there and back returns the same element up to the usual sign and angle conventions. Converting to a smaller representation keeps exactly the components that representation has. Rotations built from axes are right-handed with those axes as columns.',
 ['inputs'],'All rotations and positions, including singular configurations.',
 'Tests sample mild angles; the hard cases (half-turns, gimbal lock, negative scalar part) and the pairwise agreement are universal claims.',
 [TH,'src/types/alquaternion.cpp','src/types/alrotation.cpp','src/types/alrotation3d.cpp'],
 [('transformFrom*/position6DFrom*/quaternionFrom*/rotationFrom*/…',TH)],[],['returned values'])
prop('T03','Exponential, logarithm, interpolation and averaging of motions are coherent',
 'The logarithm of a transform whose rotation angle is away from a half-turn, once exponentiated, gives the transform back, and it is the twist (translation and rotation axis times angle) of that motion; integrating a zero velocity is the identity. Interpolating between two transforms yields the first at zero, the second at one and moves at constant rate along a single screw motion in between. Ratios outside zero to one are refused. Averaging transforms less than a half-turn apart returns the common value when all agree, the middle one (with the mean position) when they lie symmetrically about it, and does not depend on their order; averaging none is refused. The first-order difference of two transforms is the difference of their positions and the axis times the sine of the angle from one to the other.',
 ['inputs'],'All transforms with rotation angle away from a half-turn, all velocities of rotation below a half-turn, all ratios.',
 'Tests sample a handful of transforms; coherence is an identity over the whole group.',
 [TH,'almath/scenegraph/almatheigen.h'],[('transformLogarithm / velocityExponential / transformMean / averages',TH)],[],['returned values'])
prop('T04','Vector-like types obey vector-space laws component by component',
 'For all position, velocity, rotation-angle and planar pose types, addition, subtraction, negation, scaling and division act component by component with all their components, compound-assignment forms equal the plain forms, and comparison is exact equality of all components. Division by zero is refused with an exception and leaves the operand unchanged; dot and cross products, norms, distances and normalisation agree with their definitions (for a planar pose they concern its position, and the distance of six-component positions is that of their positions), and near-equality holds exactly when every component differs by at most the tolerance (a quaternion and its opposite are near each other).',
 ['inputs'],'All component values, operand orders, aliasing and tolerances.',
 'Tests use one example per operator, often with equal components, so swapped or missed components pass.',
 ['src/types/alposition2d.cpp','src/types/alposition3d.cpp','src/types/alposition6d.cpp','src/types/alvelocity3d.cpp','src/types/alvelocity6d.cpp','src/types/alpose2d.cpp','src/types/alrotation3d.cpp'],
 [('operators','src/types/*.cpp')],[],['returned values, exceptions'])
prop('T05','Frame changes and projections move vectors between frames correctly',
 'Changing the reference of a velocity, position or transform rotates its vector parts (for transforms, both its rotation and its position; for planar poses the position only, by the angle given) by the rotation of the frame, wherever the frame stands; the transposed form undoes it, and the in-place and returning forms agree, also when the result overwrites an operand. Projecting a rotation or transform on an axis is refused for a null axis and otherwise yields a rotation that leaves the axis fixed and the position untouched; about a coordinate axis it is never refused and is never the farther of two opposite rotations, and a rotation that already leaves the axis fixed is returned unchanged. A frame built on a direction is orthonormal and right-handed with that direction as third axis; a null direction is refused.',
 ['inputs'],'All transforms, velocities, positions, axes.',
 'Tests use a few right angles; transposition errors are invisible for symmetric cases.',
 [TH,'src/tools/almath.cpp'],[('changeReference*',TH),('axisRotationProjection, orthogonalSpace',TH)],[],['returned values'])
prop('T06','Angle and interval helpers keep values in range without changing the angle',
 'Reducing an angle modulo a full turn returns the same direction in the range from half a turn below zero (excluded) to half a turn above (included), for any magnitude, and leaves angles already in that range unchanged. The mean of angles is the direction of the sum of their unit vectors, weighted by the weights if given, whatever the scale of the weights; it is refused when there are no angles, the numbers of angles and weights differ, a weight is not positive, or that sum is null. Clipping a number, a list or a list of lists returns each value itself when inside the bounds and the nearest bound otherwise, and reports whether it changed anything.',
 ['inputs'],'All finite angles, weights, intervals.',
 'Tests sample a few angles; boundaries and large magnitudes are untested.',
 ['src/tools/almath.cpp','almath/tools/altrigonometry.h'],[('modulo2PI, meanAngle, weightedMeanAngle, clipData','src/tools/almath.cpp')],[],['returned values'])
prop('T07','Map pixel and metric coordinates convert back and forth consistently',
 'For every map size, resolution and origin, converting pixel coordinates to metric coordinates and back returns the pixel, and a metric position converts to the pixel nearest to it (half-way, the one farther from pixel zero), whatever its orientation; one pixel step moves one resolution along the corresponding axis with the vertical image axis reversed, the position of pixel zero is the metric origin, and the metric centre given (at construction or later) lies in the middle between pixel zero and the pixel (size, size), also for odd sizes. Differences convert without the origin. Orientations pass unchanged, and parameters given at construction, or the default threshold of a quarter, are reported unchanged.',
 ['configurations','inputs'],'All sizes, resolutions, origins and pixel coordinates.',
 'Tests use two maps and a handful of pixels.',
 ['src/types/occupancymapparams.cpp','almath/types/occupancymapparams.h'],[('positionFromPixel / pixelFromPosition …','src/types/occupancymapparams.cpp')],[],['returned values'])
prop('T08','Values survive serialisation, and axis masks select exactly their axes',
 'For every geometric type, writing it to a list of numbers and constructing it back yields the same value with components in the documented order (rotations are also read from the 12 or 16 numbers of a transform), a list of the wrong length yields the value of the default constructor, and writing at a place in a list fills exactly its components and moves the place past them. Axis masks have exactly the bits of their named axes. The printed text of a value, also of one of qi::geometry, lists all of its components in order. Six-component velocities and three-component positions pass through their Eigen forms unchanged.',
 ['inputs'],'All types and component values, all list lengths.',
 'Tests use few values and symmetric components, so permutations go unnoticed.',
 ['src/types/alposition6d.cpp','src/types/altransform.cpp','src/types/alaxismask.cpp','src/tools/almathio.cpp'],
 [('toVector/writeToVector/vector constructors','src/types/*.cpp'),('operator<<','src/tools/almathio.cpp')],[],['vectors, text'])
prop('C01','Foot placement never ends in collision when it is adjusted',
 'Two convex foot boxes, given clockwise, are reported in collision if they overlap and not if they are apart, whichever of the two is given first (boxes that merely touch may be reported either way); testing does not change them, and placing a box places each of its corners in order. Two segments that properly cross are found to intersect, at their crossing point, and parallel or disjoint ones are not. When a step would make the moving foot collide with the support foot, only its orientation is changed, to zero or to one between zero and the requested angle at which the boxes do not collide and which is at most a thirty-second of the requested angle short of a colliding one, and the collision is reported; a step without collision is left untouched and none is reported. Clipping a step to the reach ellipse, whatever the signs of its half axes, leaves steps inside untouched and otherwise moves it along its direction onto the ellipse, keeping its orientation, and reports which happened.',
 ['inputs'],'All clockwise convex boxes, moves, support sides, ellipses.',
 'Tests use one foot shape and a few moves; overlap is a geometric predicate over all relative placements.',
 ['src/tools/avoidfootcollision.cpp','almath/tools/avoidfootcollision.h'],[('areTwoBoxesInCollision, dichotomie, avoidFootCollision, clipFootWithEllipse','src/tools/avoidfootcollision.cpp')],[],['returned values'])
prop('C02','Planned arc-line-arc paths join start to target smoothly',
 'For every reachable target (at a distance of four radii or more) the planned path has three checkpoints, the last being the target itself, such that a turn of the given radius from the origin to the first, a straight segment from the first to the second, and a turn of the given radius from the second to the target join with continuous heading (up to whole turns, also when the straight segment is null), and its straight part is the shortest among the four combinations of left and right turns. Nearer targets are refused with an exception.',
 ['inputs'],'All target poses and radii.',
 'Three target poses are tested; tangent selection has four branches and heading conventions depending on quadrant.',
 ['src/tools/aldubinscurve.cpp','almath/tools/aldubinscurve.h'],[('getDubinsSolutions','src/tools/aldubinscurve.cpp')],[],['returned checkpoints'])
prop('S01','Shapes and visitors describe the intended solids; pills span their ends',
 'Each solid reports the dimensions it was built with and dispatches a visitor exactly once to the callback of its own kind; the default visitor refuses every kind with its message. The pill spanning two distinct points has as half-length half their distance and a right-handed orthonormal placement centred at their midpoint, such that the two end centres computed back from half-length and placement are the two given points, in any direction.',
 ['inputs'],'All dimensions and pairs of distinct end points.',
 'Tests cover the three axis-aligned directions only.',
 ['src/geometrics/shapes3d.cpp','src/geometrics/shapes3d_utils.cpp','almath/geometrics/shapes3d.h'],[('accept methods','src/geometrics/shapes3d.cpp'),('computePillParameters, getSphereCentersFromPill','src/geometrics/shapes3d_utils.cpp')],[],['returned values, callbacks'])
prop('U08','Inertial values combine like the matter they stand for',
 'Combining two bodies, each given by mass, placement and inertia about its centre, yields the body of the same total matter: total mass, centre of mass, and inertia about it expressed in the basis of the first, whatever the placements and in whatever order and grouping bodies are combined, leaving the operands untouched and not depending on what the results held before. The inertia of a point mass about the origin, returned or added to an inertia, is that of its definition, and an inertial element reads as its mass, its centre and its inertia turned into the basis of the parent frame. Roll-pitch-yaw angles and rotations convert both ways without changing the rotation, also at gimbal lock.',
 ['inputs','histories'],'All masses, placements, inertias, and orders of combination.',
 'Tests combine two bodies with few placements; conservation is a law over all placements and over all orders of combination.',
 [UE,'src/tools/almath.cpp'],[('squashInertial, addPointMassInertia',UE),('urdfInertialToEigen, eigenQuaternionFromUrdfRpy, urdfRpyFromEigenMatrix3, toEigenTransform',UE),('pointMassRotationalInertia','src/tools/almath.cpp')],[],['returned masses, placements and matrices'])
prop('R01','Durations become valid ROS times, clipped at the limits, and convert back',
 'A duration since the epoch converts to the ROS time of the same number of nanoseconds when that is at least one nanosecond and at most the largest ROS time, and otherwise to the nearest of these two limits, so that the result is never "not a time" and the conversion keeps the order of durations; every ROS time converts back to the duration of the same number of nanoseconds, and converting a ROS time there and back returns it.',
 ['inputs'],'All signed 64-bit durations and all ROS times.',
 'There is no test (the header needs libraries absent from the build); overflow and sign handling are claims over the full 64-bit range.',
 ['almath/scenegraph/qirostime.h'],[('toValidRosTime, toQiDuration','almath/scenegraph/qirostime.h')],[],['returned values'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        n=p['statement'].count('. ')+1
        f.write(json.dumps(p)+'\n')
print(len(P))
