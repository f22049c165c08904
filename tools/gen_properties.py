#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

S = "src/pytorch_kinematics/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Forward kinematics is the product of offsets and joint motions along the tree",
     "For every robot tree (any branching, depth, link order, mix of fixed, revolute and prismatic joints) and every joint configuration, the pose returned for a frame is the ordered product, from the root down to that frame, of each frame's static offsets followed by its joint motion: rotation by the joint value about the unit axis for revolute joints, translation by the joint value along the unit axis for prismatic joints, identity for fixed joints. "
     "Every frame of the tree gets exactly one pose, every pose is a rigid transform (orthonormal rotation, determinant +1, last row 0 0 0 1), and turning a revolute joint by a full turn changes nothing. "
     "This holds for every batch size and for single as well as double precision.",
     ["inputs", "configurations"], "all kinematic trees, all joint values, all batch sizes, both float precisions",
     "Tests evaluate a handful of fixed robots at a few joint vectors; branching order, prismatic/revolute mixes, interleaved fixed frames and deep trees are combinatorial.",
     ["chain.py", "frame.py", "transforms/rotation_conversions.py"],
     [("level-by-level accumulation of world poses", "chain.py::_fk_impl"), ("flattening of the tree into index tables", "chain.py::Chain.__init__"), ("joint motion matrices", "transforms/rotation_conversions.py::axis_and_angle_to_matrix_44, axis_and_d_to_pris_matrix"), ("per-frame transform", "frame.py::Frame.get_transform")],
     ["pose of every frame returned by forward kinematics"])

prop("C02", "All ways of passing joint values and selecting frames give the same poses",
     "For a given configuration, forward kinematics gives the same pose of a frame whether the joint values are passed as a mapping from joint name to value (in any order, scalar or batched, numbers, numpy arrays or tensors), a list, a numpy array or a tensor, single or batched, on a whole tree or on a serial chain, and whether all frames or any subset of frames (in any order, with repeats) is requested. "
     "Values in an ordered input belong to the joints in the order in which the robot reports its joint names. "
     "Repeated calls, interleaved with any other queries, return the same poses.",
     ["inputs", "histories"], "all input container types, name orders, batch shapes, frame subsets and call orders",
     "Tests use one or two container forms on fixed robots; equality across forms is a relation over all inputs.",
     ["chain.py"],
     [("input conversion", "chain.py::Chain.ensure_tensor"), ("serial input conversion", "chain.py::SerialChain.convert_serial_inputs_to_chain_inputs"), ("frame selection", "chain.py::Chain.forward_kinematics, get_frame_indices")],
     ["returned pose dictionaries", "order of reported joint names"])

prop("C03", "Every batch element is computed independently of its batch",
     "The pose, Jacobian and gradient computed for one configuration do not depend on which other configurations are in the batch, on their order, on the batch size, or on the memory layout of the input: evaluating a batch equals evaluating its rows one at a time, permuting the batch permutes the result, and splitting or duplicating rows changes nothing.",
     ["inputs"], "all batches, permutations, splits and memory layouts (strided, transposed, expanded)",
     "A test can compare one batch with its rows; the claim covers every robot, batch composition and layout.",
     ["chain.py", "transforms/rotation_conversions.py"],
     [("batched kernels", "chain.py::_fk_impl, SerialChain.jacobian_tensor, _FKAnalyticalBackward.backward")],
     ["poses, Jacobians, gradients"])

prop("C04", "Gradients of forward kinematics are the true derivatives",
     "For every robot tree, configuration and differentiable scalar function of any subset of the returned poses (positions and orientations of any frames, any batch size), the gradient with respect to the joint values obtained through the default fast backward equals the one obtained by ordinary automatic differentiation and by numerical differentiation. "
     "With the fast backward switched off, second derivatives, and derivatives with respect to the fixed offsets that a robot was built with, are available and correct.",
     ["inputs"], "all trees, configurations, losses over any frames, batches",
     "Tests compare two gradient paths for one arm and one loss; correctness must hold for branching trees, prismatic joints, joints not affecting a loss, and arbitrary upstream gradients.",
     ["chain.py"],
     [("analytical backward", "chain.py::_FKAnalyticalBackward.backward"), ("ancestor mask", "chain.py::Chain.__init__ (_dof_ancestor_mask)"), ("path selection", "chain.py::Chain.forward_kinematics_tensor")],
     ["gradient of joint values"])

prop("C05", "The Jacobian maps joint rates to the end-effector twist in the base frame",
     "For every serial chain and configuration, the first three rows of the Jacobian are the derivative of the end-effector position and the last three rows are the angular-velocity derivative of its orientation, both expressed in the base frame, with one column per movable joint in reported joint order. "
     "With a tool offset (one for all configurations, one per configuration, or a full rigid transform) both refer to the tool point, and the optionally returned pose is the pose of the end effector or tool from forward kinematics. "
     "Precomputed poses and every accepted input form give the same result.",
     ["inputs"], "all serial chains, configurations, tool offsets, input forms, batch sizes",
     "Tests check three robots at sampled configurations; the derivative relation must hold for every chain geometry, joint type order and tool offset.",
     ["chain.py", "jacobian.py"],
     [("geometric Jacobian", "chain.py::SerialChain.jacobian_tensor"), ("tool correction", "chain.py::SerialChain.jacobian"), ("functional entry point", "jacobian.py::calc_jacobian")],
     ["Jacobian matrix", "returned end-effector pose"])

prop("C06", "Jacobians and returned end-effector poses are correctly differentiable",
     "Differentiating any scalar function of the Jacobian, or of the end-effector or tool pose returned with it, with respect to the joint values (and tool offset) gives the true derivative, for every serial chain, configuration and batch.",
     ["inputs"], "all serial chains, configurations, scalar functions of the Jacobian and pose",
     "One existing test compares one robot's gradients to precomputed ones; the claim is for all chains and losses.",
     ["chain.py"],
     [("Jacobian built from poses", "chain.py::SerialChain.jacobian_tensor, SerialChain.jacobian"), ("analytical backward", "chain.py::_FKAnalyticalBackward")],
     ["gradient of joint values"])

prop("C07", "A serial chain reproduces the kinematics between its two frames",
     "Extracting the serial chain between any frame and any of its descendants gives a chain whose movable joints are exactly those strictly below the root frame on the path, in path order, with their original limits, and whose frame poses equal the full robot's poses relative to the root frame for every configuration. "
     "Extraction leaves the source robot unchanged, keeps its numeric precision unless another is requested, and repeated or nested extraction agrees.",
     ["inputs", "programs"], "all trees, all ancestor/descendant frame pairs, all configurations, nested extractions",
     "Tests extract a few chains from shipped robots; correctness for roots with movable joints, branching, fixed frames in between and nested extraction is combinatorial.",
     ["chain.py", "urdf.py", "sdf.py", "mjcf.py"],
     [("extraction", "chain.py::SerialChain.__init__"), ("serial builders", "urdf.py::build_serial_chain_from_urdf"), ("serial builders", "sdf.py::build_serial_chain_from_sdf"), ("serial builders", "mjcf.py::build_serial_chain_from_mjcf")],
     ["poses, joint names and limits of the extracted chain and of its source"])

prop("C08", "A robot built from URDF means what the URDF says",
     "For every valid URDF, the built robot has one frame per link and one joint per joint element, with the declared parent/child topology, joint types, names, normalised axes and limits, and its poses equal those given by the joint origins (xyz translation, then fixed-axis roll-pitch-yaw rotation, then joint motion). "
     "The result does not depend on the order of elements in the document, on omitted optional elements (which take their defaults) or on unrelated elements, and a robot with a single link is a robot. "
     "A continuous joint has no position limits.",
     ["inputs"], "all valid URDF documents",
     "Tests parse a few files; element order, omitted elements, extreme angles and topologies are unbounded.",
     ["urdf.py", "urdf_parser_py/urdf.py", "urdf_parser_py/xml_reflection/core.py", "frame.py"],
     [("tree construction and root search", "urdf.py::build_chain_from_urdf, _build_chain_recurse"), ("origin conversion", "urdf.py::_convert_transform"), ("XML reflection", "urdf_parser_py/xml_reflection/core.py")],
     ["poses, names, limits of the built robot"])

prop("C09", "A robot built from SDF means what the SDF says",
     "For every SDF model whose link poses are given in the model frame and whose joints sit at their child link, the built robot has at zero joint values every link at its declared pose (xyz translation and fixed-axis roll-pitch-yaw rotation), and moving a joint moves exactly its descendants about or along the declared axis in the child frame. "
     "Names, joint types and limits (absent bounds being infinite) are preserved, independently of element order.",
     ["inputs"], "all SDF models of that class",
     "Tests load one SDF file whose link orientations are all zero.",
     ["sdf.py", "urdf_parser_py/sdf.py"],
     [("pose conversion and relative offsets", "sdf.py::_convert_transform, _build_chain_recurse"), ("root search", "sdf.py::build_chain_from_sdf")],
     ["poses, names, limits of the built robot"])

prop("C10", "A robot built from MJCF agrees with the MuJoCo engine",
     "For every MJCF model made of bodies with at most one hinge or slide joint at the body origin, plus sites, the built robot's pose of every body and site equals the one the MuJoCo engine computes for the same joint positions. "
     "Joint limits are the model's ranges for limited joints and absent for unlimited joints, names are preserved, unnamed bodies, joints and sites remain distinct, and restricting the robot to a sub-body gives the same poses relative to that body.",
     ["inputs"], "all MJCF models of that class, all joint positions",
     "Tests only check that three files load and one pose; the engine offers an independent oracle for every generated model.",
     ["mjcf.py"],
     [("recursive body conversion", "mjcf.py::_build_chain_recurse"), ("root selection", "mjcf.py::build_chain_from_mjcf")],
     ["poses, names, limits of the built robot"])

prop("C11", "Joint limits are reported and enforced in joint order",
     "Position, velocity and effort limits are reported as lower and upper vectors in the order of the reported joint names, minus/plus infinity standing for an absent limit, velocity and effort limits being symmetric, and the same bounds are available as tensors of the robot's precision. "
     "Clamping a configuration, in any accepted form and batch shape, returns the nearest configuration within the position limits, is idempotent, and leaves values within limits exactly unchanged.",
     ["inputs", "configurations"], "all robots, limit combinations (absent, one-sided, degenerate), configurations and input forms",
     "Tests read the limits of two files; order and infinity handling across trees and clamping for all inputs is unbounded.",
     ["chain.py", "urdf.py", "frame.py"],
     [("limit collection", "chain.py::Chain._get_joint_limits"), ("clamp", "chain.py::Chain.clamp"), ("per-joint clamp", "frame.py::Joint.clamp")],
     ["reported limits, clamped configurations"])

prop("C12", "Structural queries describe one consistent tree",
     "For every robot, the listings of frames, links and joints (with and without fixed ones), parent-frame names, child-link sets of each joint, lookup by name, frame numbering, and the printed tree all describe the same tree: each listing contains exactly the elements of the tree once, in the same order (parents before children, the k-th frame belonging to the k-th joint), name lookups return the element with that name or nothing, frame numbering is a bijection, and the child links of a joint are exactly the links it moves. "
     "The answers do not depend on previous queries or on what callers do with previously returned lists.",
     ["configurations", "histories"], "all trees and query sequences",
     "Tests use a few queries on fixed robots; consistency between queries over all trees and call histories is not sampled.",
     ["chain.py", "frame.py"],
     [("recursive listings", "chain.py::Chain.get_joints, get_frame_names, get_link_names, get_joint_parent_frame_names, get_joints_and_child_links"), ("lookups", "chain.py::Chain.find_frame, find_link, find_joint"), ("numbering", "chain.py::Chain.get_frame_indices"), ("printing", "frame.py::Frame.__str__")],
     ["query results"])

prop("C13", "Any history of moves, copies and queries leaves a robot's behaviour unchanged",
     "After any sequence of precision changes, repeated moves, deep copies, serialisation round trips, clamping, forward-kinematics, Jacobian, gradient and structural queries, a robot still gives the poses, Jacobians, joint order and limits of a freshly built one (up to the precision in force), all results have the requested precision, and copies do not influence their originals.",
     ["histories"], "all sequences of public operations on a robot and its copies",
     "Tests apply one move after construction; stale cached tables only show after particular sequences.",
     ["chain.py", "frame.py"],
     [("move", "chain.py::Chain.to, SerialChain.to"), ("move of the tree", "frame.py::Frame.to, Joint.to, Link.to"), ("caches", "chain.py::Chain.get_frame_indices, get_joint_parameter_names")],
     ["poses, Jacobians, dtypes, limits"],
     [("precomputed tables", "flattened tree used by the kernels", "chain.py::Chain.__init__"), ("query caches", "memoised listings", "chain.py::Chain")])

prop("C14", "Transforms form a group under composition, with consistent batching and copying",
     "For all batches of invertible affine transforms, composing equals matrix product and function composition, is associative with the identity neutral and broadcasts a batch of one, and inverting gives the transform that undoes the original in both orders, including for scalings, rotations and any composition of them. "
     "Stacking concatenates batches, indexing selects from them, length reports the batch size, and cloning or converting precision or device with a copy gives an equal but independent transform of the requested precision.",
     ["inputs", "programs"], "all transforms, composition trees, batch sizes, precisions",
     "Tests check selected pairs of rigid transforms; the algebra must hold for every composition and broadcast.",
     ["transforms/transform3d.py"],
     [("compose and stack", "transforms/transform3d.py::Transform3d.compose, stack"), ("inverse", "transforms/transform3d.py::Transform3d.inverse"), ("copies", "transforms/transform3d.py::Transform3d.clone, to")],
     ["matrices, transformed points, dtype"])

prop("C15", "Every way of building a transform yields the documented matrix",
     "Building a transform from a matrix, a position, a rotation matrix, a unit real-first quaternion, Euler angles, a per-axis or uniform scale, a translation or an axis-angle in degrees or radians, from scalars or tensors, batched or not, in any combination and with broadcasting, yields the documented homogeneous matrix acting on column vectors. "
     "Chained building appends on the right (the last built step acts first on points), batches broadcast, and the requested or inherited precision is kept in the values, not only in name.",
     ["inputs"], "all constructor forms, argument shapes, precisions and building sequences",
     "Tests construct a few forms in single precision; the combinations of forms, shapes and precisions are many.",
     ["transforms/transform3d.py", "transforms/rotation_conversions.py"],
     [("constructor", "transforms/transform3d.py::Transform3d.__init__"), ("elementary transforms", "transforms/transform3d.py::Translate, Scale, Rotate, RotateAxisAngle"), ("argument broadcasting", "transforms/transform3d.py::_handle_input")],
     ["resulting matrix and dtype"])

prop("C16", "Points, normals and shape operators transform as geometry requires",
     "Transforming points applies the homogeneous matrix to each point; transforming normals applies the inverse transpose of the linear part, so that normals stay orthogonal to transformed tangents; transforming shape operators multiplies them by that inverse transpose on the left and the inverse on the right; all for any invertible affine transform. "
     "Input of P items or N batches of P items broadcasts against the batch of transforms as documented and returns the documented shape, and the one-transform-per-item mode applies the i-th transform to the i-th item.",
     ["inputs"], "all transforms, points, normals, operators and documented shape combinations",
     "Tests cover a few shapes for translation and rotation; invariants must hold for all affine transforms and broadcasts.",
     ["transforms/transform3d.py"],
     [("points", "transforms/transform3d.py::Transform3d.transform_points"), ("normals", "transforms/transform3d.py::Transform3d.transform_normals"), ("shape operators", "transforms/transform3d.py::Transform3d.transform_shape_operator"), ("broadcast product", "transforms/transform3d.py::_broadcast_bmm")],
     ["transformed values and shapes"])

prop("C17", "Rotation representations convert into each other without changing the rotation",
     "For every rotation, of any angle including zero, tiny, and up to and including half a turn, in any batch shape and float precision, converting between rotation matrices, real-first quaternions, axis-angle vectors, six-number and nine-number representations, position/quaternion pairs and reordered quaternions, in any chain of conversions, represents the same rotation as an independent reference. "
     "Converted matrices are rotation matrices, converted quaternions have unit norm, and non-normalised quaternions give the same matrix as normalised ones.",
     ["inputs"], "all rotations, conversion chains, batch shapes, precisions",
     "Tests sample random rotations, which almost never meet half turns, axis-aligned or tiny rotations, where branches switch.",
     ["transforms/rotation_conversions.py"],
     [("quaternion/matrix", "transforms/rotation_conversions.py::quaternion_to_matrix, matrix_to_quaternion"), ("axis-angle", "transforms/rotation_conversions.py::axis_angle_to_quaternion, quaternion_to_axis_angle, matrix_to_axis_angle, axis_and_angle_to_matrix_33"), ("6D/9D", "transforms/rotation_conversions.py::rotation_6d_to_matrix, matrix_to_rotation_6d, matrix44_to_se3_9d, se3_9d_to_matrix44"), ("pos/quaternion", "transforms/rotation_conversions.py::matrix_to_pos_rot, pos_rot_to_matrix")],
     ["converted values"])

prop("C18", "Every Euler angle convention matches its definition",
     "For each of the twelve three-letter conventions, Euler angles convert to the product of the three named axis rotations in order, and converting any rotation back yields finite angles in the documented ranges, which away from gimbal lock reproduce it. "
     "For each of the twenty-four static or rotating axis sequences, the quaternion built from Euler angles is the one of that sequence, for every batch shape and precision.",
     ["inputs"], "all 12 conventions, all 24 sequences, all angles",
     "Tests check round trips on random angles for a few conventions.",
     ["transforms/rotation_conversions.py"],
     [("matrix conventions", "transforms/rotation_conversions.py::euler_angles_to_matrix, matrix_to_euler_angles, _angle_from_tan"), ("quaternion sequences", "transforms/rotation_conversions.py::quaternion_from_euler")],
     ["converted values"])

prop("C19", "Quaternion operations agree with rotation algebra",
     "For all unit quaternions and batch shapes, multiplication, inversion, application to points and standardisation agree with the corresponding operations on rotation matrices (products being returned with non-negative real part where documented). "
     "Interpolation starts at the first and ends at the second rotation, moves along the shortest arc at constant angular speed, yields unit quaternions, and treats equal, opposite-sign and mixed batches correctly; the angular distance is the rotation angle between the two, is symmetric, ignores quaternion sign, and each batch element is handled on its own.",
     ["inputs"], "all unit quaternion pairs, interpolation parameters, batch compositions",
     "Tests sample random pairs; equal or antipodal pairs and mixed batches take different branches.",
     ["transforms/rotation_conversions.py", "transforms/math.py"],
     [("algebra", "transforms/rotation_conversions.py::quaternion_multiply, quaternion_invert, quaternion_apply, standardize_quaternion"), ("interpolation", "transforms/math.py::quaternion_slerp"), ("distance", "transforms/math.py::quaternion_angular_distance, quaternion_close")],
     ["returned quaternions, points, angles"])

prop("C20", "The rotation logarithm, exponential and angle agree with each other",
     "For every rotation vector the exponential is the rotation about its direction by its length; away from half a turn the logarithm inverts it; the rotation angle and relative angle equal the length of the corresponding rotation vector; and the skew-symmetric map and its inverse are mutually inverse, with inputs outside the documented domain rejected. "
     "Extrapolated arc-cosine equals the arc-cosine inside its bounds and continues linearly and continuously outside.",
     ["inputs"], "all rotation vectors and matrices, batch sizes, bounds",
     "No existing test covers these functions.",
     ["transforms/so3.py", "transforms/math.py"],
     [("exp and log", "transforms/so3.py::so3_exp_map, so3_log_map"), ("angles", "transforms/so3.py::so3_rotation_angle, so3_relative_angle"), ("skew map", "transforms/so3.py::hat, hat_inv"), ("extrapolation", "transforms/math.py::acos_linear_extrapolation")],
     ["returned values, raised errors"])

prop("C21", "Rotation conversions have finite, correct gradients everywhere they are smooth",
     "Differentiating any scalar function of a converted rotation (quaternion, matrix, axis-angle, six-number, Euler angles away from gimbal lock, interpolated or exponentiated) with respect to the input gives finite gradients for every valid input including the identity, tiny rotations and axis-aligned ones, and gives the true derivative wherever the conversion is differentiable.",
     ["inputs"], "all rotations including singular neighbourhoods, all scalar functions",
     "Tests check gradients at random generic rotations only.",
     ["transforms/rotation_conversions.py", "transforms/so3.py"],
     [("guarded square roots and small-angle series", "transforms/rotation_conversions.py::matrix_to_quaternion, axis_angle_to_quaternion, quaternion_to_axis_angle")],
     ["gradients"])

prop("C22", "Library calls never modify their inputs",
     "No conversion, transform, kinematics, Jacobian, clamping, perturbation or inverse-kinematics call modifies any tensor, array, list, mapping or transform passed to it, and modifying a returned pose, Jacobian, converted value, transformed point or solution does not change the robot, the transform or later results. "
     "Inputs that require gradients are accepted wherever plain inputs are.",
     ["inputs", "histories"], "all public calls and arguments, including views and expanded tensors",
     "Tests never look at their inputs after a call.",
     ["chain.py", "ik.py", "transforms/transform3d.py", "transforms/rotation_conversions.py", "transforms/math.py", "transforms/perturbation.py"],
     [("functional style of the conversions", "transforms/rotation_conversions.py"), ("copies before in-place updates", "transforms/math.py::quaternion_slerp")],
     ["arguments before and after each call"])

prop("C23", "Inverse kinematics tells the truth about its solutions",
     "For every target batch and solver setting, each reported joint configuration has the position and rotation error that the solution reports for it, as measured by forward kinematics, and an attempt is reported as converged exactly when both errors are below their tolerances. "
     "Per-problem summaries are the 'any attempt' of the per-attempt flags, all reported values are finite, and the iteration count never exceeds the allowed maximum.",
     ["inputs", "configurations"], "all chains, reachable and unreachable targets, initial configurations, tolerances and solver settings",
     "Tests check convergence on one robot with fixed settings; truthfulness across settings, limits and unreachable targets is not covered.",
     ["ik.py"],
     [("convergence bookkeeping", "ik.py::IKSolution.update"), ("solver loop", "ik.py::PseudoInverseIK.solve"), ("limit enforcement", "ik.py::PseudoInverseIK._enforce_limits")],
     ["solution object fields"],
     [("sticky convergence flags", "attempts once converged keep their solution", "ik.py::IKSolution")])

prop("C24", "Inverse kinematics respects joint limits whenever asked to",
     "With limit enforcement on (the default), every returned configuration is finite and within the robot's joint limits for every mix of bounded, one-sided, unbounded, revolute and prismatic joints, whatever the initial configurations and targets; clamping during iteration keeps iterates within limits as well. "
     "A converged configuration whose revolute joints lie whole turns outside the limits is brought back by whole turns without changing its pose, and with enforcement off limits are ignored.",
     ["inputs", "configurations"], "all limit combinations, targets, initial configurations, solver settings",
     "Tests use one robot with all joints bounded symmetrically.",
     ["ik.py"],
     [("wrapping and clamped refinement", "ik.py::PseudoInverseIK._enforce_limits, _wrap_revolute_joints"), ("projected steps", "ik.py::PseudoInverseIK.solve")],
     ["solution configurations"])

prop("C25", "Each inverse-kinematics step is the damped least-squares step",
     "One solver iteration moves the configuration by the step size times the damped, weighted least-squares solution for the current pose error, with the documented regularisation, error-proportional damping and position/orientation weights, and the two solver variants give the same step for every chain, including fewer or more than six joints. "
     "The pose error is the base-frame position difference and the shortest rotation vector from the current to the target orientation, and starting near an in-limits well-conditioned solution the solver reaches it.",
     ["inputs", "configurations"], "all chains, configurations, targets, weights, dampings, step sizes",
     "Tests only look at final convergence on one robot, which tolerates wrong weights, damping or step details.",
     ["ik.py"],
     [("step kernels", "ik.py::_ik_step_kernel, _ik_step_kernel_svd"), ("pose error", "ik.py::delta_pose"), ("step size selection", "ik.py::BacktrackingLineSearch.do_line_search")],
     ["solution after one iteration", "pose error"])

prop("C26", "Inverse kinematics treats problems independently and works for any chain",
     "With early stopping off, the solution of one problem does not depend on which other problems are solved with it and permuting problems or attempts permutes solutions; with early stopping, an attempt that converges by plain iteration (no limit enforcement or line search) when its problem is solved alone also converges in any batch; in every setting, solving again, with or without debugging output, gives the same result, and solving does not alter the initial configurations or the targets. "
     "The solver runs for any number of joints, precision, number of attempts, line search and initial-configuration source, sampled configurations lie within the sampling limits, and the results have the robot's precision and the documented shapes.",
     ["inputs", "configurations", "histories"], "all problem batches, permutations, solver settings, repeated solves",
     "Tests run one large batch once and look at the success rate.",
     ["ik.py"],
     [("batched loop", "ik.py::PseudoInverseIK.solve"), ("initial configurations", "ik.py::InverseKinematics.sample_configs, gaussian_around_config"), ("state reset", "ik.py::InverseKinematics.clear")],
     ["solution object fields"])

prop("C27", "Randomly sampled rotations and perturbations satisfy their constraints",
     "For every transform, count and magnitude, sampled perturbations are rigid transforms of the requested count and precision near the original, zero magnitudes reproduce the original exactly, a fixed rotation axis yields rotations about that axis only, and translations stay perpendicular to it unless disabled; magnitudes scale the perturbations linearly for the same random draw. "
     "Randomly generated quaternions are unit with non-negative real part, random rotations are rotation matrices, and both follow the uniform distribution over rotations.",
     ["inputs"], "all transforms, counts, magnitudes, axes, seeds",
     "One existing test checks a statistical property for one transform.",
     ["transforms/perturbation.py", "transforms/transform3d.py", "transforms/rotation_conversions.py"],
     [("perturbation", "transforms/perturbation.py::sample_perturbations"), ("method form", "transforms/transform3d.py::Transform3d.sample_perturbations"), ("random rotations", "transforms/rotation_conversions.py::random_quaternions, random_rotations")],
     ["sampled transforms"])

prop("C28", "Compiled kernels compute what the eager ones compute",
     "Compiling the forward kinematics or Jacobian of any robot, or a conversion between quaternions, matrices, axis-angle vectors and Euler angles, as a whole graph succeeds and gives, for every batch including sizes not seen when compiling, the same values as uncompiled execution and, for the kinematics, the same gradients. An inverse-kinematics solver with compiled kernels finds the solutions of the uncompiled one.",
     ["configurations", "inputs"], "all robots, batches, batch-size sequences",
     "Tests compile one arm with one batch size.",
     ["chain.py", "ik.py"],
     [("trace-friendly kernels", "chain.py::_fk_impl, _FKAnalyticalBackward, SerialChain.jacobian_tensor"), ("optional compilation", "ik.py::PseudoInverseIK.__init__")],
     ["poses, Jacobians, gradients, solutions"])

prop("C29", "Malformed requests are rejected instead of answered wrongly",
     "A configuration with too few or too many joint values, a mapping that lacks a joint or names an unknown one, an unknown frame name, an invalid Euler convention, a wrongly shaped matrix, point, normal, rotation or scale given to a Transform3d, a wrongly shaped input of the conversions between rotation matrices and quaternions, Euler angles or axis-angle vectors, of quaternion products or of the so(3) maps, a body with several joints in MJCF, a wrong number of initial joint values for inverse kinematics, or a broken robot description (malformed XML, missing or unknown types, names and links, non-numeric or wrongly sized vectors) raises an error and never yields a numeric result. "
     "A rejected call leaves the object usable.",
     ["inputs", "fault_sequences"], "all malformed inputs of those kinds",
     "Tests contain two rejection cases.",
     ["chain.py", "ik.py", "transforms/transform3d.py", "transforms/rotation_conversions.py", "transforms/so3.py", "urdf.py", "mjcf.py", "urdf_parser_py/xml_reflection/core.py"],
     [("input validation", "chain.py::Chain.ensure_tensor, SerialChain.convert_serial_inputs_to_chain_inputs"), ("shape checks", "transforms/transform3d.py, transforms/rotation_conversions.py, transforms/so3.py"), ("parser errors", "urdf_parser_py/xml_reflection/core.py")],
     ["raised errors, subsequent behaviour"])

prop("C30", "Robot description objects survive writing and re-reading",
     "Parsing a robot description into objects, writing it back to XML and parsing that again yields the same description (names, topology, document order, origins, axes, limits, dynamics, inertia, geometry, materials, transmissions, raw elements), repeated writing is a fixed point, and the textual dump is available for every description. "
     "The same holds for descriptions built or edited through the objects, whose edits affect no other description; root, chain and map queries agree with the topology; and a robot built from the rewritten description has the same kinematics.",
     ["inputs"], "all URDF and SDF descriptions of the supported vocabulary",
     "No existing test writes a description.",
     ["urdf_parser_py/urdf.py", "urdf_parser_py/sdf.py", "urdf_parser_py/xml_reflection/core.py", "urdf_parser_py/xml_reflection/basics.py"],
     [("reflection based reading and writing", "urdf_parser_py/xml_reflection/core.py::Reflection.set_from_xml, add_to_xml")],
     ["attribute values, XML text"])

prop("C31", "Link geometry is carried over with its shape, size and placement",
     "For every robot description, each link of the built robot carries the visual geometry declared for it (the first one for URDF, all of them for SDF, all geoms of the body for MJCF): the same shape kind, the same dimensions or mesh reference, and a placement relative to the link equal to the declared origin, while a link without geometry carries none. "
     "Geometry never changes the kinematics.",
     ["inputs"], "all descriptions with visual geometry",
     "No existing test looks at visuals.",
     ["urdf.py", "sdf.py", "mjcf.py", "frame.py"],
     [("URDF visuals", "urdf.py::_convert_visual"), ("SDF visuals", "sdf.py::_convert_visuals"), ("MJCF geoms", "mjcf.py::body_to_geoms")],
     ["visuals of each link"])

prop("C32", "Frame, joint and link objects carry the same kinematics as their robot",
     "For every robot and joint value, the transform a frame object gives is its joint's fixed offset followed by the joint motion (rotation about or translation along the unit axis, nothing for a fixed joint), with its true derivative; composing link offsets and these transforms from the root reproduces forward kinematics. "
     "A joint object clamps values of any shape to its own position limits and keeps the axis it was made with, normalised and independent of the caller's tensor; moving a robot or a frame to a precision moves every object below it and changes no value.",
     ["inputs", "histories"], "all robots built by hand or read from a description, joint values, precisions, frames",
     "No existing test uses frame, joint or link objects on their own.",
     ["frame.py", "chain.py"],
     [("frame transform", "frame.py::Frame.get_transform"), ("joint", "frame.py::Joint.__init__, Joint.clamp"), ("moves", "frame.py::Frame.to, Joint.to, Link.to"), ("moving a robot moves its frames", "chain.py::Chain.to")],
     ["transforms, clamped values, attributes of frame, joint and link objects"])

prop("C33", "Threads can query shared robots and transforms at the same time",
     "For every robot and every schedule of several threads that share it without changing it, forward kinematics, Jacobians, gradients, extraction of serial chains, copies, structural queries, operations on shared transforms, rotation conversions, reading of descriptions, and inverse kinematics with one solver per thread give in each thread exactly what they give when run alone.",
     ["inputs", "schedules"], "all robots, sets of jobs, assignments to threads and interleavings",
     "No existing test uses threads; state kept between the steps of one query only shows when another query comes in between.",
     ["chain.py", "ik.py", "urdf.py", "transforms/transform3d.py"],
     [("queries keep no state on the robot", "chain.py::Chain.forward_kinematics_tensor, SerialChain.jacobian_tensor"), ("transforms are values", "transforms/transform3d.py::Transform3d.compose, inverse"), ("solver state belongs to the solver", "ik.py::PseudoInverseIK.solve")],
     ["results of every job in every thread"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
