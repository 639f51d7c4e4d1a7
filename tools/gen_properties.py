#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
O = "rct_optimizations/src/rct_optimizations/"
OI = "rct_optimizations/include/rct_optimizations/"
I = "rct_image_tools/src/rct_image_tools/"
II = "rct_image_tools/include/rct_image_tools/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ["public API: arguments and returned result"], hook_needed=hook)))

p("C01", "Target pose estimation recovers the true pose from exact data",
  "Given noise-free observations of four or more well-spread target points (2D pixels from one pinhole camera, 3D points from one sensor, or 2D pixels from several cameras with known poses) and a starting guess near the true pose, target pose estimation reports convergence and returns the true rigid pose with near-zero cost, whatever that pose is, including a guess with no rotation at all. "
  "The multi-camera form works in the common base frame and, given one camera at the base origin, answers the same as the single-camera form.",
  ["inputs"], "all camera intrinsics, target geometries, true poses and guesses within the stated neighbourhood",
  "pnp_utest tries one camera, one grid and a handful of poses near one guess (always with a large rotation); multi-camera pose estimation has no test at all",
  [O+"pnp.cpp", O+"multi_camera_pnp.cpp", OI+"ceres_math_utilities.h"],
  [("reprojection residual through angle-axis pose and pinhole model", O+"pnp.cpp"), ("base-to-camera chain in the multi-camera residual", O+"multi_camera_pnp.cpp")])

p("C02", "Hand-eye calibration recovers both mount transforms from exact data",
  "Given noise-free observations of a target from enough differently rotated mount poses, whether the camera moves, the target moves, or both, and guesses near the truth, hand-eye calibration from 2D images or 3D sensors converges and returns the true camera-mount-to-camera and target-mount-to-target transforms. "
  "A 2D problem whose guesses put any observed feature behind the camera is refused with an exception instead of being solved.",
  ["inputs"], "all mount-pose sets, intrinsics, targets, true transforms and guesses near them",
  "extrinsic_hand_eye_utest uses two fixed geometries with the other mount at identity and fixed intrinsics; a refusal is never tested with both mounts in general position",
  [O+"extrinsic_hand_eye.cpp", OI+"extrinsic_hand_eye.h"],
  [("target point mapped target -> mount -> base -> camera mount -> camera", O+"extrinsic_hand_eye.cpp"), ("visibility check of the guess", O+"extrinsic_hand_eye.cpp")])

p("C03", "Multi-camera extrinsic calibration recovers the camera and target poses",
  "From noise-free observations and guesses near the truth, calibration of several static cameras recovers every camera pose together with the wrist-to-target transform (moving target), or together with every target pose (free targets, where the first camera, when fixed, is returned unchanged, and otherwise all camera and target poses relative to each other are recovered). "
  "When only one common correction is allowed, the returned cameras keep exactly the relative poses they had in the guess and the true poses are recovered when the guess is off by one rigid motion.",
  ["inputs", "configurations"], "all camera counts, per-camera image counts, visibility patterns, poses and guesses near the truth",
  "extrinsic_multi_static_camera_utest covers the moving-target form on one wall-mounted layout; the camera-only and single-correction forms have no tests",
  [O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp"],
  [("per-camera pose blocks", O+"extrinsic_multi_static_camera.cpp"), ("fixed first camera residual", O+"extrinsic_multi_static_camera_only.cpp"), ("single correction applied to every guess", O+"extrinsic_multi_static_camera_wrist_only.cpp")])

p("C04", "Intrinsic calibration recovers focal length, center and distortion",
  "From noise-free images of a planar target seen from sufficiently diverse poses, intrinsic calibration started from a guess near the truth converges and returns the true focal lengths, optical center and the five radial/tangential distortion coefficients in their documented order k1, k2, p1, p2, k3. "
  "An image whose pose cannot be estimated is left out without ending the program or disturbing the result from the remaining images.",
  ["inputs", "fault_sequences"], "all cameras (focal length, center, mild distortion), pose sets, guesses near the truth and positions of unusable images",
  "covariance_utest runs one undistorted synthetic camera and does not check distortion, center or unusable images",
  [O+"camera_intrinsic.cpp", "rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h"],
  [("distorted pinhole model", O+"camera_intrinsic.cpp"), ("per-image pose estimation and valid-image list", O+"camera_intrinsic.cpp")])

p("C05", "Kinematic calibration identifies the unmasked parameters and keeps masked ones",
  "Kinematic calibration returns every parameter that the caller masked exactly as guessed (masked joint-offset entries exactly zero), and from noise-free data with the remaining parameters identifiable and near the guess an answer reported as converged reproduces the observations (the 2D form also does converge). "
  "A mask names a parameter by its column-major position in its block, a mask index outside the block is refused with an exception, and chains without joints are accepted.",
  ["inputs", "configurations"], "all chains, joint sets, masks, offsets and guesses",
  "the corresponding tests are not even built with the installed solver version; they use two robots and a few masks",
  [O+"dh_chain_kinematic_calibration.cpp", OI+"dh_chain_kinematic_calibration.h", OI+"local_parameterization.h", OI+"maximum_likelihood.h"],
  [("mask applied as subset parameterization", OI+"local_parameterization.h"), ("column-major mask construction", OI+"dh_chain_kinematic_calibration.h")])

p("C06", "Circle fitting recovers center and radius",
  "Fitting a circle to three or more distinct points lying exactly on it, from a guess near the truth, converges to the true center and a positive true radius; with noisy points the answer is a minimum of the sum over points of the squared difference between squared radius and squared distance to the center.",
  ["inputs"], "all circle positions, radii, arcs and guesses near the truth",
  "no dedicated circle fit test is in the stable set; covariance_utest uses a few fixed circles",
  [O+"circle_fit.cpp", OI+"circle_fit.h"], [("residual r^2 - dx^2 - dy^2 with r stored as a square root", OI+"circle_fit.h")])

p("C07", "Reported costs are truthful and the answer is a local optimum",
  "Every solver reports as initial and final cost half the sum of squared residuals, evaluated at the caller's guess and at the returned answer respectively, divided by the number of residuals (two per 2D feature, three per 3D feature), and the final cost never exceeds the initial one. "
  "When a solver reports convergence on noisy data, the returned answer is a local minimum of that cost, so that no small rigid change of an answered pose lowers it noticeably.",
  ["inputs"], "all noisy problems of every solver, including guesses far from the truth",
  "tests only compare the final cost with a loose constant; no test recomputes a cost or checks optimality",
  [O+"pnp.cpp", O+"multi_camera_pnp.cpp", O+"extrinsic_hand_eye.cpp", O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp", O+"camera_intrinsic.cpp", O+"circle_fit.cpp"],
  [("cost per residual from the solver summary", O+"extrinsic_hand_eye.cpp")])

p("C08", "Solver answers do not depend on order, frame choice or earlier calls",
  "Calibrating the same data again, after or between other calibrations, gives the identical result (up to rounding for the multi-threaded kinematic solver) and leaves the input untouched; reordering features, images or observations changes the answer only by rounding. "
  "Moving the common base frame of all given poses rigidly leaves the answered mount transforms unchanged, and expressing the target points in another target frame changes the answered target transform by exactly that change of frame.",
  ["inputs", "histories"], "all problems, permutations, rigid frame changes and call sequences",
  "tests run each problem once, in one order and one frame",
  [O+"pnp.cpp", O+"extrinsic_hand_eye.cpp", O+"extrinsic_multi_static_camera.cpp", O+"multi_camera_pnp.cpp", O+"circle_fit.cpp"],
  [("solver input taken by const reference, no global state", O+"extrinsic_hand_eye.cpp")])

p("C09", "Covariance values are right and labelled with the right parameters",
  "For every solver that reports them, the standard deviation, covariance and correlation listed under a parameter name are those of that parameter: they agree with the inverse of the information matrix (J transposed times J) computed independently at the answer, and the matrices are symmetric with correlations between -1 and 1. "
  "Each parameter appears once under standard deviations and each pair once under covariances and correlations, masked parameters are left out, a threshold query returns exactly the pairs exceeding it in descending magnitude, and label counts that do not match the problem are refused with an exception.",
  ["inputs", "configurations"], "all problems, parameter blocks, label sets, masks and thresholds",
  "covariance_utest checks counts, label strings and a few expected magnitudes, never whether the value belongs to the labelled parameter",
  [O+"covariance_analysis.cpp", OI+"covariance_types.h", OI+"covariance_analysis.h", O+"extrinsic_hand_eye.cpp", O+"extrinsic_multi_static_camera.cpp", O+"camera_intrinsic.cpp", O+"pnp.cpp", O+"circle_fit.cpp"],
  [("labels attached to parameter blocks", O+"covariance_analysis.cpp"), ("correlation from covariance", O+"covariance_analysis.cpp")])

p("C10", "Kinematic chain forward kinematics follows the classical DH convention",
  "The pose of link n is the base offset followed by, for each of the first n joints, translate d along z, rotate theta about z, translate r along x, rotate alpha about x, with the joint value and the given offsets added to the proper parameter; asking with fewer joint values gives that link's pose, more joint values or too few offset rows are refused. "
  "A chain built from another chain and offsets has the same kinematics as the other chain evaluated with those offsets and keeps its joint names and limits, and random joint poses lie within every joint's limits and are reproducible from the given seed in a fresh program run.",
  ["inputs", "histories"], "all DH tables, joint types, base offsets, joint values, offsets, seeds and limits",
  "dh_parameter_utest compares a 2-link and a 6-link robot at a few joint values; seeds, names and limits are not checked",
  [O+"dh_chain.cpp", OI+"dh_chain.h"], [("relative transform per joint", OI+"dh_chain.h"), ("random joint generator", O+"dh_chain.cpp")])

p("C11", "Projection and pose primitives agree with the pinhole model and each other",
  "Every way of projecting a camera-frame point gives u = fx x/z + cx, v = fy y/z + cy for every point off the z = 0 plane (and finite numbers on it), with the exact derivatives of that formula, also for points behind the camera; reprojections of target points equal projecting each transformed point in order. "
  "Converting a rigid pose to its six-parameter form and back returns the same rigid pose for every rotation from none to half a turn, and transforming a point by either form gives the same result.",
  ["inputs"], "all points, intrinsics, rotations (including zero, tiny and half-turn) and translations",
  "conversion_utest checks one pose; no test compares the projection variants, negative depth or derivatives",
  [OI+"ceres_math_utilities.h", O+"eigen_conversions.cpp", II+"image_utils.h"], [("projectPoint overloads", OI+"ceres_math_utilities.h"), ("angle-axis conversions", O+"eigen_conversions.cpp")])

p("C12", "Equality and validation of problem data compare all of it",
  "Two correspondences, observations, kinematic observations or measurements, problems or target definitions compare equal exactly when all of their data agree: changing any single joint value, pose, feature, point, intrinsic or dimension noticeably makes them unequal, and copies are equal. "
  "A maximum-likelihood constraint yields for each entry (value - mean) / standard deviation and refuses mean and deviation tables of different shape.",
  ["inputs"], "all values and all single-field changes of them",
  "serialization_utest compares equal objects only; maximum_likelihood_utest uses one shape",
  [OI+"types.h", OI+"extrinsic_hand_eye.h", OI+"maximum_likelihood.h", II+"modified_circle_grid_target.h", I+"aruco_grid_target.cpp", I+"charuco_grid_target.cpp", I+"modified_circle_grid_target.cpp"],
  [("operator== of data types", OI+"types.h")])

p("C13", "Saved data loads back unchanged",
  "Vectors, poses, intrinsics, correspondences, observations, hand-eye problems and hand-eye results written as YAML text and read back are the same to printed precision, with every rotation and every field preserved, and a kinematic chain read from YAML has the described kinematics, names and base offset. "
  "Nested collections keep their sizes and order.",
  ["inputs"], "all values of the serializable types, all rotations, all collection sizes",
  "serialization_utest round-trips a few problems built from one template and never a result",
  [OI+"serialization/eigen.h", OI+"serialization/types.h", OI+"serialization/problems.h"], [("YAML encode/decode pairs", OI+"serialization/")])

p("C14", "Malformed saved data is refused, never misread",
  "Reading YAML in which a required field is missing, misspelt, of the wrong kind, or in which an extra or absent field changes the documented field count fails with an exception derived from the standard exception type, and never crashes or silently substitutes a value. "
  "A refused read leaves later reads of valid data unaffected.",
  ["inputs", "fault_sequences"], "all single and multiple corruptions of valid documents, truncations and arbitrary text",
  "no test reads an invalid document",
  [OI+"serialization/eigen.h", OI+"serialization/types.h", OI+"serialization/problems.h"], [("node size check and typed access", OI+"serialization/types.h")])

p("C15", "Homography validation is exact on planar data and exposes bad features",
  "For features related to a planar target by any perspective view, the homography error is one nonnegative number per feature in the given order and vanishes for all of them, and moving one non-sampled feature by some offset makes exactly that feature's error equal the offset's length (for 3D features, with the depth scale restored) and no other. "
  "The grid sampler picks the first element of each of the four distinct grid corners for any grid size and stride, the random sampler picks the requested number of distinct valid indices reproducibly from its seed, and requests that cannot be met (too few samples or correspondences, degenerate grids) are refused.",
  ["inputs", "configurations"], "all planar views, grid sizes, strides, seeds, sample counts and corrupted features",
  "homography_utest covers one 10x10 grid and one pose, with swapped columns",
  [O+"validation/homography_validation.cpp", OI+"validation/homography_validation.h"],
  [("linear homography estimate from sampled features", O+"validation/homography_validation.cpp"), ("samplers", O+"validation/homography_validation.cpp")])

p("C16", "Noise statistics equal the mean and spread of the per-image solutions",
  "Noise qualification returns the mean and standard deviation of the translations of all converged per-image pose solutions, and the average rotation with the standard deviation of the angular distances to it (the spread of a single solution is zero). "
  "The average rotation maximises the summed squared alignment with the inputs, does not change when inputs are reordered, and stays the same rotation when any quaternion is replaced by its negative; statistics of identical inputs have zero spread.",
  ["inputs"], "all sets of pose problems and quaternions, orders and sign patterns",
  "noise_qualification_utest checks loose tolerances around one mean and never mixes signs or compares with an independent average",
  [O+"validation/noise_qualification.cpp"], [("quaternion mean by largest eigenvector", O+"validation/noise_qualification.cpp"), ("accumulated position statistics", O+"validation/noise_qualification.cpp")])

p("C17", "Intrinsic validation reports the disagreement between the two half targets",
  "The virtual target comparison solves the pose of the first and the second half of the features separately and returns the transform from the first to the second with its translation length and rotation angle, which vanish for exact data; if either half cannot be fitted within the given squared-pixel threshold it fails with an exception. "
  "The accuracy measure is the mean and standard deviation of those lengths and angles over all observations, using the supplied mount and base transforms for the starting guesses, and observations of different sizes are refused.",
  ["inputs"], "all observation sets, intrinsics (exact and wrong), mounts, base transforms and thresholds",
  "camera_intrinsic_calibration_validation_utest uses identity base transforms and checks only that the error is small or grows",
  [O+"validation/camera_intrinsic_calibration_validation.cpp"], [("split into halves and pose of each", O+"validation/camera_intrinsic_calibration_validation.cpp")])

p("C18", "3D projection error is the distance on the target plane",
  "A line-plane intersection lies on both the line and the plane, also with directions and normals of either sign, and parallel inputs are refused. "
  "The 3D projection error of an observation is, for each feature in order, the distance on the target plane between the known target point and the point where the viewing ray through the observed pixel meets that plane, given the mount transforms, and the errors of several observations are concatenated in order.",
  ["inputs"], "all planes, lines, cameras, mounts and observations",
  "no test calls these functions",
  [O+"validation/projection.cpp", OI+"validation/projection.h"], [("ray-plane intersection", O+"validation/projection.cpp")])

p("C19", "Circle detection finds the circles that satisfy its filters, precisely",
  "In a clean rendered image the circle detector reports every disc that contrasts with its surroundings across enough thresholds and passes the enabled color, area, circularity, inertia and convexity filters exactly once, with its center correct to a fraction of a pixel and its diameter to about two pixels, and reports nothing that clearly fails an enabled filter. "
  "All reported keypoints are finite, color and grayscale input give the same result, the input image is not modified, and a repeatability above the number of thresholds is refused.",
  ["inputs", "configurations"], "all layouts of discs and distractors (size, position, gray level, shape) and all filter settings",
  "circle detection is only exercised through one grid image; no filter is tested",
  [I+"circle_detector.cpp", II+"circle_detector.h"], [("threshold sweep, contour filters and ellipse fit", I+"circle_detector.cpp"), ("grouping by position and radius", I+"circle_detector.cpp")])

p("C20", "Circle grid finder assigns every dot to its true target position",
  "For a rendered view of a modified circle grid from a moderate distance, tilt and any in-plane rotation, the finder either returns every dot exactly once in target order (rows from the top, left to right, with the large dot at the lower left origin), each at its true pixel position, or refuses with an exception; it never returns a wrong assignment of a view that shows the whole grid of a board that is not its own mirror image, amid at most moderate clutter. "
  "Near-frontal, well-lit views are found, and an image without the grid, or with rows and columns exchanged, is refused.",
  ["inputs"], "all grid sizes, poses, in-plane rotations, contrasts and image sizes",
  "the only circle grid test in the tree compares one image count; ordering is never compared with ground truth",
  [I+"modified_circle_grid_finder.cpp", I+"modified_circle_grid_target.cpp"], [("corner size comparison and reordering", I+"modified_circle_grid_finder.cpp")])

p("C21", "Marker-based finders never attribute a feature to the wrong target point",
  "For rendered views of ArUco and ChArUco boards, with any part hidden, every reported feature carries the identity of the board feature that is really there (marker corners in the marker's own clockwise order starting at its origin corner) at its true pixel position, and fully visible boards are reported completely; this is judged wherever OpenCV's marker detector itself reads the markers correctly and each marker id appears once in the view. "
  "Markers that are not part of the board do not disturb the result, and drawing detected features shows their identities and leaves the caller's image untouched.",
  ["inputs"], "all board geometries, poses, occlusions and stray markers",
  "target_finder_utest uses four photographs and checks counts; the two occlusion tests do not pass here",
  [I+"aruco_finder.cpp", I+"charuco_finder.cpp", I+"aruco_grid_target.cpp", I+"charuco_grid_target.cpp"], [("marker ids as feature keys", I+"aruco_finder.cpp")])

p("C22", "Targets pair detected features with their true 3D board positions",
  "For every board geometry, the 3D position a target definition holds for a feature is the feature's place on the physical board in meters, in the board's plane, with row and column counts and spacings used as documented (OpenCV's board frame, x right and y down from the upper left, for marker boards; the large dot at the lower left, x right and y up, for circle grids); correspondences pair each given feature with the position of the same identity, one pair per feature, unaffected by which other features are given. "
  "Feature identities that are not on the target are not paired with any position.",
  ["inputs", "configurations"], "all board sizes (square or not), spacings and feature subsets",
  "target_finder_utest counts pairs on a single board size; positions are not compared with the geometry",
  [I+"modified_circle_grid_target.cpp", I+"aruco_grid_target.cpp", I+"charuco_grid_target.cpp"], [("point tables", I+"modified_circle_grid_target.cpp")])

p("C23", "Calibration data sets survive storage and are paired image by image",
  "A data set of images and poses saved to a directory and loaded back has the same images and poses in the same order, a save that fails says so, and entries whose image or pose file is missing or unreadable are skipped as a pair without disturbing the others. "
  "The correspondence table built from data sets records for each camera and image exactly whether and which features were found, its counts agree with those records, and loaders of poses and intrinsics refuse incomplete files or parameters.",
  ["inputs", "fault_sequences"], "all data set sizes, poses, missing or damaged files, and detection outcomes",
  "the ROS packages are not built or tested here at all",
  ["rct_ros_tools/src/data_set.cpp", "rct_ros_tools/src/parameter_loaders.cpp", "rct_ros_tools/src/loader_utils.cpp", "rct_ros_tools/include/rct_ros_tools/data_set.h"],
  [("directory layout and index file", "rct_ros_tools/src/data_set.cpp"), ("found mask", "rct_ros_tools/src/data_set.cpp")])

p("C24", "Target finder plugins are configured exactly as their parameters say",
  "A target finder created from a configuration behaves as one constructed directly with the same rows, columns, spacings, dictionary and detector parameters, with defaults for the detector parameters as a whole when they are absent, incomplete or unreadable. "
  "A configuration lacking a required entry or with an entry of the wrong kind is refused with an exception, and nested parameter structures are converted to YAML value for value.",
  ["inputs", "configurations"], "all complete, partial and malformed configurations",
  "the plugin test needs ROS and is not built here; it loads two fixed files",
  ["rct_ros_tools/src/target_loader_plugins.cpp", "rct_ros_tools/src/loader_utils.cpp", "rct_ros_tools/include/rct_ros_tools/target_finder_plugin.h", I+"circle_detector.cpp"],
  [("YAML decoding of target definitions", "rct_ros_tools/src/target_loader_plugins.cpp")])

p("C25", "Independent calibrations and detections may run concurrently",
  "Solvers, validation functions, forward kinematics, random joint pose generation and target finders used from several threads at once on separate or shared read-only inputs have no data race and give the results of sequential execution.",
  ["schedules"], "all interleavings of concurrent calls on shared constant objects",
  "no test starts a thread",
  [O+"dh_chain.cpp", O+"pnp.cpp", O+"extrinsic_hand_eye.cpp", I+"circle_detector.cpp", I+"aruco_finder.cpp", I+"charuco_finder.cpp", O+"validation/homography_validation.cpp"],
  [("const interfaces without shared mutable state", O+"dh_chain.cpp")])

p("C26", "Degenerate input never corrupts memory or ends the process",
  "Every library function given empty, too small, duplicated, collinear, zero, behind-the-camera, huge or non-finite data, or blank, tiny or random images, returns or throws an exception derived from the standard exception type; it never reads or writes out of bounds, aborts the process, executes undefined behaviour or loses memory. "
  "A solver that has nothing to fit does not claim convergence with a meaningful cost.",
  ["inputs"], "all degenerate numeric inputs and arbitrary images",
  "tests use well-posed data and run without memory checking",
  [O, I], [("input checks and exceptions", O+"covariance_analysis.cpp"), ("image access", I+"circle_detector.cpp")])

p("C27", "Printed results state the values they describe",
  "A printed transform states its matrix, its position, its URDF roll, pitch and yaw (in radians and degrees) and its x, y, z, w quaternion such that each of them describes the same rigid transform to the printed digits for every rotation, and the printed difference of two transforms states their true distance and angle. "
  "Printed intrinsics and distortion stand under their own names, printed costs are the roots of the reported ones, and a printed covariance lists each entry under its own names, with only the correlations above the threshold in a threshold print.",
  ["inputs"], "all transforms (including half turns and gimbal lock), intrinsics, costs, covariances and thresholds",
  "no test looks at printed output, which is what users copy into their robot description",
  ["rct_common/include/rct_common/print_utils.h", OI+"covariance_types.h"], [("Euler angles and their order", "rct_common/include/rct_common/print_utils.h")], ["standard output"])

p("C28", "Offline calibration tools report the library's result for the usable images only",
  "Each stand-alone calibration, validation and pose estimation program reports exactly the result the library gives for the images in which the target was found (for hand-eye calibration: and whose homography error lies within the threshold; for several cameras: found by all of them), each paired with its own pose, and leaves all others out. "
  "Pictures and reprojections shown belong to the image they name, and whenever a parameter, file, finder or every usable image is missing the program says what is wrong on its error log and ends with a nonzero exit status, without crashing and without reporting a calibration.",
  ["inputs", "fault_sequences"], "all data sets with any images unusable, all parameter sets complete or not",
  "the programs are not built or tested here at all; which images are unusable decides what is paired with what",
  ["rct_examples/src/tools/camera_on_wrist_extrinsic.cpp", "rct_examples/src/tools/static_camera_extrinsic.cpp", "rct_examples/src/tools/hand_eye_calibration_analysis.h", "rct_examples/src/tools/intrinsic_calibration.cpp", "rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp", "rct_examples/src/tools/multi_static_camera_extrinsic.cpp", "rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp", "rct_examples/src/tools/noise_qualification_2d.cpp", "rct_examples/src/tools/solve_pnp.cpp", "rct_examples/src/tools/solve_multi_camera_pnp.cpp"],
  [("image selection", "rct_examples/src/tools/hand_eye_calibration_analysis.h")], ["standard output", "ROS log", "displayed images"])

p("C29", "Collected pictures and poses are paired, kept and saved without loss",
  "In the data collection node every successful collection pairs the latest picture received, in its true colours whatever its encoding, with the pose of the tool frame in the base frame at that moment, and later pictures, motion or failures never change a collected pair; a collection without picture or transform adds nothing and is answered with failure. "
  "A save writes exactly all pairs collected so far, in order, and is answered with success only if they were written; damaged pictures are ignored, and every other picture is republished once with its own header and the detected target drawn in. "
  "Without its parameters, target finder or transform the node does not start and says why.",
  ["histories", "fault_sequences"], "all sequences of pictures (any encoding), motion, lost transforms, collections, saves and failed saves",
  "the node is not built or tested here at all; what matters is the order of events",
  ["rct_ros_tools/src/command_line_cal.cpp", "rct_ros_tools/src/data_set.cpp"], [("last frame and collected pairs", "rct_ros_tools/src/command_line_cal.cpp")], ["services", "published images", "saved files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d, s)
print(len(P), "properties")
