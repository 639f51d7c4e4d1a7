"""Per property: cases per tier, seconds per case before a hang is suspected, build flavours, and what the cases are."""
PROPS = {
    "C01": dict(
        quick=16000, thorough=120000, alarm=60,
        rule="case i of seed s draws a target (grid or spatial cloud, sometimes 4-5 points), intrinsics, a true pose (planar views tilted; "
             "3D poses anywhere incl. half turns), 1-4 cameras (also blind ones among them) and a guess within 0.3 rad / 12 % of the distance or without rotation, and "
             "runs the real solvers on exact data; non-trivial: solved with a guess different in hash from every other case",
        least={"pnp2d solved": 1000, "pnp3d solved": 500, "multi solved": 1000, "multi-camera problems with blind cameras": 1000, "guesses without rotation": 500},
        technique="generated exact problems, recovery oracle on every solver answer, under ASan+UBSan",
        note="every answer, cost and convergence flag of the executed problems is compared with the known truth"),
}
PROPS["C02"] = dict(
    quick=6000, thorough=60000, alarm=60,
    rule="case i draws camera-moving, target-moving or both-moving setups (2D and 3D), 6-12 differently tilted views, mount offsets and a base frame up "
         "to 3 m away, guesses within 0.12 rad / 7 % of the target size, and solves exact data; every third 2D case instead pushes one feature or a "
         "whole view behind the camera (depth from 1e-6 target sizes) and requires the refusal; non-trivial: solved or refusal provoked",
    least={"guesses with features behind the camera": 300, "handeye2d solved, camera moves": 300, "handeye3d solved, both move": 200, "problems with observations from one place": 150, "observations of a part of the target": 2000},
    technique="generated exact problems, recovery and refusal oracles on every solver answer, under ASan+UBSan",
    note="every answered transform is compared with the known truth and every behind-the-camera guess must be refused")
PROPS["C03"] = dict(
    quick=4500, thorough=40000, alarm=60,
    rule="case i draws a rig of 1-4 (rarely 9-12) cameras around a region up to 3 m from the base and 2-9 (rarely 10-13) target poses (some images missing or partial), guesses within "
         "0.07 rad / 4 % of the distance, and solves exact data with the moving-target, free-target (first camera fixed / free) or single-correction "
         "solver; answers compared up to the gauge each problem leaves open; non-trivial: a solved problem",
    least={"moving-target problems solved": 300, "fixed-first problems solved": 300, "free-first problems solved": 300, "single-correction problems solved": 150, "many cameras or poses": 100},
    technique="generated exact rigs, recovery and rigidity oracles on every solver answer, under ASan+UBSan",
    note="every answered pose is compared with the known truth modulo the documented gauge; relative camera poses also on noisy data")
PROPS["C04"] = dict(
    quick=560, thorough=6000, alarm=120,
    rule="case i draws intrinsics, five distortion coefficients (15 % all zero), 9-15 tilted views of a 6-9 x 6-9 grid and a guess within 5 % / 12 px, "
         "optionally 1-3 unusable images (empty, one or two features, a NaN feature) at random places, and calibrates exact data; non-trivial: a calibration",
    least={"calibrations": 200, "empty images": 10, "images with too few features": 10},
    technique="generated exact image sets, recovery oracle on every solver answer, under ASan+UBSan",
    note="every answered intrinsic and distortion value is compared with the known truth")
PROPS["C05"] = dict(
    quick=400, thorough=6000, alarm=120,
    rule="case i draws two chains of 0-3 linear or revolute joints, their base offsets, mounts, random masks (whole blocks, single components, repeated "
         "indices, everything), true joint offsets and transforms differing from the guesses in the free components only, 10-16 joint poses, and solves "
         "exact data with the 2D-3D or the pose solver; or appends one mask index outside its block; or converts a random boolean DH mask; non-trivial: solved",
    least={"2d3d solved": 100, "pose6d solved": 80, "masked parameters": 3000, "mask indices outside the block": 20},
    technique="generated exact kinematic data, reproduction and masked-parameter oracles on every solver answer, under ASan+UBSan",
    note="every masked value is compared with the guess and every answer with the observations it must reproduce, by independent forward kinematics")
PROPS["C06"] = dict(
    quick=50000, thorough=400000, alarm=30,
    rule="case i draws a circle (radius 0.05-300, center up to 500 away), 3-60 points over an arc of at least 2 rad (exact, or with radial noise up to "
         "3 %), shuffled and with repeats, and a guess within 30-40 % of the radius; exact answers are compared with the truth, noisy ones with the "
         "closed-form minimum of the same cost; non-trivial: every fit",
    least={"exact circles": 5000, "noisy circles": 5000, "residuals": 20000},
    technique="generated circles, truth and closed-form-minimum oracles on every fit, under ASan+UBSan",
    note="every answer, cost and convergence flag of the executed fits is compared with an independent solution")
PROPS["C07"] = dict(
    quick=2400, thorough=20000, alarm=120,
    rule="case i draws a noisy problem for one of the ten solvers (PnP 2D/3D/multi-camera, hand-eye 2D/3D, moving target, free targets with fixed or free first "
         "camera, single correction, kinematic 2D-3D, intrinsic), solves it, recomputes both costs from scratch and probes the neighbourhood of the answer with "
         "damped Gauss-Newton and random steps; non-trivial: a solved problem",
    least={"answers probed for a better neighbour": 500, "kinematic solved": 15, "intrinsic solved": 30},
    technique="noisy problems, independently recomputed costs and neighbourhood probes on every solver answer, under ASan+UBSan",
    note="both costs of every executed problem are recomputed and every converged answer is probed for a better neighbour")
PROPS["C09"] = dict(
    quick=1600, thorough=40000, alarm=120,
    rule="case i draws a noisy problem for one of the nine reporting solvers (PnP 2D/3D, hand-eye 2D/3D, moving target, circle, intrinsic with and without an "
         "unusable image, kinematic 2D-3D and pose with random masks), a random linear Ceres problem for one of the four general overloads (block subsets, masks, "
         "labels), or a random covariance matrix (also with zero variances); compares every value under its label with the inverse information matrix computed "
         "here, and makes one request that does not fit and must be refused; non-trivial: a reported covariance",
    least={"covariances compared with the information matrix": 700, "kinematic covariances": 60, "intrinsic covariances": 60, "threshold queries": 1000, "many cameras or poses": 15, "matrices of very different deviations": 20, "wrong requests refused": 300},
    technique="independently computed information matrices against every reported covariance, under ASan+UBSan",
    note="every standard deviation, covariance and correlation of the executed problems is compared under its label")
PROPS["C10"] = dict(
    quick=4000, thorough=200000, alarm=60,
    rule="case i draws a chain of 0-8 linear or revolute joints with a base offset, joint values and offsets (also surplus or missing rows) and compares every link pose, "
         "relative transform and derivative (as the solvers take it) with a multiplied-out DH matrix; or makes a chain from a chain and offsets, twice over; or draws random "
         "poses in child processes that have drawn nothing before, twice with the same seed and once with another; non-trivial: every chain",
    least={"link poses compared": 20000, "derivatives compared": 100000, "random poses drawn": 100000, "requests refused": 5000},
    technique="independent forward kinematics and limit/reproducibility monitors on every executed chain, under ASan+UBSan",
    note="every link pose, derivative, label and random joint value of the executed chains is compared with the classical convention")
PROPS["C11"] = dict(
    quick=16000, thorough=600000, alarm=30,
    rule="case i draws a camera-frame point (depth 1e-8 to 50, 40 % behind the camera) and projects it in every way the library has, as a number and as a Ceres jet, against the "
         "pinhole formula and its derivatives; or reprojects a target, checking order and drawing; or converts a pose whose rotation is anything from none to exactly half a turn "
         "there and back and transforms points and their derivatives by both forms; non-trivial: every point, target or pose",
    least={"projections compared": 15000, "points in the camera plane": 250, "points behind the camera": 1000, "reprojections compared": 10000, "conversions": 5000, "points transformed": 10000},
    technique="formula oracles on every executed projection and conversion, values and automatic derivatives, under ASan+UBSan",
    note="every projection, reprojection, conversion and transform executed is compared with formulas written independently")
PROPS["C12"] = dict(
    quick=8000, thorough=300000, alarm=30,
    rule="case i draws correspondences, observations, kinematic observations and measurements, hand-eye problems, targets or likelihood tables, copies them and changes one datum "
         "(a number by 1e-4 or more of its size, a feature added, dropped or exchanged, joint counts, mounts exchanged, rows, columns, sizes, dictionary), or offers tables of "
         "another shape; non-trivial: every object",
    least={"changes told apart": 20000, "copies compared": 20000, "likelihood entries": 8000, "table shapes refused": 1000},
    technique="single-change equality monitors on generated data under ASan+UBSan",
    note="every comparison is evaluated both ways round against whether a datum really differs")
PROPS["C13"] = dict(
    quick=5000, thorough=300000, alarm=30,
    rule="case i draws a value of one of the savable types (also half turns, gimbal lock, tiny and huge numbers, empty and nested lists), saves it as text or file, reads it back, saves "
         "and reads it again; or writes a kinematic chain as documented and compares the read chain with it; non-trivial: every value",
    least={"round trips": 14000, "hand-eye result": 2100, "hand-eye problem 2D": 640, "kinematic chain": 640, "nested correspondences": 640},
    technique="round-trip oracles on generated data, under ASan+UBSan",
    note="every field of every value read back is compared with what was saved")
PROPS["C14"] = dict(
    quick=4500, thorough=300000, alarm=30,
    rule="case i saves a value of one of twelve types, then reads copies with one field missing, misspelt, of another kind or one too many, at any depth, an unknown joint type, or "
         "the whole of another kind, each time followed by reading the valid text, and finally randomly damaged text; non-trivial: every valid text",
    least={"malformed data refused": 15000, "missing-field": 2200, "misspelt-field": 2200, "wrong-kind": 4500, "extra-field": 1100, "joint-type": 150, "damaged text refused": 3700, "scaled quaternions": 300},
    technique="refusal oracles on mutated data and crash monitors on damaged text, under ASan+UBSan",
    note="every mutated text must be refused with a standard exception, and the valid text must still read right after it")
PROPS["C15"] = dict(
    quick=20000, thorough=600000, alarm=30,
    rule="case i draws a grid (1-4 points per element) seen in any perspective from either side (2D pixels or 3D sensor points, also looking along -z), samples it with the grid, "
         "the random or a hand-picked sampler, checks that all errors vanish, moves one to four unsampled features (3D also in depth) and compares every error with the offset; or "
         "exercises the two samplers over sizes, strides and seeds; or gives too few correspondences; non-trivial: well-posed samples (rank of the system judged independently)",
    least={"exact 2D sets": 3000, "exact 3D sets": 3000, "features moved": 8000, "grid samples": 500, "degenerate grids refused": 200, "random samples": 2000,
           "random samplers refused": 300, "uniformity tests": 40, "too few correspondences": 1000},
    technique="generated exact and disturbed planar data, error and sampler oracles on every call, under ASan+UBSan",
    note="every error of every feature is compared with its known value, every sample with the grid corners or the distinctness and seed rules")
PROPS["C16"] = dict(
    quick=6000, thorough=200000, alarm=60,
    rule="case i draws 1-40 quaternions around any rotation (spread 1e-6 to 3 rad, random signs, half turns) and repeats them reordered and negated; or 1-9 noisy 2D or 3D images of one "
         "view, some with wild guesses that do not converge, and compares the statistics with those of the single solutions; non-trivial: every set with a solution",
    least={"quaternion sets": 1500, "reordered and negated sets": 1200, "identical sets": 1500, "2D sets qualified": 700, "3D sets qualified": 700, "images left out for not converging": 10},
    technique="generated rotations and noisy images, independently recomputed statistics, under ASan+UBSan",
    note="every statistic is recomputed from the executed single solutions, the average rotation by an eigenvalue problem")
PROPS["C17"] = dict(
    quick=4000, thorough=120000, alarm=60,
    rule="case i draws a grid (even or odd number of features, in order or shuffled), exact or noisy pixels, right or wrong intrinsics and a guess, solves both halves one at a time and "
         "compares with the virtual target comparison under the default threshold or one just above or below the worse half's cost; or disturbs one half; or compares the accuracy "
         "measure of 1-7 observations under random mounts and base; non-trivial: every view",
    least={"exact views": 300, "noisy views": 300, "halves above the threshold refused": 150, "bad first halves refused": 80, "bad second halves refused": 80,
           "accuracies of exact data": 300, "accuracies of noisy data": 300, "observations of different sizes refused": 100, "accuracy of bad fits refused": 15},
    technique="generated views, differences and statistics recomputed from the single half solutions, under ASan+UBSan",
    note="every difference, length, angle, mean and deviation is recomputed and every threshold decision compared with the halves' costs")
PROPS["C18"] = dict(
    quick=120000, thorough=1500000, alarm=30,
    rule="case i draws a line and a plane (any signs, axis-aligned, through the origin, close to parallel on either side of the limit); or a grid seen from either side by a camera with or "
         "without skew; or 0-5 noisy observations, full, partial or empty, of a target that may not be quite flat, under random mounts; non-trivial: every intersection or view",
    least={"intersections, normal along the line": 3000, "intersections, normal against the line": 3000, "intersections behind the line's point": 2000, "parallel lines refused": 1000,
           "points projected onto the plane": 20000, "errors compared": 100000, "observation sets": 5000},
    technique="generated geometry, incidence conditions and an independent linear solution on every call, under ASan+UBSan",
    note="every intersection must satisfy both equations and every error equals the distance to a plane point found without rays")
PROPS["C08"] = dict(
    quick=1000, thorough=60000, alarm=120,
    rule="case i draws a problem with little or no noise for one of thirteen solver variants, solves it, solves it again, solves it from another place in memory after up to three other "
         "(also refused) calls, with features, images, observations and cameras reordered, with all base poses moved rigidly and with the target points given in another target frame; "
         "non-trivial: a solved problem",
    least={"repeated answers compared": 1200, "reordered answers compared": 600, "rebased answers compared": 450, "retargeted answers compared": 550, "other calls in between": 1000},
    technique="metamorphic comparison of executed solver runs (repeat, interleave, reorder, move frames) and input snapshots, under ASan+UBSan",
    note="repeated answers are compared bit for bit (rounding for the multi-threaded kinematic solver), moved problems with the moved answer")
PROPS["C19"] = dict(
    quick=6000, thorough=60000, alarm=60,
    rule="case i renders 0-12 separate discs, ellipses, rings and discs without a sector of any gray levels, draws thresholds, repeatability and filters, and predicts from the geometry which "
         "are to be reported, which not and which are too close to a limit; the scene is shown again in colour, moved by whole pixels and brightened with its thresholds; or takes a "
         "picture of noise, patterns and blobs down to one pixel; non-trivial: every picture",
    least={"found disc": 900, "left out disc": 2000, "found ellipse": 200, "left out ellipse": 700, "found ring outside": 50, "left out disc without a sector": 250,
           "keypoints in noise": 3000, "colour images": 500, "scenes moved": 300, "scenes brightened": 300, "repeatabilities refused": 500},
    technique="rendered scenes with known discs, detection oracles and metamorphic repeats on every picture, under ASan+UBSan",
    note="every keypoint is compared with the rendered discs and every disc with the keypoints")

PROPS["C20"] = dict(
    quick=1400, thorough=20000, alarm=60,
    rule="case i renders a modified circle grid of 3-9 rows and columns with random dots, contrast, tilt, in-plane rotation and size and compares every reported dot and pair with the "
         "rendered one; or has OpenCV's grid search report the same grid in one of eight orders; or hides, replaces or cuts off dots, adds clutter, shows another grid or none, which is to be "
         "refused; or draws lines and empty targets; non-trivial: every picture",
    least={"views found": 300, "dots compared with the truth": 10000, "easy views": 120, "oblong boards found": 100, "square boards found": 80, "roll quadrant 0": 40, "roll quadrant 1": 40,
           "roll quadrant 2": 40, "roll quadrant 3": 40, "order 0": 6, "order 1": 6, "order 2": 6, "order 3": 6, "order transposed 0": 5, "order transposed 1": 5, "order transposed 2": 5,
           "order transposed 3": 5, "refused: cut off": 6, "refused: finder f": 10, "refused: hidden d": 8, "refused: no grid": 10, "lines and empty targets": 50, "drawn and paired": 25},
    technique="rendered views with known dots, comparison of every reported dot with the truth, OpenCV's grid search interposed to report every ordering, under ASan+UBSan",
    note="every reported dot is compared with its true position; views refused are counted, and easy views must be found")

PROPS["C21"] = dict(
    quick=2800, thorough=60000, alarm=60,
    rule="case i prints an ArUco or ChArUco board of 1-6 rows and columns from one of 17 dictionaries, with stray markers around it or not, shows it under a random tilt and roll with 0-4 hidden "
         "parts, noise and gray levels, and compares every reported feature, every pair made of them and, in easy views, what is missing with the print; or shows noise; views in which the marker "
         "detector of OpenCV itself misreads a marker are left out; non-trivial: every picture",
    least={"ArUco views": 500, "ChArUco views": 400, "features compared with the truth": 25000, "features in plain view": 22000, "easy complete views": 250, "views with hidden parts": 450,
           "views with stray markers": 280, "drawings": 800, "identities drawn": 700, "noise images": 100, "views of boards with other markers": 200},
    assumptions=["views in which cv::aruco::detectMarkers itself misreads a marker are not judged (counted)"],
    technique="rendered views of marker boards with known features, comparison of every reported feature and pair with the truth, under ASan+UBSan",
    note="every reported feature is compared with its true position and identity")

PROPS["C22"] = dict(
    quick=36000, thorough=1000000, alarm=60,
    rule="case i defines a circle grid, ArUco or ChArUco target of 1-24 rows and columns of any spacing and dictionary, compares its table with the board's geometry and the pairs it makes of "
         "a random subset of features with the features and places given; adds or replaces identities and drops or adds points; and prints some boards with OpenCV and compares where the features "
         "are on the print; non-trivial: every target and feature set",
    least={"targets 0": 2800, "targets 1": 2800, "targets 2": 2800, "oblong targets": 5000, "pairs compared": 300000, "partial feature sets": 3000, "odd features refused": 8000,
           "features of prints": 10000, "boards with other markers": 2000},
    technique="generated targets and feature sets against an independent description of the boards and against their prints, under ASan+UBSan",
    note="every position and pair is compared")

PROPS["C23"] = dict(
    quick=12000, thorough=200000, alarm=60,
    rule="case i saves a data set of up to 14 (rarely 98-130) image/pose pairs under any directory, loads it back and compares every pair; or writes an index by hand, takes pairs, images, poses or entries away or "
         "spoils them and predicts what is left to load; or puts obstacles in the way of saving; or writes, spoils and reads pose, intrinsics and target parameters from files and from "
         "parameters; or builds the correspondence tables of several cameras with unequal and failing images; non-trivial: every case",
    least={"pairs read back": 2200, "pairs read beside damaged ones": 1500, "damaged sets": 500, "index files by hand": 600, "bad index files": 600, "bad files": 850, "bad parameters": 800,
           "intrinsics from files": 180, "intrinsics from parameters": 190, "poses from files": 160, "poses from parameters": 160, "obstacles to saving": 600, "read from its own directory": 110,
           "saved over an older set": 120, "table entries": 7000, "ragged tables": 250, "large data sets": 20},
    assumptions=["rct_ros_tools is compiled against recording stand-ins for roscpp, xmlrpcpp and pluginlib, which are not installed here"],
    technique="data sets, parameter files and tables written, damaged and read back on every case, against what was written, under ASan+UBSan",
    note="every loaded image is compared pixel by pixel and every pose, intrinsic and table entry with its own source")

PROPS["C24"] = dict(
    quick=20000, thorough=300000, alarm=60,
    rule="case i draws a nested parameter structure with or without entries that have no YAML counterpart and compares its conversion value for value; or configures a circle grid or ChArUco "
         "finder from text or from parameters with all entries, with detector parameters complete, absent, partial or wrong, or with a required entry missing, negative or of the wrong kind, and "
         "compares target, detector parameters and what is found and drawn in a picture with a finder constructed directly; non-trivial: every case",
    least={"converted values": 17000, "arrays": 2900, "empty arrays": 480, "nested structures": 1100, "unsupported structures refused": 390, "arrays of mixed kinds": 130, "entries of unsupported types": 260,
           "circle grid configurations refused": 690, "ChArUco configurations refused": 560, "ChArUco grids": 1200, "grids with detector parameters": 850, "grids without detector parameters": 270,
           "grids with incomplete or wrong detector parameters": 530, "configurations without an entry": 480, "configurations with an entry of the wrong kind": 660, "pictures with features": 170,
           "configured from parameters": 1900, "plugins configured again": 300},
    assumptions=["rct_ros_tools is compiled against recording stand-ins for roscpp, xmlrpcpp and pluginlib, which are not installed here"],
    technique="generated configurations against directly constructed finders and value-for-value comparison of conversions, under ASan+UBSan",
    note="targets, detector parameters, features and drawings of plugin-made and directly made finders are compared")

PROPS["C25"] = dict(
    quick=200, thorough=12000, quick_tsan=100, thorough_tsan=4000, alarm=120, flavours=["asan", "tsan"], jobs=3,
    rule="case i makes constant inputs for 3-9 of 29 kinds of calls (all solvers, validations, forward kinematics, joint poses, samplers, YAML, data sets, plugins, targets, detectors and finders), "
         "lets 2-5 threads start together and make all of them on the same objects, all in the same order or each in its own, with random pauses, and compares every result with that of "
         "the call made alone afterwards; once under ASan+UBSan and once under ThreadSanitizer; non-trivial: a distinct interleaving of call starts and ends",
    least={"pairs of calls that overlapped": 3000, "concurrent results compared": 2700, "alone: random joint poses": 15, "alone: circle grid finder": 15, "alone: ArUco finder": 15,
           "alone: ChArUco finder": 15, "alone: circle detector": 15, "alone: pnp 2D": 15, "alone: hand-eye 2D": 15, "alone: hand-eye 3D": 15, "alone: kinematic 2D": 15, "alone: kinematic 6D": 15,
           "alone: homography": 15, "alone: noise statistics": 15, "alone: intrinsic calibration": 15, "alone: static cameras only": 15, "alone: data set": 15},
    assumptions=["Ceres, OpenCV and yaml-cpp are not instrumented by ThreadSanitizer: accesses made inside them are not seen, accesses made in this repository's code and in templates instantiated by it are"],
    technique="ThreadSanitizer and comparison with sequential results under randomized concurrent schedules, and ASan+UBSan on the same schedules",
    note="races are reported by ThreadSanitizer, results compared bit for bit (the multi-threaded kinematic solver up to rounding)")

PROPS["C26"] = dict(
    quick=2400, thorough=150000, alarm=120,
    rule="case i draws one part of the library (all solvers, covariance, forward kinematics, samplers and validations, projections, detectors, finders, targets and drawing), makes a sound input, spoils it "
         "(emptied, cut short, repeated, collinear, zero, behind the camera, mirrored, huge, denormal, infinite, NaN, of mismatching sizes, masked at random; images blank, tiny, of any type, "
         "cropped, noisy) and makes every call of that part on it, in a third of the cases until its memory balance settles; non-trivial: a case that differs from the others",
    least={"calls": 17000, "memory balances": 2300, "image parts compared": 70, "circle grid finder: returned": 4, "ArUco finder: returned": 80, "ChArUco finder: returned": 20, "circle detector: returned": 110,
           "kinematic 2D: returned": 80, "kinematic 2D: refused": 60, "kinematic 6D: refused": 70, "covariance: refused": 50, "covariance: returned": 30, "random joint pose: refused": 25,
           "circle grid drawing: refused": 100, "circle grid drawing: returned": 8, "hand-eye 2D: returned": 30, "pnp 2D: refused": 40, "intrinsic calibration: refused": 35,
           "static cameras only: refused": 20, "static cameras, moving target: refused": 60, "multi-camera pnp: refused": 12, "noise 2D: refused": 60, "homography, any sampler: refused": 60,
           "homography, any sampler: returned": 25, "quaternion mean: refused": 20, "circle fit: refused": 60, "forward kinematics: refused": 35, "chain with offsets: refused": 25},
    technique="degenerate and hostile inputs to every public function under ASan+UBSan with hardened containers and live assertions, exception type, memory balance and claims checked on each call",
    note="crashes, undefined behaviour, foreign exceptions, growing memory and convergence claimed for nothing are reported")

PROPS["C27"] = dict(
    quick=12000, thorough=400000, alarm=30,
    rule="case i prints a transform (any rotation, half turns, gimbal lock) and a difference of two, or results, intrinsics, distortion and a title, or a covariance of 1-6 parameters with a "
         "threshold, captures what is written to the stream and reads the numbers back; non-trivial: every print",
    least={"transforms": 1900, "differences": 1900, "rotations printed": 5700, "results printed": 1900, "titles": 1900, "covariance entries printed": 20000, "threshold prints": 1000},
    technique="captured output parsed back and compared with the values given, under ASan+UBSan",
    note="every number printed is read back and compared with the value it stands for")
PROPS["C28"] = dict(
    quick=360, thorough=5400, alarm=400,
    rule="case i prepares a scratch directory with rendered pictures (circle grids or ChArUco boards in known poses; blank, partly covered and bent ones among them), "
         "pose files and parameters, runs one of the nine stand-alone tools of rct_examples as its own program under the sanitizers, and reads what it printed, logged and "
         "showed; every fourth case takes one thing away (a parameter, a data set, the finder type, all images) and requires the refusal; non-trivial: a completed calibration",
    least={"tool runs": 150, "refusals": 20, "hand eye runs": 20, "intrinsic runs": 8, "validation runs": 5, "noise runs": 8, "pnp runs": 8, "multi camera pnp runs": 8, "multi static runs": 8,
           "multi step runs": 6, "bent images left out": 3, "pictures judged": 400, "compared with the truth": 30},
    technique="whole programs run under ASan+UBSan on rendered data sets; their printed results compared with the known truth and the library",
    note="every completed run is compared, number by number, with the result the library gives for exactly the images and poses that belong to it, and loosely with the truth; every fault must be refused")
PROPS["C29"] = dict(
    quick=3000, thorough=200000, alarm=60,
    rule="case i plays one session against the data collection node itself (its main program, with stand-ins for frames, topics and services): 6-24 events out of pictures in seven encodings "
         "(some damaged), robot motion, transforms lost and found, collections, saves and obstacles to saving, ending with a save; every sixth case takes one thing away at the start; "
         "non-trivial: a session that ends with at least two collected pairs",
    least={"sessions": 2400, "pictures": 8000, "damaged pictures": 1000, "pairs collected": 4500, "nothing to collect": 3500, "saves": 3000, "failed saves": 400, "saved pairs judged": 6000, "targets seen": 1000, "no target": 5000, "refused starts": 480},
    technique="online monitor of the node's event history (pictures, motion, collections, saves) against a model, saved files read back, under ASan+UBSan",
    note="after every event the node's answers, its observer picture and, after saves, the whole directory are compared with a model of the history")
