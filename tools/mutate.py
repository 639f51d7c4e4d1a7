#!/usr/bin/env python3
"""mutate.py TREE N SEED [file-regex]: development aid. Applies N random one-line changes, one at a time, to the worktree TREE
(a scratch copy, never /repo), runs the checks that cover the file with few cases, and logs which changes nothing noticed."""
import glob, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))  # (best a copy of /verif, when that is being edited)
sys.path.insert(0, HERE)
TREE, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILT = sys.argv[4] if len(sys.argv) > 4 else ""
O = "rct_optimizations/src/rct_optimizations/"; OI = "rct_optimizations/include/rct_optimizations/"
I = "rct_image_tools/src/rct_image_tools/"; II = "rct_image_tools/include/rct_image_tools/"; R = "rct_ros_tools/src/"
MAP = {O+"pnp.cpp": "C01 C07 C09 C26", O+"multi_camera_pnp.cpp": "C01 C07 C26", O+"extrinsic_hand_eye.cpp": "C02 C07 C09 C26",
  O+"extrinsic_multi_static_camera.cpp": "C03 C07 C09 C26", O+"extrinsic_multi_static_camera_only.cpp": "C03 C07 C26", O+"extrinsic_multi_static_camera_wrist_only.cpp": "C03 C07 C26",
  O+"camera_intrinsic.cpp": "C04 C07 C09 C26", O+"circle_fit.cpp": "C06 C09 C26", OI+"circle_fit.h": "C06 C09", O+"covariance_analysis.cpp": "C09 C26", OI+"covariance_types.h": "C09 C27",
  O+"dh_chain.cpp": "C10 C05 C26", OI+"dh_chain.h": "C10 C05 C26", O+"dh_chain_kinematic_calibration.cpp": "C05 C07 C09 C26", OI+"dh_chain_kinematic_calibration.h": "C05 C12 C07 C09 C26",
  OI+"types.h": "C12 C11 C04", OI+"extrinsic_hand_eye.h": "C12 C02 C07", OI+"ceres_math_utilities.h": "C11 C01 C02 C03", O+"eigen_conversions.cpp": "C11 C01", OI+"serialization/eigen.h": "C13 C14", OI+"serialization/types.h": "C13 C14",
  OI+"serialization/problems.h": "C13 C14", OI+"maximum_likelihood.h": "C12 C05", OI+"local_parameterization.h": "C05 C11 C26",
  O+"validation/projection.cpp": "C18 C26", O+"validation/camera_intrinsic_calibration_validation.cpp": "C17 C26", O+"validation/noise_qualification.cpp": "C16 C26",
  O+"validation/homography_validation.cpp": "C15 C26", I+"circle_detector.cpp": "C19 C24 C20 C26", I+"modified_circle_grid_finder.cpp": "C20 C22 C26", I+"modified_circle_grid_target.cpp": "C22 C12 C20 C24",
  I+"aruco_finder.cpp": "C21 C26", I+"charuco_finder.cpp": "C21 C26", I+"aruco_grid_target.cpp": "C22 C12 C21", I+"charuco_grid_target.cpp": "C22 C12 C24 C21", II+"image_utils.h": "C11 C21",
  R+"data_set.cpp": "C23", R+"loader_utils.cpp": "C24 C23", R+"parameter_loaders.cpp": "C23", R+"target_loader_plugins.cpp": "C24", "rct_common/include/rct_common/print_utils.h": "C27", R+"command_line_cal.cpp": "C29"}
for _t in glob.glob(TREE + "/rct_examples/src/tools/*"): MAP[os.path.relpath(_t, TREE)] = "C28"
SHARE = dict(C01=.2, C02=.2, C03=.25, C04=.5, C05=.5, C06=.3, C07=.4, C09=.4, C10=.3, C11=.3, C12=.4, C13=.4, C14=.4, C15=.3, C16=.3, C17=.3, C18=.2, C19=.4, C20=.6, C21=.3, C22=.3, C23=.5, C24=.4, C26=.5, C27=.4, C28=1, C29=1)
SUBS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
  (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b2\b", "1"), (r"\b(\d+)\.(\d+)\b", r"(2 * \1.\2)"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\.z\(\)", ".y()"), (r"\bfx", "fy"), (r"\bfy", "fx"), (r"\bcx\b", "cy"),
  (r"\brows\b", "cols"), (r"\bcols\b", "rows"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\.inverse\(\)", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"camera", "target"), (r"target", "camera"), (r"row", "col"), (r"col", "row"),
  (r"translation", "rotation"), (r"\bif \((.*)\)$", r"if (!(\1))"), (r"^(\s*)throw ", r"\1if (false) throw "), (r"(\w[\w.\[\]()]*) \* (\w[\w.\[\]()]*)", r"\2 * \1"), (r"^(\s*)[A-Za-z_][\w.\[\]>-]*(\(.*\)| [-+*/]?= .*);$", r"\1;"), (r"\+\+", "--"),
  (r"max", "min"), (r"min", "max"), (r"_rows\b", "_cols"), (r"\bi\b", "(i + 1)"), (r"\bj\b", "i"), (r"continue;", ";"), (r"break;", ";"), (r"static_cast<double>", "static_cast<int>"), (r"\bdouble\b", "float")]
def sh(cmd, t=900, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
rng = random.Random(SEED)
places = []
for f in MAP:
    if FILT and not re.search(FILT, f): continue
    incomment = False
    for n, line in enumerate(open(TREE + "/" + f)):
        s = line.rstrip("\n"); t = s.strip()
        if "/*" in t: incomment = True
        if "*/" in t: incomment = False; continue
        if incomment or not t or t.startswith(("//", "#", "*", "using", "namespace", "template", "std::cerr", "std::cout", "ROS_")) or "static_assert" in t: continue
        for a, b in SUBS:
            ms = list(re.finditer(a, s))
            for m in ms:
                new = s[:m.start()] + m.expand(b) + s[m.end():]
                if new != s: places.append((f, n, s, new))
byf = {}
for p in places: byf.setdefault(p[0], []).append(p)
print(len(places), "possible changes in", len(byf), "files", flush=True)
env = dict(os.environ, VH_REPO=TREE)
done = killed = 0
while done < N:
    f = rng.choice(sorted(byf, key=str)) if rng.random() < .5 else rng.choice(places)[0]
    p = rng.choice(byf[f])
    _, n, old, new = p
    path = TREE + "/" + f
    src = open(path).read().split("\n")
    assert src[n] == old
    src[n] = new
    open(path, "w").write("\n".join(src))
    try:
        r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + HERE + "/harness/ros_stub", "-I" + HERE + "/harness/shim"] + ["-I%s/%s/include" % (TREE, q) for q in ("rct_common", "rct_optimizations", "rct_image_tools", "rct_ros_tools")] +
                           ["-I/usr/include/eigen3", "-I/usr/include/opencv4", "-x", "c++", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: continue
        done += 1
        how = None
        t0 = time.time()
        for prop in MAP[f].split():
            full = __import__("importlib").import_module("config").PROPS[prop]["quick"]
            try:
                r = sh(["python3", HERE + "/check.py", prop, "quick", "--cases", str(int(full * SHARE[prop]))], 400, env=env)
            except subprocess.TimeoutExpired:
                how = prop + " timeout"; subprocess.run(["pkill", "-f", HERE + "/build/dev-" + os.path.basename(TREE)]); break
            if r.returncode == 1: how = prop + " " + (re.search(r"^  \[.*", r.stdout, re.M) or [""])[0][:120]; break
            if r.returncode == 3:
                if "build failed" in r.stdout: how = "build"; break
                how = prop + " NOVERDICT " + r.stdout.strip()[-150:]; break
        if how == "build": done -= 1; continue
        if how: killed += 1
        print("%s %s:%d  [%d/%d %.0fs]\n   - %s\n   + %s\n   %s" % ("killed  " if how else "SURVIVED", f, n + 1, killed, done, time.time() - t0, old.strip(), new.strip(), how or ""), flush=True)
    finally:
        subprocess.run(["git", "-C", TREE, "checkout", "-q", "--", "."])
