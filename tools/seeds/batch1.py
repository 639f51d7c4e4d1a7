RO='rct_optimizations/src/rct_optimizations/'; RI='rct_optimizations/include/rct_optimizations/'
seed('c01-mcpnp-intrinsics','C01','two cameras with different intrinsics observing the target',
 'Multi-camera PnP projects with the intrinsics of the first camera, so the pose is wrong when the cameras differ.',
 [(RO+'multi_camera_pnp.cpp','const auto& intr = params.intr[c];','const auto& intr = params.intr.front();')],
 '''
 #include <rct_optimizations/experimental/multi_camera_pnp.h>
 int main() {
   MultiCameraPnPProblem p; p.intr = {cam(550), cam(900, 500, 400)};
   p.base_to_camera = {P(0,0,0), P(0.4,0,0,0,-0.3,0)};
   auto truth = P(-0.1,-0.05,0.9,0.2,0.1,0.3);
   for (int c = 0; c < 2; ++c) p.image_observations.push_back(see(p.intr[c], p.base_to_camera[c].inverse()*truth, grid()));
   p.base_to_target_guess = truth * P(0.02,-0.01,0.02,0.03,-0.02,0.04);
   auto r = optimize(p);
   if (!r.converged || dist(r.base_to_target, truth) > 1e-4) return bad("pose", dist(r.base_to_target, truth));
   return 0; }
 ''')
seed('c03-wrist-only-correction','C03','several cameras with different guessed poses and a correction that is not the identity',
 'The common correction is applied in each camera frame instead of the base frame (in the cost and in the answer), so the relative poses of the cameras change.',
 [(RO+'extrinsic_multi_static_camera_wrist_only.cpp','''    transformPoint(camera_angle_axis, camera_position, world_point, camera_point_orig);
    poseTransformPoint(camera_to_base_orig_, camera_point_orig, camera_point);''','''    poseTransformPoint(camera_to_base_orig_, world_point, camera_point_orig);
    transformPoint(camera_angle_axis, camera_position, camera_point_orig, camera_point);'''),
  (RO+'extrinsic_multi_static_camera_wrist_only.cpp','base_to_camera_correction * params.base_to_camera_guess[i]','params.base_to_camera_guess[i] * base_to_camera_correction')],
 '''
 #include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
 int main() {
   ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
   std::vector<Eigen::Isometry3d> cams = {P(0,0,0), P(0.5,0.1,0,0.1,-0.4,0)}; p.intr = {cam(), cam(700)};
   auto w2t = P(0.01,0.02,0.05,0.1,0,0.2);
   for (int i = 0; i < 8; ++i) p.wrist_poses.push_back(P(0.05*std::sin(i),0.05*std::cos(2*i),0.9+0.02*i,0.3*std::sin(i),0.3*std::cos(i*1.3),0.4*std::sin(2*i)));
   p.image_observations.resize(2);
   for (int c = 0; c < 2; ++c) for (auto& w : p.wrist_poses) p.image_observations[c].push_back(see(p.intr[c], cams[c].inverse()*w*w2t, grid()));
   auto off = P(0.03,-0.02,0.02,0.03,0.02,-0.04);
   for (auto& c : cams) p.base_to_camera_guess.push_back(off*c);
   p.wrist_to_target_guess = w2t * P(0.01,0.01,-0.01,0.02,0.03,0.02);
   auto r = optimize(p);
   double rel = dist(r.base_to_camera[0].inverse()*r.base_to_camera[1], cams[0].inverse()*cams[1]);
   if (rel > 1e-6) return bad("relative pose", rel);
   if (dist(r.base_to_camera[1], cams[1]) > 1e-3) return bad("camera", dist(r.base_to_camera[1], cams[1]));
   return 0; }
 ''')
seed('c06-robust-loss','C06','noisy points whose squared-radius residuals exceed one',
 'A robust loss limits the influence of far points, so the answer no longer minimises the stated sum of squares.',
 [(RO+'circle_fit.cpp','ceres::LossFunction* loss_fn = nullptr;','''ceres::HuberLoss huber(1.0);
  ceres::LossFunction* loss_fn = &huber;'''),
  (RO+'circle_fit.cpp','ceres::Problem problem;','''ceres::Problem::Options problem_options;
  problem_options.loss_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
  ceres::Problem problem(problem_options);''')],
 '''
 #include <rct_optimizations/circle_fit.h>
 int main() {
   CircleFitProblem p; std::mt19937 g(3); std::normal_distribution<double> n(0, 0.4);
   for (int i = 0; i < 24; ++i) { double a = i*0.26; p.observations.emplace_back(3+8*std::cos(a)+n(g), -2+8*std::sin(a)+n(g)); }
   p.x_center_initial = 3.2; p.y_center_initial = -1.9; p.radius_initial = 7.5;
   auto r = optimize(p);
   auto cost = [&](double x, double y, double R) { double s = 0; for (auto& o : p.observations) { double d = (o-Eigen::Vector2d(x,y)).squaredNorm()-R*R; s += d*d; } return s; };
   double c = cost(r.x_center, r.y_center, r.radius);
   for (int i = 0; i < 300; ++i) if (cost(r.x_center+0.05*n(g), r.y_center+0.05*n(g), r.radius+0.05*n(g)) < c*(1-1e-5)) return bad("not a minimum");
   return 0; }
 ''')
seed('c07-cost-per-feature','C07','any 3D pose problem that is not fitted exactly',
 'The 3D pose solver divides its cost by two residuals per feature although a 3D feature has three.',
 [(RO+'pnp.cpp','''  result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
  result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
  result.camera_to_target = Eigen::Translation3d(cam_to_tgt_translation) *
                            Eigen::AngleAxisd(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());

  // compose labels "camera_to_target_x", etc.
  std::vector<std::string> labels_camera_to_target_guess_translation;
  for (auto label_t : params.labels_translation)
  {
    labels_camera_to_target_guess_translation.emplace_back(params.label_camera_to_target_guess + "_" + label_t);
  }

  // compose labels "camera_to_target_qx", etc.
  std::vector<std::string> labels_camera_to_target_guess_quaternion;
  for (auto label_r : params.labels_rotation)
  {
    labels_camera_to_target_guess_quaternion.emplace_back(params.label_camera_to_target_guess + "_" + label_r);
  }
  std::map<const double*, std::vector<std::string>> param_labels;
  param_labels[cam_to_tgt_translation.data()] = labels_camera_to_target_guess_translation;
  param_labels[cam_to_tgt_angle_axis.data()] = labels_camera_to_target_guess_quaternion;

  result.covariance = rct_optimizations::computeCovariance(
      problem,
      std::vector<const double*>({ cam_to_tgt_translation.data(), cam_to_tgt_angle_axis.data() }),
      param_labels);

  return result;
}
}  // namespace''','''  const double num_residuals = 2.0 * static_cast<double>(params.correspondences.size());
  result.initial_cost_per_obs = summary.initial_cost / num_residuals;
  result.final_cost_per_obs = summary.final_cost / num_residuals;
  result.camera_to_target = Eigen::Translation3d(cam_to_tgt_translation) *
                            Eigen::AngleAxisd(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());

  // compose labels "camera_to_target_x", etc.
  std::vector<std::string> labels_camera_to_target_guess_translation;
  for (auto label_t : params.labels_translation)
  {
    labels_camera_to_target_guess_translation.emplace_back(params.label_camera_to_target_guess + "_" + label_t);
  }

  // compose labels "camera_to_target_qx", etc.
  std::vector<std::string> labels_camera_to_target_guess_quaternion;
  for (auto label_r : params.labels_rotation)
  {
    labels_camera_to_target_guess_quaternion.emplace_back(params.label_camera_to_target_guess + "_" + label_r);
  }
  std::map<const double*, std::vector<std::string>> param_labels;
  param_labels[cam_to_tgt_translation.data()] = labels_camera_to_target_guess_translation;
  param_labels[cam_to_tgt_angle_axis.data()] = labels_camera_to_target_guess_quaternion;

  result.covariance = rct_optimizations::computeCovariance(
      problem,
      std::vector<const double*>({ cam_to_tgt_translation.data(), cam_to_tgt_angle_axis.data() }),
      param_labels);

  return result;
}
}  // namespace''')],
 '''
 #include <rct_optimizations/pnp.h>
 int main() {
   PnPProblem3D p; auto truth = P(0.1,0.2,0.8,0.3,0.2,0.1); p.correspondences = see3(truth, grid());
   std::mt19937 g(1); std::normal_distribution<double> n(0, 0.002);
   for (auto& c : p.correspondences) c.in_image += Eigen::Vector3d(n(g), n(g), n(g));
   p.camera_to_target_guess = truth * P(0.01,0.02,0.01,0.02,0.03,0.01);
   auto r = optimize(p);
   auto cost = [&](const Eigen::Isometry3d& t) { double s = 0; for (auto& c : p.correspondences) s += (t*c.in_target-c.in_image).squaredNorm(); return 0.5*s/(3.0*p.correspondences.size()); };
   if (std::abs(cost(r.camera_to_target)/r.final_cost_per_obs-1) > 1e-6) return bad("final cost", cost(r.camera_to_target)/r.final_cost_per_obs);
   if (std::abs(cost(p.camera_to_target_guess)/r.initial_cost_per_obs-1) > 1e-6) return bad("initial cost");
   return 0; }
 ''')
seed('c09-threshold-sign','C09','a negative correlation stronger than the threshold',
 'The sort of correlations beyond a threshold ignores the magnitude of negative ones.',
 [(RI+'covariance_types.h','return std::abs(a.value) > std::abs(b.value);','return a.value > b.value;')],
 '''
 #include <rct_optimizations/covariance_types.h>
 int main() {
   CovarianceResult r;
   double v[] = {0.5, -0.95, 0.2, -0.4, 0.8};
   for (int i = 0; i < 5; ++i) { NamedParam p; p.names = {"a"+std::to_string(i), "b"}; p.value = v[i]; r.correlation_coeffs.push_back(p); }
   auto o = r.getCorrelationCoeffOutsideThreshold(0.3);
   if (o.size() != 4) return bad("count", o.size());
   for (size_t i = 1; i < o.size(); ++i) if (std::abs(o[i].value) > std::abs(o[i-1].value)) return bad("order", i);
   return 0; }
 ''')
seed('c10-linear-offset','C10','a linear joint with an offset of its d parameter',
 'The d offset of a linear joint is replaced by the joint value instead of being added to it.',
 [(RI+'dh_chain.h','updated_params(0) += joint_value;','updated_params(0) = T(params(0)) + joint_value;')],
 '''
 #include <rct_optimizations/dh_chain.h>
 int main() {
   std::vector<DHTransform> t{DHTransform(Eigen::Vector4d(0.1,0.2,0.3,0.4), DHJointType::LINEAR, "j0", 1)};
   DHChain chain(t);
   Eigen::VectorXd j(1); j << 0.25;
   Eigen::MatrixX4d off(1,4); off << 0.07, 0.01, 0.02, 0.03;
   Eigen::Matrix<double,-1,4> o = off;
   DHChain shifted(chain, off);
   double d = dist(chain.getFK<double>(j, o), shifted.getFK<double>(j));
   if (d > 1e-9) return bad("offset", d);
   return 0; }
 ''')
seed('c11-half-turn','C11','a rotation of exactly or almost half a turn',
 'The six-parameter form wraps rotations of almost half a turn to the negative axis without changing the angle.',
 [(RO+'eigen_conversions.cpp','Eigen::Vector3d a = aa.axis() * aa.angle();','''Eigen::Vector3d a = aa.axis() * aa.angle();
  if (aa.angle() > M_PI - 1.0e-4 && a.sum() < 0.0)
    a = -a;  // Half turns about opposite axes are the same rotation''')],
 '''
 #include <rct_optimizations/eigen_conversions.h>
 int main() {
   for (double e : {0.0, 1e-6, 1e-4, 2e-3}) for (int s = -1; s <= 1; s += 2) {
     Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
     p.linear() = Eigen::AngleAxisd(M_PI - e, s*Eigen::Vector3d(0.3,0.9,-0.2).normalized()).toRotationMatrix();
     double d = dist(poseCalToEigen(poseEigenToCal(p)), p);
     if (d > 1e-9) return bad("half turn", d);
   }
   return 0; }
 ''')
seed('c12-kinematic-measurement','C12','two measurements that differ in a camera joint only',
 'Measurements with equal target joints compare equal whatever the camera joints are.',
 [(RI+'types.h','''camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
           target_chain_joints.isApprox(rhs.target_chain_joints);''','''camera_to_target.isApprox(rhs.camera_to_target) &&
           (target_chain_joints.size() > 0 ? target_chain_joints.isApprox(rhs.target_chain_joints) :
                                             camera_chain_joints.isApprox(rhs.camera_chain_joints));''')],
 '''
 int main() {
   KinematicMeasurement a; a.camera_to_target = P(1,2,3); a.camera_chain_joints = Eigen::VectorXd::Ones(3); a.target_chain_joints = Eigen::VectorXd::Ones(2);
   auto b = a; if (!(a == b)) return bad("copy");
   b.camera_chain_joints(1) = 4; if (a == b) return bad("camera joint");
   b = a; b.target_chain_joints(0) = 2; if (a == b) return bad("target joint");
   return 0; }
 ''')
seed('c13-intrinsics-order','C13','a camera with different focal lengths in x and y stored in an observation problem',
 'Intrinsics are read with their vertical focal length taken from fx when both differ by less than a thousandth.',
 [(RI+'serialization/types.h','''    rhs.fy() = node["fy"].as<double>();
''','''    rhs.fy() = node["fy"].as<double>();

    // Nearly square pixels
    if (std::abs(rhs.fx() - rhs.fy()) < 1.0e-3 * rhs.fx())
      rhs.fy() = rhs.fx();
''')],
 '''
 #include <rct_optimizations/serialization/types.h>
 int main() {
   auto k = cam(550.25, 320, 240, 550.0);
   auto r = YAML::Node(k).as<CameraIntrinsics>();
   if (std::abs(r.fy()-k.fy()) > 1e-9) return bad("fy", r.fy());
   return 0; }
 ''')
seed('c15-grid-columns','C15','a grid with different row and column counts',
 'The grid sampler takes the upper right corner with the row count, which is another column of a grid that is not square.',
 [(RO+'validation/homography_validation.cpp','std::size_t upper_right_idx = (cols - 1) * stride;','std::size_t upper_right_idx = (std::min(rows, cols) - 1) * stride;')],
 '''
 #include <rct_optimizations/validation/homography_validation.h>
 int main() {
   for (size_t r = 2; r < 8; ++r) for (size_t c = 2; c < 9; ++c) for (size_t s : {1, 4}) { if (r*c < 8) continue;
     auto i = GridCorrespondenceSampler(r, c, s).getSampleCorrespondenceIndices();
     if (i != std::vector<size_t>({0, (c-1)*s, (r-1)*c*s, (r*c-1)*s})) return bad("corners", r*100+c); }
   return 0; }
 ''')
seed('c16-hemisphere','C16','per-image rotations whose quaternions have different signs',
 'Quaternions with a negative real part are given half the weight in the average.',
 [(RO+'validation/noise_qualification.cpp','    M += q.coeffs() * q.coeffs().transpose();','    M += q.coeffs() * q.coeffs().transpose() * (q.w() < 0.0 ? 0.5 : 1.0);')],
 '''
 #include <rct_optimizations/validation/noise_qualification.h>
 int main() {
   std::mt19937 g(2); std::normal_distribution<double> n;
   std::vector<Eigen::Quaterniond> q;
   for (int i = 0; i < 7; ++i) { Eigen::Quaterniond x(n(g), n(g), n(g), n(g)); x.normalize(); q.push_back(x); }
   auto a = computeQuaternionMean(q);
   for (size_t i = 0; i < q.size(); ++i) { auto p = q; p[i].coeffs() *= -1; auto b = computeQuaternionMean(p); if (a.angularDistance(b) > 1e-6) return bad("sign", a.angularDistance(b)); }
   return 0; }
 ''')
seed('c17-base-transform','C17','a target base that is not the camera base',
 'The starting guess applies the base transform on the other side of the target mount pose, so it is wrong unless they commute.',
 [(RO+'validation/camera_intrinsic_calibration_validation.cpp','camera_base_to_target_base * obs.to_target_mount * target_mount_to_target','obs.to_target_mount * camera_base_to_target_base * target_mount_to_target')],
 '''
 #include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
 int main() {
   auto k = cam(); auto c2t = P(-0.1,-0.05,0.7,0.2,0.1,0.1), tm = P(0.01,0.02,0.03,0.1,0.2,0.1), cm = P(0.02,0,0.05,0,0,0.3), b = P(1,0.5,-0.3,0.2,0.4,2.5);
   Observation2D3D::Set obs;
   for (int i = 0; i < 4; ++i) { Observation2D3D o; o.to_target_mount = P(0.6*i,-0.4,0.8,0.5*i,1.0-i,1.1*i); auto t = c2t*P(0.01*i,0,0.03*i,0.1*i,0,0.05*i);
     o.to_camera_mount = b*o.to_target_mount*tm*t.inverse()*cm.inverse(); o.correspondence_set = see(k, t, grid()); obs.push_back(o); }
   try { auto r = measureIntrinsicCalibrationAccuracy(obs, k, cm, tm, b, 1.0);
     if (!(r.pos_error.first < 1e-4 && r.ang_error.first < 1e-4)) return bad("accuracy", r.pos_error.first); }
   catch (const std::exception& e) { return bad(e.what()); }
   return 0; }
 ''')
seed('c18-antiparallel','C18','a viewing direction against the plane normal',
 'Lines that run against the plane normal are refused as parallel.',
 [(RO+'validation/projection.cpp','if (std::abs(dp) < epsilon)','if (dp < epsilon && dp > -10.0 * epsilon)')],
 '''
 #include <rct_optimizations/validation/projection.h>
 int main() {
   for (double s : {1.0, -1.0}) { Eigen::Vector3d n(0,0,s), l = Eigen::Vector3d(1,0,-3e-6).normalized();
     try { auto p = computeLinePlaneIntersection(n, Eigen::Vector3d(0,0,0), l, Eigen::Vector3d(0,0,1e-3));
       if (std::abs(p.z()) > 1e-9) return bad("plane", p.z()); } catch (const std::exception&) { return bad("refused", s); } }
   return 0; }
 ''')
