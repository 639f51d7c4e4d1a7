RO='rct_optimizations/src/rct_optimizations/'; RI='rct_optimizations/include/rct_optimizations/'
IM='rct_image_tools/src/rct_image_tools/'; RT='rct_ros_tools/src/'
seed('c01-empty-camera','C01','several cameras, one of which does not see the target and is not the last',
 'Cameras after one that does not see the target are ignored.',
 [(RO+'multi_camera_pnp.cpp','''  for (std::size_t c = 0; c < params.base_to_camera.size(); ++c)  // For each camera
  {''','''  // For each camera that sees the target
  for (std::size_t c = 0; c < params.base_to_camera.size() && !params.image_observations[c].empty(); ++c)
  {''')],
 '''
 #include <rct_optimizations/experimental/multi_camera_pnp.h>
 int main() {
   MultiCameraPnPProblem p; auto t = P(0.1, 0.2, 0.05, 0.1, 0.2, 0.3);
   for (int c = 0; c < 3; ++c) { p.intr.push_back(cam()); p.base_to_camera.push_back(P(0.3*(c-1)+0.15, 0.1, 1.2, M_PI, 0.1*(1-c), 0)); 
     p.image_observations.push_back(c == 1 ? Correspondence2D3D::Set() : see(cam(), p.base_to_camera.back().inverse()*t, grid())); }
   // The first camera sees two dots only: the others are needed
   p.image_observations[0].resize(2);
   p.base_to_target_guess = t*P(0.01,0.01,-0.01,0.03,0,0.02);
   auto r = optimize(p);
   if (!r.converged || (r.base_to_target.translation()-t.translation()).norm() > 1e-4) return bad("pose", (r.base_to_target.translation()-t.translation()).norm());
   return 0; }
 ''')
seed('c09-tiny-deviation','C09','a parameter whose standard deviation is below 1e-6 of its unit',
 'Correlations of well determined parameters are not normalised.',
 [(RO+'covariance_analysis.cpp','''        const double scale_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
        const double scale_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;''','''        const double scale_i = sigma_i < std::numeric_limits<float>::epsilon() ? 1 : sigma_i;
        const double scale_j = sigma_j < std::numeric_limits<float>::epsilon() ? 1 : sigma_j;''')],
 '''
 #include <rct_optimizations/covariance_analysis.h>
 int main() {
   Eigen::Matrix2d c; c << 4e-16, 3e-16, 3e-16, 9e-16;
   auto m = computeCorrelationsFromCovariance(c);
   if (std::abs(m(0,1) - 0.5) > 1e-6) return bad("correlation", m(0,1));
   return 0; }
 ''')
seed('c09-ten-cameras','C09','more than ten cameras',
 'The labels of the eleventh camera are those of the second one.',
 [(RO+'extrinsic_multi_static_camera.cpp','std::to_string(index_camera) + "_" +','char(\'0\' + index_camera % 10) + "_" +')],
 '''
 #include <rct_optimizations/extrinsic_multi_static_camera.h>
 #include <set>
 int main() {
   ExtrinsicMultiStaticCameraMovingTargetProblem p; auto w = P(0.02, 0.01, 0.1, 0.1, 0, 0.2);
   for (int c = 0; c < 12; ++c) { p.intr.push_back(cam()); auto b = P(0.05*(c-6), 0.1, 1.2, M_PI, 0.02*(c-6), 0.1*c); p.base_to_camera_guess.push_back(b*P(0.01,0,0,0,0.01,0));
     p.wrist_poses.emplace_back(); p.image_observations.emplace_back();
     for (int i = 0; i < 5; ++i) { auto q = P(0.02*i, 0.01*i, 0, 0.3*(i-2), 0.2*(i%3-1), 0.4*i); p.wrist_poses.back().push_back(q); p.image_observations.back().push_back(see(cam(), b.inverse()*q*w, grid())); } }
   p.wrist_to_target_guess = w*P(0,0.01,0,0,0,0.01);
   auto r = optimize(p); std::set<std::string> s; for (auto& d : r.covariance.standard_deviations) s.insert(d.names.first);
   if (s.size() != 12*6+6) return bad("names", s.size());
   return 0; }
 ''')
seed('c15-second-call','C15','a random sampler that is asked twice',
 'The random sampler keeps its generator between calls, so that its choice depends on how often samples were drawn before.',
 [(RO+'validation/homography_validation.cpp','  std::mt19937 rand_gen(seed);','''  static thread_local std::mt19937 rand_gen;
  static thread_local unsigned used_seed = 0;
  if (used_seed != seed)
  {
    rand_gen.seed(seed);
    used_seed = seed;
  }''')],
 '''
 #include <rct_optimizations/validation/homography_validation.h>
 int main() {
   RandomCorrespondenceSampler a(60, 8, 5), b(60, 8, 5);
   if (a.getSampleCorrespondenceIndices() != a.getSampleCorrespondenceIndices()) return bad("same sampler");
   if (a.getSampleCorrespondenceIndices() != b.getSampleCorrespondenceIndices()) return bad("same seed");
   return 0; }
 ''')
seed('c16-unconverged','C16','a problem whose solution does not converge among others that do',
 'The noise statistics include the answers of problems that did not converge.',
 [(RO+'validation/noise_qualification.cpp','''    result = rct_optimizations::optimize(prob);

    if (result.converged)''','''    result = rct_optimizations::optimize(prob);

    if (result.converged || result.camera_to_target.matrix().allFinite())''')],
 '''
 #include <rct_optimizations/validation/noise_qualification.h>
 #include <rct_optimizations/pnp.h>
 int main() {
   std::vector<PnPProblem> v, w; auto t = P(0.1, 0.2, 1.5, 0.2, 0.1, 0.3); auto k = cam(); std::mt19937 g(5); std::uniform_real_distribution<double> u(-3, 3); int lost = 0;
   for (int i = 0; i < 400 && (i < 5 || lost == 0); ++i) { PnPProblem p; p.intr = k; auto q = t*P(0.001*(i%7),0,0,0,0,0.001*(i%5)); p.correspondences = see(k, q, grid()); p.camera_to_target_guess = t;
     if (i > 3) p.camera_to_target_guess = P(u(g), u(g), u(g), u(g), u(g), u(g));
     try { bool ok = optimize(p).converged; if (i > 3 && ok) continue; if (ok) w.push_back(p); else ++lost; v.push_back(p); } catch (const std::exception&) {} }
   if (lost != 1 || w.size() != 4) return bad("setup", lost);
   auto a = qualifyNoise2D(v), b = qualifyNoise2D(w);
   if (!((a.p_stat.mean-b.p_stat.mean).norm() < 1e-9)) return bad("mean", (a.p_stat.mean-b.p_stat.mean).norm());
   return 0; }
 ''')
seed('c17-odd-middle','C17','an odd number of features',
 'The feature in the middle of an odd number of features is left out of both halves.',
 [(RO+'validation/camera_intrinsic_calibration_validation.cpp','set_2(correspondences.begin() + half_size, correspondences.end());','set_2(correspondences.end() - half_size, correspondences.end());')],
 '''
 #include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
 #include <rct_optimizations/pnp.h>
 int main() {
   auto k = cam(); auto c2t = P(-0.1,-0.05,0.7,0.2,0.1,0.1); auto s = see(k, c2t, grid(5,5)); std::mt19937 g(3); std::normal_distribution<double> n(0, 0.3);
   for (auto& q : s) q.in_image += Eigen::Vector2d(n(g), n(g));
   auto r = measureVirtualTargetDiff(s, k, c2t, 10.0);
   PnPProblem a, b; a.intr = b.intr = k; a.camera_to_target_guess = b.camera_to_target_guess = c2t;
   a.correspondences.assign(s.begin(), s.begin()+12); b.correspondences.assign(s.begin()+12, s.end());
   auto d = optimize(a).camera_to_target.inverse()*optimize(b).camera_to_target;
   if ((d.translation()-r.t1_to_t2.translation()).norm() > 1e-7) return bad("difference", (d.translation()-r.t1_to_t2.translation()).norm());
   return 0; }
 ''')
seed('c19-small-contours','C19','specks in an image searched without the area filter',
 'The detector fails on specks with too few border points for an ellipse.',
 [(IM+'circle_detector.cpp','return contour.size() < 5; }','return contour.size() < 4; }')],
 '''
 #include <opencv2/imgproc.hpp>
 #include <rct_image_tools/circle_detector.h>
 int main() {
   cv::Mat im(200, 200, CV_8UC1, cv::Scalar(255)); cv::circle(im, {100,100}, 20, cv::Scalar(0), -1);
   im.at<uchar>(20,20) = 0;
   rct_image_tools::CircleDetectorParams p; p.filterByArea = false;
   std::vector<cv::KeyPoint> k; auto d = rct_image_tools::CircleDetector::create(p);
   try { d->detect(im, k); } catch (const std::exception& e) { return bad("refused"); }
   for (auto& q : k) if (std::hypot(q.pt.x-100, q.pt.y-100) < 1 && std::abs(q.size-40) < 3) return 0;
   return bad("disc", k.size()); }
 ''', libs='img')
seed('c23-hundred-images','C23','a data set of more than a hundred images',
 'The names of the pictures of a data set are cut to two digits, so that later pictures replace earlier ones.',
 [(RT+'data_set.cpp','n["image"] = "images/" + std::to_string(i) + ".png";','n["image"] = "images/" + std::to_string(i).substr(0, 2) + ".png";'),
  (RT+'data_set.cpp','auto name = path + "/images/" + std::to_string(i) + ".png";','auto name = path + "/images/" + std::to_string(i).substr(0, 2) + ".png";')],
 '''
 #include <rct_ros_tools/data_set.h>
 int main() {
   rct_ros_tools::ExtrinsicDataSet d;
   for (int i = 0; i < 120; ++i) { d.images.emplace_back(4, 3, CV_8UC3, cv::Scalar(i, 0, 0)); d.tool_poses.push_back(P(i,0,0)); }
   if (!rct_ros_tools::saveToDirectory("set", d)) return bad("save");
   auto r = rct_ros_tools::parseFromFile("set/data.yaml");
   if (!r || r->images.size() != 120 || r->tool_poses.size() != 120) return bad("pairs");
   for (std::size_t i = 0; i < r->images.size(); ++i) if (r->images[i].at<cv::Vec3b>(0,0)[0] != i || std::lround(r->tool_poses[i].translation().x()) != long(i)) return bad("pair", i);
   return 0; }
 ''', libs='img', srcs='"$R/rct_ros_tools/src/data_set.cpp" "$R/rct_ros_tools/src/parameter_loaders.cpp" -lopencv_highgui', ros=True)
seed('c26-sampler-index','C26','a sampler made for more features than are given',
 'Sampled features are read without checking that they exist.',
 [(RO+'validation/homography_validation.cpp','correspondences.at(corr_idx);','*(correspondences.data() + corr_idx);')],
 '''
 #include <rct_optimizations/validation/homography_validation.h>
 int main() {
   auto s = see(cam(), P(0,0,1), grid(4,4)); s.shrink_to_fit();
   for (unsigned seed = 1; seed < 20; ++seed) {
     RandomCorrespondenceSampler a(100000, 4, seed);
     bool out = false; for (auto i : a.getSampleCorrespondenceIndices()) out |= i >= s.size();
     bool refused = false; try { calculateHomographyError(s, a); } catch (const std::exception&) { refused = true; }
     if (refused != out) return bad("refused", refused); }
   return 0; }
 ''')
