RO='rct_optimizations/src/rct_optimizations/'; RI='rct_optimizations/include/rct_optimizations/'
IM='rct_image_tools/src/rct_image_tools/'; RT='rct_ros_tools/src/'
seed('c02-same-place','C02','consecutive observations taken from the same place with different orientations of the camera mount',
 'Hand-eye calibration reuses the inverted camera mount pose of the previous observation when only the orientation changed.',
 [(RO+'extrinsic_hand_eye.cpp','''  ceres::Problem problem;

  for (const auto& observation : params.observations)
  {
    for (const auto& correspondence : observation.correspondence_set)
    {
      // Define
      const auto& img_obs = correspondence.in_image;
      const auto& point_in_target = correspondence.in_target;
      const auto wrist_to_base = observation.to_camera_mount.inverse();

      // Allocate Ceres data structures - ownership is taken by the ceres
      // Problem data structure
      auto* cost_fn =
          new ObservationCost2D3D(''','''  ceres::Problem problem;

  // The inverse is only needed once for each place of the camera mount
  bool have_inverse = false;
  Eigen::Vector3d inverse_of;
  Eigen::Isometry3d wrist_to_base = Eigen::Isometry3d::Identity();

  for (const auto& observation : params.observations)
  {
    for (const auto& correspondence : observation.correspondence_set)
    {
      // Define
      const auto& img_obs = correspondence.in_image;
      const auto& point_in_target = correspondence.in_target;
      if (!have_inverse || inverse_of != observation.to_camera_mount.translation())
      {
        wrist_to_base = observation.to_camera_mount.inverse();
        inverse_of = observation.to_camera_mount.translation();
        have_inverse = true;
      }

      // Allocate Ceres data structures - ownership is taken by the ceres
      // Problem data structure
      auto* cost_fn =
          new ObservationCost2D3D(''')],
 '''
 #include <rct_optimizations/extrinsic_hand_eye.h>
 int main() {
   ExtrinsicHandEyeProblem2D3D p; p.intr = cam();
   auto m2c = P(0.02,-0.01,0.05,0.1,0.05,0.2); auto t2t = P(0.9,0.05,0.1,3.0,0.1,0.2);
   for (int i = 0; i < 12; ++i) {
     Eigen::Isometry3d look = P(0.9-0.05,0.1,0.8+0.1*(i/3), M_PI,0,0)*P(0,0,0,0.15*std::sin(i*2.1),0.15*std::cos(i*1.7),0.4*std::sin(i));
     Observation2D3D o; o.to_camera_mount = look*m2c.inverse(); o.to_target_mount = Eigen::Isometry3d::Identity();
     // The wrist stays in the same place while it turns
     if (i % 3) { o.to_camera_mount.translation() = p.observations.back().to_camera_mount.translation(); }
     o.correspondence_set = see(p.intr, (o.to_camera_mount*m2c).inverse()*t2t, grid());
     p.observations.push_back(o); }
   p.camera_mount_to_camera_guess = m2c*P(0.01,0.01,-0.01,0.03,-0.02,0.03); p.target_mount_to_target_guess = t2t*P(-0.01,0.01,0.02,0.02,0.03,-0.02);
   auto r = optimize(p);
   if (!r.converged || dist(r.camera_mount_to_camera, m2c) > 1e-4 || dist(r.target_mount_to_target, t2t) > 1e-4) return bad("poses", dist(r.camera_mount_to_camera, m2c));
   return 0; }
 ''')
seed('c04-sixth-power','C04','a lens whose sixth-order radial distortion is not zero',
 'The term of k3 is evaluated with the eighth power of the radius.',
 [(RO+'camera_intrinsic.cpp','T r6 = r2 * r4;','T r6 = r4 * r4;')],
 '''
 #include <rct_optimizations/experimental/camera_intrinsic.h>
 int main() {
   IntrinsicEstimationProblem p; auto k = cam(700, 330, 250); double d[5] = {-0.08, 0.05, 0.001, -0.0015, 0.15};
   for (int i = 0; i < 24; ++i) {
     auto pose = P(-0.12+0.02*(i%3),-0.1+0.015*(i%4),0.30+0.03*(i%5),M_PI+0.35*std::sin(i*1.1),0.35*std::cos(i*1.7),0.4*std::sin(i*2.3));
     pose = P(0,0,0.36+0.03*(i%5),M_PI+0.35*std::sin(i*1.1),0.35*std::cos(i*1.7),0.4*std::sin(i*2.3)) * P(-0.135,-0.12,0);
     Correspondence2D3D::Set s;
     for (auto& q : grid(9, 10)) { Eigen::Vector3d c = pose*q; double x = c.x()/c.z(), y = c.y()/c.z(), r2 = x*x+y*y;
       double f = 1 + d[0]*r2 + d[1]*r2*r2 + d[4]*r2*r2*r2;
       double xx = x*f + 2*d[2]*x*y + d[3]*(r2+2*x*x), yy = y*f + d[2]*(r2+2*y*y) + 2*d[3]*x*y;
       s.emplace_back(Eigen::Vector2d(k.fx()*xx+k.cx(), k.fy()*yy+k.cy()), q); }
     p.image_observations.push_back(s); }
   p.intrinsics_guess = k;
   auto r = optimize(p);
   if (!r.converged) return bad("not converged");
   if (std::abs(r.distortions[4]-d[4]) > 0.01 || std::abs(r.distortions[1]-d[1]) > 0.01) return bad("k3", r.distortions[4]);
   return 0; }
 ''')
seed('c05-repeated-mask','C05','a mask that names an index twice, not next to each other, while another index of the block stays free',
 'Repeated mask indices are removed before sorting, so that a block can be held constant although one of its parameters is to be found.',
 [(RI+'local_parameterization.h','''        std::sort(mask.begin(), mask.end());
        auto last = std::unique(mask.begin(), mask.end());
        mask.erase(last, mask.end());
''','''        auto last = std::unique(mask.begin(), mask.end());
        mask.erase(last, mask.end());
        std::sort(mask.begin(), mask.end());
''')],
 '''
 #include <sstream>
 #include <algorithm>
 #include <map>
 #include <ceres/ceres.h>
 // Names of older Ceres versions, which the header is written for
 namespace ceres { using LocalParameterization = Manifold; using SubsetParameterization = SubsetManifold; }
 #define SetParameterization SetManifold
 #include <rct_optimizations/local_parameterization.h>
 using namespace rct_optimizations;
 struct Cost { template <typename T> bool operator()(const T* x, T* r) const { for (int i = 0; i < 3; ++i) r[i] = x[i] - T(i + 1); return true; } };
 int main() {
   double x[3] = {0, 0, 0}; ceres::Problem p;
   p.AddResidualBlock(new ceres::AutoDiffCostFunction<Cost, 3, 3>(new Cost), nullptr, x);
   std::map<const double*, std::vector<int>> m; m[x] = {0, 1, 0};
   addSubsetParameterization(p, m);
   ceres::Solver::Summary s; ceres::Solve(ceres::Solver::Options(), &p, &s);
   if (x[0] != 0 || x[1] != 0 || std::abs(x[2] - 3) > 1e-2) return bad("x2", x[2]);
   return 0; }
 ''', pre='mkdir -p "$tmp/stub/ceres" && : > "$tmp/stub/ceres/local_parameterization.h"')
seed('c08-warm-start','C08','a problem solved twice in one process',
 'The pose solver starts from its previous answer when the guess is the same as before, so that the reported initial cost depends on earlier calls.',
 [(RO+'pnp.cpp','''PnPResult optimize(const PnPProblem& params)
{
''','''PnPResult optimize(const PnPProblem& request)
{
  // Images of the same scene usually have the same guess: start at the last answer
  static thread_local Eigen::Isometry3d last_guess = Eigen::Isometry3d::Identity();
  static thread_local Eigen::Isometry3d last_answer = Eigen::Isometry3d::Identity();
  const bool again = request.camera_to_target_guess.matrix() == last_guess.matrix() &&
                     last_answer.matrix() != Eigen::Isometry3d::Identity().matrix();
  PnPProblem params(request);
  if (again)
    params.camera_to_target_guess = last_answer;
  last_guess = request.camera_to_target_guess;

'''),
  (RO+'pnp.cpp','''    auto* cost_block = new ceres::AutoDiffCostFunction<SolvePnPCostFunc, 2, 3, 3>(cost_fn);

    problem.AddResidualBlock(cost_block, nullptr, cam_to_tgt_angle_axis.data(), cam_to_tgt_translation.data());
  }

  ceres::Solver::Summary summary;
  ceres::Solver::Options options;
  ceres::Solve(options, &problem, &summary);

  PnPResult result;''','''    auto* cost_block = new ceres::AutoDiffCostFunction<SolvePnPCostFunc, 2, 3, 3>(cost_fn);

    problem.AddResidualBlock(cost_block, nullptr, cam_to_tgt_angle_axis.data(), cam_to_tgt_translation.data());
  }

  ceres::Solver::Summary summary;
  ceres::Solver::Options options;
  ceres::Solve(options, &problem, &summary);

  last_answer = Eigen::Translation3d(cam_to_tgt_translation) *
                Eigen::AngleAxisd(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());

  PnPResult result;''')],
 '''
 #include <rct_optimizations/pnp.h>
 int main() {
   PnPProblem p; p.intr = cam(); auto truth = P(-0.1,-0.05,0.9,0.2,0.1,0.3);
   p.correspondences = see(p.intr, truth, grid()); p.camera_to_target_guess = truth*P(0.02,-0.01,0.02,0.03,-0.02,0.04);
   auto a = optimize(p); auto b = optimize(p);
   if (a.initial_cost_per_obs != b.initial_cost_per_obs) return bad("initial cost", b.initial_cost_per_obs);
   if (a.camera_to_target.matrix() != b.camera_to_target.matrix()) return bad("pose");
   return 0; }
 ''')
seed('c14-joint-type','C14','a saved chain with a joint type that does not exist',
 'A joint of unknown type is read as a revolute joint instead of being refused.',
 [(RI+'serialization/types.h','''      case rct_optimizations::DHJointType::REVOLUTE:
        val.type = rct_optimizations::DHJointType::REVOLUTE;
        break;
      default:
        throw std::runtime_error("Invalid joint type");''','''      case rct_optimizations::DHJointType::REVOLUTE:
      default:
        val.type = rct_optimizations::DHJointType::REVOLUTE;
        break;''')],
 '''
 #include <rct_optimizations/serialization/types.h>
 int main() {
   auto n = YAML::Load("{type: 3, d: 0.1, theta: 0.2, r: 0.3, alpha: 0.4, joint_name: a}");
   try { n.as<DHTransform>(); } catch (const std::exception&) { return 0; }
   return bad("read"); }
 ''')
IMGHEAD='''
 #include <opencv2/imgproc.hpp>
 #include <rct_image_tools/circle_detector.h>
 using namespace rct_image_tools;
'''
seed('c19-last-threshold','C19','a circle that only the highest threshold separates from its background',
 'The thresholds no longer reach the upper end of the range.',
 [(IM+'circle_detector.cpp','(static_cast<double>(i) / (params.nThresholds - 1)) * threshold_range','(static_cast<double>(i) / params.nThresholds) * threshold_range')],
 IMGHEAD+'''
 int main() {
   cv::Mat im(200, 300, CV_8UC1, cv::Scalar(215)); cv::circle(im, {140, 90}, 22, cv::Scalar(195), -1);
   CircleDetectorParams p; p.nThresholds = 5; p.minThreshold = 40; p.maxThreshold = 200; p.minRepeatability = 1;
   p.filterByColor = true; p.circleColor = 0;
   CircleDetector d(p); std::vector<cv::KeyPoint> k; d.detect(im, k);
   if (k.size() != 1 || std::hypot(k[0].pt.x-140, k[0].pt.y-90) > 1) return bad("circle", k.size());
   return 0; }
 ''', libs='img')
seed('c20-quarter-turn','C20','a square grid whose large dot the search of OpenCV puts at the end of its last row',
 'One of the orders in which OpenCV returns the grid is undone in the wrong sequence.',
 [(IM+'modified_circle_grid_finder.cpp','''      for (std::size_t j = 0; j < temp_cols; j++)
      {
        for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
        {
          observation_points.push_back(feature_coordinates[static_cast<std::size_t>(k) * temp_cols + j]);
        }
      }''','''      for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
      {
        for (std::size_t j = 0; j < temp_cols; j++)
        {
          observation_points.push_back(feature_coordinates[static_cast<std::size_t>(k) * temp_cols + j]);
        }
      }''')],
 '''
 #include <opencv2/imgproc.hpp>
 #include <opencv2/core.hpp>
 #include <rct_image_tools/modified_circle_grid_finder.h>
 using namespace rct_image_tools;
 int main() {
   const unsigned R = 7, C = 7; ModifiedCircleGridTarget t(R, C, 0.03); ModifiedCircleGridTargetFinder f(t);
   auto pts = t.createPoints(); int seen = 0;
   // The picture and everything that quarter turns and mirrors make of it
   for (int turn = 0; turn < 4; ++turn) for (int mirror = 0; mirror < 1; ++mirror) for (int tilt = 0; tilt < 40; ++tilt) {
     cv::Mat im(700, 700, CV_8UC1, cv::Scalar(255)); std::vector<Eigen::Vector2d> at;
     double a = turn*M_PI/2 + (tilt-20)*0.035, slant = 0.1*(tilt%3), toward = tilt;
     for (unsigned i = 0; i < pts.size(); ++i) {
       double x = pts[i].x()/0.03 - (C-1)/2.0, y = -(pts[i].y()/0.03 - (R-1)/2.0); if (mirror == 1) x = -x; if (mirror == 2) y = -y;
       double w = 12 + slant*(x*std::cos(toward)+y*std::sin(toward)); Eigen::Vector2d c(350 + 600*(x*std::cos(a)-y*std::sin(a))/w, 350 + 600*(x*std::sin(a)+y*std::cos(a))/w); at.push_back(c);
       bool big = pts[i].x() == 0 && pts[i].y() == 0;
       cv::circle(im, {int(c.x()*64), int(c.y()*64)}, (big ? 20 : 10)*64, cv::Scalar(0), -1, cv::LINE_AA, 6); }
     try { auto r = f.findTargetFeatures(im); ++seen;
       // Every dot keeps its column and row distance to the large one, mirrored or not
       for (auto& kv : r) { Eigen::Vector2d z = kv.second[0]; unsigned best = 0; for (unsigned i = 0; i < at.size(); ++i) if ((at[i]-z).norm() < (at[best]-z).norm()) best = i;
         if (kv.first != best) return bad("dot", best); } }
     catch (const std::exception&) {} }
   if (seen < 20) return bad("pictures", seen);
   return 0; }
 ''', libs='img')
seed('c21-occluded-corners','C21','a picture in which part of the ChArUco board is hidden',
 'Chessboard corners are keyed by the order of detection instead of by their identity.',
 [(IM+'charuco_finder.cpp','target_features.emplace(static_cast<unsigned>(charuco_ids[i]), v_obs);','target_features.emplace(i, v_obs);')],
 '''
 #include <opencv2/imgproc.hpp>
 #include <rct_image_tools/charuco_finder.h>
 using namespace rct_image_tools;
 int main() {
   CharucoGridTarget t(7, 5, 0.03f, 0.022f, cv::aruco::DICT_6X6_250); cv::Mat b, im(900, 700, CV_8UC1, cv::Scalar(255));
   t.board->draw(cv::Size(500, 700), b, 0, 1); b.copyTo(im(cv::Rect(100, 100, 500, 700)));
   cv::rectangle(im, cv::Rect(80, 80, 260, 330), cv::Scalar(255), -1); cv::rectangle(im, cv::Rect(80, 560, 200, 300), cv::Scalar(255), -1);
   auto f = CharucoGridBoardTargetFinder(t).findTargetFeatures(im);
   if (f.size() < 3) return bad("corners", f.size());
   for (auto& kv : f) { auto q = t.points.at(kv.first)/0.03*100; Eigen::Vector2d e(100+q.x(), 100+q.y()), e2(100+q.x(), 800-q.y());
     if (std::min((kv.second[0]-e).norm(), (kv.second[0]-e2).norm()) > 6) { std::cout << kv.first << ": " << kv.second[0].transpose() << " expected " << e.transpose() << std::endl; return bad("corner", kv.first); } }
   return 0; }
 ''', libs='img')
seed('c22-first-marker','C22','an ArUco board whose markers do not start at zero',
 'The points of an ArUco board are keyed by the position of the marker on the board instead of the marker id.',
 [(IM+'aruco_grid_target.cpp','map_ids_to_corners.insert(std::make_pair(board->ids[i], obj_pts));','map_ids_to_corners.insert(std::make_pair(static_cast<int>(i), obj_pts));')],
 '''
 #include <opencv2/imgproc.hpp>
 #include <rct_image_tools/aruco_grid_target.h>
 using namespace rct_image_tools;
 int main() {
   auto b = cv::aruco::GridBoard::create(3, 4, 0.04f, 0.01f, cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250), 3);
   ArucoGridTarget t(b); TargetFeatures f;
   for (unsigned i = 0; i < 9; ++i) f[b->ids[i]] = VectorEigenVector<2>(4, Eigen::Vector2d(b->ids[i], 1));
   Correspondence2D3D::Set c;
   try { c = t.createCorrespondences(f); } catch (const std::exception&) { return bad("refused"); }
   for (std::size_t i = 0; i < c.size(); ++i) { auto& q = b->objPoints[int(c[i].in_image.x())-3][i%4];
     if ((c[i].in_target-Eigen::Vector3d(q.x,q.y,q.z)).norm() > 1e-6) return bad("point", i); }
   return c.size() == 36 ? 0 : bad("size"); }
 ''', libs='img')
seed('c23-skewed-pairs','C23','a data set in which a pose file cannot be read',
 'The picture of a data set entry is kept although its pose cannot be loaded, so that later pictures get the wrong pose.',
 [(RT+'data_set.cpp','''    Eigen::Isometry3d p;
    if (''','''    data.images.push_back(image);

    Eigen::Isometry3d p;
    if ('''),
  (RT+'data_set.cpp','''    data.images.push_back(image);
    data.tool_poses.push_back(p);
  }

  return data;''','''    data.tool_poses.push_back(p);
  }

  return data;''')],
 '''
 #include <rct_ros_tools/data_set.h>
 #include <fstream>
 int main() {
   rct_ros_tools::ExtrinsicDataSet d;
   for (int i = 0; i < 4; ++i) { d.images.emplace_back(20, 30, CV_8UC3, cv::Scalar(10*i, 0, 0)); d.tool_poses.push_back(P(i,0,0)); }
   if (!rct_ros_tools::saveToDirectory("set", d)) return bad("save");
   std::ofstream("set/poses/1.yaml") << "x: 1";
   auto r = rct_ros_tools::parseFromFile("set/data.yaml");
   if (!r || r->images.size() != r->tool_poses.size()) return bad("pairs");
   for (std::size_t i = 0; i < r->images.size(); ++i) if (r->images[i].at<cv::Vec3b>(0,0)[0] != 10*std::lround(r->tool_poses[i].translation().x())) return bad("pair", i);
   return 0; }
 ''', libs='img', srcs='"$R/rct_ros_tools/src/data_set.cpp" "$R/rct_ros_tools/src/parameter_loaders.cpp" -lopencv_highgui', ros=True)
seed('c24-charuco-shape','C24','a ChArUco board that is not square',
 'The ChArUco plugin exchanges the rows and columns of the board.',
 [(RT+'target_loader_plugins.cpp','target(rows, cols, chessboard_dim, aruco_marker_dim, dictionary);','target(cols, rows, chessboard_dim, aruco_marker_dim, dictionary);')],
 '''
 #include <opencv2/core.hpp>
 #include <rct_image_tools/charuco_grid_target.h>
 #include <boost/shared_ptr.hpp>
 #include "PLUGIN"
 int main() {
   rct_ros_tools::CharucoGridTargetFinderPlugin p;
   p.init(YAML::Load("{rows: 7, cols: 5, chessboard_dim: 0.03, aruco_marker_dim: 0.022, dictionary: 10}"));
   rct_image_tools::CharucoGridTarget t(7, 5, 0.03f, 0.022f, 10);
   auto* q = dynamic_cast<const rct_image_tools::CharucoGridTarget*>(&p.target());
   if (!q || !(*q == t)) return bad("target");
   return 0; }
 ''', libs='img', ros=True, extra='printf \'#include "%s"\\n\' "$R/rct_ros_tools/src/target_loader_plugins.cpp" > "$tmp/plugin.h"; mkdir -p "$tmp/stub"; cp "$tmp/plugin.h" "$tmp/PLUGIN"; ln -s "$tmp/PLUGIN" "$tmp/stub/PLUGIN"')
seed('c25-scratch-image','C25','two threads that detect circles at the same time',
 'Circle detection keeps its scratch image in a static variable to save allocations.',
 [(IM+'circle_detector.cpp','  cv::Mat binarized_image;\n  cv::threshold','  static cv::Mat binarized_image;  // Keep the memory of the last call\n  cv::threshold')],
 IMGHEAD+'''
 #include <atomic>
 #include <thread>
 int main() {
   std::atomic<int> wrong(0); std::vector<std::thread> ts;
   for (int t = 0; t < 8; ++t) ts.emplace_back([&, t] {
     cv::Mat im(160+40*(t%2), 240, CV_8UC1, cv::Scalar(230)); cv::circle(im, {60+15*t, 80}, 14+t, cv::Scalar(20), -1);
     CircleDetector d(CircleDetectorParams{}); std::vector<cv::KeyPoint> first;
     for (int i = 0; i < 150; ++i) { std::vector<cv::KeyPoint> k; d.detect(im, k);
       if (k.size() != 1 || std::hypot(k[0].pt.x-60-15*t, k[0].pt.y-80) > 1) ++wrong; } });
   for (auto& t : ts) t.join();
   return wrong ? bad("detections", wrong) : 0; }
 ''', libs='img', extra='', srcs='-pthread')
seed('c27-angle-nan','C27','two transforms with the same rotation',
 'The printed angle between two transforms is computed with an arc cosine, whose argument exceeds one by rounding for equal rotations.',
 [('rct_common/include/rct_common/print_utils.h','''  Eigen::AngleAxisd aa(delta.linear());
  Eigen::Vector3d rpy = delta''','''  const double angle = std::acos((delta.linear().trace() - 1.0) / 2.0);
  Eigen::Vector3d rpy = delta'''),
  ('rct_common/include/rct_common/print_utils.h','(180.0 * aa.angle() / M_PI)','(180.0 * angle / M_PI)')],
 '''
 #include <sstream>
 #include <array>
 #include <rct_common/print_utils.h>
 int main() {
   std::mt19937 g(1); std::uniform_real_distribution<double> u(-3, 3);
   for (int i = 0; i < 200; ++i) {
     auto a = P(u(g),u(g),u(g),u(g),u(g),u(g)); std::ostringstream s; auto* old = std::cout.rdbuf(s.rdbuf());
     rct_common::printTransformDiff(a, a*P(0.1,0,0), "a", "b", "diff"); std::cout.rdbuf(old);
     auto at = s.str().find("DELTA A: "); double v = std::strtod(s.str().c_str()+at+9, nullptr);
     if (at == std::string::npos || !(std::abs(v) < 1e-4)) return bad("angle", v); }
   return 0; }
 ''')
seed('c29-pose-first','C29','a capture triggered before the first picture has arrived',
 'The pose is kept before it is known whether there is a picture, so that the following pictures are saved with the wrong pose.',
 [(RT+'command_line_cal.cpp','''    if (tf_monitor.capture(pose) && image_monitor.capture(image))
    {
      poses.push_back(pose);
      images.push_back(image);''','''    const bool have_pose = tf_monitor.capture(pose);
    if (have_pose)
      poses.push_back(pose);

    if (have_pose && image_monitor.capture(image))
    {
      images.push_back(image);'''),
  (RT+'command_line_cal.cpp','for (std::size_t i = 0; i < poses.size(); ++i)','for (std::size_t i = 0; i < images.size(); ++i)')],
 '''
 #include <ros/ros.h>
 #include <rct_ros_tools/data_set.h>
 int node_main(int, char**);
 static std::shared_ptr<ros::NodeHandle::Table> params = std::make_shared<ros::NodeHandle::Table>();
 void ros::init(int&, char**, const std::string&, unsigned) { ros::NodeHandle::shared() = params; }
 int main() {
   auto& w = ros_stub::world(); auto& t = *params; int step = 0, rc = 0;
   t["base_frame"] = std::string("base"); t["tool_frame"] = std::string("tool"); t["image_topic"] = std::string("cam"); t["save_dir"] = std::string("set");
   XmlRpc::XmlRpcValue f; f["type"] = std::string("rct_ros_tools::ModifiedCircleGridTargetFinderPlugin"); f["rows"] = 4; f["cols"] = 5; f["spacing"] = 0.02; t["target_finder"] = f;
   w.frames = [&](const std::string&, const std::string&, double o[7]) { double v[7] = {double(step),0,0,0,0,0,1}; std::copy(v, v+7, o); return true; };
   auto call = [&](const char* n) { std_srvs::EmptyRequest a; std_srvs::EmptyResponse b; return w.services.find(n)->second.call(a, b); };
   w.spin = [&] {
     step = 0; if (call("collect")) rc = bad("collected without a picture");
     for (step = 1; step < 4; ++step) {
       auto m = boost::make_shared<sensor_msgs::Image>(); m->encoding = "bgr8"; m->height = 4; m->width = 5; m->step = 15; m->data.assign(60, uint8_t(step*20));
       w.subs.find("cam")->second.call(m); if (!call("collect")) rc = bad("refused"); }
     if (!call("save")) rc = bad("not saved"); };
   if (node_main(0, nullptr) != 0) return bad("node");
   if (rc) return rc;
   auto d = rct_ros_tools::parseFromFile("set/data.yaml");
   if (!d || d->images.size() != 3) return bad("saved");
   for (std::size_t i = 0; i < 3; ++i) if (d->images[i].at<cv::Vec3b>(0,0)[0] != 20*std::lround(d->tool_poses[i].translation().x())) return bad("pair", i);
   return 0; }
 ''', libs='img', ros=True,
 srcs='"$tmp/node.o" "$R/rct_ros_tools/src/data_set.cpp" "$R/rct_ros_tools/src/parameter_loaders.cpp" "$R/rct_ros_tools/src/loader_utils.cpp" "$R/rct_ros_tools/src/target_loader_plugins.cpp" -lopencv_highgui',
 pre='''for f in command_line_cal; do
g++ -std=c++17 -O1 -w -c -Dmain=node_main -I"$tmp/stub" -I"$R/rct_common/include" -I"$R/rct_optimizations/include" -I"$R/rct_image_tools/include" -I"$R/rct_ros_tools/include" \\
  -I/usr/include/eigen3 -I/usr/include/opencv4 "$R/rct_ros_tools/src/$f.cpp" -o "$tmp/node.o" || exit 3
done''')
