// C06: circle fitting recovers center and radius
#include <ceres/jet.h>
#include "gen.h"
#include <rct_optimizations/circle_fit.h>
using namespace vh;
using namespace rct_optimizations;

VH_CASE(C06)
{
  Rng& r = c.rng;
  const double R = r.logu(0.05, 300);
  const V2 ctr(r.uni(-1, 1) * r.logu(0.1, 500), r.uni(-1, 1) * r.logu(0.1, 500));
  const bool exact = c.index % 2 == 0;
  const int n = r.chance(0.2) ? 3 : r.range(3, 60);
  // points at distinct angles over an arc, each moved a little within its slot
  const double arc = r.uni(n == 3 ? 1.5 : 2.0, 2 * M_PI), start = r.uni(-M_PI, M_PI);
  const double sigma = exact ? 0 : R * r.logu(1e-4, 0.03);
  CircleFitProblem p;
  for (int i = 0; i < n; ++i)
  {
    const double a = start + arc * (i + r.uni(-0.25, 0.25)) / n;
    const double rr = R + sigma * r.gauss();
    p.observations.push_back(ctr + rr * V2(std::cos(a), std::sin(a)));
  }
  if (r.chance(0.3))
  {
    r.shuffle(p.observations);
    if (n > 4) p.observations.push_back(p.observations[0]);  // a repeated point
  }
  p.x_center_initial = ctr.x() + r.uni(-0.3, 0.3) * R;
  p.y_center_initial = ctr.y() + r.uni(-0.3, 0.3) * R;
  p.radius_initial = R * r.uni(0.7, 1.4);
  if (r.chance(0.05)) { p.x_center_initial = ctr.x(); p.y_center_initial = ctr.y(); p.radius_initial = R; c.count("guess equal to the truth"); }
  std::string d = cat(n, " points, radius ", R, ", center ", ctr.transpose(), ", arc ", arc, ", noise ", sigma, ", guess ", p.x_center_initial, " ", p.y_center_initial, " ", p.radius_initial);
  c.sample(d);
  c.nontrivial(hashDouble(R, hashDouble(ctr.x(), n)));
  CircleFitResult res = optimize(p);
  auto cost = [&](double x, double y, double rad) {
    double s = 0;
    for (auto& o : p.observations)
    {
      double e = rad * rad - (o.x() - x) * (o.x() - x) - (o.y() - y) * (o.y() - y);
      s += e * e;
    }
    return 0.5 * s / static_cast<double>(p.observations.size());
  };
  const double c0 = cost(p.x_center_initial, p.y_center_initial, p.radius_initial), c1 = cost(res.x_center, res.y_center, res.radius);
  const double floor = std::pow(R * (R + ctr.norm()), 2) * 1e-24;
  c.near(res.initial_cost_per_obs, c0, 1e-8 * c0 + floor, "initial-cost", d);
  c.near(res.final_cost_per_obs, c1, 1e-6 * c1 + floor, "final-cost", d);
  c.check(res.final_cost_per_obs <= res.initial_cost_per_obs * (1 + 1e-9) + floor, "cost-rose", d);
  c.check(res.converged, exact ? "exact-not-converged" : "noisy-not-converged", d);
  c.check(res.radius > 0, "radius-sign", d);
  // conditioning of the arc
  Eigen::MatrixXd A(p.observations.size(), 3);
  Eigen::VectorXd b(p.observations.size());
  for (std::size_t i = 0; i < p.observations.size(); ++i)
  {
    V2 q = (p.observations[i] - ctr) / R;
    A.row(Eigen::Index(i)) << q.x(), q.y(), 1;
    b[Eigen::Index(i)] = q.squaredNorm();
  }
  const double rel = 1e-6 + 1e-7 * (1 + ctr.norm() / R);  // the solver stops on steps relative to the parameters' size
  if (exact)
  {
    c.near(res.x_center, ctr.x(), R * rel, "exact-center", d);
    c.near(res.y_center, ctr.y(), R * rel, "exact-center", d);
    c.near(res.radius, R, R * rel, "exact-radius", d);
    c.count("exact circles");
  }
  else if (res.converged)
  {
    // the cost is quadratic in (2x, 2y, r^2 - x^2 - y^2): its one minimum in closed form
    Eigen::Vector3d s = A.colPivHouseholderQr().solve(b);
    const double x = ctr.x() + R * s[0] / 2, y = ctr.y() + R * s[1] / 2, rad = R * std::sqrt(s[2] + s[0] * s[0] / 4 + s[1] * s[1] / 4);
    const double best = cost(x, y, rad);
    if (n >= 5) c.check(c1 <= best * (1 + 1e-4) + 1e-9 * c0 + 1e10 * floor, "noisy-minimum", cat(d, ": cost ", c1, " where ", best, " is possible"));
    if (n >= 5) c.maxstat("cost above the closed-form minimum (relative)", best > 0 ? c1 / best - 1 : 0);
    const double tol = R * rel + 0.02 * sigma;
    c.near(res.x_center, x, tol, "noisy-center", d);
    c.near(res.y_center, y, tol, "noisy-center", d);
    c.near(res.radius, rad, tol, "noisy-radius", d);
    c.count("noisy circles");
  }
  {
    // the residual in either form, and its derivatives
    const V2 o = p.observations[std::size_t(r.range(0, int(p.observations.size()) - 1))];
    const double x = ctr.x() + R * r.uni(-1, 1), y = ctr.y() + R * r.uni(-1, 1), q = std::sqrt(R * r.uni(0.2, 2));
    CircleDistCost f(o.x(), o.y());
    using J = ceres::Jet<double, 3>;
    J v[3] = { J(x, 0), J(y, 1), J(q, 2) }, a, b;
    c.check(f(v, &a) && f(v, v + 1, v + 2, &b), "residual-refused", d);
    const double dx = o.x() - x, dy = o.y() - y, e = q * q * q * q - dx * dx - dy * dy, w[3] = { 2 * dx, 2 * dy, 4 * q * q * q };
    const double scale = q * q * q * q + dx * dx + dy * dy;
    c.near(a.a, e, 1e-12 * scale, "residual", d);
    c.near(b.a, e, 1e-12 * scale, "residual", d + " (three parameters)");
    for (int k = 0; k < 3; ++k)
    {
      c.near(a.v[k], w[k], 1e-12 * (std::abs(w[k]) + scale / R), "residual-derivative", d);
      c.near(b.v[k], w[k], 1e-12 * (std::abs(w[k]) + scale / R), "residual-derivative", d + " (three parameters)");
    }
    c.count("residuals", 2);
  }
}
