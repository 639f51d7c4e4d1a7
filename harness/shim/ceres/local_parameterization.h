// Stand-in for the header removed in Ceres 2.2, mapping the old names onto their successors, so that the repository's
// kinematic calibration sources compile unmodified against the installed Ceres.
#pragma once
#include <ceres/manifold.h>
#include <ceres/problem.h>
namespace ceres
{
using LocalParameterization = Manifold;
using SubsetParameterization = SubsetManifold;
}  // namespace ceres
#define SetParameterization SetManifold
