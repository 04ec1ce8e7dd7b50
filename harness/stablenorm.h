// stableNorm() is norm() over the reals
#include <Eigen/Core>
#include <Eigen/Dense>
#define stableNorm norm
