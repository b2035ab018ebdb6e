ID="K09-quat-inverse"; PROP="K09"
NEEDS="inverse of a rotation whose quaternion is not normalised (scipp does not normalise), then applied or composed"
BREAKS="the inverse is taken as the conjugate, which is the inverse only for unit quaternions: inv(q)*q is no longer the identity"
EDITS=[("lib/core/include/scipp/core/spatial_transforms.h", """    return Quaternion(m_quat.inverse());""", """    return Quaternion(m_quat.conjugate());""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/spatial_transforms.h"
using namespace scipp::core;
int main() {
  int bad = 0;
  for (double s : {1.0, 2.0, 0.5}) {
    const Quaternion q(Eigen::Quaterniond(0.5 * s, 0.5 * s, -0.5 * s, 0.5 * s));
    const auto id = (q.inverse() * q).quat();
    if (std::abs(id.w() - 1) > 1e-12 || id.vec().norm() > 1e-12) { std::printf("scale %g: inverse(q)*q = %g\n", s, id.w()); ++bad; }
  }
  return bad != 0;
}
'''
