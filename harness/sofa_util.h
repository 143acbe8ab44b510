// Helpers shared by the checks of the SofaCaribou plugin (compiled against the miniature SOFA of sofa_stub/).
#pragma once
#include "vp.h"
#include "minisofa.h"
#include <Eigen/Dense>
#include <Eigen/Sparse>
namespace su {
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;
template <class D> std::string show(const Eigen::DenseBase<D> & m) { std::ostringstream o; o << std::setprecision(17) << "[" << m.format(Eigen::IOFormat(17, Eigen::DontAlignCols, " ", "; ")) << "]"; return o.str(); }
// sets the value of the field called `name`, as a scene file or a script does
template <class T> void set(sofa::core::objectmodel::Base * o, const char * name, const T & v) {
    auto * d = dynamic_cast<sofa::core::objectmodel::Data<T> *>(o->findData(name));
    if (!d) { std::fprintf(stderr, "no field %s\n", name); std::abort(); }
    d->setValue(v);
}
inline M3 rotation(vp::Ctx & c) {
    V3 a; do { for (int i = 0; i < 3; ++i) a[i] = c.uniform(-1, 1); } while (a.norm() < 1e-3);
    return Eigen::AngleAxisd(c.uniform(-3.1, 3.1), a.normalized()).toRotationMatrix();
}
}
