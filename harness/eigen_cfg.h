// Included first in every translation unit: failing Eigen assertions become C++ exceptions (a failing case, not an abort).
#pragma once
#include <stdexcept>
#include <string>
namespace vp { struct EigenAssert : std::runtime_error { using std::runtime_error::runtime_error; }; }
#define eigen_assert(x) do { if (!(x)) throw ::vp::EigenAssert(std::string("Eigen assertion failed: ") + #x); } while (false)
