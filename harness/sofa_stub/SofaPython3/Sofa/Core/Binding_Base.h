// Stand-in for SofaPython3: components are held by Python through the intrusive pointers of SOFA.
#pragma once
#include <pybind11/pybind11.h>
#include "minisofa.h"
namespace sofapython3 {
template <class T> class py_shared_ptr : public sofa::core::sptr<T> {
public:
    py_shared_ptr(T * p = nullptr) : sofa::core::sptr<T>(p) {}
};
}
PYBIND11_DECLARE_HOLDER_TYPE(Base, sofapython3::py_shared_ptr<Base>, true)
