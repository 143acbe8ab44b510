// Stand-in for SofaPython3: how a component is handed over to Python, by its class.
#pragma once
#include <pybind11/pybind11.h>
#include <functional>
#include <map>
#include <typeindex>
#include "SofaPython3/Sofa/Core/Binding_Base.h"
namespace sofapython3 {
struct PythonFactory {
    using F = std::function<pybind11::object(sofa::core::objectmodel::Base *)>;
    static std::map<std::type_index, F> & stub_types() { static std::map<std::type_index, F> m; return m; }
    template <class T> static void registerType(F f) { stub_types()[std::type_index(typeid(T))] = std::move(f); }
    static void registerType(const std::string &, F) {}
    static pybind11::object toPython(sofa::core::objectmodel::Base * o) { auto it = stub_types().find(std::type_index(typeid(*o))); return it == stub_types().end() ? pybind11::cast(dynamic_cast<sofa::core::objectmodel::BaseObject *>(o)) : it->second(o); } // pybind11 gives the most derived class that it knows
};
}
