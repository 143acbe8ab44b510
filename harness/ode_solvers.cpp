#include "sofa_util.h"
#include "ode_solvers.h"
#include <Eigen/SparseCholesky>
#include <Eigen/SparseLU>
using ColMajor = Eigen::SparseMatrix<double, Eigen::ColMajor, int>;
#if VP_GROUP == 0
#include <SofaCaribou/Solver/LDLTSolver.inl>
#define MAKE make_ldlt
using Solver = SofaCaribou::solver::LDLTSolver<Eigen::SimplicialLDLT<ColMajor, Eigen::Lower, Eigen::AMDOrdering<int>>>;
#elif VP_GROUP == 1
#include <SofaCaribou/Solver/LLTSolver.inl>
#define MAKE make_llt
using Solver = SofaCaribou::solver::LLTSolver<Eigen::SimplicialLLT<ColMajor, Eigen::Lower, Eigen::AMDOrdering<int>>>;
#else
#include <SofaCaribou/Solver/LUSolver.inl>
#define MAKE make_lu
using Solver = SofaCaribou::solver::LUSolver<Eigen::SparseLU<ColMajor, Eigen::AMDOrdering<int>>>;
#endif
DirectSolver MAKE(sofa::simulation::Node * node) {
    return {node->stub_add<Solver>().get(), [](sofa::core::behavior::LinearSolver * ls) -> const sofa::defaulttype::BaseMatrix * { return dynamic_cast<Solver *>(ls)->A(); }};
}
