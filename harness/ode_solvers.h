// The direct solvers, each made in a translation unit of its own (their implementation files cannot be included together).
#pragma once
#include "minisofa_sim.h"
struct DirectSolver { sofa::core::behavior::LinearSolver * ls; const sofa::defaulttype::BaseMatrix * (*A)(sofa::core::behavior::LinearSolver *); };
DirectSolver make_ldlt(sofa::simulation::Node *);
DirectSolver make_llt(sofa::simulation::Node *);
DirectSolver make_lu(sofa::simulation::Node *);
