// SolverFactory whose solver is dense elimination, so that checks of assembly and adjoints do not depend on an iterative solver.
#include "mesh.hpp"
#include "alg/PlatoSolverFactory.hpp"
namespace hm { long solves = 0; }
namespace {
struct DenseSolver : Plato::AbstractSolver {
    void solve(Plato::CrsMatrix<Plato::OrdinalType> A, Plato::ScalarVector x, Plato::ScalarVector b) override {
        auto m = Teuchos::rcp(new Plato::CrsMatrixType(A)); auto d = h::dense(m); h::dvec y; ++hm::solves;
        h::dvec rhs(d.size()); for (size_t i = 0; i < rhs.size(); ++i) rhs[i] = b(i);
        if (!hm::eqSolve(d, rhs, y)) throw pbt::Discard();
        for (size_t i = 0; i < rhs.size(); ++i) x(i) = y[i];
    }
};
}
namespace Plato {
rcp<AbstractSolver> SolverFactory::create(Omega_h::Mesh&, Comm::Machine, int) { return std::make_shared<DenseSolver>(); }
}
