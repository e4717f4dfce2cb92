// The translation unit that is verified: the real headers and sources of /repo, unchanged,
// plus the instantiations their templates need (nothing else is added).
#include "shim.hpp"
#include <EllipticForest.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include <HPSAlgorithm.hpp>
#include <Mesh.hpp>
#include <SpecialMatrices.hpp>
// every source file of /repo/src, listed by cast.units() when the tool runs
#include "units.inc"
namespace EllipticForest {
template class Vector<double>;
template class Vector<int>;
template class Matrix<double>;
template class IdentityMatrix<double>;
template class DiagonalMatrix<double>;
template class InterpolationMatrixFine2Coarse<double>;
template class InterpolationMatrixCoarse2Fine<double>;
template class DataCache<double>;
template class DataCache<Matrix<double>>;
template class Node<FiniteVolumePatch>;
template class Node<double>;
template class Quadtree<FiniteVolumePatch>;
using VcHPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;
using VcMesh = Mesh<FiniteVolumePatch>;
inline void vc_use_free(Vector<double>& a, Vector<int>& n, Matrix<double>& A, Node<FiniteVolumePatch>& node, std::string& s, std::vector<double>& sv, FiniteVolumePatch& p, FiniteVolumeGrid& g) {
    Vector<double> r = 2.0*a; (void) (a*a); r = EllipticForest::operator*<double>(a, a); r = a/a; (void) (a + a); (void) (a - a);
    std::vector<Vector<double>> vs; (void) concatenate(vs); (void) concatenate({a, a});
    (void) vectorInfNorm(a, a); (void) vectorL2Norm(a, a); (void) vectorRange(0, 1);
    Matrix<double> B = A + A; B = A - A; B = 2.0*A; r = A*a; B = A*A; r = solve(A, a); B = solve(A, A);
    std::vector<Matrix<double>> ms; B = blockDiagonalMatrix(ms); (void) matrixInfNorm(A, A);
    MPI::Status* st = nullptr; MPI::Communicator c = MPI_COMM_WORLD;
    MPI::send(a, 0, 0, c); MPI::receive(a, 0, 0, c, st); MPI::broadcast(a, 0, c);
    MPI::send(n, 0, 0, c); MPI::receive(n, 0, 0, c, st); MPI::broadcast(n, 0, c);
    MPI::send(A, 0, 0, c); MPI::receive(A, 0, 0, c, st); MPI::broadcast(A, 0, c);
    MPI::send(sv, 0, 0, c); MPI::receive(sv, 0, 0, c, st); MPI::broadcast(sv, 0, c);
    MPI::send(s, 0, 0, c); MPI::receive(s, 0, 0, c, st); MPI::broadcast(s, 0, c);
    MPI::send(p, 0, 0, c); MPI::receive(p, 0, 0, c, st); MPI::broadcast(p, 0, c);
    MPI::send(g, 0, 0, c); MPI::receive(g, 0, 0, c, st); MPI::broadcast(g, 0, c);
    MPI::send(node, 0, 0, c); MPI::receive(node, 0, 0, c, st); MPI::broadcast(node, 0, c);
    double d = 0; MPI::send(d, 0, 0, c); MPI::receive(d, 0, 0, c, st); MPI::broadcast(d, 0, c);
    int i = 0; MPI::send(i, 0, 0, c); MPI::receive(i, 0, 0, c, st); MPI::broadcast(i, 0, c);
}
inline void vc_use_node(Node<double>& n, bool& b) {
    MPI::Status* st = nullptr; MPI::Communicator c = MPI_COMM_WORLD;
    MPI::send(n, 0, 0, c); MPI::receive(n, 0, 0, c, st); MPI::broadcast(n, 0, c);
}
inline void vc_use_mesh(VcMesh& m, FiniteVolumePatch& p, FiniteVolumeNodeFactory& f, Vector<double>& v) {
    m.refineByFunction([](double, double){ return true; }, 0., 0, 1, p, f);
    m.addMeshFunction(v); m.addMeshFunction([](double x, double){ return x; }, "name"); m.clearMeshFunctions();
    m.iteratePatches([](FiniteVolumePatch&){}); m.iterateCells([](double, double){}); m.toVTK("x");
    (void) m.getNumberOfPoints(); (void) m.getNumberOfCells(); (void) m.getPoints(); (void) m.getConnectivity(); (void) m.getOffsets(); (void) m.getTypes();
    VcMesh m2(MPI_COMM_WORLD, m.quadtree.p4est, p, f);
}
inline void vc_use_hps(VcHPS& h) {
    h.setupStage(); h.buildStage();
    h.upwardsStage([](double, double){ return 0.0; });
    h.upwardsStage([](FiniteVolumePatch&){}); h.solveStage([](FiniteVolumePatch&){});
    h.solveStage([](int, double, double, double* a, double* b){ *a = 1; *b = 0; return 0.0; });
}
}
