#include "hps.hpp"
using namespace vr;
static void one(bool fast) {
    Problem P = rproblem(rnd(1, 5), fast);
    begin("flux", text(P), fast ? ", fast solver" : ", general solver");
    noThrow([&] {
        auto s = solverFor(P, fast); auto grid = gridFor(P); int n = P.n; V g = rv(4*n), f = rv(n*n);
        Vector<double> gv(g), fv(f);
        sameV(flux(P, g, fivePoint(P, g, f)), s.mapD2N(grid, gv, fv), "Neumann data", 1e-7);
        V z(4*n, 0);
        sameV(flux(P, z, fivePoint(P, z, f)), s.particularNeumannData(grid, fv), "particular flux", 1e-7);
        auto T = s.buildD2N(grid);
        check((int) T.nrows() == 4*n && (int) T.ncols() == 4*n, "map is ", T.nrows(), "x", T.ncols());
        for (int c = 0; c < 4*n; c++) {
            V e(4*n, 0); e[c] = 1; V q = flux(P, e, fivePoint(P, e, V(n*n, 0)));
            for (int r = 0; r < 4*n; r++) { double a = T(r, c); check(close(a, q[r], 1e-7), "Dirichlet-to-Neumann entry (", r, ",", c, ") is ", a, ", expected ", q[r]); }
        }
    });
}
/** the stages give every leaf its own map and its own particular flux */
static void stages(bool byPatch, bool cache = false) {
    Problem P = rproblem(rnd(1, 2)*2, cache); // only equal coefficients everywhere allow the operators to be shared
    int times = rnd(1, 2), low = rnd(0, 3) ? 1 : 2, high = low + rnd(1, 2);
    begin("leaf data of the stages", text(P), byPatch ? ", patch callback" : ", source function", cache ? ", operators cached" : "", times > 1 ? ", built twice" : "", ", levels ", low, " to ", high);
    noThrow([&] {
        setOptions(false, cache);
        auto s = solverFor(P, false); s.rhs_function = [](double x, double y) { return x + y*y; };
        auto root = FiniteVolumePatch(MPI_COMM_WORLD, gridFor(P));
        FiniteVolumeNodeFactory nf(MPI_COMM_WORLD); Mesh<FiniteVolumePatch> mesh;
        double cx = P.xl + 0.1*(P.xu - P.xl), cy = P.yl + 0.1*(P.yu - P.yl);
        mesh.refineByFunction([&](double x, double y) { return x < cx && y < cy; }, 0.5, low, high, root, nf);
        HPS hps(MPI_COMM_WORLD, mesh, s);
        for (int t = 0; t < times; t++) hps.buildStage();
        auto src = [](double x, double y) { return 1 + x - 2*y + x*y; };
        if (byPatch) hps.upwardsStage([&](FiniteVolumePatch& p) { auto& g = p.grid(); p.vectorF() = Vector<double>(g.nx()*g.ny()); for (int i = 0; i < (int) g.nx(); i++) for (int j = 0; j < (int) g.ny(); j++) p.vectorF()[j + i*g.ny()] = src(g(0, i), g(1, j)); });
        else hps.upwardsStage(src);
        int leaves = 0;
        for (auto& [path, node] : mesh.quadtree.map) if (node && node->leaf) {
            auto& p = node->data; auto& g = p.grid(); leaves++;
            Problem Q = P; Q.xl = g.xLower(); Q.xu = g.xUpper(); Q.yl = g.yLower(); Q.yu = g.yUpper();
            int n = Q.n; double dx = (Q.xu - Q.xl)/n, dy = (Q.yu - Q.yl)/n;
            V f(n*n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f[j + i*n] = src(Q.xl + (i + 0.5)*dx, Q.yl + (j + 0.5)*dy);
            sameV(f, p.vectorF(), ("source on leaf " + path).c_str(), 1e-10);
            V z(4*n, 0), h = flux(Q, z, fivePoint(Q, z, f));
            check(p.n_coarsens < 4, "leaf ", path, " coarsened ", p.n_coarsens, " times");
            for (int k = 0; k < p.n_coarsens; k++) h = coarsened(h);
            sameV(h, p.vectorH(), ("particular flux of leaf " + path).c_str(), 1e-7);
            if (p.n_coarsens) continue;
            for (int c = 0; c < 4*n; c++) {
                V e(4*n, 0); e[c] = 1; V q = flux(Q, e, fivePoint(Q, e, V(n*n, 0)));
                for (int r = 0; r < 4*n; r++) { double a = p.matrixT()(r, c); check(close(a, q[r], 1e-7), "leaf ", path, " map entry (", r, ",", c, ") is ", a, ", expected ", q[r]); }
            }
        }
        check(leaves >= 4, "leaves: ", leaves);
    });
}
void run() { startApp(); for (int r = 0; r < 12 || more(); r++) { one(false); one(true); if (r % 3 == 0) { stages(false); stages(true); stages(r % 2, true); stages(!(r % 2), true); } } }
