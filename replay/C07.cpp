#include "hps.hpp"
using namespace vr;
/** shape 0: one patch, 1: four, 2: seven patches of two sizes */
static void one(int shape, bool inhom, bool dirichlet, bool byPatch) {
    Problem P = rproblem(rnd(1, 2)*2, false);
    begin("root condition", text(P), ", mesh ", shape, inhom ? ", inhomogeneous" : ", homogeneous", dirichlet ? ", Dirichlet" : ", mixed", byPatch ? ", patch callback" : "");
    noThrow([&] {
        setOptions(!inhom);
        auto s = solverFor(P, false);
        auto root = FiniteVolumePatch(MPI_COMM_WORLD, gridFor(P));
        FiniteVolumeNodeFactory nf(MPI_COMM_WORLD); Mesh<FiniteVolumePatch> mesh;
        double cx = P.xl + 0.1*(P.xu - P.xl), cy = P.yl + 0.1*(P.yu - P.yl);
        mesh.refineByFunction([&](double x, double y) { return x < cx && y < cy; }, 0.5, shape > 0, shape, root, nf);
        HPS hps(MPI_COMM_WORLD, mesh, s);
        hps.buildStage();
        auto src = [inhom](double x, double y) { return inhom ? 1 + x - 2*y : 0; };
        hps.upwardsStage(src);
        auto coef = [&](int side, double x, double y, double* a, double* b) { *a = 2 + side + 0.5*std::sin(x + y); *b = dirichlet ? 0 : 0.1*(side + 1)*std::cos(x*y); return 3*x - y + side; };
        auto& rp = mesh.quadtree.root();
        int M = (int) rp.grid().nx();
        V given = rv(4*M);
        if (!inhom) rp.vectorH() = Vector<double>(4*M);
        if (byPatch) hps.solveStage([&](FiniteVolumePatch& p) { check(&p == &rp, "the callback is given a patch that is not the root"); p.vectorG() = Vector<double>(given); });
        else hps.solveStage(coef);
        V g = rp.vectorG().data();
        check((int) g.size() == 4*M, "the root has ", g.size(), " boundary values for ", M, " cells per side");
        if (byPatch) { same(given, g, "boundary data of the root"); }
        else {
            V v = mul(rows(rp.matrixT()), g);
            double dx = (P.xu - P.xl)/M, dy = (P.yu - P.yl)/M;
            for (int side = 0; side < 4; side++) for (int i = 0; i < M; i++) {
                double x = side == 0 ? P.xl : side == 1 ? P.xu : P.xl + (i + 0.5)*dx, y = side == 2 ? P.yl : side == 3 ? P.yu : P.yl + (i + 0.5)*dy, a, b, r = coef(side, x, y, &a, &b);
                int k = side*M + i; double h = inhom ? (double) rp.vectorH()[k] : 0.0;
                double l = a*g[k] + b*(v[k] + h);
                check(close(l, r, 1e-7), "side ", side, " point ", i, ": a u + b v = ", l, ", r = ", r);
                if (dirichlet) check(close(g[k], r/a, 1e-9), "side ", side, " point ", i, ": u = ", g[k], ", r/a = ", r/a);
            }
        }
        // the leaves solve the equations with the boundary data they were handed
        for (auto& [path, node] : mesh.quadtree.map) if (node && node->leaf) {
            auto& p = node->data; auto& gr = p.grid(); Problem Q = P; Q.xl = gr.xLower(); Q.xu = gr.xUpper(); Q.yl = gr.yLower(); Q.yu = gr.yUpper();
            if (p.n_coarsens) continue;
            sameV(fivePoint(Q, p.vectorG().data(), p.vectorF().data()), p.vectorU(), ("solution on leaf " + path).c_str(), 1e-7);
        }
    });
}
void run() { startApp(); for (int r = 0; r < 6 || more(); r++) for (int shape : {0, 1, 2}) for (bool inhom : {true, false}) { one(shape, inhom, false, false); one(shape, inhom, true, false); if (r < 3) one(shape, inhom, false, true); } }
