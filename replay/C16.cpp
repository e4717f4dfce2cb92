#include "forest.hpp"
using namespace vr;
using MeshP = Mesh<FiniteVolumePatch>;
static void meshIs(MeshP& m, const std::vector<Leaf>& L, int n, int m2, const std::string& when) {
    std::size_t cells = L.size()*n*m2;
    check((std::size_t) m.ncells == cells, when, ": ", m.ncells, " cells counted, the leaves have ", cells);
    check(m.getNumberOfCells() == std::to_string(m.ncells) && m.getNumberOfPoints() == std::to_string(m.npoints), when, ": numbers as text");
    check(m.points.size() == 3*(std::size_t) m.npoints && m.points.size() == m.points.data().size(), when, ": ", m.points.size(), " coordinates for ", m.npoints, " points");
    check(m.connectivity.size() == 4*cells, when, ": ", m.connectivity.size(), " corners for ", cells, " cells");
    check(m.offsets.size() >= cells && m.types.size() >= cells, when, ": ", m.offsets.size(), " offsets and ", m.types.size(), " types for ", cells, " cells");
    std::size_t c = 0;
    for (auto& l : L) {
        double dx = (l.xu - l.xl)/n, dy = (l.yu - l.yl)/m2;
        for (int i = 0; i < n; i++) for (int j = 0; j < m2; j++, c++) {
            double X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1};
            check(m.offsets[c] == (int) (4*(c + 1)), when, ": cell ", c, " has offset ", m.offsets[c]);
            check(m.types[c] == 9, when, ": cell ", c, " has type ", m.types[c]);
            for (int q = 0; q < 4; q++) {
                int p = m.connectivity[4*c + q];
                check(p >= 0 && p < m.npoints, when, ": cell ", c, " refers to point ", p, " of ", m.npoints);
                double x = l.xl + (i + X[q])*dx, y = l.yl + (j + Y[q])*dy;
                check(close(m.points[3*p], x) && close(m.points[3*p + 1], y) && m.points[3*p + 2] == 0, when, ": corner ", q, " of cell ", c, " is (", (double) m.points[3*p], ",", (double) m.points[3*p + 1], ",", (double) m.points[3*p + 2], "), expected (", x, ",", y, ",0)");
            }
        }
    }
}
static void functionIs(MeshP& m, std::size_t k, const std::vector<Leaf>& L, int n, int m2, std::function<double(double, double)> f, const std::string& name) {
    check(m.mesh_functions.size() == k + 1, m.mesh_functions.size(), " functions after adding number ", k);
    auto& v = *m.mesh_functions[k];
    check(v.size() == L.size()*n*m2 && v.size() == v.data().size(), "function ", k, " has ", v.size(), " values");
    check(v.name() == name, "function ", k, " is called ", v.name());
    std::size_t c = 0;
    for (auto& l : L) for (int i = 0; i < n; i++) for (int j = 0; j < m2; j++, c++) {
        double x = l.xl + (i + 0.5)*(l.xu - l.xl)/n, y = l.yl + (j + 0.5)*(l.yu - l.yl)/m2;
        check(close(v[c], f(x, y)), "function ", k, " at cell ", c, " is ", (double) v[c], ", expected the value at (", x, ",", y, "), ", f(x, y));
    }
}
static void one(int n, int m2, double xl, double xu, double yl, double yu, int minl, int maxl, int odds) {
    begin("mesh", n, "x", m2, " cells on [", xl, ",", xu, "]x[", yl, ",", yu, "], levels ", minl, "-", maxl, ", seed ", seed, " case ", cases);
    noThrow([&] {
        FiniteVolumeGrid g(MPI_COMM_WORLD, n, xl, xu, m2, yl, yu);
        FiniteVolumePatch root(MPI_COMM_WORLD, g);
        FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
        auto* p = forest(n, xl, xu, yl, yu, minl, maxl, odds);
        auto L = leaves(p, xl, xu, yl, yu);
        MeshP m(MPI_COMM_WORLD, p, root, fac);
        meshIs(m, L, n, m2, "built");
        auto f0 = [](double x, double y) { return 3*x - 7*y + x*y; };
        auto f1 = [](double x, double y) { return x*x + 0.125*y; };
        m.addMeshFunction(f0, "first");
        functionIs(m, 0, L, n, m2, f0, "first");
        m.addMeshFunction(f1, "second");
        functionIs(m, 1, L, n, m2, f1, "second");
    });
}
static void centres(int n, int m2, int minl, int maxl, int odds) {
    begin("iteration", n, "x", m2, " cells, levels ", minl, "-", maxl, ", seed ", seed, " case ", cases);
    noThrow([&] {
        double xl = -1, xu = 3, yl = 2, yu = 2.5;
        FiniteVolumeGrid g(MPI_COMM_WORLD, n, xl, xu, m2, yl, yu);
        FiniteVolumePatch root(MPI_COMM_WORLD, g);
        FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
        auto* p = forest(n, xl, xu, yl, yu, minl, maxl, odds);
        auto L = leaves(p, xl, xu, yl, yu);
        MeshP m(MPI_COMM_WORLD, p, root, fac);
        std::vector<std::array<double, 2>> seen;
        m.iterateCells([&](double x, double y) { seen.push_back({x, y}); });
        check(seen.size() == L.size()*n*m2, seen.size(), " cells visited");
        std::size_t c = 0;
        for (auto& l : L) for (int i = 0; i < n; i++) for (int j = 0; j < m2; j++, c++) {
            double x = l.xl + (i + 0.5)*(l.xu - l.xl)/n, y = l.yl + (j + 0.5)*(l.yu - l.yl)/m2;
            check(close(seen[c][0], x) && close(seen[c][1], y), "visit ", c, " is (", seen[c][0], ",", seen[c][1], "), expected (", x, ",", y, ")");
        }
        std::vector<std::string> where;
        std::size_t k = 0;
        m.iteratePatches([&](FiniteVolumePatch& q) { check(k < L.size() && close(q.grid().xLower(), L[k].xl) && close(q.grid().yLower(), L[k].yl) && close(q.grid().xUpper(), L[k].xu) && close(q.grid().yUpper(), L[k].yu), "patch ", k, " starts at (", q.grid().xLower(), ",", q.grid().yLower(), ")"); k++; });
        check(k == L.size(), k, " patches visited, ", L.size(), " leaves");
        auto f = [](double x, double y) { return x - 3*y; };
        m.addMeshFunction(f, "f"); functionIs(m, 0, L, n, m2, f, "f");
        m.addMeshFunction(f, "g"); functionIs(m, 1, L, n, m2, f, "g");
        m.clearMeshFunctions(); check(m.mesh_functions.empty(), "functions left after clearing");
    });
}
static void again(int n, int m2, int minl, int maxl) {
    begin("refined twice", n, "x", m2, " cells, levels ", minl, "-", maxl, ", seed ", seed, " case ", cases);
    noThrow([&] {
        double xl = -1, xu = 3, yl = 2, yu = 2.5, cx = rnd(-16, 48)/16.0, cy = rnd(32, 40)/16.0, r = rnd(1, 20)/16.0;
        FiniteVolumeGrid g(MPI_COMM_WORLD, n, xl, xu, m2, yl, yu);
        FiniteVolumePatch root(MPI_COMM_WORLD, g);
        FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
        MeshP m;
        for (int rep = 0; rep < 2; rep++) {
            m.refineByFunction([&](double x, double y) { return rep == 0 ? std::fabs(x - cx) < r : std::fabs(y - cy) < r/8; }, 1, minl, maxl, root, fac);
            meshIs(m, leaves(m.quadtree.p4est, xl, xu, yl, yu), n, m2, rep ? "refined again" : "refined");
        }
    });
}
void run() {
    startApp();
    one(2, 2, 0, 1, 0, 1, 0, 0, 0); one(3, 1, -1, 2, 3, 4, 1, 1, 0); again(2, 2, 0, 2); centres(2, 3, 1, 2, 5);
    while (more()) {
        double xl = rdy(), yl = rdy();
        int a = rnd(0, 2), n = rnd(1, 5), m2 = rnd(0, 2) ? n : rnd(1, 5);
        switch (rnd(0, 3)) {
            case 0: one(n, m2, xl, xl + rnd(1, 40)/8.0, yl, yl + rnd(1, 40)/8.0, a, a + rnd(0, 3), rnd(1, 9)); break;
            case 1: centres(n, m2, a, a + rnd(0, 3), rnd(1, 9)); break;
            default: again(n, m2, a, a + rnd(0, 2));
        }
    }
}
