#include "common.hpp"
using namespace vr;
static double rpos() { return rnd(1, 64)/ (double) rnd(1, 9); }
static void samegrid(FiniteVolumeGrid& g, int nx, double xl, double xu, int ny, double yl, double yu, const std::string& what) {
    check((int) g.nx() == nx && (int) g.ny() == ny, what, ": ", g.nx(), " x ", g.ny(), " cells, expected ", nx, " x ", ny);
    double e[4] = {xl, xu, yl, yu}, a[4] = {g.xLower(), g.xUpper(), g.yLower(), g.yUpper()};
    const char* n[4] = {"xLower", "xUpper", "yLower", "yUpper"};
    for (int i = 0; i < 4; i++) check(close(e[i], a[i], 1e-13), what, ": ", n[i], " is ", a[i], ", expected ", e[i]);
    check(close(g.dx()*nx, xu - xl, 1e-12), what, ": dx is ", g.dx());
    check(close(g.dy()*ny, yu - yl, 1e-12), what, ": dy is ", g.dy());
    for (int d = 0; d < 2; d++) for (int i = 0; i < (d ? ny : nx); i++) {
        double h = d ? (yu - yl)/ny : (xu - xl)/nx, x = (d ? yl : xl) + (i + 0.5)*h;
        check(close(g.point(d ? DimensionIndex::Y : DimensionIndex::X, i), x, 1e-12), what, ": point(", d, ",", i, ") is ", g.point(d ? DimensionIndex::Y : DimensionIndex::X, i), ", expected ", x);
        check(close(g(d, i), x, 1e-12), what, ": (", d, ",", i, ") is ", g(d, i), ", expected ", x);
    }
}
static void one(int nx, int ny, double xl, double w, double yl, double h, std::string path, int level) {
    begin("children and parent", nx, " x ", ny, " cells, [", xl, ",", xl + w, "] x [", yl, ",", yl + h, "], path ", path, ", level ", level);
    noThrow([&] {
        FiniteVolumeGrid g(MPI_COMM_WORLD, nx, xl, xl + w, ny, yl, yl + h);
        samegrid(g, nx, xl, xl + w, ny, yl, yl + h, "grid");
        FiniteVolumePatch p(MPI_COMM_WORLD, g);
        FiniteVolumeNodeFactory f(MPI_COMM_WORLD);
        int pf = rnd(0, 3), pl = rnd(4, 9);
        std::unique_ptr<Node<FiniteVolumePatch>> par(f.createNode(p, path, level, pf, pl));
        auto meta = [&](Node<FiniteVolumePatch>* n, std::string pa, int lv, int a, int b, std::string what) {
            check(n != nullptr, what, ": no node");
            check(n->path == pa, what, ": path ", n->path, ", expected ", pa);
            check(n->level == lv, what, ": level ", n->level, ", expected ", lv);
            check(n->pfirst == a && n->plast == b, what, ": ranks ", n->pfirst, "-", n->plast);
            check(n->data.n_coarsens == 0, what, ": coarsened");
        };
        meta(par.get(), path, level, pf, pl, "createNode");
        samegrid(par->data.grid(), nx, xl, xl + w, ny, yl, yl + h, "createNode");
        std::vector<std::unique_ptr<Node<FiniteVolumePatch>>> own;
        std::vector<Node<FiniteVolumePatch>*> kids;
        for (int i = 0; i < 4; i++) {
            own.emplace_back(f.createChildNode(par.get(), i, i, i + 2));
            kids.push_back(own.back().get());
            std::string what = "child " + std::to_string(i);
            meta(kids[i], path + std::to_string(i), level + 1, i, i + 2, what);
            samegrid(kids[i]->data.grid(), nx, xl + (i%2)*w/2, xl + (i%2 + 1)*w/2, ny, yl + (i/2)*h/2, yl + (i/2 + 1)*h/2, what);
        }
        meta(par.get(), path, level, pf, pl, "parent after createChildNode");
        std::unique_ptr<Node<FiniteVolumePatch>> back(f.createParentNode(kids, pf, pl));
        meta(back.get(), path, level, pf, pl, "createParentNode");
        samegrid(back->data.grid(), nx, xl, xl + w, ny, yl, yl + h, "createParentNode");
    });
}
void run() {
    one(4, 4, 0, 1, 0, 1, "0", 0);
    one(8, 6, -1, 2, 3, 0.5, "0321", 3);
    while (more()) {
        std::string path = "0";
        for (int i = rnd(0, 8); i > 0; i--) path += std::to_string(rnd(0, 3));
        one(rnd(1, 20), rnd(1, 20), rdy(), rpos(), rdy(), rpos(), path, (int) path.size() - 1);
    }
}
