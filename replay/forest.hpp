// Random quadtrees and meshes, and the leaves they must have, read off the p4est.
#pragma once
#include "hps.hpp"
namespace vr {
struct Leaf { std::string path; int level; double xl, xu, yl, yu; };
struct Shape { int n; double xl, xu, yl, yu; std::vector<double> marks; int minl, maxl; };
inline int depth(p4est_quadrant_t* q) { return q->level; }
inline std::string pathOf(const p4est_quadrant_t* q) { // the digits of the coordinates, most significant first
    std::string s = "0";
    for (int l = 1; l <= q->level; l++) { int b = P4EST_MAXLEVEL - l; s += char('0' + ((q->x >> b) & 1) + 2*((q->y >> b) & 1)); }
    return s;
}
inline p4est_t* forest(int n, double xl, double xu, double yl, double yu, int minl, int maxl, int odds) {
    static int lmax, od; lmax = maxl; od = odds;
    auto* conn = EllipticForest::p4est::p4est_connectivity_new_square_domain(xl, xu, yl, yu);
    p4est_t* p = p4est_new_ext(MPI_COMM_WORLD, conn, 0, minl, 1, 0, nullptr, nullptr);
    p4est_refine(p, 1, [](p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return (int) (q->level < lmax && rnd(0, 9) < od); }, nullptr);
    if (rnd(0, 1)) p4est_balance(p, P4EST_CONNECT_CORNER, nullptr);
    return p;
}
inline void drop(p4est_t* p) { auto* c = p->connectivity; p4est_destroy(p); p4est_connectivity_destroy(c); }
inline std::vector<Leaf> leaves(p4est_t* p, double xl, double xu, double yl, double yu) {
    std::vector<Leaf> r; auto* t = p4est_tree_array_index(p->trees, 0);
    for (std::size_t k = 0; k < t->quadrants.elem_count; k++) {
        auto* q = p4est_quadrant_array_index(&t->quadrants, k);
        double L = P4EST_ROOT_LEN, h = P4EST_QUADRANT_LEN(q->level)/L;
        r.push_back({pathOf(q), q->level, xl + q->x/L*(xu - xl), xl + (q->x/L + h)*(xu - xl), yl + q->y/L*(yu - yl), yl + (q->y/L + h)*(yu - yl)});
    }
    return r;
}
}
