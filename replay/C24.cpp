#include <set>
#include <array>
#include <cmath>
#include "forest.hpp"
using namespace vr;
using MeshP = Mesh<FiniteVolumePatch>;
using Ask = std::function<bool(double, double)>;
// ---------------------------------------------------------------- the quadrants there must be
struct Q { int l, x, y; bool operator<(const Q& o) const { return std::tie(l, x, y) < std::tie(o.l, o.x, o.y); } };
struct Box { double xl, xu, yl, yu; int n, m; };
static std::string str(const Q& q) { return "level " + std::to_string(q.l) + " (" + std::to_string(q.x) + "," + std::to_string(q.y) + ")"; }
static void grow(std::set<Q>& s, const Q& q, const Box& b, const Ask& f, int minl, int maxl) {
    bool split = q.l < minl;
    if (!split && q.l < maxl) {
        double h = std::ldexp(1.0, -q.l), w = (b.xu - b.xl)*h, v = (b.yu - b.yl)*h;
        for (int i = 0; i < b.n && !split; i++) for (int j = 0; j < b.m && !split; j++) split = f(b.xl + q.x*w + (i + 0.5)*w/b.n, b.yl + q.y*v + (j + 0.5)*v/b.m);
    }
    if (!split) { s.insert(q); return; }
    for (int k = 0; k < 4; k++) grow(s, {q.l + 1, 2*q.x + (k & 1), 2*q.y + (k >> 1)}, b, f, minl, maxl);
}
static void even(std::set<Q>& s) { // neighbours, diagonal ones too, differ by at most one level
    for (bool again = true; again;) {
        again = false;
        for (auto q : std::vector<Q>(s.begin(), s.end())) for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
            int x = q.x + dx, y = q.y + dy, n = 1 << q.l;
            if (x < 0 || y < 0 || x >= n || y >= n) continue;
            for (int l = q.l - 2; l >= 0; l--) {
                Q c{l, x >> (q.l - l), y >> (q.l - l)};
                if (s.erase(c)) { for (int k = 0; k < 4; k++) s.insert({l + 1, 2*c.x + (k & 1), 2*c.y + (k >> 1)}); again = true; }
            }
        }
    }
}
static void refined(MeshP& m, FiniteVolumePatch& root, FiniteVolumeNodeFactory& fac, const Box& b, const Ask& f, double threshold, int minl, int maxl, const char* when) {
    int asked = 0; bool outside = false;
    m.refineByFunction([&](double x, double y) { asked++; if (!(x > b.xl && x < b.xu && y > b.yl && y < b.yu)) outside = true; return f(x, y); }, threshold, minl, maxl, root, fac);
    check(!outside, when, ": the function is asked outside the domain");
    std::set<Q> w; grow(w, {0, 0, 0}, b, f, minl, maxl); even(w);
    auto* p = m.quadtree.p4est; std::set<Q> have;
    auto* t = p4est_tree_array_index(p->trees, 0);
    for (std::size_t k = 0; k < t->quadrants.elem_count; k++) { auto* q = p4est_quadrant_array_index(&t->quadrants, k); int sh = P4EST_MAXLEVEL - q->level; have.insert({q->level, q->x >> sh, q->y >> sh}); }
    for (auto& q : w) check(have.count(q), when, ": no quadrant ", str(q), ", ", have.size(), " quadrants, expected ", w.size());
    for (auto& q : have) check(w.count(q), when, ": quadrant ", str(q), " should not be there, ", have.size(), " quadrants, expected ", w.size());
    check((std::size_t) m.ncells == w.size()*b.n*b.m, when, ": ", m.ncells, " cells for ", w.size(), " patches of ", b.n*b.m);
    auto L = leaves(p, b.xl, b.xu, b.yl, b.yu); std::size_t k = 0;
    m.iteratePatches([&](FiniteVolumePatch& q) {
        auto& g = q.grid();
        check(k < L.size() && close(g.xLower(), L[k].xl) && close(g.xUpper(), L[k].xu) && close(g.yLower(), L[k].yl) && close(g.yUpper(), L[k].yu) && (int) g.nx() == b.n && (int) g.ny() == b.m, when, ": patch ", k, " covers [", g.xLower(), ",", g.xUpper(), "]x[", g.yLower(), ",", g.yUpper(), "]");
        k++;
    });
    check(k == L.size(), when, ": ", k, " patches, ", L.size(), " leaves");
    for (auto& l : L) {
        auto it = m.quadtree.map.find(l.path); check(it != m.quadtree.map.end() && it->second != nullptr && it->second->leaf && it->second->level == l.level, when, ": no leaf ", l.path, " in the tree");
    }
    double v[3];
    p4est_qcoord_to_vertex(p->connectivity, 0, 0, 0, v); check(close(v[0], b.xl) && close(v[1], b.yl) && v[2] == 0, when, ": the forest starts at (", v[0], ",", v[1], ")");
    p4est_qcoord_to_vertex(p->connectivity, 0, P4EST_ROOT_LEN, P4EST_ROOT_LEN, v); check(close(v[0], b.xu) && close(v[1], b.yu), when, ": the forest ends at (", v[0], ",", v[1], ")");
}
static Ask pick(const Box& b, int maxl) {
    double cx = b.xl + (b.xu - b.xl)*(rnd(0, 64)/64.0 + 0.00317), cy = b.yl + (b.yu - b.yl)*(rnd(0, 64)/64.0 + 0.00291), r = rnd(1, 40)/64.0*std::min(b.xu - b.xl, b.yu - b.yl);
    switch (rnd(0, 5)) {
        case 0: return [=](double x, double y) { return std::fabs(x - cx) < r/4; };
        case 1: return [=](double x, double y) { return std::fabs(y - cy) < r/4; };
        case 2: return [=](double x, double y) { return std::hypot(x - cx, y - cy) < r; };
        case 3: { // one cell centre of one quadrant of each level
            std::vector<std::array<double, 2>> c;
            for (int l = 0, qx = 0, qy = 0; l < maxl; l++) {
                double w = std::ldexp(b.xu - b.xl, -l), v = std::ldexp(b.yu - b.yl, -l);
                c.push_back({b.xl + qx*w + (rnd(0, b.n - 1) + 0.5)*w/b.n, b.yl + qy*v + (rnd(0, b.m - 1) + 0.5)*v/b.m});
                qx = 2*qx + rnd(0, 1); qy = 2*qy + rnd(0, 1);
            }
            double e = 1e-9*(b.xu - b.xl + b.yu - b.yl);
            return [=](double x, double y) { for (auto& p : c) if (std::fabs(x - p[0]) < e && std::fabs(y - p[1]) < e) return true; return false; };
        }
        case 4: return [](double, double) { return false; };
        default: { int bits = rnd(1, 4); return [=](double x, double y) { return std::sin(17*bits*(x - cx)) + std::cos(11*(y - cy)) > 1.7; }; }
    }
}
static void square() {
    double x0 = rdy(), x1 = x0 + rnd(1, 30)/8.0, y0 = rdy(), y1 = y0 + rnd(1, 30)/8.0;
    begin("connectivity of [", x0, ",", x1, "]x[", y0, ",", y1, "], seed ", seed, " case ", cases);
    auto* c = EllipticForest::p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1);
    check(c && p4est_connectivity_is_valid(c), "the connectivity is not valid");
    check(c->num_trees == 1, c->num_trees, " trees");
    for (int f = 0; f < 4; f++) check(c->tree_to_tree[f] == 0 && c->tree_to_face[f] == f, "face ", f, " is not on the boundary");
    for (int a = 0; a <= 8; a += 4) for (int d = 0; d <= 8; d += 4) {
        double v[3]; p4est_qcoord_to_vertex(c, 0, P4EST_ROOT_LEN/8*a, P4EST_ROOT_LEN/8*d, v);
        check(close(v[0], x0 + (x1 - x0)*a/8) && close(v[1], y0 + (y1 - y0)*d/8) && v[2] == 0, "position (", a, ",", d, ")/8 is (", v[0], ",", v[1], ",", v[2], ")");
    }
    p4est_connectivity_destroy(c);
}
static void one(int n, int m, int minl, int maxl) {
    Box b{rdy(), 0, rdy(), 0, n, m}; b.xu = b.xl + rnd(1, 40)/8.0; b.yu = b.yl + rnd(1, 40)/8.0;
    begin("refinement of ", n, "x", m, " cells on [", b.xl, ",", b.xu, "]x[", b.yl, ",", b.yu, "], levels ", minl, "-", maxl, ", seed ", seed, " case ", cases);
    noThrow([&] {
        FiniteVolumeGrid g(MPI_COMM_WORLD, n, b.xl, b.xu, m, b.yl, b.yu); FiniteVolumePatch root(MPI_COMM_WORLD, g); FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
        MeshP mesh;
        for (int k = rnd(0, 2) ? 1 : 2; k > 0; k--) refined(mesh, root, fac, b, pick(b, maxl), rnd(-2, 20)/10.0, minl, maxl, k == 2 ? "refined before" : "refined");
    });
}
void run() {
    startApp(); square(); one(2, 2, 0, 2); one(3, 2, 1, 4); one(1, 4, 2, 1);
    while (more()) {
        int a = rnd(0, 2);
        if (rnd(0, 9) == 0) square(); else one(rnd(1, 5), rnd(1, 5), a, rnd(0, 9) ? a + rnd(0, 4) : a - 1);
    }
}
