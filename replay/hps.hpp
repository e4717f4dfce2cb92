// References for the patch solver and the merge/split steps, written from the property statements.
#pragma once
#define VR_OWN_P4EST_SEARCH
#define VR_OWN_HSTCRT
#include "common.hpp"
#include <p4est_bits.h>
#include <p4est_search.h>

// a stand-in for the traversal the installed p4est lacks (one process): pre before, post after the descendants
namespace vr {
inline bool rootOnly = false; // visit no descendants: they belong to other processes
inline int walk(p4est_t* p, p4est_tree_t* t, p4est_quadrant_t* q, p4est_search_local_t pre, p4est_search_local_t post) {
    p4est_locidx_t num = -1;
    for (std::size_t k = 0; k < t->quadrants.elem_count; k++)
        if (p4est_quadrant_is_equal(q, p4est_quadrant_array_index(&t->quadrants, k))) num = (p4est_locidx_t) k;
    p4est_quadrant_t copy = *q;
    if (num >= 0) copy = *p4est_quadrant_array_index(&t->quadrants, num);
    if (pre && !pre(p, 0, &copy, num, nullptr)) return 0;
    if (num < 0 && !rootOnly) for (int c = 0; c < 4; c++) { p4est_quadrant_t ch; p4est_quadrant_child(q, &ch, c); walk(p, t, &ch, pre, post); }
    if (post) post(p, 0, &copy, num, nullptr);
    return 1;
}
}
extern "C" void p4est_search_reorder(p4est_t* p, int, void*, p4est_search_local_t pre, p4est_search_local_t post, p4est_search_local_t, sc_array_t*) {
    p4est_quadrant_t root; std::memset(&root, 0, sizeof root);
    vr::walk(p, p4est_tree_array_index(p->trees, 0), &root, pre, post);
}

namespace vr {
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;
using V = std::vector<double>;

inline void setOptions(bool hom, bool cache = false) {
    auto& app = EllipticForestApp::getInstance();
    app.options["homogeneous-rhs"] = hom; app.options["cache-operators"] = cache;
}
inline void startApp() { static char name[] = "replay"; static char* av[] = {name, nullptr}; static char** pv = av; static int ac = 1; static EllipticForestApp app(&ac, &pv); }

// dense solve by elimination with pivoting
inline V gauss(std::vector<V> A, V b) {
    int n = (int) b.size();
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i;
        std::swap(A[p], A[k]); std::swap(b[p], b[k]);
        for (int i = k + 1; i < n; i++) { double m = A[i][k]/A[k][k]; if (m == 0) continue; for (int j = k; j < n; j++) A[i][j] -= m*A[k][j]; b[i] -= m*b[k]; }
    }
    for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) b[k] -= A[k][j]*b[j]; b[k] /= A[k][k]; }
    return b;
}

// the five-point discretisation on n x n cells, cell (i, j) at j + i*n, sides W E S N in g
struct Cell { double w, e, s, n, c; };
struct Problem { int n; double xl, xu, yl, yu; std::function<double(double, double)> al, be, la; };
inline V fivePoint(const Problem& P, const V& g, const V& f) {
    int n = P.n; double dx = (P.xu - P.xl)/n, dy = (P.yu - P.yl)/n;
    std::vector<V> A(n*n, V(n*n, 0)); V b = f;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        double x = P.xl + (i + 0.5)*dx, y = P.yl + (j + 0.5)*dy, a = P.al(x, y);
        double c[4] = {a*P.be(x - dx/2, y)/(dx*dx), a*P.be(x + dx/2, y)/(dx*dx), a*P.be(x, y - dy/2)/(dy*dy), a*P.be(x, y + dy/2)/(dy*dy)};
        int r = j + i*n;
        A[r][r] += P.la(x, y);
        int di[4] = {-1, 1, 0, 0}, dj[4] = {0, 0, -1, 1};
        for (int s = 0; s < 4; s++) {
            int ii = i + di[s], jj = j + dj[s];
            A[r][r] -= c[s];
            if (ii >= 0 && ii < n && jj >= 0 && jj < n) A[r][jj + ii*n] += c[s];
            else { A[r][r] -= c[s]; b[r] -= 2*c[s]*g[s*n + (s < 2 ? j : i)]; } // ghost value 2g - u
        }
    }
    return gauss(A, b);
}
inline V flux(const Problem& P, const V& g, const V& u) {
    int n = P.n; double dx = (P.xu - P.xl)/n, dy = (P.yu - P.yl)/n; V r(4*n);
    for (int k = 0; k < n; k++) {
        r[k] = (u[k] - g[k])/(dx/2); r[n + k] = (g[n + k] - u[k + (n - 1)*n])/(dx/2);
        r[2*n + k] = (u[k*n] - g[2*n + k])/(dy/2); r[3*n + k] = (g[3*n + k] - u[n - 1 + k*n])/(dy/2);
    }
    return r;
}
inline V averaged(const V& v) { V r; for (std::size_t i = 0; i + 1 < v.size(); i += 2) r.push_back((v[i] + v[i + 1])/2); return r; }
// operator from coarse to fine values of one side: rows of fine cells
inline std::vector<V> c2f(int nf) { InterpolationMatrixCoarse2Fine<double> m(nf); std::vector<V> r(nf, V(nf/2)); for (int i = 0; i < nf; i++) for (int j = 0; j < nf/2; j++) r[i][j] = m(i, j); return r; }
inline V mul(const std::vector<V>& A, const V& x) { V r(A.size(), 0); for (std::size_t i = 0; i < A.size(); i++) for (std::size_t j = 0; j < x.size(); j++) r[i] += A[i][j]*x[j]; return r; }
template <class F> inline V perSide(const V& v, F f) { V r; int n = (int) v.size()/4; for (int s = 0; s < 4; s++) { V p = f(V(v.begin() + s*n, v.begin() + (s + 1)*n)); r.insert(r.end(), p.begin(), p.end()); } return r; }
inline V coarsened(const V& v) { return perSide(v, averaged); }
inline V refined(const V& v) { return perSide(v, [](const V& p) { return mul(c2f(2*(int) p.size()), p); }); }

inline FiniteVolumePatch rpatch(int n, double xl, double xu, double yl, double yu) {
    FiniteVolumeGrid g(MPI_COMM_WORLD, n, xl, xu, n, yl, yu);
    FiniteVolumePatch p(MPI_COMM_WORLD, g);
    p.matrixT() = Matrix<double>(4*n, 4*n);
    for (int i = 0; i < 4*n; i++) for (int j = 0; j < 4*n; j++) p.matrixT()(i, j) = rdy()/4 + (i == j ? ((i/n)%2 ? 1 : -1)*(8.0*n + rnd(0, 9)) : 0);
    p.vectorH() = rvec<double>(4*n);
    return p;
}
inline std::vector<V> rows(Matrix<double>& m) { std::vector<V> r(m.nrows(), V(m.ncols())); for (int i = 0; i < (int) m.nrows(); i++) for (int j = 0; j < (int) m.ncols(); j++) r[i][j] = m(i, j); return r; }

/** four siblings, child c finer than the coarsest by lev[c] levels, and their parent */
struct Family {
    int n; std::array<int, 4> lev;
    Mesh<FiniteVolumePatch> mesh; FiniteVolumeSolver solver; HPS hps{MPI_COMM_WORLD, mesh, solver};
    std::vector<FiniteVolumePatch> p; FiniteVolumePatch tau;
    std::vector<std::vector<V>> T; std::vector<V> h; // of the children, before
    Family(int n_, std::array<int, 4> l) : n(n_), lev(l), tau(MPI_COMM_WORLD, FiniteVolumeGrid(MPI_COMM_WORLD, n_, -1, 3, n_, 2, 3)) {
        for (int c = 0; c < 4; c++) {
            int m = n << lev[c];
            p.push_back(rpatch(m, c%2 ? 1 : -1, c%2 ? 3 : 1, c/2 ? 2.5 : 2, c/2 ? 3 : 2.5));
            T.push_back(rows(p[c].matrixT())); h.push_back(p[c].vectorH().data());
        }
    }
    std::string text() { std::ostringstream o; o << n << " cells per coarse side, levels above the coarsest " << lev[0] << lev[1] << lev[2] << lev[3]; return o.str(); }
    void merge() { hps.merge4to1(tau, p[0], p[1], p[2], p[3]); }
    void upwards() { hps.upwards4to1(tau, p[0], p[1], p[2], p[3]); }
    void split() { hps.split1to4(tau, p[0], p[1], p[2], p[3]); }
    /** flux of child c at the coarsest resolution for side data g of that resolution */
    V childFlux(int c, V g, bool withH) {
        for (int k = 0; k < lev[c]; k++) g = refined(g);
        V v = mul(T[c], g);
        if (withH) for (std::size_t i = 0; i < v.size(); i++) v[i] += h[c][i];
        for (int k = 0; k < lev[c]; k++) v = coarsened(v);
        return v;
    }
};
// child and side of each boundary block of the parent, and the two (child, side) of each interior edge
inline const int EXT[8][2] = {{0, 0}, {2, 0}, {1, 1}, {3, 1}, {0, 2}, {1, 2}, {2, 3}, {3, 3}};
inline const int INN[4][4] = {{0, 3, 2, 2}, {1, 3, 3, 2}, {0, 1, 1, 0}, {2, 1, 3, 0}};
inline V childData(int n, int c, const V& g, const V& s) {
    V r(4*n);
    for (int b = 0; b < 8; b++) if (EXT[b][0] == c) for (int i = 0; i < n; i++) r[EXT[b][1]*n + i] = g[b*n + i];
    for (int b = 0; b < 4; b++) for (int k : {0, 2}) if (INN[b][k] == c) for (int i = 0; i < n; i++) r[INN[b][k + 1]*n + i] = s[b*n + i];
    return r;
}
inline V rv(int n) { V v(n); for (auto& x : v) x = rdy(); return v; }

/** after merging: fluxes of the siblings agree on the interior edges and the parent's map gives the exterior ones */
inline void checkMerged(Family& F, bool inhom) {
    int n = F.n;
    check((int) F.tau.matrixS().nrows() == 4*n && (int) F.tau.matrixS().ncols() == 8*n, "interface operator is ", F.tau.matrixS().nrows(), "x", F.tau.matrixS().ncols());
    check((int) F.tau.matrixT().nrows() == 8*n && (int) F.tau.matrixT().ncols() == 8*n, "parent map is ", F.tau.matrixT().nrows(), "x", F.tau.matrixT().ncols());
    auto S = rows(F.tau.matrixS()), T = rows(F.tau.matrixT());
    for (int rep = 0; rep < 2; rep++) {
        V g = rep == 0 && inhom ? V(8*n, 0) : rv(8*n), s = mul(S, g), v = mul(T, g);
        if (inhom) {
            V w = F.tau.vectorW().data(), h = F.tau.vectorH().data();
            check((int) w.size() == 4*n && (int) h.size() == 8*n, "interface correction has ", w.size(), " and particular flux ", h.size(), " entries");
            for (int i = 0; i < 4*n; i++) s[i] += w[i];
            for (int i = 0; i < 8*n; i++) v[i] += h[i];
        }
        std::vector<V> q;
        for (int c = 0; c < 4; c++) q.push_back(F.childFlux(c, childData(n, c, g, s), inhom));
        for (int b = 0; b < 4; b++) for (int i = 0; i < n; i++) {
            double a = q[INN[b][0]][INN[b][1]*n + i], e = q[INN[b][2]][INN[b][3]*n + i];
            check(close(a, e, 1e-8), "interior edge ", b, " point ", i, ": the fluxes of the two children are ", a, " and ", e);
        }
        for (int b = 0; b < 8; b++) for (int i = 0; i < n; i++) {
            double e = q[EXT[b][0]][EXT[b][1]*n + i];
            check(close(v[b*n + i], e, 1e-8), "parent boundary block ", b, " point ", i, ": the parent's flux is ", v[b*n + i], ", the child's is ", e);
        }
    }
}
inline std::array<int, 4> levels(bool mixed) {
    std::array<int, 4> l{0, 0, 0, 0};
    if (mixed) { do for (auto& x : l) x = rnd(0, 2); while (*std::min_element(l.begin(), l.end()) > 0 || *std::max_element(l.begin(), l.end()) == 0); }
    return l;
}
inline void mergeCase(const char* key, bool mixed, bool inhom) {
    Family F(mixed ? rnd(1, 3)*2 : rnd(1, 5), levels(mixed));
    begin(key, F.text(), inhom ? ", inhomogeneous" : ", homogeneous", ", seed ", seed, " case ", cases);
    setOptions(!inhom);
    noThrow([&] {
        F.tau.n_coarsens = rnd(0, 2); // of an earlier build
        F.merge();
        if (inhom) F.upwards();
        checkMerged(F, inhom);
        auto& tg = F.tau.grid(); int n2 = 2*F.n;
        check((int) tg.nx() == n2 && (int) tg.ny() == n2 && (int) F.tau.size() == n2, "the parent has ", tg.nx(), "x", tg.ny(), " cells, its side ", F.tau.size(), ", expected ", n2);
        check(close(tg.xLower(), -1, 1e-12) && close(tg.xUpper(), 3, 1e-12) && close(tg.yLower(), 2, 1e-12) && close(tg.yUpper(), 3, 1e-12), "the parent covers [", tg.xLower(), ",", tg.xUpper(), "]x[", tg.yLower(), ",", tg.yUpper(), "]");
        for (int c = 0; c < 4; c++) check(F.p[c].size() == F.n, "child ", c, " has ", F.p[c].size(), " cells per side after the merge");
    });
}
/** the parent's data, brought to the resolution of its children, and the interface values reach the children */
inline void splitCase(const char* key, bool mixed, bool inhom) {
    int n = mixed ? rnd(1, 3)*2 : rnd(1, 5), up = mixed ? rnd(0, 2) : rnd(0, 1);
    std::array<int, 4> l = levels(rnd(0, 1));
    Family F(n, l);
    for (int c = 0; c < 4; c++) F.p[c].n_coarsens = l[c]; // as the merge leaves them
    while ((2*n) % (1 << up)) up--;
    begin(key, F.text(), ", parent coarsened ", up, " times", inhom ? ", inhomogeneous" : ", homogeneous", ", seed ", seed, " case ", cases);
    setOptions(!inhom);
    noThrow([&] {
        F.tau.grid() = FiniteVolumeGrid(MPI_COMM_WORLD, 2*n, -1, 3, 2*n, 2, 3);
        F.tau.n_coarsens = up;
        F.tau.matrixS() = rmat(4*n, 8*n);
        F.tau.vectorW() = rvec<double>(4*n);
        V g = rv(8*n >> up);
        F.tau.vectorG() = Vector<double>(g);
        V w = F.tau.vectorW().data(); auto S = rows(F.tau.matrixS());
        F.split();
        for (int k = 0; k < up; k++) g = refined(g);
        V s = mul(S, g);
        if (inhom) for (int i = 0; i < 4*n; i++) s[i] += w[i];
        for (int c = 0; c < 4; c++) sameV(childData(n, c, g, s), F.p[c].vectorG(), ("boundary data of child " + std::to_string(c)).c_str(), 1e-9);
    });
}

// the constant-coefficient solver the installed libraries lack: solves what it is asked to, in its own ordering
inline struct Fish { int calls = 0, m = 0, n = 0, mb = 0, nb = 0, idim = 0; double a = 0, b = 0, c = 0, d = 0, la = 0; V bda, bdb, bdc, bdd, f; } fish;
}
namespace EllipticForest { extern "C" void hstcrt_(double* A, double* B, int* M, int* MB, double* BDA, double* BDB, double* C, double* D, int* N, int* NB, double* BDC, double* BDD, double* LA, double* F, int* IDIMF, double* P, int* IERR) {
    using vr::V; auto& k = vr::fish; int m = *M, n = *N;
    k.calls++; k.m = m; k.n = n; k.mb = *MB; k.nb = *NB; k.a = *A; k.b = *B; k.c = *C; k.d = *D; k.la = *LA; k.idim = *IDIMF;
    k.bda = V(BDA, BDA + n); k.bdb = V(BDB, BDB + n); k.bdc = V(BDC, BDC + m); k.bdd = V(BDD, BDD + m); k.f.clear();
    *P = 0; *IERR = 0;
    if (m != n || *IDIMF != m || *MB != 1 || *NB != 1) { *IERR = 1; return; }
    V g, f(n*n);
    for (auto* s : {&k.bda, &k.bdb, &k.bdc, &k.bdd}) g.insert(g.end(), s->begin(), s->end());
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) f[j + i*n] = F[i + j*m];
    double la = *LA;
    vr::Problem Q{n, *A, *B, *C, *D, [](double, double) { return 1.0; }, [](double, double) { return 1.0; }, [la](double, double) { return la; }};
    V u = vr::fivePoint(Q, g, f);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) F[i + j*m] = u[j + i*n];
} }
namespace vr {
inline Problem rproblem(int n, bool constant) {
    Problem P; P.n = n;
    P.xl = rnd(-3, 2); P.xu = P.xl + rnd(1, 4); P.yl = rnd(-3, 2); P.yu = P.yl + rnd(1, 3)*0.5;
    double a = rnd(1, 3), b = rnd(1, 4), l = -rnd(0, 3);
    if (constant) { P.al = P.be = [](double, double) { return 1.0; }; P.la = [l](double, double) { return l; }; return P; }
    P.al = [a](double x, double y) { return a + 0.25*std::sin(x + 2*y); };
    P.be = [b](double x, double y) { return b + 0.5*std::cos(x - 3*y); };
    P.la = [l](double x, double y) { return l - 0.1*(x*x + y*y); };
    return P;
}
inline std::string text(const Problem& P) { std::ostringstream o; o << P.n << "x" << P.n << " cells on [" << P.xl << "," << P.xu << "]x[" << P.yl << "," << P.yu << "], seed " << seed << " case " << cases; return o.str(); }
inline FiniteVolumeSolver solverFor(const Problem& P, bool fast) {
    FiniteVolumeSolver s; s.alpha_function = P.al; s.beta_function = P.be; s.lambda_function = P.la;
    s.rhs_function = [](double, double) { return 0.0; };
    s.solver_type = fast ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
    return s;
}
inline FiniteVolumeGrid gridFor(const Problem& P) { return FiniteVolumeGrid(MPI_COMM_WORLD, P.n, P.xl, P.xu, P.n, P.yl, P.yu); }
}
