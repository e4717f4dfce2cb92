// Matrix<double> against its definition
#pragma once
#include "vec.hpp"
using M = Matrix<double>;
using VD = Vector<double>;

template <class F> void mustThrowM(M& m, F f, const char* what) {
    auto keep = m.data();
    check(threw(f), what, " was accepted");
    same(keep, m.data(), "matrix after a refused call");
}

inline std::vector<double> tab(int r, int c, std::function<double(int, int)> f) { std::vector<double> x; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x.push_back(f(i, j)); return x; }

inline void matrixAccess(int r, int c, bool value, bool range) {
    M m = rmat(r, c);
    const auto a = m.data();
    auto A = [&](int i, int j) { return a[i*c + j]; };
    double s = rreal();
    auto intact = [&]() { sameM(r, c, a, m, "operand changed"); };
    auto ctx = [&](const char* k, auto&&... x) { begin(k, "m=", str(m), x...); };
    if (value) {
        ctx("Matrix construction", " s=", s);
        noThrow([&]{ sameM(r, c, std::vector<double>(r*c), M(r, c), "Matrix(r,c)"); sameM(r, c, std::vector<double>(r*c, s), M(r, c, s), "Matrix(r,c,s)"); sameM(r, c, a, M(r, c, a), "from std::vector"); M k(m); sameM(r, c, a, k, "copy"); M z; check(z.nrows() == 0 && z.ncols() == 0, "empty"); z = m; sameM(r, c, a, z, "assignment"); z = z; sameM(r, c, a, z, "self assignment"); intact();
            check((int) m.nRows() == r && (int) m.nCols() == c, "nRows/nCols"); });
        ctx("Matrix transpose");
        noThrow([&]{ sameM(c, r, tab(c, r, [&](int i, int j) { return A(j, i); }), m.T(), "T"); intact(); });
    }
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        ctx("Matrix entry", " i=", i, " j=", j);
        noThrow([&]{ check(m(i, j) == A(i, j) && m.getEntry(i, j) == A(i, j), "wrong entry read"); intact();
            if (value) { M k(m); k(i, j) = s; auto e = a; e[i*c + j] = s; sameM(r, c, e, k, "m(i,j)=s"); } });
    }
    for (int i = 0; i < r && c > 0; i++) {
        ctx("Matrix row", " i=", i);
        noThrow([&]{ sameV(tab(1, c, [&](int, int j) { return A(i, j); }), m.getRow(i), "getRow"); intact(); VD v = rvec<double>(c); auto vv = v.data(); M k(m); k.setRow(i, v); sameM(r, c, tab(r, c, [&](int p, int q) { return p == i ? vv[q] : A(p, q); }), k, "setRow"); sameV(vv, v, "row source"); });
    }
    for (int j = 0; j < c && r > 0; j++) {
        ctx("Matrix column", " j=", j);
        noThrow([&]{ sameV(tab(r, 1, [&](int i, int) { return A(i, j); }), m.getCol(j), "getCol"); intact(); VD v = rvec<double>(r); auto vv = v.data(); M k(m); k.setColumn(j, v); sameM(r, c, tab(r, c, [&](int p, int q) { return q == j ? vv[p] : A(p, q); }), k, "setColumn"); sameV(vv, v, "column source"); });
    }
    for (int t = 0; t < 12; t++) {
        int i = rnd(0, r), j = rnd(0, c), h = rnd(0, r - i), w = rnd(0, c - j);
        if (t < 4) { i = (t & 1) ? r : 0; h = (t & 1) ? 0 : r; j = (t & 2) ? c : 0; w = (t & 2) ? 0 : c; }
        ctx("Matrix block", " row=", i, " col=", j, " rows=", h, " cols=", w);
        noThrow([&]{ sameM(h, w, tab(h, w, [&](int p, int q) { return A(i + p, j + q); }), m.getBlock(i, j, h, w), "getBlock"); intact();
            M b = rmat(h, w); auto bb = b.data(); M k(m); k.setBlock(i, j, b); sameM(r, c, tab(r, c, [&](int p, int q) { return p >= i && p < i + h && q >= j && q < j + w ? bb[(p - i)*w + q - j] : A(p, q); }), k, "setBlock"); sameM(h, w, bb, b, "block source"); });
        if (h > 0 && w > 0) {
            ctx("Matrix range", " rows ", i, "..", i + h - 1, " cols ", j, "..", j + w - 1);
            noThrow([&]{ sameM(h, w, tab(h, w, [&](int p, int q) { return A(i + p, j + q); }), m(i, i + h - 1, j, j + w - 1), "operator()(a,b,c,d)"); intact(); });
        }
    }
    for (int t = 0; t < 6; t++) {
        int p = rnd(0, r), q = rnd(0, c);
        if (t == 0) { p = r; q = c; }
        Vector<int> I(p), J(q); for (int k = 0; k < p; k++) I[k] = rnd(0, r - 1); for (int k = 0; k < q; k++) J[k] = rnd(0, c - 1);
        auto ii = I.data(), jj = J.data();
        ctx("Matrix index sets", " I=", str(ii), " J=", str(jj));
        noThrow([&]{ auto e = tab(p, q, [&](int x, int y) { return A(ii[x], jj[y]); }); sameM(p, q, e, m.getFromIndexSet(I, J), "getFromIndexSet"); sameM(p, q, e, m(I, J), "operator()(I,J)"); intact(); });
        if (!range || p == 0 || q == 0) continue;
        for (int side = 0; side < 2; side++) for (int d : {0, 1, 1000, -1}) {
            Vector<int> K(I), L(J);
            if (side == 0) K[rnd(0, p - 1)] = d < 0 ? -1 : r + d; else L[rnd(0, q - 1)] = d < 0 ? -1 : c + d;
            ctx("Matrix index sets out of range", " I=", str(K), " J=", str(L));
            mustThrowM(m, [&]{ (void) m.getFromIndexSet(K, L); }, "getFromIndexSet"); mustThrowM(m, [&]{ (void) m(K, L); }, "operator()(I,J)");
        }
    }
    if (!range) return;
    for (int d : {0, 1, 6}) for (int q = 0; q < 2; q++) {
        int i = q ? r + d : rnd(0, std::max(0, r - 1)), j = q ? rnd(0, std::max(0, c - 1)) : c + d;
        ctx("Matrix entry out of range", " i=", i, " j=", j);
        mustThrowM(m, [&]{ (void) m(i, j); }, "m(i,j)"); mustThrowM(m, [&]{ m(i, j) = s; }, "m(i,j)=s"); mustThrowM(m, [&]{ (void) m.getEntry(i, j); }, "getEntry");
    }
    ctx("Matrix entry out of range", " i=-1 j=0 / i=0 j=-1");
    mustThrowM(m, [&]{ (void) m(-1, 0); }, "m(-1,0)"); mustThrowM(m, [&]{ (void) m(0, -1); }, "m(0,-1)");
    for (int i = 1; i <= 2; i++) for (int h = 0; h <= 2; h++) {
        ctx("Matrix block out of range", " position ", -i, " length ", h);
        mustThrowM(m, [&]{ (void) m.getBlock(-i, 0, h, 0); }, "getBlock"); mustThrowM(m, [&]{ (void) m.getBlock(0, -i, 0, h); }, "getBlock");
        mustThrowM(m, [&]{ (void) m.getBlock(h, 0, -i, 0); }, "getBlock of negative length"); mustThrowM(m, [&]{ (void) m.getBlock(0, h, 0, -i); }, "getBlock of negative length");
        M b(h, c), b2(r, h); mustThrowM(m, [&]{ m.setBlock(-i, 0, b); }, "setBlock"); mustThrowM(m, [&]{ m.setBlock(0, -i, b2); }, "setBlock");
    }
    for (int d : {0, 1, 4}) {
        VD x(c), y(r), x2(c + 1 + d), y2(r + 1 + d);
        ctx("Matrix row/column out of range", " row=", r + d, " col=", c + d);
        if (c > 0) mustThrowM(m, [&]{ (void) m.getRow(r + d); }, "getRow"); if (r > 0) mustThrowM(m, [&]{ (void) m.getCol(c + d); }, "getCol"); mustThrowM(m, [&]{ m.setRow(r + d, x); }, "setRow"); mustThrowM(m, [&]{ m.setColumn(c + d, y); }, "setColumn");
        if (r > 0) mustThrowM(m, [&]{ m.setRow(r - 1, x2); }, "setRow with a longer row");
        if (c > 0) mustThrowM(m, [&]{ m.setColumn(c - 1, y2); }, "setColumn with a longer column");
        if (r > 0 && c > 0) { VD xs(c - 1), ys(r - 1); mustThrowM(m, [&]{ m.setRow(0, xs); }, "setRow with a shorter row"); mustThrowM(m, [&]{ m.setColumn(0, ys); }, "setColumn with a shorter column"); }
        for (int i = 0; i <= r; i++) for (int j = 0; j <= c; j++) for (int q = 0; q < 2; q++) {
            int h = q ? r - i + 1 + d : r - i, w = q ? c - j : c - j + 1 + d;
            ctx("Matrix block out of range", " row=", i, " col=", j, " rows=", h, " cols=", w);
            mustThrowM(m, [&]{ (void) m.getBlock(i, j, h, w); }, "getBlock"); M b(h, w); mustThrowM(m, [&]{ m.setBlock(i, j, b); }, "setBlock");
            if (h > 0 && w > 0) mustThrowM(m, [&]{ (void) m(i, i + h - 1, j, j + w - 1); }, "operator()(a,b,c,d)");
        }
    }
}

inline void special(int n) {
    begin("IdentityMatrix", n);
    noThrow([&]{ IdentityMatrix<double> I(n); sameM(n, n, tab(n, n, [](int i, int j) { return i == j ? 1. : 0.; }), I, "identity"); });
    VD d = rvec<double>(n); auto dd = d.data();
    begin("DiagonalMatrix", str(dd));
    noThrow([&]{ DiagonalMatrix<double> D(d); sameM(n, n, tab(n, n, [&](int i, int j) { return i == j ? dd[i] : 0.; }), D, "diagonal"); sameV(dd, d, "operand"); });
}

inline void blockDiagonal() {
    int k = rnd(0, 6);
    std::vector<M> ms; int R = 0, C = 0;
    for (int q = 0; q < k; q++) { ms.push_back(rmat(rnd(0, 4), rnd(0, 4))); R += ms.back().nrows(); C += ms.back().ncols(); }
    std::string t; for (auto& x : ms) t += str(x) + " ";
    begin("blockDiagonalMatrix", t);
    noThrow([&]{
        std::vector<double> e(R*C); int r0 = 0, c0 = 0;
        for (auto& x : ms) { for (int i = 0; i < (int) x.nrows(); i++) for (int j = 0; j < (int) x.ncols(); j++) e[(r0 + i)*C + c0 + j] = x.data()[i*x.ncols() + j]; r0 += x.nrows(); c0 += x.ncols(); }
        sameM(R, C, e, blockDiagonalMatrix(ms), "blockDiagonalMatrix");
    });
}

inline void algebra(int r, int c, bool value, bool range) {
    M m = rmat(r, c), w = rmat(r, c); auto a = m.data(), b = w.data(); double s = rreal();
    auto f = [&](auto g) { std::vector<double> x(r*c); for (int i = 0; i < r*c; i++) x[i] = g(a[i], b[i]); return x; };
    auto intact = [&]() { sameM(r, c, a, m, "operand changed"); sameM(r, c, b, w, "operand changed"); };
    if (value) {
        begin("Matrix elementwise", "A=", str(m), " B=", str(w), " s=", s);
        noThrow([&]{
            sameM(r, c, f([](double x, double y) { return x + y; }), m + w, "A+B"); intact(); sameM(r, c, f([](double x, double y) { return x - y; }), m - w, "A-B"); intact();
            sameM(r, c, f([](double x, double y) { return x + x; }), m + m, "A+A"); intact(); sameM(r, c, f([](double x, double y) { return 0.; }), m - m, "A-A"); intact();
            sameM(r, c, f([](double x, double y) { return -x; }), -m, "-A"); intact(); sameM(r, c, f([&](double x, double y) { return s*x; }), s*m, "s*A"); intact();
            { M k(m); k += w; sameM(r, c, f([](double x, double y) { return x + y; }), k, "A+=B"); } { M k(m); k -= w; sameM(r, c, f([](double x, double y) { return x - y; }), k, "A-=B"); }
            { M k(m); k += k; sameM(r, c, f([](double x, double y) { return x + x; }), k, "A+=A"); } { M k(m); k -= k; sameM(r, c, f([](double x, double y) { return 0.; }), k, "A-=A"); }
            { M k(m); k += s; sameM(r, c, f([&](double x, double y) { return x + s; }), k, "A+=s"); } { M k(m); k -= s; sameM(r, c, f([&](double x, double y) { return x - s; }), k, "A-=s"); } { M k(m); k *= s; sameM(r, c, f([&](double x, double y) { return x*s; }), k, "A*=s"); }
            intact();
            double inf = 0; for (int i = 0; i < r*c; i++) inf = std::max(inf, std::fabs(a[i] - b[i])); if (r*c > 0) check(matrixInfNorm(m, w) == inf, "matrixInfNorm");
        });
        if (r > 0 && c > 0) {
            VD x = rvec<double>(c); auto xx = x.data();
            begin("Matrix times vector", "A=", str(m), " x=", str(xx));
            noThrow([&]{ std::vector<double> e(r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) e[i] += a[i*c + j]*xx[j]; sameV(e, m*x, "A*x"); intact(); sameV(xx, x, "operand"); });
            int k = rnd(1, 6); M B = rmat(c, k); auto bb = B.data();
            begin("Matrix times matrix", "A=", str(m), " B=", str(B));
            noThrow([&]{ sameM(r, k, tab(r, k, [&](int i, int j) { double t = 0; for (int q = 0; q < c; q++) t += a[i*c + q]*bb[q*k + j]; return t; }), m*B, "A*B"); intact(); sameM(c, k, bb, B, "operand"); });
            if (r == c) {
                M D(m); for (int i = 0; i < r; i++) D(i, i) += 40; auto dd = D.data(); VD y = rvec<double>(r); auto yy = y.data();
                if (rnd(0, 1)) { for (int j = 0; j < r; j++) std::swap(dd[j], dd[(r - 1)*r + j]); D = M(r, r, dd); }
                begin("solve", "A=", str(D), " b=", str(yy));
                noThrow([&]{ VD z = solve(D, y); check((int) z.size() == r, "size"); std::vector<double> e(r); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) e[i] += dd[i*r + j]*z.data()[j]; same(yy, e, "A*solve(A,b)", 1e-9); sameM(r, r, dd, D, "operand"); sameV(yy, y, "operand"); });
                M Y = rmat(r, k); auto Yd = Y.data();
                begin("solve", "A=", str(D), " B=", str(Y));
                noThrow([&]{ M Z = solve(D, Y); auto zd = Z.data(); check((int) Z.nrows() == r && (int) Z.ncols() == k, "shape"); same(Yd, tab(r, k, [&](int i, int j) { double t = 0; for (int q = 0; q < r; q++) t += dd[i*r + q]*zd[q*k + j]; return t; }), "A*solve(A,B)", 1e-9); sameM(r, r, dd, D, "operand"); sameM(r, k, Yd, Y, "operand"); });
            }
        }
    }
    if (!range) return;
    for (int q = 0; q < 4; q++) {
        int r2 = q < 2 ? r + (q ? 1 : -1) : r, c2 = q < 2 ? c : c + (q == 3 ? 1 : -1);
        if (r2 < 0 || c2 < 0) continue;
        M x = rmat(r2, c2);
        begin("Matrix shapes differ", r, "x", c, " and ", r2, "x", c2);
        mustThrowM(m, [&]{ (void) (m + x); }, "A+B"); mustThrowM(m, [&]{ (void) (m - x); }, "A-B"); mustThrowM(m, [&]{ m += x; }, "A+=B"); mustThrowM(m, [&]{ m -= x; }, "A-=B"); mustThrowM(m, [&]{ (void) matrixInfNorm(m, x); }, "matrixInfNorm");
    }
    for (int n : {c - 1, c + 1, c + 3}) {
        if (n < 1 || r < 1 || c < 1) continue;
        VD x = rvec<double>(n); M B = rmat(n, 2);
        begin("Matrix product sizes differ", r, "x", c, " by ", n);
        mustThrowM(m, [&]{ (void) (m*x); }, "A*x"); mustThrowM(m, [&]{ (void) (m*B); }, "A*B");
    }
    if (r > 0 && c > 0) {
        VD y(r), y2(r + 1), y3(c); M Y(r, 2), Y2(r + 1, 2);
        begin("solve, shapes do not fit", r, "x", c);
        if (r != c) { mustThrowM(m, [&]{ (void) solve(m, y); }, "solve(A,b) with rectangular A"); mustThrowM(m, [&]{ (void) solve(m, Y); }, "solve(A,B) with rectangular A"); mustThrowM(m, [&]{ (void) solve(m, y3); }, "solve(A,b) with rectangular A"); }
        else { mustThrowM(m, [&]{ (void) solve(m, y2); }, "solve(A,b), b too long"); mustThrowM(m, [&]{ (void) solve(m, Y2); }, "solve(A,B), B too tall"); }
    }
}

inline void permute(bool mats) {
    static const std::vector<int> pi8 = {0, 4, 2, 6, 1, 3, 5, 7};
    int k = rnd(1, 8);
    auto perm = [&](int k) { std::vector<int> p(k); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), rng); if (k == 8 && rnd(0, 1)) p = pi8; return p; };
    auto cut = [&](int k) { std::vector<int> s(k); bool eqv = rnd(0, 3) == 0; int e = rnd(1, 4); for (auto& x : s) x = eqv ? e : rnd(0, 4); return s; };
    auto order = [&](const std::vector<int>& p, const std::vector<int>& s) { std::vector<int> st(s.size() + 1, 0); for (std::size_t i = 0; i < s.size(); i++) st[i + 1] = st[i] + s[i]; std::vector<int> o; for (int b : p) for (int q = 0; q < s[b]; q++) o.push_back(st[b] + q); return o; };
    auto p = perm(k), s = cut(k); auto o = order(p, s);
    int n = o.size();
    if (!mats) {
        VD v = rvec<double>(n); for (int i = 0; i < n; i++) v[i] = 100 + i;
        auto a = v.data();
        begin("Vector blockPermute", "v=", str(a), " I=", str(p), " S=", str(s));
        noThrow([&]{ std::vector<double> e; for (int q : o) e.push_back(a[q]); sameV(e, v.blockPermute(Vector<int>(p), Vector<int>(s)), "blockPermute"); sameV(a, v, "argument"); });
        Vector<int> w(n); std::vector<int> b(n); for (int i = 0; i < n; i++) b[i] = w[i] = 1000 - i;
        begin("Vector<int> blockPermute", "v=", str(b), " I=", str(p), " S=", str(s));
        noThrow([&]{ std::vector<int> e; for (int q : o) e.push_back(b[q]); sameV(e, w.blockPermute(Vector<int>(p), Vector<int>(s)), "blockPermute"); sameV(b, w, "argument"); });
        Vector<int> bad(s); bad[rnd(0, k - 1)] += 1;
        begin("Vector blockPermute", "v=", str(a), " I=", str(p), " S=", str(bad));
        mustThrow(v, [&]{ (void) v.blockPermute(Vector<int>(p), bad); }, "blockPermute with sizes that do not add up");
        return;
    }
    int k2 = rnd(1, 8); auto p2 = perm(k2), s2 = cut(k2); auto o2 = order(p2, s2); int n2 = o2.size();
    M m(n, n2); for (int i = 0; i < n*n2; i++) m.dataNoConst()[i] = i + 1;
    auto a = m.data();
    begin("Matrix blockPermute", n, "x", n2, " I=", str(p), " J=", str(p2), " R=", str(s), " C=", str(s2));
    noThrow([&]{ sameM(n, n2, tab(n, n2, [&](int i, int j) { return a[o[i]*n2 + o2[j]]; }), m.blockPermute(Vector<int>(p), Vector<int>(p2), Vector<int>(s), Vector<int>(s2)), "blockPermute"); sameM(n, n2, a, m, "argument"); });
    Vector<int> bad(s); bad[rnd(0, k - 1)] += 1; Vector<int> bad2(s2); bad2[rnd(0, k2 - 1)] += 1;
    begin("Matrix blockPermute", n, "x", n2, " with sizes that do not add up");
    mustThrowM(m, [&]{ (void) m.blockPermute(Vector<int>(p), Vector<int>(p2), bad, Vector<int>(s2)); }, "blockPermute");
    mustThrowM(m, [&]{ (void) m.blockPermute(Vector<int>(p), Vector<int>(p2), Vector<int>(s), bad2); }, "blockPermute");
}
