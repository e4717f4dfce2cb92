// Vector<T> against its definition. RANGE: also out-of-range and mismatched calls.
#pragma once
#include "common.hpp"
using namespace vr;

template <class T, class F> void mustThrow(Vector<T>& v, F f, const char* what) {
    auto keep = v.data();
    check(threw(f), what, " was accepted");
    same(keep, v.data(), "vector after a refused call");
}

template <class T> void vectorRound(int n, bool value, bool range) {
    using V = Vector<T>;
    V v = rvec<T>(n), w = rvec<T>(n);
    const auto a = v.data(), b = w.data();
    const T s = (T) rreal();
    auto ctx = [&](const char* k, auto&&... x) { begin(k, "v=", str(a), x...); };
    auto intact = [&]() { same(a, v.data(), "operand changed"); same(b, w.data(), "operand changed"); check(v.size() == a.size() && w.size() == b.size(), "operand size changed"); };
    auto map = [&](auto f) { std::vector<T> r(n); for (int i = 0; i < n; i++) r[i] = f(i); return r; };
    if (value) {
        ctx("Vector construction", " n=", n);
        noThrow([&]{ same(std::vector<T>(n), V(n).data(), "Vector(n)"); check((int) V(n).size() == n, "size"); V f(n, s); sameV(std::vector<T>(n, s), f, "Vector(n, value)"); V c(v); sameV(a, c, "copy"); V d; check(d.size() == 0, "empty"); d = v; sameV(a, d, "assignment"); V e(a); sameV(a, e, "from std::vector"); V g = {s, (T) 2}; sameV(std::vector<T>{s, (T) 2}, g, "from list"); });
        intact();
        ctx("Vector elementwise", " w=", str(b), " s=", s);
        noThrow([&]{
            sameV(map([&](int i) { return (T)(a[i] + b[i]); }), v + w, "v+w"); intact();
            sameV(map([&](int i) { return (T)(a[i] - b[i]); }), v - w, "v-w"); intact();
            sameV(map([&](int i) { return (T)(a[i] + s); }), v + s, "v+s"); intact();
            sameV(map([&](int i) { return (T)(a[i] - s); }), v - s, "v-s"); intact();
            sameV(map([&](int i) { return (T)(-a[i]); }), -v, "-v"); intact();
            sameV(map([&](int i) { return (T)(a[i] + a[i]); }), v + v, "v+v"); intact();
            sameV(map([&](int i) { return (T)(a[i] - a[i]); }), v - v, "v-v"); intact();
            T dot = 0, dd = 0; for (int i = 0; i < n; i++) { dot += a[i]*b[i]; dd += a[i]*a[i]; }
            check(v*w == dot, "v*w"); check(v*v == dd, "v*v"); intact();
            { V c(v); auto* p = &(c += w); check(p == &c, "+= returns another object"); sameV(map([&](int i) { return (T)(a[i] + b[i]); }), c, "v+=w"); intact(); }
            { V c(v); auto* p = &(c -= w); check(p == &c, "-= returns another object"); sameV(map([&](int i) { return (T)(a[i] - b[i]); }), c, "v-=w"); intact(); }
            { V c(v); c += c; sameV(map([&](int i) { return (T)(2*a[i]); }), c, "v+=v"); }
            { V c(v); c -= c; sameV(map([&](int i) { return (T) 0; }), c, "v-=v"); }
            { V c(v); c += s; sameV(map([&](int i) { return (T)(a[i] + s); }), c, "v+=s"); }
            { V c(v); c -= s; sameV(map([&](int i) { return (T)(a[i] - s); }), c, "v-=s"); }
            { V c(v); c *= s; sameV(map([&](int i) { return (T)(a[i]*s); }), c, "v*=s"); }
            if (s != 0) { V c(v); c /= s; sameV(map([&](int i) { return (T)(a[i]/s); }), c, "v/=s"); }
            for (int e = 0; e < n; e++) {
                T x = a[e];
                { V c(v); c += c[e]; sameV(map([&](int i) { return (T)(a[i] + x); }), c, "v+=v[e]"); }
                { V c(v); c -= c[e]; sameV(map([&](int i) { return (T)(a[i] - x); }), c, "v-=v[e]"); }
                { V c(v); c *= c[e]; sameV(map([&](int i) { return (T)(a[i]*x); }), c, "v*=v[e]"); }
                if (x != 0) { V c(v); c /= c[e]; sameV(map([&](int i) { return (T)(a[i]/x); }), c, "v/=v[e]"); }
            }
        });
        ctx("Vector append", " w=", str(b));
        noThrow([&]{ for (int m = 0; m < 4; m++) { V c(v), d = rvec<T>(m); auto dd = d.data(); c.append(d); auto e = a; e.insert(e.end(), dd.begin(), dd.end()); sameV(e, c, "append"); sameV(dd, d, "appended vector"); } });
        ctx("Vector concatenate");
        noThrow([&]{ for (int m = 0; m < 6; m++) { std::vector<V> vs; std::vector<T> e; for (int q = 0; q < m; q++) { vs.push_back(rvec<T>(rnd(0, 4))); e.insert(e.end(), vs.back().data().begin(), vs.back().data().end()); } V r = concatenate(vs); sameV(e, r, "concatenate"); }
            V r = concatenate({v, w, v}); auto e = a; e.insert(e.end(), b.begin(), b.end()); e.insert(e.end(), a.begin(), a.end()); sameV(e, r, "concatenate(list)"); intact(); });
    }
    for (int i = 0; i < n; i++) {
        ctx("Vector entry", " i=", i);
        noThrow([&]{
            check(v[i] == a[i] && v(i) == a[i] && v.getEntry(i) == a[i] && ((const V&) v)[i] == a[i], "wrong entry read"); intact();
            if (value) { auto e = a; e[i] = s; { V c(v); c[i] = s; sameV(e, c, "v[i]=s"); } { V c(v); c(i) = s; sameV(e, c, "v(i)=s"); } }
        });
    }
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
        ctx("Vector range", " a=", i, " b=", j);
        noThrow([&]{ std::vector<T> e(a.begin() + i, a.begin() + j + 1); sameV(e, v.getRange(i, j), "getRange"); sameV(e, v(i, j), "operator()(a,b)"); intact(); });
    }
    for (int i = 0; i <= n; i++) for (int l = 0; i + l <= n; l++) {
        ctx("Vector segment", " start=", i, " length=", l);
        noThrow([&]{ std::vector<T> e(a.begin() + i, a.begin() + i + l); sameV(e, v.getSegment(i, l), "getSegment"); intact();
            V d = rvec<T>(l); auto dd = d.data(); V c(v); c.setSegment(i, d); auto x = a; for (int q = 0; q < l; q++) x[i + q] = dd[q]; sameV(x, c, "setSegment"); sameV(dd, d, "segment source"); });
    }
    for (int m = 0; m <= n; m++) {
        Vector<int> ix(m); for (int q = 0; q < m; q++) ix[q] = rnd(0, n - 1);
        auto ii = ix.data();
        ctx("Vector index set", " I=", str(ii));
        noThrow([&]{ std::vector<T> e; for (int q : ii) e.push_back(a[q]); sameV(e, v.getFromIndexSet(ix), "getFromIndexSet"); sameV(e, v(ix), "operator()(I)"); intact(); sameV(ii, ix, "index set"); });
    }
    if (!range) return;
    for (long i : {(long) n, (long) n + 1, (long) n + 7, 1L << 20, -1L}) {
        ctx("Vector entry out of range", " i=", i);
        mustThrow(v, [&]{ (void) v[i]; }, "v[i]"); mustThrow(v, [&]{ (void) v(i); }, "v(i)"); mustThrow(v, [&]{ (void) v.getEntry(i); }, "getEntry"); mustThrow(v, [&]{ (void) ((const V&) v)[i]; }, "const v[i]");
        mustThrow(v, [&]{ v[i] = s; }, "v[i]=s"); mustThrow(v, [&]{ v(i) = s; }, "v(i)=s");
    }
    for (int i = 0; i <= n; i++) for (int d : {0, 1, 5}) {
        ctx("Vector range out of range", " a=", i, " b=", n + d);
        mustThrow(v, [&]{ (void) v.getRange(i, n + d); }, "getRange"); mustThrow(v, [&]{ (void) v(i, n + d); }, "operator()(a,b)");
    }
    for (int i = 0; i <= n + 1; i++) for (int d : {1, 2, 5}) {
        int l = std::max(0, n - i) + d;
        ctx("Vector segment out of range", " start=", i, " length=", l);
        mustThrow(v, [&]{ (void) v.getSegment(i, l); }, "getSegment");
        V x(l); mustThrow(v, [&]{ v.setSegment(i, x); }, "setSegment");
    }
    for (int i = 1; i <= 3; i++) for (int l = 0; l <= 3; l++) {
        ctx("Vector segment out of range", " start=", -i, " length=", l);
        mustThrow(v, [&]{ (void) v.getSegment(-i, l); }, "getSegment");
        V x(l); mustThrow(v, [&]{ v.setSegment(-i, x); }, "setSegment");
        mustThrow(v, [&]{ (void) v.getSegment(l, -i); }, "getSegment of negative length");
    }
    for (int m = 1; m <= n; m++) for (int bad : {n, n + 1, -1, n + 1000}) {
        Vector<int> ix(m); for (int q = 0; q < m; q++) ix[q] = rnd(0, n - 1);
        ix[rnd(0, m - 1)] = bad;
        ctx("Vector index set out of range", " I=", str(ix));
        mustThrow(v, [&]{ (void) v.getFromIndexSet(ix); }, "getFromIndexSet"); mustThrow(v, [&]{ (void) v(ix); }, "operator()(I)");
    }
    for (int m : {n - 1, n + 1, 0, n + 5}) {
        if (m < 0 || m == n) continue;
        V x = rvec<T>(m);
        ctx("Vector sizes differ", " other size ", m);
        mustThrow(v, [&]{ (void) (v + x); }, "v+w"); mustThrow(v, [&]{ (void) (v - x); }, "v-w"); mustThrow(v, [&]{ v += x; }, "v+=w"); mustThrow(v, [&]{ v -= x; }, "v-=w"); mustThrow(v, [&]{ (void) (v*x); }, "v*w");
    }
}

inline void freeVector(int n, bool value, bool range) {
    Vector<double> v = rvec<double>(n), w = rvec<double>(n);
    for (int i = 0; i < n; i++) if (w[i] == 0) w[i] = 1;
    auto a = v.data(), b = w.data();
    double s = rreal();
    begin("Vector free functions", "v=", str(a), " w=", str(b), " s=", s);
    if (value) noThrow([&]{
        std::vector<double> e(n), q(n), p(n); double l2 = 0, inf = 0;
        for (int i = 0; i < n; i++) { e[i] = s*a[i]; p[i] = a[i]*b[i]; q[i] = a[i]/b[i]; l2 += (a[i] - b[i])*(a[i] - b[i]); inf = std::max(inf, std::fabs(a[i] - b[i])); }
        sameV(e, s*v, "s*v"); sameV(q, v/w, "v/w");
        sameV(p, EllipticForest::operator*<double>(v, w), "elementwise product");
        check(close(vectorL2Norm(v, w), std::sqrt(l2)), "vectorL2Norm"); check(vectorInfNorm(v, w) == inf, "vectorInfNorm");
        int c = rnd(-5, 5); Vector<int> r = vectorRange(c, c + n - 1); std::vector<int> x; for (int i = 0; i < n; i++) x.push_back(c + i); sameV(x, r, "vectorRange");
        sameV(a, v, "operand"); sameV(b, w, "operand");
    });
    if (range) for (int m : {n - 1, n + 1, n + 4}) {
        if (m < 0) continue;
        Vector<double> x = rvec<double>(m); for (int i = 0; i < m; i++) x[i] = 1;
        begin("Vector free functions, sizes differ", "sizes ", n, " and ", m);
        mustThrow(v, [&]{ (void) EllipticForest::operator*<double>(v, x); }, "v*w"); mustThrow(v, [&]{ (void) (v/x); }, "v/w");
        mustThrow(v, [&]{ (void) vectorL2Norm(v, x); }, "vectorL2Norm"); mustThrow(v, [&]{ (void) vectorInfNorm(v, x); }, "vectorInfNorm");
    }
}

inline void vectors(bool value, bool range) {
    for (int round = 0; round < 3 || (more(0.5) && round < 400); round++)
        for (int n = 0; n <= (round == 0 ? 9 : 12); n++) {
            int k = round < 2 ? n : rnd(0, 24);
            vectorRound<double>(k, value, range);
            vectorRound<int>(k, value, range);
            freeVector(k, value, range);
        }
}
