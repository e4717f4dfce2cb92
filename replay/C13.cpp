#include "common.hpp"
using namespace vr;
static void f2c(int n) {
    begin("fine to coarse", "coarse cells ", n);
    noThrow([&] {
        InterpolationMatrixFine2Coarse<double> m(n);
        std::vector<double> e((std::size_t) n*2*n, 0);
        for (int i = 0; i < n; i++) e[i*2*n + 2*i] = e[i*2*n + 2*i + 1] = 0.5;
        sameM(n, 2*n, e, m, "entries", 1e-14);
    });
}
static void c2f(int nf) {
    begin("coarse to fine", "fine cells ", nf);
    noThrow([&] {
        InterpolationMatrixCoarse2Fine<double> m(nf);
        int n = nf/2;
        check((int) m.nrows() == nf && (int) m.ncols() == n, "shape ", m.nrows(), "x", m.ncols());
        for (int deg = 0; deg <= 1; deg++) {
            if (n == 1 && deg) continue;
            for (int i = 0; i < nf; i++) {
                double s = 0;
                for (int j = 0; j < n; j++) { double a = m(i, j); s += a*(deg ? (j + 0.5)*2 : 1); }
                double e = deg ? i + 0.5 : 1;
                check(close(s, e, 1e-12), deg ? "linear function: " : "constant: ", "fine cell ", i, " gets ", s, ", expected ", e);
            }
        }
        for (int i = 1; i < nf - 1; i++) for (int j = 0; j < n; j++) {
            double w = 0;
            if (j == i/2) w = 0.75;
            if (j == (i%2 ? i/2 + 1 : i/2 - 1)) w = 0.25;
            double a = m(i, j);
            check(close(a, w, 1e-13), "weight of coarse cell ", j, " in fine cell ", i, " is ", a, ", expected ", w);
        }
        if (n >= 3) for (int i : {0, nf - 1}) {
            double s = 0, x = (i + 0.5)/2;
            for (int j = 0; j < n; j++) s += m(i, j)*(j + 0.5)*(j + 0.5);
            check(close(s, x*x, 1e-12), "quadratic function at the end: fine cell ", i, " gets ", s, ", expected ", x*x);
        }
    });
}
void run() {
    for (int n = 1; n <= 40; n++) { f2c(n); c2f(2*n); }
    while (more()) { int n = rnd(1, 200); f2c(n); c2f(2*n); }
}
