#include "hps.hpp"
using namespace vr;
static void one() {
    Problem P = rproblem(rnd(1, 6), true);
    begin("fast solve", text(P));
    noThrow([&] {
        auto s = solverFor(P, true), t = solverFor(P, false); auto grid = gridFor(P); int n = P.n; V g = rv(4*n), f = rv(n*n);
        Vector<double> gv(g), fv(f), gw(g), fw(f);
        int calls = fish.calls;
        Vector<double> u = s.solve(grid, gv, fv);
        check(fish.calls > calls, "the fast solver was not called");
        check(fish.mb == 1 && fish.nb == 1, "boundary types ", fish.mb, " and ", fish.nb, ", expected Dirichlet (1) on all sides");
        check(fish.m == n && fish.n == n && fish.idim == n, "cell counts ", fish.m, ", ", fish.n, " leading dimension ", fish.idim);
        check(close(fish.a, P.xl) && close(fish.b, P.xu) && close(fish.c, P.yl) && close(fish.d, P.yu), "bounds [", fish.a, ",", fish.b, "]x[", fish.c, ",", fish.d, "]");
        sameV(fivePoint(P, g, f), u, "solution", 1e-8);
        sameV(t.solve(grid, gw, fw).data(), u, "solution of the general solver", 1e-8);
        sameV(g, gv, "boundary data afterwards"); sameV(f, fv, "source afterwards");
    });
}
void run() { startApp(); for (int r = 0; r < 40 || more(); r++) one(); }
