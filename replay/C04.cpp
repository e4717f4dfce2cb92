#include "hps.hpp"
using namespace vr;
static void one() {
    Problem P = rproblem(rnd(1, 6), false);
    begin("solve", text(P));
    noThrow([&] {
        auto s = solverFor(P, false); auto grid = gridFor(P); V g = rv(4*P.n), f = rv(P.n*P.n);
        Vector<double> gv(g), fv(f);
        Vector<double> u = s.solve(grid, gv, fv);
        sameV(fivePoint(P, g, f), u, "solution", 1e-8);
        sameV(g, gv, "boundary data afterwards"); sameV(f, fv, "source afterwards");
    });
}
void run() { startApp(); for (int r = 0; r < 40 || more(); r++) one(); }
