#include "common.hpp"
using namespace vr;
struct Probe : InterpolantBase {
    std::vector<int> js;
    Probe(Vector<double>& x, const Vector<double>& y) : InterpolantBase(x, y, 2) {}
    double rawInterp(int j, double) override { js.push_back(j); return j; }
};
static int interval(const std::vector<double>& t, double x) {
    int n = (int) t.size(), j = 0;
    while (j < n - 2 && x >= t[j + 1]) j++;
    return j;
}
static void one(std::vector<double> t, std::vector<double> v, std::vector<double> q) {
    begin("interpolation", "table ", str(t), " values ", str(v), " queries ", str(q));
    noThrow([&] {
        int n = (int) t.size();
        Vector<double> x(t), y(v), qq(q);
        auto value = [&](double s) { int j = interval(t, s); return v[j] + (s - t[j])/(t[j + 1] - t[j])*(v[j + 1] - v[j]); };
        Probe p(x, y), pv(x, y);
        LinearInterpolant f(x, y), g(x, y);
        for (std::size_t i = 0; i < q.size(); i++) {
            double a = f(q[i]);
            check(close(a, value(q[i]), 1e-9), "query ", i, " at ", q[i], " gives ", a, ", expected ", value(q[i]));
            p(q[i]);
            check(p.js.back() >= 0 && p.js.back() <= n - 2, "query ", i, " at ", q[i], " uses position ", p.js.back());
            check(p.js.back() == interval(t, q[i]), "query ", i, " at ", q[i], " uses interval ", p.js.back(), ", expected ", interval(t, q[i]));
        }
        Vector<double> r = g(qq);
        check(r.size() == q.size(), "result has ", r.size(), " entries");
        for (std::size_t i = 0; i < q.size(); i++) check(close(r[i], value(q[i]), 1e-9), "entry ", i, " of the vector result is ", (double) r[i], ", expected ", value(q[i]));
        Vector<double> e(0); check(g(e).size() == 0, "no queries");
    });
}
void run() {
    do {
        int n = rnd(0, 3) ? rnd(2, 9) : rnd(2, 300);
        std::vector<double> t(n), v(n), q(rnd(1, 30));
        double s = rdy();
        for (int i = 0; i < n; i++) { t[i] = s; s += rnd(0, 3) ? rnd(1, 8)/8.0 : rnd(1, 400)/8.0; v[i] = rreal(); }
        double last = t[0];
        for (auto& a : q) {
            switch (rnd(0, 5)) {
                case 0: a = t[rnd(0, n - 1)]; break;
                case 1: a = t[0] - rnd(0, 9); break;
                case 2: a = t[n - 1] + rnd(0, 9); break;
                case 3: a = last + rnd(-3, 3)/16.0; break;
                default: { int j = rnd(0, n - 2); a = t[j] + rnd(0, 8)/8.0*(t[j + 1] - t[j]); }
            }
            last = a;
        }
        one(t, v, q);
    } while (more());
}
