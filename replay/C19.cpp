#include "common.hpp"
using namespace vr;
template <class T> T val();
template <> double val<double>() { return rreal(); }
template <> Matrix<double> val<Matrix<double>>() { return rmat(rnd(0, 3), rnd(0, 3)); }
static bool eqv(double a, double b) { return a == b; }
static bool eqv(const Matrix<double>& a, const Matrix<double>& b) { return a.nrows() == b.nrows() && a.ncols() == b.ncols() && a.data() == b.data(); }
template <class T> static void history(const char* key) {
    std::vector<std::string> names = {"", "a", "A", "b", "ab", "a b", "T", "S", "operators", "operator", std::string(1, '\0'), std::string("a\0b", 3), "\xff", "0", "00", "000", "0000"};
    for (int i = 0; i < 4; i++) { std::string s; for (int n = rnd(1, 30); n > 0; n--) s += (char) rnd(32, 126); names.push_back(s); names.push_back(s + " "); }
    std::map<std::string, T> model;
    std::ostringstream log;
    begin(key, "new cache");
    if (rnd(0, 1)) for (int i = rnd(0, 4); i > 0; i--) model[names[rnd(0, (int) names.size() - 1)]] = val<T>();
    DataCache<T> c = model.empty() ? DataCache<T>() : DataCache<T>(model);
    for (int step = 0; step < 40; step++) {
        const auto& n = names[rnd(0, (int) names.size() - 1)];
        int op = rnd(0, 2);
        log << (op == 0 ? " store " : op == 1 ? " read " : " ask ") << "'" << n << "'";
        begin(key, log.str());
        noThrow([&] {
            if (op == 0) { T v = val<T>(); c[n] = v; model[n] = v; }
            else if (op == 1 && model.count(n)) check(eqv(c[n], model[n]), "another object was returned");
            else check(c.contains(n) == (model.count(n) > 0), "contains is ", c.contains(n));
            for (auto& m : names) check(c.contains(m) == (model.count(m) > 0), "contains('", m, "') is ", c.contains(m));
            for (auto& [m, v] : model) check(eqv(c[m], v), "'", m, "' gives another object than the one stored");
        });
    }
}
void run() { do { history<double>("cache of numbers"); history<Matrix<double>>("cache of matrices"); } while (more()); }
