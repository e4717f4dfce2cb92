// Replay / bounded stand-in harness: runs the real code (compiled from /repo) on concrete inputs.
// Usage: prog SEED SECONDS [known-key ...]; prints "FAIL key=<key> <input and what failed>" and exits 1.
#pragma once
#include <sstream>
#include <fstream>
#include <iostream>
#include <memory>
#include <vector>
#include <map>
#include <any>
#include <variant>
#include <string>
#include <functional>
#include <random>
#include <set>
#include <array>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <chrono>
#include <thread>
#include <mutex>
#include <csignal>
#include <unistd.h>
#include <cstring>
#include <cstdarg>
#include <mpi.h>
#ifndef VR_PUBLIC_ONLY
#define private public
#define protected public
#endif
#include "tu.cpp"
#undef private
#undef protected
extern "C" void __sanitizer_set_death_callback(void (*)(void));
using namespace EllipticForest;

namespace vr {
inline std::string cur = "start-up", curkey = "start";
inline std::set<std::string> known, seenKnown;
inline long cases = 0, distinct = 0;
inline double seconds = 5;
inline unsigned long seed = 1;
inline std::chrono::steady_clock::time_point t0;
inline std::mt19937_64 rng;
inline int outfd = 1;
inline std::vector<std::string> samples;

inline void say(const std::string& s) { std::string t = s + "\n"; for (std::size_t o = 0; o < t.size();) { auto w = ::write(outfd, t.data() + o, t.size() - o); if (w <= 0) break; o += w; } }
inline std::string clip(std::string s) { for (auto& c : s) if (c < 32 || c > 126) c = c == '\n' ? ' ' : '?'; return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }
[[noreturn]] inline void finish(int rc) {
    for (auto& s : samples) say("SAMPLE " + clip(s));
    say("CASES " + std::to_string(cases));
    _exit(rc);
}
inline void fail(const std::string& what) {
    if (known.count(curkey)) {
        if (seenKnown.insert(curkey).second) say("KNOWN key=" + curkey + " " + clip(cur + ": " + what));
        return;
    }
    say("FAIL key=" + curkey + " " + clip(cur + ": " + what));
    finish(1);
}
inline void died() {
    say("FAIL key=" + curkey + " " + clip(cur + ": memory error (sanitizer) or crash"));
    say("CASES " + std::to_string(cases));
}
} extern "C" __attribute__((visibility("default"), used)) void __ubsan_on_report(void) { vr::say("FAIL key=" + vr::curkey + " " + vr::clip(vr::cur + ": undefined behaviour (sanitizer)")); vr::say("CASES " + std::to_string(vr::cases)); _exit(1); } namespace vr {
inline void onalarm(int) { say("FAIL key=" + curkey + " " + clip(cur + ": no result within the watchdog time")); _exit(1); }
inline void onabort(int) { died(); _exit(1); }

inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double share = 1) { return elapsed() < seconds*share; }
inline int rnd(int a, int b) { return a + (int) (rng() % (unsigned long) (b - a + 1)); }
inline double rreal() { return rnd(-9, 9); }
inline double rdy() { return rnd(-64, 64) / 16.0; }

/** starts a case: every failure from here on is reported with this text */
template <class... A> inline void begin(const char* key, const A&... a) {
    std::ostringstream o; (o << ... << a);
    curkey = key; cur = std::string(key) + "(" + o.str() + ")"; cases++;
    if (samples.size() < 5 && cases % 97 == 1) samples.push_back(cur);
    alarm(120);
}
template <class... A> inline void check(bool ok, const A&... a) {
    if (ok) return;
    std::ostringstream o; (o << ... << a); fail(o.str());
}
template <class F> inline bool threw(F f) { try { f(); } catch (const std::exception&) { return true; } catch (...) { return true; } return false; }
/** runs f; an exception is a failure */
template <class F> inline void noThrow(F f) { try { f(); } catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); } catch (...) { fail("unexpected exception"); } }

template <class T> inline std::string str(const std::vector<T>& v) { std::ostringstream o; o.precision(17); o << "["; for (std::size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
template <class T> inline std::string str(const Vector<T>& v) { return str(v.data()); }
inline std::string str(const Matrix<double>& m) { std::ostringstream o; o << m.nrows() << "x" << m.ncols() << str(m.data()); return o.str(); }
inline bool close(double a, double b, double tol = 1e-9) { if (std::isnan(a) || std::isnan(b)) return false; return std::fabs(a - b) <= tol*(1 + std::fabs(a) + std::fabs(b)); }

template <class T> inline Vector<T> rvec(int n) { Vector<T> v(n); for (int i = 0; i < n; i++) v[i] = (T) rreal(); return v; }
inline Matrix<double> rmat(int r, int c) { Matrix<double> m(r, c); for (int i = 0; i < r*c; i++) m.dataNoConst()[i] = rreal(); return m; }
template <class T> inline void same(const std::vector<T>& e, const std::vector<T>& a, const char* what, double tol = 0) {
    bool ok = e.size() == a.size();
    for (std::size_t i = 0; ok && i < e.size(); i++) ok = tol == 0 ? e[i] == a[i] : close((double) e[i], (double) a[i], tol);
    if (!ok) fail(std::string(what) + ": expected " + str(e) + ", got " + str(a));
}
template <class T> inline void sameV(const std::vector<T>& e, const Vector<T>& a, const char* what, double tol = 0) {
    check(a.size() == e.size(), what, ": size() is ", a.size(), ", expected ", e.size());
    same(e, a.data(), what, tol);
}
inline void sameM(int r, int c, const std::vector<double>& e, const Matrix<double>& a, const char* what, double tol = 0) {
    check((int) a.nrows() == r && (int) a.ncols() == c, what, ": shape ", a.nrows(), "x", a.ncols(), ", expected ", r, "x", c);
    same(e, a.data(), what, tol);
}
} // namespace vr

// stand-ins for routines the installed libraries lack (never part of what is judged)
#ifndef VR_OWN_P4EST_SEARCH
extern "C" void p4est_search_reorder(p4est_t*, int, void*, p4est_search_local_t, p4est_search_local_t, p4est_search_local_t, sc_array_t*) { std::abort(); }
#endif
#ifndef VR_OWN_HSTCRT
namespace EllipticForest { extern "C" void hstcrt_(double*, double*, int*, int*, double*, double*, double*, double*, int*, int*, double*, double*, double*, double*, int*, double*, int*) { std::abort(); } }
#endif

void run();
int main(int argc, char** argv) {
    vr::seed = argc > 1 ? std::strtoul(argv[1], nullptr, 10) : 1;
    vr::seconds = argc > 2 ? std::atof(argv[2]) : 5;
    for (int i = 3; i < argc; i++) vr::known.insert(argv[i]);
    vr::rng.seed(vr::seed*7919 + 11);
    vr::t0 = std::chrono::steady_clock::now();
    vr::outfd = dup(1);
    if (std::freopen("/dev/null", "w", stdout)) {}
    MPI_Init(nullptr, nullptr);
    std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
    __sanitizer_set_death_callback(vr::died);
    std::signal(SIGALRM, vr::onalarm);
    std::signal(SIGABRT, vr::onabort);
    try { run(); }
    catch (const std::exception& e) { vr::fail(std::string("unexpected exception ") + e.what()); }
    catch (...) { vr::fail("unexpected exception"); }
    vr::finish(0);
}
