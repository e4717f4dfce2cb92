#include "common.hpp"
#include <regex>
using namespace vr;
using Val = Options::OptionTypes;
static std::string show(const Val& v) {
    std::ostringstream o; o.precision(17);
    const char* t[] = {"text ", "truth value ", "integer ", "real "};
    o << t[v.index()]; std::visit([&](auto&& x) { o << "'" << x << "'"; }, v); return o.str();
}
// what a text stands for, from the statement
static Val meaning(const std::string& s, bool& outOfRange) {
    static const std::regex in("[+-]?[0-9]+"), re("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
    outOfRange = false;
    if (s == "true") return true;
    if (s == "false") return false;
    if (std::regex_match(s, in)) { errno = 0; long x = std::strtol(s.c_str(), nullptr, 10); outOfRange = errno || x < -2147483648L || x > 2147483647L; return (int) x; }
    if (std::regex_match(s, re)) { errno = 0; double d = std::strtod(s.c_str(), nullptr); outOfRange = errno; return d; }
    return s;
}
static std::string digits(int n) { std::string s; while (n--) s += char('0' + rnd(0, 9)); return s; }
static std::string text(bool tame) {
    std::string s;
    switch (rnd(0, 9)) {
        case 0: return rnd(0, 1) ? "true" : "false";
        case 1: return (rnd(0, 1) ? "" : rnd(0, 1) ? "-" : "+") + digits(rnd(1, tame ? 8 : 11));
        case 2: return std::string(rnd(0, 1) ? "" : "-") + digits(rnd(0, 3)) + "." + digits(rnd(1, 6));
        case 3: return std::string(rnd(0, 1) ? "" : "-") + digits(rnd(1, 3)) + (rnd(0, 1) ? "." + digits(rnd(0, 3)) : "") + (rnd(0, 1) ? "e" : "E") + (rnd(0, 2) ? "-" : "") + digits(rnd(1, tame ? 2 : 3));
        case 4: { const char* a[] = {"file.vtk", "e", ".", "-", "+", "1.2.3", "12a", "a12", "1e", "e5", "1e5x", "--1", "1-", "True", "TRUE", "falsee", "yes", "a.b.c", "-.", "1,5", "on", "5.", ".5", "-0", "-0.0", "007", "./out", "p-1.5"}; return a[rnd(0, 27)]; }
        case 5: return "";
        default: for (int k = rnd(1, 8); k--;) s += "abcdefgXYZ0123456789.-_/eE+"[rnd(0, 26)]; return s;
    }
}
static std::string name() { std::string s; for (int k = rnd(1, 3); k--;) s += "abn-x"[rnd(0, 4)]; return rnd(0, 9) ? "k" + s : rnd(0, 1) ? "homogeneous-rhs" : s; }
static void classify() {
    std::string s = text(false);
    begin("checkValue", "text '", s, "'");
    bool big; Val want = meaning(s, big); Options o;
    try {
        Val v = o.checkValue(s);
        check(!big, "accepted as ", show(v), " although outside the range of its type");
        check(v == want, "is taken for ", show(v), ", expected ", show(want));
    } catch (const std::out_of_range&) { check(big, "rejected"); }
    catch (const std::exception& e) { fail(std::string("exception ") + e.what()); }
}
static void same(Options& o, const std::map<std::string, Val>& want, const std::string& when) {
    check(o.optionsMap.size() == want.size(), when, ": ", o.optionsMap.size(), " options, expected ", want.size());
    for (auto& [k, v] : want) {
        check(o.optionExists(k), when, ": '", k, "' is missing");
        auto it = o.optionsMap.find(k); check(it != o.optionsMap.end() && it->second == v, when, ": '", k, "' is ", it == o.optionsMap.end() ? "absent" : show(it->second), ", expected ", show(v));
        check(o[k] == v, when, ": '", k, "' reads ", show(o[k]), ", expected ", show(v));
    }
    for (int r = 0; r < 3; r++) { std::string k = name(); check(o.optionExists(k) == (want.count(k) > 0), when, ": presence of '", k, "'"); }
}
static Val value() { switch (rnd(0, 3)) { case 0: return text(true); case 1: return (bool) rnd(0, 1); case 2: return rnd(-99, 99); default: return rdy(); } }
static void history() {
    begin("set and get", "seed ", seed, " case ", cases);
    noThrow([&] {
        std::map<std::string, Val> want; for (int k = rnd(0, 2); k--;) want[name()] = value();
        Options o(want); std::ostringstream log;
        for (int k = rnd(0, 8); k--;) {
            std::string n = name(); Val v = value(); int how = rnd(0, 2);
            if (how == 0) o.setOption(n, v); else if (how == 1) o[n] = v; else { o.setOption(n, value()); o[n] = v; }
            want[n] = v; log << n << " := " << show(v) << "; ";
            same(o, want, log.str());
        }
    });
}
static void commandLine() {
    std::vector<std::string> a{"prog"}; std::map<std::string, Val> want; std::ostringstream all;
    Options o; if (rnd(0, 1)) { Val v = value(); std::string n = name(); o[n] = v; want[n] = v; }
    for (int k = rnd(0, 5); k--;) {
        std::string n = name(), v; bool big;
        while (n[0] == '-') n = name();
        do v = text(true) + (rnd(0, 9) ? "" : "=x"); while (meaning(v, big), big);
        switch (rnd(0, 5)) {
            case 0: a.push_back("--" + n); want[n] = std::string(); break;
            case 1: a.push_back("-" + n); want[n] = std::string(); break;
            case 2: a.push_back("-" + n + "=" + v); want[n] = meaning(v, big); break;
            case 3: if (v.empty() || v[0] != '-') a.push_back(v); break;
            default: a.push_back("--" + n + "=" + v); want[n] = meaning(v, big);
        }
    }
    for (auto& s : a) all << s << " ";
    begin("command line", all.str());
    noThrow([&] {
        std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr);
        int ac = (int) a.size(); char** p = av.data();
        InputParser ip(ac, p);
        check(ip.args.size() == a.size() - 1, ip.args.size(), " arguments");
        ip.parse(o); same(o, want, "after parsing");
    });
}
static std::string blanks() { const char* b[] = {"", "", " ", "  ", "\t"}; return b[rnd(0, 4)]; }
static void inputFile() {
    std::string all; std::map<std::string, Val> want; Options o;
    if (rnd(0, 1)) { Val v = value(); std::string n = name(); o[n] = v; want[n] = v; }
    bool ours = false;
    for (int k = rnd(0, 9); k--;) {
        std::string n = name(), v; bool big;
        do v = text(true) + (rnd(0, 9) ? "" : "=x"); while (meaning(v, big), big);
        switch (rnd(0, 7)) {
            case 0: all += blanks() + "\n"; break;
            case 1: all += blanks() + ";" + n + "=" + v + "\n"; break;
            case 2: ours = false; all += blanks() + "[" + (rnd(0, 1) ? "Other" : rnd(0, 1) ? "EllipticForest2" : "") + "]" + blanks() + "\n"; break;
            case 3: case 4: ours = true; all += blanks() + "[EllipticForest]" + blanks() + "\n"; break;
            default: all += blanks() + n + blanks() + "=" + blanks() + v + blanks() + "\n"; if (ours) want[n] = meaning(v, big);
        }
    }
    if (rnd(0, 3) == 0 && !all.empty()) all.pop_back();
    begin("input file", all);
    noThrow([&] {
        char dir[] = "/tmp/c18XXXXXX"; const char* t = getenv("TMPDIR"); std::string d = t ? t : mkdtemp(dir);
        std::string f = d + "/options.ini"; { std::ofstream s(f); s << all; }
        o.setFromFile(f); unlink(f.c_str()); if (!t) rmdir(d.c_str());
        same(o, want, "after reading");
    });
    Options q; std::string bad = std::string("options.") + (rnd(0, 1) ? "txt" : "in"); begin("input file", "name ", bad);
    check(threw([&] { q.setFromFile(bad); }), "a file of another kind is accepted");
}
void run() {
    while (more()) { for (int k = 0; k < 20; k++) classify(); history(); commandLine(); inputFile(); }
}
