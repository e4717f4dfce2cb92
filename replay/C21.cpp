#include <deque>
#include <limits>
#include <cmath>
#include "forest.hpp"
#include <sys/stat.h>
using namespace vr;
static bool fake = false; static int fakeRank = 0, fakeSize = 1;
extern "C" int MPI_Comm_rank(MPI_Comm c, int* r) { if (fake) { *r = fakeRank; return 0; } return PMPI_Comm_rank(c, r); }
extern "C" int MPI_Comm_size(MPI_Comm c, int* r) { if (fake) { *r = fakeSize; return 0; } return PMPI_Comm_size(c, r); }

// ---------------------------------------------------------------- a strict reader
struct El { std::string name; std::vector<std::pair<std::string, std::string>> att; std::string text; std::vector<El> kids; };
static std::string trim(std::string s) {
    std::size_t a = s.find_first_not_of(" \t\n\r"); if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(" \t\n\r") - a + 1);
}
struct Reader {
    std::string s; std::size_t i = 0;
    bool at(const char* t) { return s.compare(i, std::strlen(t), t) == 0; }
    void want(const char* t) { check(at(t), "not well-formed: '", t, "' expected at position ", i, ": ", s.substr(i, 40)); i += std::strlen(t); }
    static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    bool space() { std::size_t j = i; while (i < s.size() && blank(s[i])) i++; return i > j; }
    std::string name() { std::size_t j = i; while (i < s.size() && (std::isalnum((unsigned char) s[i]) || s[i] == '_' || s[i] == '-' || s[i] == '.' || s[i] == ':')) i++; check(i > j, "not well-formed: a name expected at position ", j, ": ", s.substr(j, 40)); return s.substr(j, i - j); }
    char entity() {
        i++; std::size_t e = s.find(';', i); check(e != std::string::npos && e - i < 8, "not well-formed: '&' at position ", i - 1, ": ", s.substr(i - 1, 30));
        std::string n = s.substr(i, e - i); i = e + 1;
        if (n == "amp") return '&'; if (n == "lt") return '<'; if (n == "gt") return '>'; if (n == "quot") return '"'; if (n == "apos") return '\'';
        if (n.size() > 1 && n[0] == '#') return (char) (n[1] == 'x' ? std::stoi(n.substr(2), nullptr, 16) : std::stoi(n.substr(1)));
        fail("not well-formed: unknown entity &" + n + ";"); return 0;
    }
    El element() {
        El e; want("<"); e.name = name();
        for (;;) {
            bool sp = space();
            if (at("/>")) { i += 2; return e; }
            if (at(">")) { i++; break; }
            check(sp, "not well-formed: no blank before an attribute at position ", i, ": ", s.substr(i, 40));
            std::string k = name(), v; space(); want("="); space();
            check(i < s.size() && (s[i] == '"' || s[i] == '\''), "not well-formed: unquoted attribute"); char q = s[i++];
            while (i < s.size() && s[i] != q) { check(s[i] != '<', "not well-formed: '<' in an attribute"); if (s[i] == '&') v += entity(); else v += s[i++]; }
            check(i < s.size(), "not well-formed: an attribute does not end"); i++;
            e.att.push_back({k, v});
        }
        for (;;) {
            check(i < s.size(), "not well-formed: <", e.name, "> is not closed");
            if (at("</")) { i += 2; std::string n = name(); space(); want(">"); check(n == e.name, "not well-formed: <", e.name, "> is closed by </", n, ">"); e.text = trim(e.text); return e; }
            if (at("<")) { e.kids.push_back(element()); continue; }
            if (s[i] == '&') e.text += entity(); else e.text += s[i++];
        }
    }
    El document() {
        want("<?xml"); std::size_t e = s.find("?>"); check(e != std::string::npos, "not well-formed: the prolog does not end"); i = e + 2; space();
        El r = element(); space(); check(i == s.size(), "not well-formed: something follows the root element at position ", i, ": ", s.substr(i, 40)); return r;
    }
};
static std::string readAll(const std::string& f) { std::ifstream s(f, std::ios::binary); check(s.good(), "file ", f, " was not written"); std::ostringstream o; o << s.rdbuf(); return o.str(); }
static El readDoc(const std::string& f) { Reader r; r.s = readAll(f); return r.document(); }
static std::string shortened(const std::string& s) { return s.size() > 80 ? s.substr(0, 80) + "..." : s; }
static void same(const El& a, const El& w, const std::string& where) {
    check(a.name == w.name, where, ": element <", a.name, ">, expected <", w.name, ">");
    std::string p = where + "/" + w.name;
    check(a.att.size() == w.att.size(), p, " has ", a.att.size(), " attributes, expected ", w.att.size());
    for (std::size_t k = 0; k < w.att.size(); k++) check(a.att[k] == w.att[k], p, ": attribute ", k, " is ", a.att[k].first, "='", shortened(a.att[k].second), "', expected ", w.att[k].first, "='", shortened(w.att[k].second), "'");
    check(a.text == trim(w.text), p, " contains '", shortened(a.text), "', expected '", shortened(trim(w.text)), "'");
    check(a.kids.size() == w.kids.size(), p, " has ", a.kids.size(), " children, expected ", w.kids.size());
    for (std::size_t k = 0; k < w.kids.size(); k++) same(a.kids[k], w.kids[k], p + "[" + std::to_string(k) + "]");
}
static std::string dir();
// The elements of a VTK file are known by their names, so their order among others does not matter; nor does the order of attributes
static El ordered(El e) {
    std::sort(e.att.begin(), e.att.end());
    for (auto& a : e.att) if (a.first == "Source" && a.second.size() && a.second[0] == '/') a.second = a.second.substr(a.second.find_last_of('/') + 1);
    for (auto& k : e.kids) k = ordered(k);
    std::stable_sort(e.kids.begin(), e.kids.end(), [](const El& a, const El& b) { return a.name < b.name; }); return e;
}
static void sameFile(const El& a, const El& w, const std::string& where) { same(ordered(a), ordered(w), where); }
static std::string dir() { static std::string d; if (d.empty()) { char t[] = "/tmp/c21XXXXXX"; const char* e = getenv("TMPDIR"); d = e ? e : mkdtemp(t); } return d; }

// ---------------------------------------------------------------- random contents
static std::string word() { std::string s(1, "ABCxyz_"[rnd(0, 6)]); for (int k = rnd(0, 6); k--;) s += "abcXYZ019_-."[rnd(0, 11)]; return s; }
static std::string text() {
    if (rnd(0, 5) == 0) return "";
    std::string s; bool special = rnd(0, 1);
    for (int k = rnd(1, 12); k--;) s += special ? "ab 01.<>&\"';=/-"[rnd(0, 14)] : "abcxyz 0123.-+"[rnd(0, 13)];
    return s;
}
static std::deque<XMLNode> pool;
static El tree(XMLNode& n, int depth, int& budget) {
    El e; e.name = n.name;
    for (int k = rnd(0, 3); k--;) { std::string a = "k" + std::to_string(e.att.size()) + word(), v = text(); n.addAttribute(a, v); e.att.push_back({a, v}); }
    if (rnd(0, 1)) { n.data = text(); e.text = n.data; }
    if (depth < 4) for (int k = rnd(0, 3); k-- && budget > 0;) {
        budget--; pool.emplace_back(word()); XMLNode& c = pool.back();
        if (rnd(0, 1)) n.addChild(c); else n.addChild(&c);
        e.kids.push_back(tree(c, depth + 1, budget));
    }
    return e;
}
static void trees() {
    begin("document", "seed ", seed, " case ", cases);
    noThrow([&] {
        pool.clear(); pool.emplace_back(word()); XMLNode& root = pool.back(); int budget = 25; El w = tree(root, 0, budget);
        std::string f = dir() + "/tree.xml"; XMLTree t(root);
        t.write(f); same(readDoc(f), w, "written");
        if (rnd(0, 2) == 0) { t.write(f); same(readDoc(f), w, "written again"); }
        unlink(f.c_str());
    });
}

// ---------------------------------------------------------------- data arrays
struct Arr : DataArrayNodeBase {
    std::string type = "Float64", name, comp = "1", fmt = "ascii", lo, hi, data;
    std::string getType() override { return type; } std::string getName() override { return name; } std::string getNumberOfComponents() override { return comp; }
    std::string getFormat() override { return fmt; } std::string getRangeMin() override { return lo; } std::string getRangeMax() override { return hi; } std::string getData() override { return data; }
    El el(bool p) {
        El e; e.name = p ? "PDataArray" : "DataArray"; e.att = {{"type", type}, {"Name", name}, {"NumberOfComponents", comp}, {"format", fmt}};
        if (!p) { e.att.push_back({"RangeMin", lo}); e.att.push_back({"RangeMax", hi}); e.text = data; } return e;
    }
};
static Arr arr() { Arr a; const char* t[] = {"Float64", "Float32", "Int32"}; a.type = t[rnd(0, 2)]; a.name = rnd(0, 2) ? word() : word() + text(); a.comp = std::to_string(rnd(1, 3)); a.lo = std::to_string(rdy()); a.hi = std::to_string(rdy()); for (int k = rnd(0, 9); k--;) a.data += std::to_string(rdy()) + " "; return a; }
struct Rect : RectilinearGridNodeBase { std::string w, e; std::string getWholeExtent() override { return w; } std::string getExtent() override { return e; } };
struct Uns : UnstructuredGridNodeBase {
    Arr p = arr(), c = arr(), o = arr(), t = arr(); std::string np = std::to_string(rnd(0, 99)), nc = std::to_string(rnd(0, 99));
    std::string getNumberOfPoints() override { return np; } std::string getNumberOfCells() override { return nc; }
    DataArrayNodeBase& getPoints() override { return p; } DataArrayNodeBase& getConnectivity() override { return c; } DataArrayNodeBase& getOffsets() override { return o; } DataArrayNodeBase& getTypes() override { return t; }
};
static El top(const char* type) { El e; e.name = "VTKFile"; e.att = {{"type", type}, {"version", "0.1"}, {"byte_order", "LittleEndian"}}; return e; }
static El group(const char* n, std::deque<Arr>& d, bool p, bool scalars) {
    El e; e.name = n; std::string s; for (auto& a : d) { s += a.name + " "; e.kids.push_back(a.el(p)); }
    if (scalars && !d.empty()) e.att.push_back({"Scalars", s}); return e;
}
static El leaf(const char* n, std::vector<std::pair<std::string, std::string>> a, std::vector<El> k) { El e; e.name = n; e.att = a; e.kids = k; return e; }
static void names(std::deque<Arr>& d) { for (int k = rnd(0, 3); k--;) d.push_back(arr()); }
static void rectilinear() {
    begin("rectilinear grid", "seed ", seed, " case ", cases);
    noThrow([&] {
        RectilinearGridVTK v; std::string f = dir() + "/r.vtr";
        check(threw([&] { v.toVTK(f); }), "written although there is no mesh");
        Rect g; g.w = "0 " + std::to_string(rnd(1, 9)) + " 0 1 0 0"; g.e = "0 1 0 " + std::to_string(rnd(1, 9)) + " 0 0";
        Arr x[3] = {arr(), arr(), arr()}; DataArrayNodeBase* q[3]; El co = leaf("Coordinates", {}, {});
        Arr empty; empty.type = "Float32"; empty.name = "Empty"; empty.lo = empty.hi = empty.data = "0.0";
        for (int k = 0; k < 3; k++) { bool on = rnd(0, 3); q[k] = on ? &x[k] : nullptr; co.kids.push_back(on ? x[k].el(false) : empty.el(false)); }
        if (rnd(0, 3) == 0) v.buildMesh(g, q[1], q[2], q[0]); // replaced
        v.buildMesh(g, q[0], q[1], q[2]);
        std::deque<Arr> cd, pd; names(cd); names(pd);
        for (auto& a : cd) v.addCellData(a); for (auto& a : pd) v.addPointData(a);
        El w = top("RectilinearGrid"), piece = leaf("Piece", {{"Extent", g.e}}, {});
        if (!cd.empty()) piece.kids.push_back(group("CellData", cd, false, true));
        if (!pd.empty()) piece.kids.push_back(group("PointData", pd, false, true));
        piece.kids.push_back(co);
        w.kids.push_back(leaf("RectilinearGrid", {{"WholeExtent", g.w}}, {piece}));
        v.toVTK(f); sameFile(readDoc(f), w, "written");
        if (rnd(0, 1)) { v.toVTK(f); sameFile(readDoc(f), w, "written again"); }
        unlink(f.c_str());
    });
}
static El unstructured(Uns& m, std::deque<Arr>& cd, std::deque<Arr>& pd) {
    El w = top("UnstructuredGrid"), piece = leaf("Piece", {{"NumberOfPoints", m.np}, {"NumberOfCells", m.nc}}, {leaf("Points", {}, {m.p.el(false)}), leaf("Cells", {}, {m.c.el(false), m.o.el(false), m.t.el(false)})});
    if (!cd.empty()) piece.kids.push_back(group("CellData", cd, false, true));
    if (!pd.empty()) piece.kids.push_back(group("PointData", pd, false, true));
    w.kids.push_back(leaf("UnstructuredGrid", {}, {piece})); return w;
}
static std::string num(int r) { char b[32]; snprintf(b, 32, "_%04i", r); return b; }
static void grids() {
    bool par = rnd(0, 1); int size = rnd(0, 5) ? rnd(1, 4) : rnd(9, 40), rank = rnd(0, 3) ? rnd(0, size - 1) : 0;
    std::string base = dir() + "/" + word() + (rnd(0, 3) ? "" : "%d") ;
    if (rnd(0, 3) == 0) { mkdir(base.c_str(), 0700); while (base.size() < 270) { base += "/" + std::string(60, 'd'); mkdir(base.c_str(), 0700); } base += "/g"; }
    begin(par ? "parallel grid" : "unstructured grid", "seed ", seed, " case ", cases, ", process ", rank, " of ", size, ", base ", base);
    noThrow([&] {
        Uns m; std::deque<Arr> cd, pd; names(cd); names(pd);
        El w = unstructured(m, cd, pd);
        if (!par) {
            UnstructuredGridVTK v; std::string f = base + ".vtu"; check(threw([&] { v.toVTK(f); }), "written although there is no mesh");
            v.buildMesh(m); for (auto& a : cd) v.addCellData(a); for (auto& a : pd) v.addPointData(a);
            v.toVTK(f); sameFile(readDoc(f), w, "written");
            if (rnd(0, 1)) { Arr more = arr(); v.addCellData(more); cd.push_back(more); v.toVTK(f); sameFile(readDoc(f), unstructured(m, cd, pd), "written with one more array"); cd.pop_back(); }
            unlink(f.c_str());
        } else {
            fake = true; fakeRank = rank; fakeSize = size;
            PUnstructuredGridVTK v(MPI_COMM_WORLD); v.buildMesh(m); for (auto& a : cd) v.addCellData(a); for (auto& a : pd) v.addPointData(a);
            for (int again = rnd(0, 1); again >= 0; again--) {
                v.toVTK(base);
                sameFile(readDoc(base + num(rank) + ".vtu"), w, "file of process " + std::to_string(rank));
                struct stat sb; check((stat((base + ".pvtu").c_str(), &sb) == 0) == (rank == 0), "process ", rank, rank ? " writes" : " does not write", " the summary");
                if (rank == 0) {
                    El s = top("UnstructuredGrid"), g = leaf("PUnstructuredGrid", {{"GhostLevel", "0"}}, {leaf("PPoints", {}, {m.p.el(true)}), group("PPointData", pd, true, true), group("PCellData", cd, true, true)});
                    for (int r = 0; r < size; r++) g.kids.push_back(leaf("Piece", {{"Source", base.substr(base.find_last_of('/') + 1) + num(r) + ".vtu"}}, {}));
                    s.kids.push_back(g); sameFile(readDoc(base + ".pvtu"), s, "summary");
                }
            }
            unlink((base + num(rank) + ".vtu").c_str()); unlink((base + ".pvtu").c_str()); fake = false;
        }
    });
    fake = false;
}
template <class T> static void numbers(const std::string& s, const std::vector<T>& v, const char* what) {
    std::istringstream in(s); std::string t; std::size_t k = 0;
    while (in >> t) { check(k < v.size(), what, ": more than ", v.size(), " values"); double d = std::strtod(t.c_str(), nullptr); check((T) d == v[k], what, ": value ", k, " is written as ", t, ", it is ", (double) v[k]); k++; }
    check(k == v.size(), what, ": ", k, " values, expected ", v.size());
}
template <class T> static void vectors(const char* type) {
    begin("vector as data array", type, ", seed ", seed, " case ", cases);
    noThrow([&] {
        int n = rnd(0, 6); std::vector<T> d(n); for (auto& x : d) x = std::is_integral<T>::value ? (T) rnd(-99999, 99999) : (T) (rdy()*std::pow(10.0, rnd(-12, 12))/3);
        Vector<T> v(d); v.name() = word(); v.setType("Float64"); v.setNumberOfComponents("1");
        check(v.getName() == v.name() && v.getType() == "Float64" && v.getNumberOfComponents() == "1" && v.getFormat() == "ascii", "attributes");
        numbers<T>(v.getData(), d, "data");
        auto lo = v.getRangeMin(), hi = v.getRangeMax();
        if (n) { numbers<T>(lo, {*std::min_element(d.begin(), d.end())}, "minimum"); numbers<T>(hi, {*std::max_element(d.begin(), d.end())}, "maximum"); }
        XMLNode* x = v.toVTK(); check(x->name == "DataArray" && x->attributes.size() == 6 && x->attributes[1].second == v.name() && x->data == v.getData(), "element of a vector"); delete x;
        x = v.toPVTK(); check(x->name == "PDataArray" && x->attributes.size() == 4 && x->data.empty() && x->children.empty(), "summary element of a vector"); delete x;
    });
}
// ---------------------------------------------------------------- the mesh
static void mesh() {
    int n = 2*rnd(1, 2), number = rnd(0, 2) ? rnd(0, 20000) : -1, nf = rnd(0, 3); std::string base = dir() + "/" + word();
    begin("mesh", n, "x", n, " cells, number ", number, ", ", nf, " functions, base ", base, ", seed ", seed, " case ", cases);
    noThrow([&] {
        FiniteVolumeGrid g(MPI_COMM_WORLD, n, 0, 1, n, 0, 1); FiniteVolumePatch root(MPI_COMM_WORLD, g); FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
        auto* p = forest(n, 0, 1, 0, 1, 0, rnd(0, 2), 5);
        {
            Mesh<FiniteVolumePatch> m(MPI_COMM_WORLD, p, root, fac); std::deque<Vector<double>> fs; El cd; cd.name = "CellData"; std::string ns;
            for (int k = 0; k < nf; k++) { fs.emplace_back(m.ncells); for (int q = 0; q < m.ncells; q++) fs.back()[q] = rdy(); fs.back().name() = word(); m.addMeshFunction(fs.back()); ns += fs.back().name() + " "; }
            std::string end; if (number != -1) { char b[32]; snprintf(b, 32, "-%04i", number); end = b; }
            m.toVTK(base, number);
            El e = readDoc(base + "-mesh" + end + "_0000.vtu"), q = readDoc(base + "-mesh" + end + ".pvtu");
            check(e.name == "VTKFile" && e.kids.size() == 1 && e.kids[0].kids.size() == 1, "structure"); e = e.kids[0].kids[0];
            auto part = [&](const El& x, const char* name) { for (auto& k : x.kids) if (k.name == name) return k; fail(std::string("no ") + name); return El(); };
            auto att = [&](const El& x, const char* name) { for (auto& k : x.att) if (k.first == name) return k.second; fail(std::string("no attribute ") + name); return std::string(); };
            check(att(e, "NumberOfCells") == std::to_string(m.ncells) && att(e, "NumberOfPoints") == std::to_string(m.npoints), "numbers of cells and points");
            El po = part(e, "Points"), ce = part(e, "Cells"); check(po.kids.size() == 1 && ce.kids.size() == 3, "points and cells");
            numbers<double>(po.kids[0].text, m.points.data(), "points"); numbers<int>(ce.kids[0].text, m.connectivity.data(), "connectivity"); numbers<int>(ce.kids[1].text, m.offsets.data(), "offsets"); numbers<int>(ce.kids[2].text, m.types.data(), "types");
            if (nf) {
                El c = part(e, "CellData"); check((int) c.kids.size() == nf && trim(att(c, "Scalars")) == trim(ns), "cell data: ", c.kids.size(), " arrays, expected ", nf);
                for (int k = 0; k < nf; k++) { check(att(c.kids[k], "Name") == fs[k].name(), "name of cell data ", k); numbers<double>(c.kids[k].text, fs[k].data(), "cell data"); }
                for (auto& k : e.kids) check(k.name != "PointData", "point data");
            }
            check(part(q.kids[0], "PCellData").kids.size() == (std::size_t) nf, "summary: cell data");
            for (std::string f : {base + "-mesh" + end + "_0000.vtu", base + "-mesh" + end + ".pvtu", base + "-quadtree" + end + "_0000.vtu", base + "-quadtree" + end + ".pvtu"}) { struct stat sb; check(stat(f.c_str(), &sb) == 0, "file ", f, " is not written"); unlink(f.c_str()); }
            unlink((base + "-quadtree" + end + ".visit").c_str());
        }
        drop(p);
    });
}
void run() { startApp(); while (more()) { trees(); rectilinear(); grids(); vectors<double>("double"); vectors<int>("int"); if (cases % 50 < 6) mesh(); } }
