#include <deque>
#include <unistd.h>
#include "common.hpp"
using namespace vr;
// One process plays all ranks: messages go to a queue, and what a receive consumes must match what was sent.
struct Msg { int dest, tag, src; MPI_Comm comm; MPI_Datatype type; std::vector<char> bytes; int count; bool bcast; };
static std::deque<Msg> wire;
static bool fakeMPI = false;
static int fakeRank = 0;
static std::string tname(MPI_Datatype t) { char b[MPI_MAX_OBJECT_NAME]; int n = 0; PMPI_Type_get_name(t, b, &n); return std::string(b, n); }
static Msg pop(const char* what, int count, MPI_Datatype type, MPI_Comm comm, bool bcast) {
    check(!wire.empty(), what, " of ", count, " x ", tname(type), " has no message left to take");
    Msg m = wire.front(); wire.pop_front();
    check(m.bcast == bcast, what, " meets a message of another kind");
    check(m.comm == comm, what, " uses another communicator than the sender");
    check(m.type == type, what, " of ", tname(type), " meets a message of ", tname(m.type));
    check(m.count == count, what, " of ", count, " x ", tname(type), " meets a message of ", m.count);
    return m;
}
extern "C" int MPI_Comm_rank(MPI_Comm c, int* r) { if (fakeMPI) { *r = fakeRank; return 0; } return PMPI_Comm_rank(c, r); }
extern "C" int MPI_Comm_size(MPI_Comm c, int* n) { if (fakeMPI) { *n = 8; return 0; } return PMPI_Comm_size(c, n); }
extern "C" int MPI_Send(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
    if (!fakeMPI) return PMPI_Send(b, n, t, dest, tag, c);
    int sz; PMPI_Type_size(t, &sz);
    wire.push_back({dest, tag, fakeRank, c, t, {}, n, false});
    wire.back().bytes.assign((const char*) b, (const char*) b + (std::size_t) n*sz);
    return 0;
}
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) {
    if (!fakeMPI) return PMPI_Recv(b, n, t, src, tag, c, s);
    Msg m = pop("receive", n, t, c, false);
    check(m.tag == tag, "receive with tag ", tag, " meets a message with tag ", m.tag);
    check(m.src == src, "receive from rank ", src, " meets a message from rank ", m.src);
    check(m.dest == fakeRank, "rank ", fakeRank, " takes a message for rank ", m.dest);
    if (!m.bytes.empty()) memcpy(b, m.bytes.data(), m.bytes.size());
    return 0;
}
static int bcastRoot = 0;
extern "C" int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    if (!fakeMPI) return PMPI_Bcast(b, n, t, root, c);
    check(root == bcastRoot, "broadcast from root ", root, " instead of ", bcastRoot);
    int sz; PMPI_Type_size(t, &sz);
    if (fakeRank == root) {
        wire.push_back({-1, -1, root, c, t, {}, n, true});
        wire.back().bytes.assign((const char*) b, (const char*) b + (std::size_t) n*sz);
    } else {
        Msg m = pop("broadcast", n, t, c, true);
        if (!m.bytes.empty()) memcpy(b, m.bytes.data(), m.bytes.size());
    }
    return 0;
}
// ---- making and comparing values
template<class T> struct V;
namespace vr {
template<class T> void fill(T& x) { if constexpr (requires { V<T>::make(); }) x = V<T>::make(); else V<T>::fill(x); }
template<class T> void put(T& d, T& s) { if constexpr (requires { V<T>::make(); }) d = s; else V<T>::put(d, s); }
}
static int pickN() { return rnd(0, 5) == 0 ? 0 : rnd(1, 5) == 1 ? rnd(50, 200) : rnd(1, 9); }
template<> struct V<int> { static int make() { return rnd(-1000000, 1000000); } static bool same(int a, int b) { return a == b; } static std::string str(int a) { return std::to_string(a); } };
template<> struct V<bool> { static bool make() { return rnd(0, 1); } static bool same(bool a, bool b) { return a == b; } static std::string str(bool a) { return a ? "true" : "false"; } };
template<> struct V<double> { static double make() { return rdy(); } static bool same(double a, double b) { return a == b; } static std::string str(double a) { return std::to_string(a); } };
template<> struct V<std::string> {
    static std::string make() { std::string s; for (int i = pickN(); i > 0; i--) s += (char) rnd(0, 3) ? (char) rnd(32, 126) : (char) rnd(0, 255); return s; }
    static bool same(const std::string& a, const std::string& b) { return a == b; }
    static std::string str(const std::string& a) { return "string of " + std::to_string(a.size()) + " \"" + a + "\""; }
};
template<class T> struct V<std::vector<T>> {
    static std::vector<T> make() { std::vector<T> v(pickN()); for (auto& x : v) x = V<T>::make(); return v; }
    static bool same(const std::vector<T>& a, const std::vector<T>& b) { return a == b; }
    static std::string str(const std::vector<T>& a) { return "std::vector of " + std::to_string(a.size()); }
};
template<class T> struct V<Vector<T>> {
    static Vector<T> make() { Vector<T> v((std::size_t) pickN()); for (std::size_t i = 0; i < v.size(); i++) v[i] = V<T>::make(); return v; }
    static bool same(Vector<T>& a, Vector<T>& b) { return a.size() == b.size() && a.data() == b.data(); }
    static std::string str(Vector<T>& a) { return "Vector of " + std::to_string(a.size()); }
};
template<class T> struct V<Matrix<T>> {
    static Matrix<T> make() { int r = rnd(0, 6), c = rnd(0, 6); Matrix<T> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = V<T>::make(); return m; }
    static bool same(Matrix<T>& a, Matrix<T>& b) {
        if (a.nRows() != b.nRows() || a.nCols() != b.nCols()) return false;
        for (int i = 0; i < (int) a.nRows(); i++) for (int j = 0; j < (int) a.nCols(); j++) if (a(i, j) != b(i, j)) return false;
        return true;
    }
    static std::string str(Matrix<T>& a) { return "Matrix " + std::to_string(a.nRows()) + " x " + std::to_string(a.nCols()); }
};
template<> struct V<FiniteVolumeGrid> {
    static FiniteVolumeGrid make() { double x = rdy(), y = rdy(); return FiniteVolumeGrid(MPI_COMM_WORLD, rnd(1, 20), x, x + rnd(1, 50)/8., rnd(1, 20), y, y + rnd(1, 50)/8.); }
    static bool same(FiniteVolumeGrid& a, FiniteVolumeGrid& b) { return a.nx() == b.nx() && a.ny() == b.ny() && a.xLower() == b.xLower() && a.xUpper() == b.xUpper() && a.yLower() == b.yLower() && a.yUpper() == b.yUpper() && a.dx() == b.dx() && a.dy() == b.dy(); }
    static std::string str(FiniteVolumeGrid& a) { return "grid " + std::to_string(a.nx()) + " x " + std::to_string(a.ny()) + " [" + std::to_string(a.xLower()) + "," + std::to_string(a.xUpper()) + "]x[" + std::to_string(a.yLower()) + "," + std::to_string(a.yUpper()) + "]"; }
};
template<> struct V<FiniteVolumePatch> {
    static void fill(FiniteVolumePatch& p) {
        p.grid() = V<FiniteVolumeGrid>::make();
        p.n_coarsens = rnd(0, 3);
        if (rnd(0, 4)) {
            p.matrixX() = V<Matrix<double>>::make(); p.matrixH() = V<Matrix<double>>::make(); p.matrixS() = V<Matrix<double>>::make(); p.matrixT() = V<Matrix<double>>::make();
            p.vectorU() = V<Vector<double>>::make(); p.vectorG() = V<Vector<double>>::make(); p.vectorV() = V<Vector<double>>::make();
            p.vectorF() = V<Vector<double>>::make(); p.vectorH() = V<Vector<double>>::make(); p.vectorW() = V<Vector<double>>::make();
        }
    }
    static void put(FiniteVolumePatch& d, FiniteVolumePatch& s) {
        d.n_coarsens = s.n_coarsens; d.grid() = s.grid();
        d.matrixX() = s.matrixX(); d.matrixH() = s.matrixH(); d.matrixS() = s.matrixS(); d.matrixT() = s.matrixT();
        d.vectorU() = s.vectorU(); d.vectorG() = s.vectorG(); d.vectorV() = s.vectorV(); d.vectorF() = s.vectorF(); d.vectorH() = s.vectorH(); d.vectorW() = s.vectorW();
    }
    static bool same(FiniteVolumePatch& a, FiniteVolumePatch& b) {
        typedef V<Matrix<double>> M; typedef V<Vector<double>> W;
        return a.n_coarsens == b.n_coarsens && V<FiniteVolumeGrid>::same(a.grid(), b.grid()) && M::same(a.matrixX(), b.matrixX()) && M::same(a.matrixH(), b.matrixH()) && M::same(a.matrixS(), b.matrixS()) && M::same(a.matrixT(), b.matrixT())
            && W::same(a.vectorU(), b.vectorU()) && W::same(a.vectorG(), b.vectorG()) && W::same(a.vectorV(), b.vectorV()) && W::same(a.vectorF(), b.vectorF()) && W::same(a.vectorH(), b.vectorH()) && W::same(a.vectorW(), b.vectorW());
    }
    static std::string str(FiniteVolumePatch& a) { return "patch on " + V<FiniteVolumeGrid>::str(a.grid()); }
};
template<class T> struct V<Node<T>> {
    static void fill(Node<T>& n) {
        std::string path = "0"; for (int i = rnd(0, 9); i > 0; i--) path += std::to_string(rnd(0, 3));
        vr::fill(n.data); n.path = path; n.level = rnd(0, 30); n.pfirst = rnd(0, 7); n.plast = rnd(0, 7); n.leaf = rnd(0, 1);
    }
    static void put(Node<T>& d, Node<T>& s) { vr::put(d.data, s.data); d.path = s.path; d.level = s.level; d.pfirst = s.pfirst; d.plast = s.plast; d.leaf = s.leaf; }
    static bool same(Node<T>& a, Node<T>& b) { return V<T>::same(a.data, b.data) && a.path == b.path && a.level == b.level && a.pfirst == b.pfirst && a.plast == b.plast && a.leaf == b.leaf; }
    static std::string str(Node<T>& a) { return "node " + a.path + " level " + std::to_string(a.level) + " ranks " + std::to_string(a.pfirst) + "-" + std::to_string(a.plast) + (a.leaf ? " leaf" : "") + " of " + V<T>::str(a.data); }
};
static MPI_Comm comms[2];
template<class T> void p2p(const char* name) {
    T v{}, o{}, keep{}; vr::fill(v); vr::fill(o); vr::put(keep, v);
    int src = rnd(0, 7), dst = rnd(0, 7), tag = rnd(0, 4000); MPI_Comm c = comms[rnd(0, 1)];
    begin("send-receive", name, ": ", V<T>::str(v), " from rank ", src, " to rank ", dst, " with tag ", tag, ", received over ", V<T>::str(o));
    noThrow([&] {
        wire.clear(); fakeMPI = true;
        fakeRank = src; EllipticForest::MPI::send(v, dst, tag, c);
        check(!wire.empty(), "nothing was sent");
        check(V<T>::same(keep, v), "sending changed the object");
        EllipticForest::MPI::Status st;
        fakeRank = dst; EllipticForest::MPI::receive(o, src, tag, c, &st);
        check(wire.empty(), wire.size(), " messages were never received");
        check(V<T>::same(keep, o), "received ", V<T>::str(o));
        fakeMPI = false;
    });
    fakeMPI = false;
}
template<class T> void bc(const char* name) {
    T v{}, o{}, keep{}; vr::fill(v); vr::fill(o); vr::put(keep, v);
    int root = rnd(0, 7), other = (root + rnd(1, 7))%8; MPI_Comm c = comms[rnd(0, 1)];
    begin("broadcast", name, ": ", V<T>::str(v), " from rank ", root, ", rank ", other, " had ", V<T>::str(o));
    noThrow([&] {
        wire.clear(); fakeMPI = true; bcastRoot = root;
        fakeRank = root; EllipticForest::MPI::broadcast(v, root, c);
        check(V<T>::same(keep, v), "broadcasting changed the root's object");
        fakeRank = other; EllipticForest::MPI::broadcast(o, root, c);
        check(wire.empty(), wire.size(), " broadcasts were never joined by rank ", other);
        check(V<T>::same(keep, o), "rank ", other, " is left with ", V<T>::str(o));
        fakeMPI = false;
    });
    fakeMPI = false;
}
template<class T> void both(const char* n) { p2p<T>(n); bc<T>(n); }
void run() {
    comms[0] = MPI_COMM_WORLD; comms[1] = MPI_COMM_SELF;
    do {
        both<int>("int"); both<double>("double"); both<bool>("bool"); both<std::string>("string");
        both<std::vector<double>>("std::vector<double>"); both<std::vector<int>>("std::vector<int>");
        both<Vector<double>>("Vector<double>"); both<Vector<int>>("Vector<int>"); both<Matrix<double>>("Matrix<double>"); both<Node<double>>("Node<double>");
        bc<FiniteVolumeGrid>("grid"); bc<FiniteVolumePatch>("patch"); bc<Node<FiniteVolumePatch>>("Node<FiniteVolumePatch>");
    } while (more());
}
