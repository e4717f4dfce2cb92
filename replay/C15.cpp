#include "forest.hpp"
#include <p4est_extended.h>
using namespace vr;
using P = FiniteVolumePatch;
using NodeP = Node<P>;
using Tree = Quadtree<P>;
// one process plays a process of several; the others only exist in what the agreement returns
static bool fake = false;
static int myRank = 0, firstRank = 0, agreed = -1;
static std::vector<int> roots; static std::vector<MPI_Comm> comms;
static MPI_Op opUsed; static int agreements = 0;
extern "C" int MPI_Comm_rank(MPI_Comm c, int* r) { if (fake) { *r = c == MPI_COMM_WORLD ? myRank : myRank - firstRank; return 0; } return PMPI_Comm_rank(c, r); }
extern "C" int MPI_Comm_size(MPI_Comm c, int* n) { if (fake) { *n = 8; return 0; } return PMPI_Comm_size(c, n); }
static std::function<int(int, MPI_Op)> agree;
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    if (!fake) return PMPI_Allreduce(s, r, n, t, op, c);
    check(n == 1 && t == MPI_INT, "agreement on ", n, " values");
    agreed = agree(*(const int*) s, op); *(int*) r = agreed; agreements++;
    return 0;
}
extern "C" int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    if (!fake) return PMPI_Bcast(b, n, t, root, c);
    roots.push_back(root); comms.push_back(c);
    int sz; PMPI_Type_size(t, &sz);
    if (root != myRank - firstRank && n) memset(b, 0, (std::size_t) n*sz);
    return 0;
}
static void order(int n, int minl, int maxl, int odds) {
    double xl = -1, xu = 3, yl = 2, yu = 2.5;
    begin("traversals", "levels ", minl, "-", maxl, ", seed ", seed, " case ", cases);
    noThrow([&] {
        FiniteVolumeGrid g(MPI_COMM_WORLD, n, xl, xu, n, yl, yu);
        P root(MPI_COMM_WORLD, g);
        FiniteVolumeNodeFactory fac(MPI_COMM_WORLD);
        auto* p = forest(n, xl, xu, yl, yu, minl, maxl, odds);
        static int mark; p->user_pointer = &mark;
        auto L = leaves(p, xl, xu, yl, yu);
        std::map<std::string, Leaf> all; std::set<std::string> leafs;
        for (auto& l : L) {
            leafs.insert(l.path);
            for (std::size_t k = 1; k <= l.path.size(); k++) {
                double h = std::pow(0.5, k - 1), x = 0, y = 0, w = 1;
                for (std::size_t c = 1; c < k; c++) { w /= 2; x += w*((l.path[c] - '0')%2); y += w*((l.path[c] - '0')/2); }
                all[l.path.substr(0, k)] = {l.path.substr(0, k), (int) k - 1, xl + x*(xu - xl), xl + (x + h)*(xu - xl), yl + y*(yu - yl), yl + (y + h)*(yu - yl)};
            }
        }
        Tree built(MPI_COMM_WORLD, p, root, fac);
        check(p->user_pointer == &mark, "building the tree changes the user pointer of the forest");
        Tree moved; bool assign = rnd(0, 1);
        if (assign) moved = std::move(built);
        Tree& t = assign ? moved : built;
        check(t.p4est == p, "another forest");
        std::size_t have = 0;
        for (auto& [k, nd] : t.map) if (nd) have++;
        check(have == all.size(), have, " nodes, ", all.size(), " quadrants");
        auto node = [&](const std::string& path) { auto it = t.map.find(path); check(it != t.map.end() && it->second, "no node ", path); return it->second; };
        for (auto& [path, l] : all) {
            auto* nd = node(path);
            check(nd->path == path, "node ", path, " has path ", nd->path);
            check(nd->level == l.level && nd->leaf == (leafs.count(path) > 0) && nd->pfirst == 0 && nd->plast == 0, "node ", path, ": level ", nd->level, ", leaf ", nd->leaf, ", ranks ", nd->pfirst, "-", nd->plast);
            auto& gr = nd->data.grid();
            check(close(gr.xLower(), l.xl) && close(gr.xUpper(), l.xu) && close(gr.yLower(), l.yl) && close(gr.yUpper(), l.yu), "node ", path, " covers [", gr.xLower(), ",", gr.xUpper(), "]x[", gr.yLower(), ",", gr.yUpper(), "]");
            check(nd->node_comm_set, "node ", path, " has no communicator");
        }
        check(&t.root() == &node("0")->data, "root() is not the data of the root");
        std::vector<std::string> seen; std::map<std::string, int> when;
        auto note = [&](const std::string& s) { check(!when.count(s), s, " visited twice"); when[s] = (int) seen.size(); seen.push_back(s); };
        auto fresh = [&] { seen.clear(); when.clear(); };
        auto pathOfData = [&](P& d) { for (auto& [k, nd] : t.map) if (nd && &nd->data == &d) return k; return std::string("?"); };
        auto finish = [&](const char* what, bool parentFirst) {
            check(seen.size() == all.size(), what, ": ", seen.size(), " of ", all.size(), " nodes visited");
            for (auto& [path, l] : all) {
                check(when.count(path), what, ": ", path, " is not visited");
                if (path.size() > 1) check((when[path.substr(0, path.size() - 1)] < when[path]) == parentFirst, what, ": ", path, " is visited on the wrong side of its parent");
            }
        };
        for (int k : {rnd(0, 5), rnd(0, 5), rnd(0, 5)}) {
            fresh();
            if (k == 0) { t.traversePreOrder([&](NodeP* nd) { note(nd->path); return 1; }); finish("traversePreOrder", true); }
            if (k == 1) { t.traversePostOrder([&](NodeP* nd) { note(nd->path); return 1; }); finish("traversePostOrder", false); }
            if (k == 2) { t.traversePreOrder([&](P& d) { note(pathOfData(d)); }); finish("traversePreOrder of the data", true); }
            if (k == 3) { t.traversePostOrder([&](P& d) { note(pathOfData(d)); }); finish("traversePostOrder of the data", false); }
            if (k >= 4) {
                auto leaf = [&](NodeP* nd) { check(leafs.count(nd->path), nd->path, " is not a leaf"); note(nd->path); return 1; };
                auto fam = [&](NodeP* nd, std::vector<NodeP*> c) {
                    check(!leafs.count(nd->path), nd->path, " is a leaf"); note(nd->path);
                    check(c.size() == 4, c.size(), " children");
                    for (int i = 0; i < 4; i++) check(c[i] == node(nd->path + std::to_string(i)), "child ", i, " of ", nd->path, " is ", c[i] ? c[i]->path : "null");
                    return 1;
                };
                if (k == 4) { t.merge(leaf, fam); finish("merge", false); } else { t.split(leaf, fam); finish("split", true); }
            }
        }
        if (maxl > 0) { // a callback that returns 0 keeps the traversal from going on below the node
            fresh(); std::string stop = L[rnd(0, (int) L.size() - 1)].path; stop = stop.substr(0, rnd(1, (int) stop.size()));
            t.traversePreOrder([&](NodeP* nd) { note(nd->path); return nd->path == stop ? 0 : 1; });
            for (auto& [path, l] : all) { bool below = path.size() > stop.size() && path.compare(0, stop.size(), stop) == 0; check(below != (when.count(path) > 0), path, below ? " is visited although the callback at " : " is not visited; the callback at ", stop, " returned 0"); }
        }
        drop(p);
    });
}
static void paths() {
    p4est_quadrant_t q; std::memset(&q, 0, sizeof q);
    std::string want = "0"; int depth = rnd(0, 3) ? rnd(0, 8) : rnd(9, P4EST_QMAXLEVEL);
    for (int l = 0; l < depth; l++) { int c = rnd(0, 3); p4est_quadrant_t r; std::memset(&r, 0, sizeof r); p4est_quadrant_child(&q, &r, c); q = r; want += char('0' + c); }
    begin("p4est_quadrant_path", "quadrant ", want, " at level ", depth);
    noThrow([&] { auto s = EllipticForest::p4est::p4est_quadrant_path(&q); check(s == want, "path is ", s); });
}
static void spread(bool isMerge) {
    int pf = rnd(0, 2), pl = pf + rnd(1, 3); myRank = rnd(pf, pl); firstRank = pf;
    bool have[4]; for (auto& b : have) b = rnd(0, 1);
    begin("families of several processes", isMerge ? "merge" : "split", ", processes ", pf, "-", pl, ", here ", myRank, ", children here ", have[0], have[1], have[2], have[3]);
    noThrow([&] {
        auto* p = forest(2, 0, 1, 0, 1, 1, 1, 0);
        Tree t; t.p4est = p;
        std::vector<std::unique_ptr<NodeP>> own;
        auto add = [&](const std::string& path, int a, int b, bool here) {
            own.emplace_back(std::make_unique<NodeP>(MPI_COMM_WORLD)); auto* nd = own.back().get();
            nd->path = path; nd->level = (int) path.size() - 1; nd->pfirst = a; nd->plast = b; nd->leaf = path.size() > 1; nd->node_comm = MPI_COMM_SELF;
            t.map[path] = here ? nd : nullptr; return nd;
        };
        auto* par = add("0", pf, pl, true); NodeP* kid[4];
        for (int i = 0; i < 4; i++) kid[i] = add("0" + std::to_string(i), have[i] ? myRank : pl + 1, have[i] ? myRank : pl + 1, have[i]);
        par->node_comm = MPI_COMM_SELF;
        int i = 0, other = -1, called = 0; bool here = true;
        agree = [&](int mine, MPI_Op op) {
            check(op == MPI_MAX || op == MPI_MIN, "neither the largest nor the smallest contribution");
            here = have[i%4]; i++;
            int me = myRank - pf; if (op != MPI_MAX) return here ? me : mine;
            // some process other than this one has the child if this one has not; both may
            other = here && rnd(0, 1) ? -1 : rnd(0, pl - pf); if (!here && other == me) other = me == 0 ? pl - pf : 0;
            int best = std::max(mine, 0);
            if (other >= 0 && other != me) best = std::max(best, other);
            return best;
        };
        struct Off { ~Off() { fake = rootOnly = false; } } off;
        roots.clear(); fake = rootOnly = true; agreements = 0;
        auto leafCb = [&](NodeP*) { return 1; };
        auto fam = [&](NodeP* nd, std::vector<NodeP*> c) {
            called++;
            check(nd == par, "the parent handed over is another node");
            check(c.size() == 4, c.size(), " children");
            for (int k = 0; k < 4; k++) {
                check(c[k] != nullptr, "child ", k, " is missing");
                if (have[k]) check(c[k] == kid[k], "child ", k, " is kept here but another object is handed over");
                else for (int m = 0; m < 4; m++) check(c[k] != kid[m] && (m == k || c[k] != c[m]), "child ", k, " is received into the object of child ", m);
            }
            return 1;
        };
        p4est_quadrant_t q; std::memset(&q, 0, sizeof q); p->user_pointer = &t;
        // every process of the parent takes part in the same agreements, and the process agreed on has the child
        t.visit_node_fn = leafCb; t.visit_family_fn = fam;
        auto agree0 = agree; std::vector<int> ag; std::vector<std::pair<bool, int>> who;
        agree = [&](int m, MPI_Op op) { int r = agree0(m, op); ag.push_back(r); who.push_back({here, other}); return r; };
        if (isMerge) t.merge(leafCb, fam); else t.split(leafCb, fam);
        fake = false;
        check(called == 1, "the family callback is called ", called, " times");
        check(ag.size() == 4, ag.size(), " agreements for four children");
        for (std::size_t k = 0; k < ag.size(); k++) check((who[k].first && ag[k] == myRank - pf) || (who[k].second >= 0 && ag[k] == who[k].second), "child ", k, ": process ", ag[k], " is to send it; here it is ", who[k].first ? "kept" : "not kept", ", also kept by ", who[k].second);
        for (int r : roots) check(std::count(ag.begin(), ag.end(), r), "a broadcast from process ", r, " nobody agreed on");
        for (auto c : comms) check(c == MPI_COMM_SELF, "a broadcast on another communicator than the parent's");
        comms.clear();
        drop(p);
    });
}
void run() {
    startApp();
    order(2, 0, 0, 0); order(2, 1, 2, 5); spread(true); spread(false);
    while (more()) {
        for (int k = 0; k < 5; k++) paths();
        int a = rnd(0, 2); order(rnd(1, 3), a, a + rnd(0, 3), rnd(1, 9));
        spread(rnd(0, 1));
    }
}
