// C37: reported sizes are the true node counts.
#include "machine.hpp"

#include <map>
using namespace ddx;
namespace {
    template<class Node>
    const Node* strip(const Node* q) { return reinterpret_cast<const Node*>(reinterpret_cast<std::uintptr_t>(q) & ~static_cast<std::uintptr_t>(7)); }
    // distinct parts of a dense vector or matrix up to a factor: that many nodes does its diagram have
    struct Parts {
        std::map<std::vector<std::pair<long, long>>, int> seen;
        std::size_t                                       count = 1; // the terminal
        static bool                                       none(const V& v) {
            return std::all_of(v.begin(), v.end(), [](const C& c) { return std::abs(c) < 1e-12; });
        }
        bool add(const V& v) {
            C f{};
            for (const auto& c: v) {
                if (std::abs(c) > 1e-12) {
                    f = c;
                    break;
                }
            }
            std::vector<std::pair<long, long>> key;
            for (const auto& c: v) {
                const C x = c / f;
                key.emplace_back(std::lround(x.real() * 1e7), std::lround(x.imag() * 1e7));
            }
            if (seen.emplace(key, 0).second) {
                ++count;
                return true;
            }
            return false;
        }
        void vector(const V& v) {
            if (v.size() == 1 || none(v) || !add(v)) {
                return;
            }
            const auto h = static_cast<std::ptrdiff_t>(v.size() / 2);
            vector(V(v.begin(), v.begin() + h));
            vector(V(v.begin() + h, v.end()));
        }
        void matrix(const M& m) {
            if (m.d == 1 || none(m.a) || !add(m.a)) {
                return;
            }
            const std::size_t h = m.d / 2;
            for (unsigned i = 0; i < 4; ++i) {
                M s(h);
                for (std::size_t r = 0; r < h; ++r) {
                    for (std::size_t c = 0; c < h; ++c) {
                        s(r, c) = m((i >> 1U) * h + r, (i & 1U) * h + c);
                    }
                }
                matrix(s);
            }
        }
    };
    std::size_t parts(const V& v) {
        Parts p;
        p.vector(v);
        return p.count;
    }
    std::size_t parts(const M& m) {
        Parts p;
        p.matrix(m);
        return p.count;
    }
    template<class P, class E>
    void ask(P& p, const E& e, const std::string& what) {
        const auto want = countNodes(e);
        const auto got  = p.size(e);
        mc::op();
        mc::state(mc::mix(want, std::is_same_v<E, dd::vEdge> ? 1 : 2));
        MC_CHECK(got == want, what << ": the size is given as " << got << ", there are " << want << " nodes");
    }
    template<class P, class E>
    void below(P& p, const E& e, const std::string& what) { // every diagram below this one
        ask(p, e, what);
        const auto* q = strip(e.p);
        if (!std::remove_pointer_t<decltype(e.p)>::isTerminal(e.p) && q != nullptr) {
            for (const auto& c: q->e) {
                below(p, c, "part of " + what);
            }
        }
    }
    // ---- everything over small alphabets ------------------------------------------------------------------------
    void small() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned w    = mc::choose(4, "env");
        const unsigned kind = mc::choose(5, "kind");
        const unsigned hi   = mc::choose(16, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            auto o  = std::make_unique<P>(3); // another package with diagrams of its own
            warm(*p, 3, w);
            const auto other = o->makeStateFromVector(cvec(vecPat(3, 6)));
            const auto otherM = o->makeDDFromMatrix(cmat(matPat(3, 8)));
            const std::size_t N[] = {81, 625, 6561, 6561, 4096};
            std::size_t       last = 0;
            for (std::size_t x = hi; x < N[kind]; x += 16) {
                std::size_t want = 0;
                std::size_t got  = 0;
                std::size_t k    = 0;
                std::string what;
                if (kind < 3) {
                    const auto v = vecFrom(x, static_cast<int>(kind) + 1, kind == 0 ? L9 : kind == 1 ? L5 : L3);
                    const auto e = p->makeStateFromVector(cvec(v));
                    what         = ref::str(v);
                    want         = parts(v);
                    k            = countNodes(e);
                    got          = p->size(e);
                    if (x % 5 == 0) { // measured in between: others
                        (void)o->size(other);
                        (void)o->size(otherM);
                        MC_CHECK(p->size(e) == got && o->size(e) == got, "asking again for the size of " << what << " gives another number");
                    }
                } else {
                    const auto m = kind == 3 ? matFrom(x, L9) : mat4(x, 8);
                    const auto e = p->makeDDFromMatrix(cmat(m));
                    what         = ref::str(m);
                    want         = parts(m);
                    k            = countNodes(e);
                    got          = p->size(e);
                    if (x % 5 == 0) {
                        (void)o->size(other);
                        (void)o->size(otherM);
                        MC_CHECK(p->size(e) == got && o->size(e) == got, "asking again for the size of " << what << " gives another number");
                    }
                }
                mc::op();
                mc::state(mc::mix(want, kind));
                MC_CHECK(got == want && k == want, "the size of the diagram of " << what << " is given as " << got << "; it has " << k << " nodes and " << want << " distinct parts");
                last = got;
                if (x % 1024 == hi) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            MC_CHECK(o->size(other) == countNodes(other) && last > 0, "size in another package");
        });
    }
    // ---- sizes after every pair (thorough: triple) of operations, and the counters ----------------------------------
    template<class Table>
    void counters(const Table& t, const std::string& what, std::size_t& peak, std::size_t& top) {
        using Node = std::remove_pointer_t<std::decay_t<decltype(t.getTables()[0][0])>>;
        std::set<const Node*> all;
        std::size_t           active = 0;
        dd::Qubit             q      = 0;
        for (const auto& tab: t.getTables()) {
            std::size_t here = 0;
            for (const Node* x: tab) {
                for (; x != nullptr; x = x->next) {
                    MC_CHECK(all.insert(x).second, what << ": a node is stored twice");
                    here += x->ref > 0 ? 1 : 0;
                }
            }
            MC_CHECK(const_cast<Table&>(t).getActiveNodeCount(q) == here, what << ": " << const_cast<Table&>(t).getActiveNodeCount(q) << " active nodes reported for qubit " << int(q) << ", there are " << here);
            active += here;
            ++q;
        }
        MC_CHECK(t.getNodeCount() == all.size(), what << ": " << t.getNodeCount() << " nodes reported, " << all.size() << " are stored");
        MC_CHECK(t.getActiveNodeCount() == active, what << ": " << t.getActiveNodeCount() << " active nodes reported, there are " << active);
        MC_CHECK(t.getPeakNodeCount() >= all.size() && t.getPeakNodeCount() >= peak, what << ": the peak number of nodes is given as " << t.getPeakNodeCount() << " although there are " << all.size() << " and were " << peak);
        MC_CHECK(t.getMaxActiveNodes() >= active && t.getMaxActiveNodes() >= top, what << ": the largest number of active nodes is given as " << t.getMaxActiveNodes() << " although there are " << active << " and were " << top);
        peak = t.getPeakNodeCount();
        top  = t.getMaxActiveNodes();
    }
    template<class P>
    void sizes(P& p, Machine<P>& m, const std::string& what) {
        for (int k = 0; k < 2; ++k) {
            if (m.hv[k]) {
                below(p, m.v[k], "V" + std::to_string(k) + " after " + what);
            }
            if (m.hm[k]) {
                below(p, m.m[k], "M" + std::to_string(k) + " after " + what);
            }
        }
        if (m.hd) {
            ask(p, m.d, "the density matrix after " + what);
            auto a = m.d;
            dd::dEdge::alignDensityEdge(a);
            ask(p, a, "the density matrix after " + what);
        }
    }
    template<bool THREE>
    void histories() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = THREE ? 2 : 1 + mc::choose(3, "qubits");
        const unsigned a   = mc::choose(OpCount, "first");
        const unsigned b   = mc::choose(OpCount, "second");
        const unsigned c   = THREE ? mc::choose(OpCount, "third") : OpCount;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P          p(n);
            Machine<P> m(p, static_cast<int>(n));
            std::size_t peak[6] = {};
            const auto  look    = [&](const std::string& what) {
                sizes(p, m, what);
                counters(p.vUniqueTable, what + ", states", peak[0], peak[1]);
                counters(p.mUniqueTable, what + ", matrices", peak[2], peak[3]);
                counters(p.dUniqueTable, what + ", density matrices", peak[4], peak[5]);
            };
            m.start();
            for (const unsigned o: {a, b, c}) {
                if (o == OpCount) {
                    break;
                }
                if (!m.step(o)) {
                    mc::prune();
                }
                look(opName(o));
            }
            RefModel r;
            m.roots(r);
            if (m.hd) {
                (void)0;
            }
            const auto live = [&](auto& table, const auto& roots) {
                using Node = std::remove_pointer_t<std::decay_t<decltype(table.getTables()[0][0])>>;
                std::set<const Node*>    seen;
                std::vector<const Node*> todo;
                for (const auto& e: roots) {
                    todo.push_back(strip(e.p));
                }
                while (!todo.empty()) {
                    const Node* q = todo.back();
                    todo.pop_back();
                    if (q == nullptr || Node::isTerminal(q) || !seen.insert(q).second) {
                        continue;
                    }
                    for (const auto& e: q->e) {
                        todo.push_back(strip(e.p));
                    }
                }
                return seen.size();
            };
            std::vector<dd::vEdge> vs;
            std::vector<dd::mEdge> ms;
            std::vector<dd::dEdge> ds;
            for (int k = 0; k < 2; ++k) {
                if (m.hv[k]) {
                    vs.push_back(m.v[k]);
                }
                if (m.hm[k]) {
                    ms.push_back(m.m[k]);
                }
            }
            if (m.hd) {
                ds.push_back(m.d);
            }
            const auto lv = live(p.vUniqueTable, vs);
            const auto lm = live(p.mUniqueTable, ms);
            const auto ld = live(p.dUniqueTable, ds);
            const auto is = [&](std::size_t got, std::size_t want, const char* what) {
                MC_CHECK(got == want, got << " " << what << ", expected " << want);
            };
            is(p.vUniqueTable.getActiveNodeCount(), lv, "active state nodes");
            is(p.mUniqueTable.getActiveNodeCount(), lm, "active matrix nodes");
            is(p.dUniqueTable.getActiveNodeCount(), ld, "active density matrix nodes");
            p.garbageCollect(true);
            look("a collection");
            is(p.vUniqueTable.getNodeCount(), lv, "state nodes after a collection");
            is(p.mUniqueTable.getNodeCount(), lm, "matrix nodes after a collection");
            is(p.dUniqueTable.getNodeCount(), ld, "density matrix nodes after a collection");
            m.release();
            p.garbageCollect(true);
            look("release");
            is(p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount() + p.dUniqueTable.getNodeCount(), 0, "nodes after releasing everything");
            is(p.vUniqueTable.getActiveNodeCount() + p.mUniqueTable.getActiveNodeCount() + p.dUniqueTable.getActiveNodeCount(), 0, "active nodes after releasing everything");
            m.start(); // the counters go on counting
            look("starting again");
            p.reset(); // forgets everything, the counts start from nothing
            for (auto& k: peak) {
                k = 0;
            }
            m.hv[0] = m.hv[1] = m.hm[0] = m.hm[1] = m.hd = false;
            const auto none = [&](const auto& table, const char* what) {
                is(table.getNodeCount() + table.getActiveNodeCount() + table.getPeakNodeCount() + table.getMaxActiveNodes(), 0, what);
            };
            none(p.vUniqueTable, "state nodes after a reset");
            none(p.mUniqueTable, "matrix nodes after a reset");
            none(p.dUniqueTable, "density matrix nodes after a reset");
            look("a reset");
            Machine<P> again(p, static_cast<int>(n));
            again.start();
            again.step(a);
            sizes(p, again, "a reset");
            look("operations after a reset");
            again.release();
            p.garbageCollect(true);
            is(p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount() + p.dUniqueTable.getNodeCount(), 0, "nodes after releasing everything again");
        });
    }
    // ---- every order of measuring several diagrams in two packages ---------------------------------------------------
    void orders() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned set = mc::choose(4, "diagrams");
        unsigned       ord[5];
        std::vector<unsigned> left{0, 1, 2, 3, 4, 5, 6};
        for (unsigned i = 0; i < 5; ++i) {
            const unsigned c = mc::choose(static_cast<unsigned>(left.size()), "next");
            ord[i]           = left[c];
            left.erase(left.begin() + c);
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P          p(4);
            P          q(3);
            const auto v = p.makeStateFromVector(cvec(vecPat(4, 5 + set)));
            const auto w = q.makeStateFromVector(cvec(vecPat(3, 6 + set)));
            const auto m = p.makeDDFromMatrix(cmat(matPat(3, 1 + 3 * set)));
            const auto u = q.makeDDFromMatrix(cmat(matPat(2, 2 + 3 * set)));
            auto       d = q.makeZeroDensityOperator(3);
            q.incRef(d);
            const auto h = q.makeGateDD(dd::RYmat(0.4 + set), 3, dd::Control{0, dd::Control::Type::neg}, 2);
            q.applyOperationToDensity(d, h, true);
            for (unsigned round = 0; round < 2; ++round) {
                for (const auto k: ord) {
                    switch (k) {
                        case 0: ask(p, v, "a state"); break;
                        case 1: ask(q, w, "a state of the second package"); break;
                        case 2: ask(p, m, "a matrix"); break;
                        case 3: ask(q, u, "a matrix of the second package"); break;
                        case 4: ask(q, d, "a density matrix"); break;
                        case 5: ask(p, v.isTerminal() ? v : v.p->e[0], "a part of a state"); break;
                        default: ask(p, dd::vEdge::one, "a scalar"); break;
                    }
                }
            }
        });
    }
    // ---- products, sums, patterns ----------------------------------------------------------------------------------
    void shapes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned pa  = mc::choose(NMP, "first");
        const unsigned pb  = mc::choose(NVP, "second");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            P          p(n + 1);
            warm(p, std::min(ni, 4), (pa + pb) % 4);
            const auto a = p.makeDDFromMatrix(cmat(matPat(ni, pa)));
            const auto b = p.makeStateFromVector(cvec(vecPat(ni, pb)));
            ask(p, a, "a matrix");
            ask(p, b, "a state");
            if (a.isTerminal() || b.isTerminal()) {
                MC_CHECK(p.size(a.isTerminal() ? a : dd::mEdge::zero) == 1 && p.size(b.isTerminal() ? b : dd::vEdge::zero) == 1, "size of a zero diagram");
                return;
            }
            const auto x = p.multiply(a, b);
            ask(p, x, "a product");
            p.incRef(x);
            ask(p, p.add(x, b), "a sum");
            ask(p, p.conjugateTranspose(a), "an adjoint");
            ask(p, p.multiply(a, p.transpose(a)), "a product of matrices");
            ask(p, p.extend(a, 1), "an extended state");
            if (n <= 4) {
                below(p, b, "a state");
                below(p, a, "a matrix");
            }
            // exact sizes where the values are exact
            if (pb <= 4 || pb == 8) {
                MC_CHECK(p.size(b) == parts(vecPat(ni, pb)), "a state with " << parts(vecPat(ni, pb)) << " distinct parts has size " << p.size(b));
            }
            if (pa == 0 || pa == 1 || pa == 3 || pa == 5 || pa == 7 || pa == 9 || pa == 13 || pa == 14) {
                MC_CHECK(p.size(a) == parts(matPat(ni, pa)), "a matrix with " << parts(matPat(ni, pa)) << " distinct parts has size " << p.size(a));
            }
        });
    }
    // ---- up to 128 qubits, and many nodes -------------------------------------------------------------------------
    void wide() {
        const unsigned sizes[] = {1, 2, 8, 31, 32, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const auto     q       = static_cast<dd::QubitCount>(n);
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        const auto     is      = [&](const auto& e, std::size_t want, const char* what) {
            ask(*p, e, what);
            MC_CHECK(p->size(e) == want, what << " on " << n << " qubits has size " << p->size(e) << ", expected " << want);
        };
        is(p->makeZeroState(q), n + 1, "the zero state");
        is(p->makeIdent(q), n + 1, "the identity");
        is(p->makeZeroDensityOperator(q), n + 1, "the zero density matrix");
        for (const auto b: {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::left, dd::BasisStates::right}) {
            is(p->makeBasisState(q, std::vector<dd::BasisStates>(n, b)), n + 1, "a product state");
        }
        for (unsigned t = 0; t < n; t += std::max(1U, n / 8)) {
            const auto tq = static_cast<dd::Qubit>(t);
            is(p->makeGateDD(dd::Hmat, q, tq), n + 1, "a gate");
            for (unsigned c = 0; c < n; c += std::max(1U, n / 8)) {
                if (c == t) {
                    continue;
                }
                // above the higher of both one node per qubit, between them two, at and below the lower one
                const unsigned hi = std::max(t, c);
                const unsigned lo = std::min(t, c);
                const auto     e  = p->makeGateDD(dd::Xmat, q, dd::Control{static_cast<dd::Qubit>(c)}, tq);
                // control above: identity part and gate part side by side down to the target, identity continues below
                // target above: the two parts (control satisfied or not) differ down to the control
                (void)lo;
                (void)hi;
                ask(*p, e, "a controlled gate");
                const auto d = p->makeBasisState(q, std::vector<bool>(n));
                ask(*p, p->multiply(e, p->multiply(p->makeGateDD(dd::Hmat, q, static_cast<dd::Qubit>(c)), d)), "an entangled state");
                mc::alive();
            }
        }
        // all zeros plus all ones: two nodes per qubit below the top
        auto e = p->multiply(p->makeGateDD(dd::Hmat, q, static_cast<dd::Qubit>(n - 1)), p->makeZeroState(q));
        for (unsigned k = 0; k + 1 < n; ++k) {
            e = p->multiply(p->makeGateDD(dd::Xmat, q, dd::Control{static_cast<dd::Qubit>(n - 1)}, static_cast<dd::Qubit>(k)), e);
        }
        is(e, n == 1 ? 2 : 2 * n, "a GHZ state");
        if (n > 1) {
            is(e.p->e[0], n, "the left half of a GHZ state");
        }
        // one excitation: two nodes per qubit except the top
        if (n <= 65) {
            auto w = p->makeBasisState(q, [&] {std::vector<bool> b(n); b[0] = true; return b; }());
            for (unsigned k = 1; k < n; ++k) {
                w = p->add(w, p->makeBasisState(q, [&] {std::vector<bool> b(n); b[k] = true; return b; }()));
            }
            is(w, n == 1 ? 2 : 2 * n, "a W state");
        }
        // and once more, after everything else was measured
        is(p->makeIdent(q), n + 1, "the identity");
    }
    // density matrices after circuits, on up to six qubits
    void densities() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned len = 1 + mc::choose(3, "len-1");
        const unsigned cfg = mc::choose(2, "cfg");
        unsigned       g[3]{};
        for (unsigned k = 0; k < len; ++k) {
            g[k] = mc::choose(6, "gate");
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P          p(n);
            const auto q = static_cast<dd::QubitCount>(n);
            auto       d = p.makeZeroDensityOperator(q);
            p.incRef(d);
            const dd::GateMatrix gates[] = {dd::Hmat, dd::Xmat, dd::Tmat, dd::RYmat(0.7), dd::SXmat, dd::RXmat(0.3)};
            const dd::GateMatrix* gs[]   = {&gates[0], &gates[1], &gates[2], &gates[3], &gates[4], &gates[5]};
            for (unsigned k = 0; k < len; ++k) {
                const auto target = static_cast<dd::Qubit>((g[k] + k) % n);
                for (unsigned c = 0; c < 2; ++c) { // alone, then controlled by the next qubit
                    if (c == 1 && n == 1) {
                        break;
                    }
                    dd::Controls cs{};
                    if (c == 1) {
                        cs.insert(dd::Control{static_cast<dd::Qubit>((target + 1U) % n), k % 2 == 1 ? dd::Control::Type::neg : dd::Control::Type::pos});
                    }
                    p.applyOperationToDensity(d, p.makeGateDD(*gs[g[k]], q, cs, target), true);
                    ask(p, d, "a density matrix");
                    auto a = d;
                    dd::dEdge::alignDensityEdge(a);
                    ask(p, a, "a density matrix without marks");
                    for (const auto& e: a.p->e) {
                        if (strip(e.p) != nullptr) {
                            ask(p, e, "a block of a density matrix");
                        }
                    }
                }
                // those in use are the ones of this density matrix
                const auto want = countNodes(d) - 1;
                MC_CHECK(p.dUniqueTable.getActiveNodeCount() == want, p.dUniqueTable.getActiveNodeCount() << " active nodes reported, the density matrix has " << want);
                if (k == 1) {
                    p.garbageCollect(true);
                    MC_CHECK(p.dUniqueTable.getNodeCount() == want, p.dUniqueTable.getNodeCount() << " nodes reported, the density matrix has " << want);
                }
            }
        });
    }
    void many() {
        const unsigned k = 12 + mc::choose(mc::thorough() ? 6 : 5, "qubits");
        auto           p = std::make_unique<dd::Package<>>(k);
        V              v(1ULL << k);
        std::uint64_t  s = 88172645463325252ULL;
        for (auto& x: v) {
            s ^= s << 13U;
            s ^= s >> 7U;
            s ^= s << 17U;
            x = C{static_cast<double>(s % 997) / 997. + 0.1, static_cast<double>(s / 997 % 991) / 991.};
        }
        const auto e = p->makeStateFromVector(cvec(v));
        mc::alive();
        ask(*p, e, "a state with many nodes");
        ask(*p, e, "a state with many nodes, again");
        ask(*p, e.p->e[0], "half of a state with many nodes");
        p->incRef(e);
        MC_CHECK(p->vUniqueTable.getActiveNodeCount() == countNodes(e) - 1, p->vUniqueTable.getActiveNodeCount() << " active nodes, expected " << countNodes(e) - 1);
        ask(*p, p->makeIdent(3), "the identity afterwards");
        p->garbageCollect(true);
        MC_CHECK(p->vUniqueTable.getNodeCount() == countNodes(e) - 1, p->vUniqueTable.getNodeCount() << " nodes stored, expected " << countNodes(e) - 1);
        ask(*p, e, "a state with many nodes after a collection");
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C37", argc, argv,
                   {{"small", 4, false, small},
                    {"histories", 4, false, histories<false>},
                    {"histories3", 4, true, histories<true>},
                    {"orders", 3, false, orders},
                    {"shapes", 4, false, shapes},
                    {"density-matrices", 3, false, densities},
                    {"wide-registers", 1, false, wide},
                    {"many-nodes", 1, false, many}},
                   {"all states of 1-3 qubits and 1-2 qubit matrices over small alphabets in four package conditions, against the number of distinct nodes reached and the number of distinct parts of the dense object; all diagrams and parts of diagrams after all pairs (thorough: triples) of 45 operations on 1-3 qubits, with all node counters, per-qubit counters and peaks; every order of measuring five out of seven diagrams of two packages; patterns up to 5 (6) qubits with products and sums; registers up to 128 qubits; density matrices after up to three rounds of gates on up to 5 (6) qubits; a reset after every history; diagrams of up to 60000 (120000) nodes",
                    {"two parts of a dense object count as equal when they agree up to a factor within 1e-7"}});
}
