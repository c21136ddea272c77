// C23: the operation caches return only what was stored last for the same operands, and nothing after a clear.
#include "ddx.hpp"
using namespace ddx;
namespace {
    constexpr double TOL = std::numeric_limits<double>::epsilon() * 1024;
    // nodes and numbers that serve as operands and results (never dereferenced by the caches except for density marks)
    struct World {
        dd::vNode   v[3];
        dd::mNode   m[3];
        dd::dNode   d[3];
        dd::CTEntry n[3]{{0.3, nullptr, 1}, {0.6, nullptr, 1}, {0.3 + 1.5 * TOL, nullptr, 1}};
        template<class N>
        N* node(unsigned i) {
            if (i == 3) {
                return N::terminal;
            }
            if constexpr (std::is_same_v<N, dd::vNode>) {
                return &v[i];
            } else if constexpr (std::is_same_v<N, dd::mNode>) {
                return &m[i];
            } else {
                d[i].flags = i == 2 ? 8 : 0; // one density matrix node among them
                return &d[i];
            }
        }
        // weights: numbers that share a node but differ in sign, order of the parts or by little more than the tolerance
        dd::Complex weight(unsigned i) {
            auto* z = &dd::ComplexTable<>::zero;
            switch (i) {
                case 0: return dd::Complex::one;
                case 1: return {&n[0], z};
                case 2: return {dd::CTEntry::getNegativePointer(&n[0]), z};
                case 3: return {z, &n[0]};
                case 4: return {&n[2], z};
                case 5: return {&n[0], dd::CTEntry::getNegativePointer(&n[1])};
                case 6: return {&n[1], &n[0]};
                case 7: return {dd::CTEntry::getNegativePointer(&n[0]), &n[1]};
                case 8: return {&n[0], &n[2]};
                default: return {&n[0], &n[1]};
            }
        }
        template<class E>
        E edge(unsigned k) { // 0..: (node, weight)
            static const unsigned pick[14][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {0, 3}, {0, 4}, {3, 1}, {2, 5}, {0, 5}, {0, 9}, {0, 6}, {0, 7}, {0, 8}, {1, 9}};
            using N                          = std::remove_pointer_t<decltype(E{}.p)>;
            return E{node<N>(pick[k][0]), E{node<N>(0), dd::Complex::one}.w = conv<decltype(E{}.w)>(weight(pick[k][1]))};
        }
        template<class W>
        static W conv(const dd::Complex& c) {
            if constexpr (std::is_same_v<W, dd::Complex>) {
                return c;
            } else {
                return {ddx::val(c.r), ddx::val(c.i)};
            }
        }
    };
    template<class E>
    bool same(const E& a, const E& b) { // same node and exactly the same weight
        return a.p == b.p && a.w == b.w;
    }
    const unsigned NK = 8;

    // histories of insertions and clears; after each step everything is looked up
    template<class Insert, class Lookup, class Clear, class Res>
    void drive(unsigned nKeys, unsigned nRes, unsigned depth, Insert insert, Lookup lookup, Clear clear, Res result) {
        const unsigned   len = 1 + mc::choose(depth, "length-1");
        std::vector<int> model(nKeys, -1);
        std::uint64_t    h = 0;
        for (unsigned d = 0; d < len; ++d) {
            const unsigned o = mc::choose(nKeys * nRes + 1, "op");
            mc::op();
            if (o == nKeys * nRes) {
                clear();
                std::fill(model.begin(), model.end(), -1);
                MC_NOTE("clear");
            } else {
                insert(o / nRes, o % nRes);
                model[o / nRes] = static_cast<int>(o % nRes);
                MC_NOTE("insert result " << o % nRes << " for operands " << o / nRes);
            }
            for (unsigned k = 0; k < nKeys && d + 1 == len; ++k) {
                mc::op();
                for (unsigned again = 0; again < 2; ++again) {
                    const auto r = lookup(k);
                    if (r.p == nullptr) {
                        continue;
                    }
                    MC_CHECK(model[k] >= 0, "a result was returned for operands " << k << ", for which nothing is stored");
                    MC_CHECK(same(r, result(static_cast<unsigned>(model[k]))), "the result returned for operands " << k << " is not the one stored last");
                    h = mc::mix(h, k * 10 + static_cast<unsigned>(model[k]));
                }
            }
        }
        mc::state(h);
    }
    template<class L, class R, class Res, std::size_t NB>
    void binary(unsigned depth) {
        using T = dd::ComputeTable<L, R, Res, NB>;
        auto  w = std::make_unique<World>();
        auto  t = std::make_unique<T>();
        // operand pairs: all share nodes with others and differ in one place
        static const unsigned keys[8][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 1}, {3, 1}, {1, 4}, {5, 0}};
        auto res = [&](unsigned k) { return w->edge<Res>(k == 0 ? 0 : k == 1 ? 2 : 3); };
        drive(8, 2, depth, [&](unsigned k, unsigned r) { t->insert(w->edge<L>(keys[k][0]), w->edge<R>(keys[k][1]), res(r)); }, [&](unsigned k) { return t->lookup(w->edge<L>(keys[k][0]), w->edge<R>(keys[k][1])); }, [&] { t->clear(); }, res);
    }
    // every ordered pair of operand pairs that share slots: what was stored for one is never returned for the other
    template<class L, class R, class Res, std::size_t NB>
    void distinct() {
        using T          = dd::ComputeTable<L, R, Res, NB>;
        auto           w = std::make_unique<World>();
        const unsigned i = mc::choose(14, "left");
        const unsigned j = mc::choose(14, "right");
        for (unsigned k = 0; k < 14; ++k) {
            for (unsigned l = 0; l < 14; ++l) {
                auto t = std::make_unique<T>();
                t->insert(w->edge<L>(i), w->edge<R>(j), w->edge<Res>(2));
                mc::op();
                mc::state(mc::mix(mc::mix(i, j), mc::mix(k, l)));
                const auto r = t->lookup(w->edge<L>(k), w->edge<R>(l));
                if (i == k && j == l) {
                    MC_CHECK(r.p == nullptr || same(r, w->edge<Res>(2)), "the result returned for operands " << i << "," << j << " is not the one stored");
                } else {
                    MC_CHECK(r.p == nullptr, "the result stored for operands " << i << "," << j << " was returned for operands " << k << "," << l);
                }
            }
        }
    }
    template<class O, class Res, std::size_t NB>
    void distinct1() {
        using T          = dd::UnaryComputeTable<O, Res, NB>;
        auto           w = std::make_unique<World>();
        const unsigned i = mc::choose(14, "operand");
        for (unsigned k = 0; k < 14; ++k) {
            auto t = std::make_unique<T>();
            t->insert(w->edge<O>(i), w->edge<Res>(2));
            mc::op();
            mc::state(mc::mix(i, k));
            const auto r = t->lookup(w->edge<O>(k));
            MC_CHECK(r.p == nullptr || (i == k && same(r, w->edge<Res>(2))), "the result stored for operand " << i << " was returned for operand " << k);
        }
    }
    template<std::size_t NB>
    void distinctAll() {
        switch (mc::choose(8, "cache")) {
            case 0: distinct<dd::vCachedEdge, dd::vCachedEdge, dd::vCachedEdge, NB>(); break;
            case 1: distinct<dd::mCachedEdge, dd::mCachedEdge, dd::mCachedEdge, NB>(); break;
            case 2: distinct<dd::dCachedEdge, dd::dCachedEdge, dd::dCachedEdge, NB>(); break;
            case 3: distinct<dd::mEdge, dd::vEdge, dd::vCachedEdge, NB>(); break;
            case 4: distinct<dd::mEdge, dd::mEdge, dd::mCachedEdge, NB>(); break;
            case 5: distinct<dd::vEdge, dd::vEdge, dd::vCachedEdge, NB>(); break;
            case 6: distinct1<dd::mEdge, dd::mEdge, NB>(); break;
            default: distinct1<dd::dEdge, dd::dEdge, NB>(); break;
        }
    }
    void distinctKeys() {
        switch (mc::choose(3, "slots")) {
            case 0: distinctAll<1>(); break;
            case 1: distinctAll<2>(); break;
            default: distinctAll<16>(); break;
        }
    }
    // density matrices: what nodes mean depends on their temporary marks, and results are kept apart by the kind asked for
    template<std::size_t NB>
    void density(unsigned depth) {
        using T = dd::ComputeTable<dd::dEdge, dd::dEdge, dd::dCachedEdge, NB>;
        auto w  = std::make_unique<World>();
        auto t  = std::make_unique<T>();
        // operands, temporary marks of the first node as left and of another as right operand, reduced result wanted
        static const unsigned keys[10][5] = {{0, 0, 0, 0, 0}, {0, 0, 0, 0, 1}, {0, 0, 5, 5, 0}, {0, 0, 6, 6, 0}, {0, 7, 0, 5, 0}, {0, 7, 5, 0, 0}, {0, 7, 4, 0, 0}, {0, 7, 4, 0, 1}, {3, 0, 0, 0, 0}, {6, 7, 0, 4, 0}};
        auto                  res        = [&](unsigned k) { return w->edge<dd::dCachedEdge>(k == 0 ? 0 : 7); };
        const auto            mark       = [&](unsigned k, bool on) { // only while the operation runs, as the package does
            auto l = w->edge<dd::dEdge>(keys[k][0]);
            auto r = w->edge<dd::dEdge>(keys[k][1]);
            for (auto& d: w->d) {
                d.flags = static_cast<std::uint8_t>(d.flags & ~7U);
            }
            if (on) {
                if (!l.isTerminal()) {
                    l.p->flags = static_cast<std::uint8_t>(l.p->flags | keys[k][2]);
                }
                if (!r.isTerminal()) {
                    r.p->flags = static_cast<std::uint8_t>(r.p->flags | keys[k][3]);
                }
            }
            return std::pair{l, r};
        };
        drive(10, 2, depth, [&](unsigned k, unsigned r) {
            const auto x = res(r);
            const auto e = mark(k, true);
            if (keys[k][4] != 0) {
                t->insert(e.first, e.second, x, true);
            } else {
                t->insert(e.first, e.second, x);
            }
            mark(k, false); }, [&](unsigned k) {
            const auto e = mark(k, true);
            const auto r = keys[k][4] != 0 ? t->lookup(e.first, e.second, true) : t->lookup(e.first, e.second);
            mark(k, false);
            return r; }, [&] { t->clear(); }, res);
    }
    template<class O, class Res, std::size_t NB>
    void unary(unsigned depth) {
        using T  = dd::UnaryComputeTable<O, Res, NB>;
        auto w   = std::make_unique<World>();
        auto t   = std::make_unique<T>();
        auto res = [&](unsigned k) { return w->edge<Res>(k == 0 ? 0 : k == 1 ? 2 : 3); };
        drive(7, 2, depth, [&](unsigned k, unsigned r) { t->insert(w->edge<O>(k), res(r)); }, [&](unsigned k) { return t->lookup(w->edge<O>(k)); }, [&] { t->clear(); }, res);
    }
    template<std::size_t NB>
    void toffoli(unsigned depth) {
        using namespace dd::literals;
        using T = dd::ToffoliTable<dd::mEdge, NB>;
        auto w  = std::make_unique<World>();
        T    t;
        struct Key {
            dd::QubitCount n;
            dd::Controls   c;
            dd::Qubit      t;
        };
        static const std::vector<Key> keys{{3, {0_pc}, 1}, {3, {0_nc}, 1}, {3, {0_pc}, 2}, {2, {0_pc}, 1}, {3, {0_pc, 2_pc}, 1}, {3, {0_pc, 2_nc}, 1}, {3, {}, 1}, {3, {2_pc}, 1}};
        auto                          res = [&](unsigned k) { return w->edge<dd::mEdge>(k == 0 ? 0 : 2); };
        drive(8, 2, depth, [&](unsigned k, unsigned r) { t.insert(keys[k].n, keys[k].c, keys[k].t, res(r)); }, [&](unsigned k) { return t.lookup(keys[k].n, keys[k].c, keys[k].t); }, [&] { t.clear(); }, res);
    }
    template<std::size_t NB>
    void noise(unsigned depth) {
        using T = dd::DensityNoiseTable<dd::dEdge, dd::dEdge, NB>;
        auto w  = std::make_unique<World>();
        auto t  = std::make_unique<T>();
        static const std::vector<std::pair<unsigned, std::vector<dd::Qubit>>> keys{{0, {0}}, {0, {1}}, {1, {0}}, {0, {0, 1}}, {0, {1, 0}}, {0, {}}, {3, {0}}, {2, {0}}};
        auto res = [&](unsigned k) { return w->edge<dd::dEdge>(k == 0 ? 0 : 2); };
        drive(8, 2, depth, [&](unsigned k, unsigned r) { t->insert(w->edge<dd::dEdge>(keys[k].first), res(r), keys[k].second); }, [&](unsigned k) { return t->lookup(w->edge<dd::dEdge>(keys[k].first), keys[k].second); }, [&] { t->clear(); }, res);
    }
    template<std::size_t OPS>
    void stochastic(unsigned depth) {
        using T = dd::StochasticNoiseOperationTable<dd::mEdge, OPS>;
        auto w  = std::make_unique<World>();
        T    t(2);
        if (mc::choose(2, "enlarged") == 1) {
            t.resize(4);
        } else {
            t.resize(3);
        }
        auto kind   = [](unsigned k) { return static_cast<std::uint8_t>(OPS == 1 ? 0 : k % 3 == 2 ? OPS - 1 : k % 3); };
        auto target = [](unsigned k) { return static_cast<dd::Qubit>(OPS == 1 ? k % 3 : k / 3); };
        auto res    = [&](unsigned k) { return w->edge<dd::mEdge>(k == 0 ? 0 : 2); };
        drive(OPS == 1 ? 3 : 8, 2, depth, [&](unsigned k, unsigned r) { t.insert(kind(k), target(k), res(r)); }, [&](unsigned k) { return t.lookup(kind(k), target(k)); }, [&] { t.clear(); }, res);
    }
    // many operands in a cache of the default size: no entry is ever returned for other operands
    template<class L, class R, class Res, std::size_t NB>
    void crowd() {
        using T           = dd::ComputeTable<L, R, Res, NB>;
        auto        t     = std::make_unique<T>();
        using N           = std::remove_pointer_t<decltype(L{}.p)>;
        using N2          = std::remove_pointer_t<decltype(R{}.p)>;
        const unsigned n  = 150;
        std::vector<N>           a(n);
        std::vector<N2>          b(n);
        std::vector<dd::CTEntry> num(n * n);
        const unsigned           shift = mc::choose(3, "pattern");
        using RN                       = std::remove_pointer_t<decltype(Res{}.p)>;
        std::vector<RN> rn(1);
        auto            key = [&](unsigned i, unsigned j) {
            return std::pair{L{&a[i], dd::Complex::one}, R{&b[(j * (shift == 0 ? 1 : shift == 1 ? 7 : 11)) % n], dd::Complex::one}};
        };
        for (unsigned round = 0; round < 2; ++round) {
            for (unsigned i = 0; i < n; ++i) {
                for (unsigned j = 0; j < n; ++j) {
                    const auto k = key(i, j);
                    Res        r{&rn[0], dd::Complex::one};
                    r.w.r        = 1. * i;
                    r.w.i        = 1. * j + round * 1000;
                    t->insert(k.first, k.second, r);
                    mc::op();
                }
                mc::alive();
            }
            std::size_t hits = 0;
            for (unsigned i = 0; i < n; ++i) {
                for (unsigned j = 0; j < n; ++j) {
                    const auto k = key(i, j);
                    const auto r = t->lookup(k.first, k.second);
                    if (r.p != nullptr) {
                        ++hits;
                        MC_CHECK(r.w.r == i && r.w.i == j + round * 1000, "operands (" << i << "," << j << ") returned the result of (" << r.w.r << "," << r.w.i << ")");
                    }
                    const auto q = t->lookup(L{&a[i], dd::Complex::zero}, k.second);
                    MC_CHECK(q.p == nullptr, "a result was returned for operands that were never stored");
                }
            }
            mc::state(hits);
        }
        t->clear();
        for (unsigned i = 0; i < n; ++i) {
            const auto k = key(i, i);
            MC_CHECK(t->lookup(k.first, k.second).p == nullptr, "a result was returned after a clear");
        }
    }
    void crowds() {
        switch (mc::choose(4, "cache")) {
            case 0: crowd<dd::vCachedEdge, dd::vCachedEdge, dd::vCachedEdge, 16384>(); break;
            case 1: crowd<dd::mEdge, dd::vEdge, dd::vCachedEdge, 16384>(); break;
            case 2: crowd<dd::mEdge, dd::mEdge, dd::mCachedEdge, 64>(); break;
            default: crowd<dd::vEdge, dd::vEdge, dd::vCachedEdge, 4096>(); break;
        }
    }
    template<std::size_t NB>
    void all(unsigned depth) {
        switch (mc::choose(11, "cache")) {
            case 0: binary<dd::vCachedEdge, dd::vCachedEdge, dd::vCachedEdge, NB>(depth); break;
            case 1: binary<dd::mCachedEdge, dd::mCachedEdge, dd::mCachedEdge, NB>(depth); break;
            case 2: binary<dd::mEdge, dd::vEdge, dd::vCachedEdge, NB>(depth); break;
            case 3: binary<dd::mEdge, dd::mEdge, dd::mCachedEdge, NB>(depth); break;
            case 4: binary<dd::vEdge, dd::vEdge, dd::vCachedEdge, NB>(depth); break;
            case 5: binary<dd::dCachedEdge, dd::dCachedEdge, dd::dCachedEdge, NB>(depth); break;
            case 6: density<NB>(depth); break;
            case 7: unary<dd::mEdge, dd::mEdge, NB>(depth); break;
            case 8: toffoli<NB>(depth); break;
            case 9: noise<NB>(depth); break;
            default: stochastic < NB == 1 ? 1 : NB == 4 ? 3 : 64 > (depth); break;
        }
    }
    void histories() {
        const unsigned depth = mc::thorough() ? 6 : 5;
        switch (mc::choose(3, "size")) {
            case 0: all<1>(depth); break;
            case 1: all<4>(depth); break;
            default: all<64>(depth); break;
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C23", argc, argv,
                   {{"histories", 4, false, histories},
                    {"distinct-keys", 2, false, distinctKeys},
                    {"crowds", 2, false, crowds}},
                   {"all sequences of up to 5 (thorough 6) insertions of 2-3 results under 3-8 operand combinations that share nodes, and clears, followed by looking up every combination, for 11 cache types with 1, 4 and 64 slots; all ordered pairs of 196 operand pairs (14 edges that share nodes and differ in single parts of the weight) in 8 cache types with 1, 2 and 16 slots; 22500 operand pairs in caches of 64 to 16384 slots",
                    {"operands are equal if nodes agree and weights agree within the tolerance, as everywhere in the package"}});
}
