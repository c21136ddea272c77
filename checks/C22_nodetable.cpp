// C22: the node table stores each node once, keeps what is referenced, removes and recycles the rest.
#include "ddx.hpp"
using namespace ddx;
namespace {
    template<class N>
    constexpr std::size_t arity() { return std::tuple_size_v<decltype(N::e)>; }

    // five numbers living outside any package, so that tables can be built quickly
    struct Numbers {
        dd::CTEntry a{0.3, nullptr, 0};
        dd::CTEntry b{0.6, nullptr, 0};
        dd::RefCount ra = 0;
        dd::RefCount rb = 0;
        dd::Complex  get(unsigned k) {
            auto* z = &dd::ComplexTable<>::zero;
            switch (k) {
                case 0: return dd::Complex::zero;
                case 1: return dd::Complex::one;
                case 2: return {&a, z};
                case 3: return {dd::CTEntry::getNegativePointer(&a), z};
                case 4: return {z, &a};
                default: return {&b, dd::CTEntry::getNegativePointer(&b)};
            }
        }
        void count(unsigned k, int d) {
            const auto u = static_cast<dd::RefCount>(d);
            if (k == 2 || k == 3 || k == 4) {
                ra += u;
            } else if (k >= 5) {
                rb += 2 * u;
            }
        }
    };
    struct Spec { // a node: successors (number of another spec, or -1 for a terminal) and weights
        int      level;
        int      kid[4];
        unsigned w[4];
        bool     flag; // density matrix mark (density nodes only)
    };
    // nodes that differ in one successor, one weight, a sign, the order, the level or the mark
    const std::vector<Spec>& specs() {
        static const std::vector<Spec> s{
                {0, {-1, -1, -1, -1}, {1, 2, 0, 1}, false},
                {0, {-1, -1, -1, -1}, {1, 3, 0, 1}, false},
                {0, {-1, -1, -1, -1}, {2, 1, 1, 0}, false},
                {1, {0, 1, -1, 0}, {1, 4, 0, 1}, false},
                {1, {0, -1, 0, -1}, {1, 0, 5, 0}, false},
                {2, {3, 3, -1, 4}, {1, 5, 0, 2}, false},
                {0, {-1, -1, -1, -1}, {1, 2, 0, 1}, true},
                {1, {0, 1, -1, 0}, {1, 4, 0, 1}, true}};
        return s;
    }
    const unsigned LEVELS = 3;
    template<class N, std::size_t NB, std::size_t ALLOC, std::size_t GROW, std::size_t LIMIT>
    struct Model {
        using T = dd::UniqueTable<N, NB, ALLOC, GROW, LIMIT>;
        Numbers num; // outlives the table
        T       t{LEVELS};
        struct Item {
            N*           p   = nullptr; // null: not stored
            dd::RefCount ref = 0;
        };
        std::vector<Item> it{specs().size()};
        std::vector<unsigned> held = std::vector<unsigned>(specs().size(), 0); // references the user holds
        std::vector<N*>   owned; // nodes held by the harness (neither stored nor free)
        std::size_t       nvars = LEVELS;
        std::size_t       peak = 0;
        std::size_t       maxActive = 0;
        bool              sameSpec(std::size_t a, std::size_t b) const {
            // without marks two specs can describe the same node; with two successors the last two are ignored
            if constexpr (std::is_same_v<N, dd::dNode>) {
                if (specs()[a].flag != specs()[b].flag) {
                    return false;
                }
            }
            if (specs()[a].level != specs()[b].level) {
                return false;
            }
            for (std::size_t i = 0; i < arity<N>(); ++i) {
                const int x = specs()[a].kid[i];
                const int y = specs()[b].kid[i];
                if (specs()[a].w[i] != specs()[b].w[i] || (x < 0) != (y < 0) || (x >= 0 && canon(static_cast<std::size_t>(x)) != canon(static_cast<std::size_t>(y)))) {
                    return false;
                }
            }
            return true;
        }
        std::size_t canon(std::size_t s) const {
            for (std::size_t i = 0; i < s; ++i) {
                if (sameSpec(i, s)) {
                    return i;
                }
            }
            return s;
        }
        std::size_t stored() const {
            std::size_t n = 0;
            for (const auto& x: it) {
                n += x.p != nullptr ? 1U : 0U;
            }
            return n;
        }
        std::size_t active() const {
            std::size_t n = 0;
            for (const auto& x: it) {
                n += x.p != nullptr && x.ref > 0 ? 1U : 0U;
            }
            return n;
        }
        dd::Edge<N> build(std::size_t s0, bool keep) {
            const auto  s = canon(s0);
            const auto& d = specs()[s];
            std::array<dd::Edge<N>, arity<N>()> e;
            for (std::size_t i = 0; i < e.size(); ++i) {
                e[i] = d.kid[i] < 0 ? dd::Edge<N>::terminal(num.get(d.w[i])) : dd::Edge<N>{build(static_cast<std::size_t>(d.kid[i]), keep).p, num.get(d.w[i])};
            }
            mc::op();
            const auto allocs = t.getAllocations();
            N*         p      = t.getNode();
            MC_CHECK(p != nullptr && p->ref == 0, "a new node starts with references");
            MC_CHECK(t.getAllocations() == allocs || stored() + owned.size() >= allocs, "memory was allocated although " << allocs - stored() - owned.size() << " nodes were free");
            for (const auto& x: it) {
                MC_CHECK(x.p != p, "a stored node was handed out");
            }
            for (const auto* x: owned) {
                MC_CHECK(x != p, "a node was handed out twice");
            }
            p->v = static_cast<dd::Qubit>(d.level);
            p->e = e;
            if constexpr (!std::is_same_v<N, dd::vNode>) {
                p->flags = 0;
            }
            if constexpr (std::is_same_v<N, dd::dNode>) {
                p->setDensityMatrixNodeFlag(d.flag);
            }
            const auto before = t.getNodeCount();
            const auto r      = t.lookup({p, num.get(2)}, keep);
            MC_NOTE("look up node " << s << (it[s].p != nullptr ? " (stored)" : " (new)") << (keep ? " keeping the argument" : ""));
            MC_CHECK(r.w == num.get(2), "the lookup changed the weight of the edge");
            if (it[s].p != nullptr) {
                MC_CHECK(r.p == it[s].p, "a stored node with identical successors was not found");
                MC_CHECK(t.getNodeCount() == before, "finding a node changed the node count");
                if (keep) {
                    owned.push_back(p);
                    MC_CHECK(p->e == e && p->v == d.level, "the kept argument was changed");
                }
            } else {
                MC_CHECK(r.p == p, "looking up a new node returned another one");
                MC_CHECK(t.getNodeCount() == before + 1, "storing a node did not increase the count by one");
                it[s].p   = p;
                it[s].ref = 0;
                peak      = std::max(peak, stored());
            }
            return {it[s].p, num.get(2)};
        }
        // looking up nodes that are in the table already returns them
        void again() {
            for (std::size_t s = 0; s < it.size(); ++s) {
                if (it[s].p != nullptr) {
                    mc::op();
                    const auto n = t.getNodeCount();
                    const auto r = t.lookup({it[s].p, num.get(3)});
                    MC_CHECK(r.p == it[s].p && r.w == num.get(3) && t.getNodeCount() == n, "looking up a stored node did not return it");
                }
            }
            MC_NOTE("look up the stored nodes themselves");
        }
        static constexpr dd::RefCount MAX = std::numeric_limits<dd::RefCount>::max();
        // specification of the counts: the first reference to a node references its successors, the last releases them
        void refNode(std::size_t s) {
            auto& x = it[s];
            if (x.ref == MAX) {
                return;
            }
            if (++x.ref == 1) {
                kids(s, 1);
                maxActive = std::max(maxActive, active());
            }
        }
        void unrefNode(std::size_t s) {
            auto& x = it[s];
            if (x.ref == MAX) {
                return;
            }
            if (--x.ref == 0) {
                kids(s, -1);
            }
        }
        void kids(std::size_t s, int d) {
            const auto& q = specs()[s];
            for (std::size_t i = 0; i < arity<N>(); ++i) {
                num.count(q.w[i], d);
                if (q.kid[i] >= 0) {
                    d > 0 ? refNode(canon(static_cast<std::size_t>(q.kid[i]))) : unrefNode(canon(static_cast<std::size_t>(q.kid[i])));
                }
            }
        }
        void inc(std::size_t s, unsigned w) {
            mc::op();
            t.incRef({it[s].p, num.get(w)});
            num.count(w, 1);
            ++held[s];
            refNode(s);
            MC_NOTE("incRef node " << s);
        }
        void dec(std::size_t s, unsigned w) {
            mc::op();
            MC_NOTE("decRef node " << s << " with " << it[s].ref << " references");
            bool thrown = false;
            try {
                t.decRef({it[s].p, num.get(w)});
            } catch (const std::runtime_error&) {
                thrown = true;
            }
            MC_CHECK(thrown == (it[s].ref == 0), "releasing a node with " << it[s].ref << " references " << (thrown ? "raised" : "did not raise") << " an error");
            if (!thrown) {
                num.count(w, -1);
                --held[s];
                unrefNode(s);
            }
        }
        void gc(bool force) {
            mc::op();
            const bool        due  = force || t.possiblyNeedsCollection();
            const auto        n    = stored();
            const auto        got  = t.garbageCollect(force);
            std::size_t       dead = n - active();
            MC_NOTE("garbageCollect(" << force << ") -> " << got);
            if (!due) {
                MC_CHECK(got == 0, "a collection that is not due removed " << got << " nodes");
                return;
            }
            MC_CHECK(got == dead, "the collection reports " << got << " removed nodes, " << dead << " of " << n << " are unreferenced");
            for (auto& x: it) {
                if (x.p != nullptr && x.ref == 0) {
                    x.p = nullptr;
                }
            }
        }
        void clear() {
            mc::op();
            t.clear();
            MC_NOTE("clear");
            for (auto& x: it) {
                x = {};
            }
            owned.clear();
            held.assign(held.size(), 0);
            peak = maxActive = 0;
            // numbers are not touched by clearing the nodes; forget the references the nodes held
            num.ra = num.rb = num.a.refCount = num.b.refCount = 0;
        }
        void check(const char* what) {
            std::size_t   n = 0;
            std::size_t   lv = 0;
            std::uint64_t h = 0;
            for (const auto& table: t.getTables()) {
                for (const auto* b: table) {
                    for (const auto* p = b; p != nullptr; p = p->next) {
                        ++n;
                        MC_CHECK(n <= stored(), what << ": the table holds more nodes than it should");
                        bool found = false;
                        for (std::size_t s = 0; s < it.size(); ++s) {
                            if (it[s].p == p) {
                                found         = true;
                                const auto& d = specs()[s];
                                MC_CHECK(p->v == d.level && static_cast<std::size_t>(d.level) == lv, what << ": a node of qubit " << d.level << " is stored as one of qubit " << static_cast<int>(p->v));
                                MC_CHECK(p->ref == it[s].ref, what << ": node " << s << " has " << p->ref << " references instead of " << it[s].ref);
                                for (std::size_t i = 0; i < arity<N>(); ++i) {
                                    MC_CHECK(p->e[i].w == num.get(d.w[i]), what << ": a weight of a stored node changed");
                                    const N* k = d.kid[i] < 0 ? N::terminal : it[canon(static_cast<std::size_t>(d.kid[i]))].p;
                                    MC_CHECK(p->e[i].p == k || (p->ref == 0 && k == nullptr), what << ": a successor of a stored node changed or was collected");
                                }
                                h += mc::mix(s + 1, p->ref);
                            }
                        }
                        MC_CHECK(found, what << ": the table holds a node that was not stored or has been collected");
                    }
                }
                ++lv;
            }
            mc::state(mc::mix(h, mc::mix(num.ra, num.rb)));
            MC_CHECK(n == stored(), what << ": the table holds " << n << " of " << stored() << " nodes");
            MC_CHECK(t.getNodeCount() == n, what << ": the table holds " << n << " nodes and reports " << t.getNodeCount());
            MC_CHECK(t.getPeakNodeCount() == peak, what << ": peak node count " << t.getPeakNodeCount() << " instead of " << peak);
            MC_CHECK(t.getAllocations() >= n + owned.size(), what << ": more nodes than allocated");
            std::vector<std::size_t> act(nvars, 0);
            for (std::size_t s = 0; s < it.size(); ++s) {
                if (it[s].p != nullptr && it[s].ref > 0) {
                    act[static_cast<std::size_t>(specs()[s].level)]++;
                }
            }
            for (std::size_t l = 0; l < nvars; ++l) {
                MC_CHECK(t.getActiveNodeCount(static_cast<dd::Qubit>(l)) == act[l], what << ": " << t.getActiveNodeCount(static_cast<dd::Qubit>(l)) << " active nodes of qubit " << l << " reported instead of " << act[l]);
            }
            MC_CHECK(t.getActiveNodeCount() == active(), what << ": " << t.getActiveNodeCount() << " active nodes reported instead of " << active());
            MC_CHECK(t.getMaxActiveNodes() == maxActive, what << ": at most " << t.getMaxActiveNodes() << " active nodes reported instead of " << maxActive);
            MC_CHECK(num.a.refCount == num.ra && num.b.refCount == num.rb, what << ": numbers have " << num.a.refCount << "/" << num.b.refCount << " references instead of " << num.ra << "/" << num.rb);
            MC_CHECK(N::terminal->ref == 0 && N::terminal->v == -1 && N::terminal->next == nullptr, what << ": the terminal node was changed");
            const auto x = t.lookup(dd::Edge<N>::one);
            MC_CHECK(x.p == N::terminal && x.w == dd::Complex::one, what << ": looking up a terminal did not return it");
        }
        void findAll(const char* what) {
            // a node whose successors were collected can not be asked for; all others are found at their place
            for (std::size_t s = 0; s < it.size(); ++s) {
                bool ok = it[s].p != nullptr;
                if (ok) {
                    for (std::size_t i = 0; i < arity<N>(); ++i) {
                        ok = ok && (specs()[s].kid[i] < 0 || it[canon(static_cast<std::size_t>(specs()[s].kid[i]))].p != nullptr);
                    }
                }
                if (ok) {
                    build(s, false);
                }
            }
            check(what);
        }
    };
    template<class F>
    void withTable(unsigned type, unsigned cfg, F&& f) {
        auto go = [&](auto* n) {
            using N = std::remove_pointer_t<decltype(n)>;
            switch (cfg) {
                case 0: f(std::make_unique<Model<N, 1, 1, 2, 3>>()); break;
                case 1: f(std::make_unique<Model<N, 2, 2, 1, 4>>()); break;
                default: f(std::make_unique<Model<N, 8, 64, 2, 1000>>()); break;
            }
        };
        switch (type) {
            case 0: go(static_cast<dd::vNode*>(nullptr)); break;
            case 1: go(static_cast<dd::mNode*>(nullptr)); break;
            default: go(static_cast<dd::dNode*>(nullptr)); break;
        }
    }
    void sequences(unsigned depth, unsigned nCfg) {
        const unsigned len  = 1 + mc::choose(depth, "length-1");
        const unsigned type = mc::choose(3, "node type");
        const unsigned cfg  = mc::choose(nCfg, "table");
        withTable(type, cfg, [&](auto mp) {
            auto&      m  = *mp;
            const auto nS = static_cast<unsigned>(type == 2 ? specs().size() : 6);
            for (unsigned d = 0; d < len; ++d) {
                const unsigned o = mc::choose(nS + 2 * 5 + 7, "op");
                if (o < nS) {
                    m.build(o, false);
                } else if (o < nS + 10) {
                    static const std::size_t roots[5] = {0, 3, 4, 5, 7};
                    const auto               k        = roots[(o - nS) / 2];
                    const auto               s        = m.canon(k);
                    if (s != k || m.it[s].p == nullptr) {
                        mc::prune();
                    }
                    // only nodes whose successors are stored can be referenced (the others are garbage to the user)
                    bool ok = true;
                    for (const auto kid: specs()[s].kid) {
                        ok = ok && (kid < 0 || m.it[m.canon(static_cast<std::size_t>(kid))].p != nullptr);
                    }
                    // a reference can be released by whoever holds one; releasing an unreferenced node is an error
                    if (!ok || ((o - nS) % 2 == 1 && m.held[s] == 0 && m.it[s].ref != 0)) {
                        mc::prune();
                    }
                    if ((o - nS) % 2 == 0) {
                        m.inc(s, 1);
                    } else {
                        m.dec(s, 1);
                    }
                } else {
                    switch (o - nS - 10) {
                        case 0: m.gc(true); break;
                        case 1: m.gc(false); break;
                        case 2: m.clear(); break;
                        case 3: m.build(3, true); break;
                        case 6: m.again(); break;
                        case 4: { // saturate a referenced node
                            if (m.it[3].p == nullptr || m.it[3].ref == 0) {
                                mc::prune();
                            }
                            m.it[3].ref = m.it[3].p->ref = m.MAX;
                            break;
                        }
                        case 5: // give back what is owned
                            if (m.owned.empty()) {
                                mc::prune();
                            }
                            m.owned.back()->ref = 3; // whatever the user did with it
                            m.t.returnNode(m.owned.back());
                            m.owned.pop_back();
                            break;
                        default: break;
                    }
                }
            }
            m.check("at the end");
            m.findAll("looking up everything again");
        });
    }
    // edges with weights: the counts of the weights are kept with those of the nodes
    void weights() {
        const unsigned type = mc::choose(3, "node type");
        const unsigned cfg  = mc::choose(3, "table");
        withTable(type, cfg, [&](auto mp) {
            auto& m = *mp;
            m.build(5, false);
            m.build(4, false);
            const unsigned len = 6;
            std::vector<std::pair<std::size_t, unsigned>> held;
            for (unsigned d = 0; d < len; ++d) {
                const unsigned o = mc::choose(7, "op");
                static const std::size_t root[3] = {0, 4, 5};
                if (o < 5) {
                    const auto s = root[o % 3];
                    const auto w = 2 + (o + d) % 4;
                    if (m.it[s].p == nullptr) {
                        mc::prune();
                    }
                    m.inc(s, w);
                    held.emplace_back(s, w);
                } else {
                    if (held.empty()) {
                        mc::prune();
                    }
                    const auto i = o == 5 ? 0 : held.size() - 1;
                    m.dec(held[i].first, held[i].second);
                    held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
                }
                if (d == 2) {
                    m.gc(true);
                }
            }
            m.check("with references held");
            while (!held.empty()) {
                m.dec(held.back().first, held.back().second);
                held.pop_back();
            }
            m.check("after releasing everything");
            MC_CHECK(m.num.ra == 0 && m.num.rb == 0 && m.active() == 0, "harness error");
            m.gc(true);
            MC_CHECK(m.t.getNodeCount() == 0, "nodes remain after everything was released");
            m.check("after collecting everything");
        });
    }
    // the collection limit
    template<class N>
    void limit() {
        using T             = dd::UniqueTable<N, 2, 1, 2, 5>;
        const unsigned kept = mc::choose(16, "kept pattern");
        const unsigned when = 1 + mc::choose(5, "collect every");
        const bool     cl   = mc::choose(2, "after clear") == 1;
        std::vector<dd::CTEntry> nums(60);
        T                        t(2);
        if (cl) {
            t.clear();
        }
        std::size_t           stored = 0;
        bool                  first  = true;
        std::vector<N*>       live;
        for (unsigned i = 0; i < 60; ++i) {
            nums[i].value = 0.01 * (i + 1);
            N* p          = t.getNode();
            p->v          = 0;
            for (std::size_t k = 0; k < arity<N>(); ++k) {
                p->e[k] = dd::Edge<N>::terminal(k == i % arity<N>() ? dd::Complex{&nums[i], &dd::ComplexTable<>::zero} : dd::Complex::one);
            }
            const auto e = t.lookup({p, dd::Complex::one});
            mc::op();
            ++stored;
            MC_CHECK(t.getNodeCount() == stored, stored << " nodes stored, " << t.getNodeCount() << " reported");
            if (first) {
                MC_CHECK(t.possiblyNeedsCollection() == (stored >= 5), "with " << stored << " nodes the table " << (t.possiblyNeedsCollection() ? "needs" : "needs no") << " collection; the limit is 5");
            }
            if ((kept >> (i % 4) & 1U) != 0) {
                t.incRef(e);
                live.push_back(e.p);
            }
            if (i % when == when - 1) {
                const bool due = t.possiblyNeedsCollection();
                const auto got = t.garbageCollect();
                MC_CHECK(got == (due ? stored - live.size() : 0), "a collection that is " << (due ? "" : "not ") << "due removed " << got << " of " << stored - live.size() << " unreferenced nodes");
                stored -= got;
                first = first && !due;
                std::set<const N*> seen;
                for (const auto& table: t.getTables()) {
                    for (const auto* b: table) {
                        for (const auto* q = b; q != nullptr; q = q->next) {
                            MC_CHECK(seen.insert(q).second, "a node is stored twice");
                        }
                    }
                }
                for (const auto* q: live) {
                    MC_CHECK(seen.count(q) == 1 && q->ref == 1, "a referenced node was collected");
                }
                MC_CHECK(seen.size() == stored, stored << " nodes should be stored, " << seen.size() << " are");
            }
        }
    }
    void limits() {
        switch (mc::choose(3, "node type")) {
            case 0: limit<dd::vNode>(); break;
            case 1: limit<dd::mNode>(); break;
            default: limit<dd::dNode>(); break;
        }
    }
    // tall and wide diagrams in a table: chains over many qubits sharing nodes, released in every order
    template<class N>
    void chainsOf() {
        using T              = dd::UniqueTable<N, 4, 3, 2, 100000>;
        static const std::vector<std::size_t> hs{1, 2, 7, 64, 128};
        const std::size_t    H     = mc::pick(hs, "qubits");
        const unsigned       order = mc::choose(6, "release order");
        const unsigned       mode  = mc::choose(3, "collect");
        dd::CTEntry          a{0.25, nullptr, 0};
        T                    t(H);
        using E = dd::Edge<N>;
        // three chains: the second branches off the first half way, the third is separate
        auto make = [&](std::size_t l, const std::vector<E>& kids) {
            N* p = t.getNode();
            p->v = static_cast<dd::Qubit>(l);
            for (std::size_t k = 0; k < arity<N>(); ++k) {
                p->e[k] = kids[k % kids.size()];
            }
            if constexpr (!std::is_same_v<N, dd::vNode>) {
                p->flags = 0;
            }
            mc::op();
            return t.lookup({p, dd::Complex::one});
        };
        for (unsigned round = 0; round < 2; ++round) {
            const dd::Complex w{&a, &dd::ComplexTable<>::zero};
            std::vector<E>    c[3];
            for (std::size_t l = 0; l < H; ++l) {
                const E one = E::terminal(dd::Complex::one);
                const E two = E::terminal(w);
                c[0].push_back(l == 0 ? make(l, {one, two}) : make(l, {E{c[0][l - 1].p, dd::Complex::one}, E{c[0][l - 1].p, w}}));
                c[1].push_back(l < H / 2 ? c[0][l] : l == 0 ? make(l, {two, two}) : make(l, {E{c[1][l - 1].p, w}, E{c[0][l - 1].p, w}}));
                c[2].push_back(l == 0 ? make(l, {two, one}) : make(l, {E{c[2][l - 1].p, dd::Complex::one}, E::zero}));
            }
            for (std::size_t l = 0; l < H; ++l) { // again: found, not stored
                MC_CHECK((l == 0 ? make(l, {E::terminal(dd::Complex::one), E::terminal(w)}) : make(l, {E{c[0][l - 1].p, dd::Complex::one}, E{c[0][l - 1].p, w}})).p == c[0][l].p, "a stored node of qubit " << l << " was not found");
            }
            auto count = [&](std::initializer_list<unsigned> ch) {
                std::set<const N*> s;
                for (const auto k: ch) {
                    std::function<void(const N*)> go = [&](const N* p) {
                        if (!N::isTerminal(p) && s.insert(p).second) {
                            for (const auto& x: p->e) {
                                go(x.p);
                            }
                        }
                    };
                    go(c[k].back().p);
                }
                return s.size();
            };
            for (auto& k: c) {
                t.incRef(k.back());
            }
            MC_CHECK(t.getActiveNodeCount() == count({0, 1, 2}) && t.getNodeCount() == count({0, 1, 2}), t.getActiveNodeCount() << " active and " << t.getNodeCount() << " stored nodes reported instead of " << count({0, 1, 2}));
            static const unsigned perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            const auto&           q          = perm[order];
            t.decRef(c[q[0]].back());
            const auto two = count({q[1], q[2]});
            MC_CHECK(t.getActiveNodeCount() == two, t.getActiveNodeCount() << " active nodes reported instead of " << two << " after releasing one of three chains");
            if (mode > 0) {
                t.garbageCollect(true);
                MC_CHECK(t.getNodeCount() == two, t.getNodeCount() << " stored nodes reported instead of " << two);
                MC_CHECK(count({q[1], q[2]}) == two, "the collection damaged referenced chains");
            }
            t.decRef(c[q[1]].back());
            const auto one = count({q[2]});
            MC_CHECK(t.getActiveNodeCount() == one, t.getActiveNodeCount() << " active nodes reported instead of " << one << " after releasing two of three chains");
            if (mode > 1) {
                t.garbageCollect(true);
                MC_CHECK(t.getNodeCount() == one && count({q[2]}) == one, "the collection damaged the last chain");
            }
            t.decRef(c[q[2]].back());
            MC_CHECK(t.getActiveNodeCount() == 0 && a.refCount == 0, "references remain after releasing everything");
            t.garbageCollect(true);
            MC_CHECK(t.getNodeCount() == 0, "nodes remain after releasing everything");
            const auto alloc = t.getAllocations();
            if (round == 0) {
                mc::state(alloc);
            }
            if (round == 1) {
                MC_CHECK(t.getMaxActiveNodes() >= two, "maximum of active nodes");
            }
        }
    }
    void chains() {
        switch (mc::choose(3, "node type")) {
            case 0: chainsOf<dd::vNode>(); break;
            case 1: chainsOf<dd::mNode>(); break;
            default: chainsOf<dd::dNode>(); break;
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C22", argc, argv,
                   {{"sequences", 5, false, [] { sequences(5, 3); }},
                    {"deep-sequences", 5, true, [] { sequences(6, 3); }},
                    {"weights", 5, false, weights},
                    {"limits", 3, false, limits},
                    {"chains", 3, false, chains}},
                   {"all sequences of up to 5 (thorough 6) lookups of 6-8 nodes on 3 qubits that differ in one weight, sign, order, level or mark, references and releases of 5 of them, collections, clears, saturation and returned nodes, for state, matrix and density nodes in tables of 1, 2 and 8 buckets; all sequences of 6 references and releases with weights; collection limits with 16 survival patterns; three chains sharing nodes over up to 128 qubits released in all orders with collections in between",
                    {"successors of a node are referenced before the node itself is handed to the user, as the package does"}});
}
