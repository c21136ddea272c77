// C31: reducing garbage adds the rows (columns) that differ only in garbage qubits.
#include "ddx.hpp"

#include <map>
#include <unordered_set>
using namespace ddx;
namespace {
    M merged(const M& a, std::size_t set, bool regular) {
        M r(a.d);
        for (std::size_t i = 0; i < a.d; ++i) {
            for (std::size_t j = 0; j < a.d; ++j) {
                r(regular ? i & ~set : i, regular ? j : j & ~set) += a(i, j);
            }
        }
        return r;
    }
    V merged(const V& a, std::size_t set) {
        V r(a.size());
        for (std::size_t i = 0; i < a.size(); ++i) {
            r[i & ~set] += a[i];
        }
        return r;
    }
    M without(const M& a, std::size_t set, bool regular) { // what reducing ancillaries leaves
        M r = a;
        for (std::size_t i = 0; i < a.d; ++i) {
            for (std::size_t j = 0; j < a.d; ++j) {
                if (((regular ? j : i) & set) != 0) {
                    r(i, j) = 0;
                }
            }
        }
        return r;
    }
    std::vector<bool> bits(std::size_t set, unsigned n) {
        std::vector<bool> r;
        for (unsigned q = 0; q < n; ++q) {
            r.push_back(((set >> q) & 1U) != 0);
        }
        return r;
    }
    template<class Edge, class S>
    void reach(const Edge& e, S& s) {
        if (!e.isTerminal() && s.insert(e.p).second) {
            for (const auto& c: e.p->e) {
                reach(c, s);
            }
        }
    }
    template<class P>
    void checkAlone(P& p, const dd::mEdge& r, const std::string& what) {
        p.garbageCollect(true);
        std::unordered_set<const dd::mNode*> s;
        reach(r, s);
        MC_CHECK(p.mUniqueTable.getNodeCount() == s.size(), what << ": " << p.mUniqueTable.getNodeCount() << " nodes are kept, the result has " << s.size());
        MC_CHECK(r.isTerminal() || r.p->ref == 1, what << ": the result is referenced " << r.p->ref << " times");
    }
    // `seen`: results of the same package by their dense form; equal matrices have to be one diagram
    using Seen = std::map<std::vector<bool>, dd::mEdge>;
    template<class P>
    void reduce(P& p, const dd::mEdge& in, const M& a, int n, unsigned set, unsigned extra, bool regular, bool alone, Seen* seen = nullptr) {
        const auto want = merged(a, set, regular);
        const auto what = [&] { return std::string(regular ? "regular" : "inverse") + " reduction by garbage " + std::to_string(set) + " of " + (n <= 3 ? ref::str(a) : "a matrix of " + std::to_string(n) + " qubits"); };
        NoLeak<P>  nl(p);
        auto       e = in;
        p.incRef(e);
        const auto r = p.reduceGarbage(e, bits(set, static_cast<unsigned>(n) + extra), regular);
        if (alone) {
            checkAlone(p, r, what());
        }
        expect(mat(r, n), want, what(), 1e-12);
        MC_CHECK(e == in, what() << " changed the edge it was given");
        nl.check(what());
        if (seen != nullptr) {
            std::vector<bool> key;
            for (const auto& x: want.a) {
                key.push_back(x != C{0, 0});
            }
            const auto [it, fresh] = seen->emplace(key, r);
            MC_CHECK(it->second == r, what() << ": circuits that agree on all other outputs reduce to different diagrams");
            if (fresh) {
                p.incRef(r); // kept
            }
        }
        auto       f  = r;
        const auto r2 = p.reduceGarbage(f, bits(set, static_cast<unsigned>(n) + extra), regular);
        MC_CHECK(r2 == r, what() << " a second time gives another diagram");
        p.decRef(r2);
        if (alone) {
            p.garbageCollect(true);
            MC_CHECK(p.mUniqueTable.getNodeCount() == 0, what() << ": nodes are kept after the result was released");
        }
    }
    M permutation(std::size_t code, std::size_t d) { // number `code` of the d! permutations
        std::vector<std::size_t> rest(d);
        for (std::size_t i = 0; i < d; ++i) {
            rest[i] = i;
        }
        M m(d);
        for (std::size_t j = 0; j < d; ++j) {
            const auto k = code % rest.size();
            code /= rest.size();
            m(rest[k], j) = 1;
            rest.erase(rest.begin() + static_cast<long>(k));
        }
        return m;
    }
    void small() {
        const unsigned n   = 1 + mc::choose(2, "qubits-1");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned w   = mc::choose(5, "env");
        withCfg(cfg, [&](auto t) {
            using P        = Pkg<typename decltype(t)::type>;
            const auto  ni = static_cast<int>(n);
            auto        p  = std::make_unique<P>(n + w % 2);
            Seen        seen;
            const auto  al = w == 4;
            const unsigned total = n == 1 ? 2 : 24;
            if (!al) {
                warm(*p, ni, w);
            }
            for (unsigned x = 0; x < total; ++x) {
                const auto a = permutation(x, 1ULL << n);
                for (unsigned s = 0; s < (1U << n); ++s) {
                    for (const bool reg: {true, false}) {
                        const auto e = p->makeDDFromMatrix(cmat(a));
                        reduce(*p, e, a, ni, s, s % 2, reg, al, al ? nullptr : &seen);
                    }
                    // together with ancillaries
                    for (unsigned an = 0; an < (1U << n) && !al; ++an) {
                        for (const bool reg: {true, false}) {
                            auto e = p->makeDDFromMatrix(cmat(a));
                            p->incRef(e);
                            const auto r = p->reduceAncillae(e, bits(an, n), reg);
                            reduce(*p, r, without(a, an, reg), ni, s, 0, reg, false, &seen);
                            p->decRef(r);
                        }
                    }
                }
                if (x % 8 == 7) {
                    p->garbageCollect(true);
                }
            }
        });
    }
    // all 40320 permutations of three qubits
    void three() {
        const unsigned cfg  = mc::choose(2, "tables");
        const unsigned part = mc::choose(96, "part");
        withCfg(cfg, [&](auto t) {
            auto p = std::make_unique<Pkg<typename decltype(t)::type>>(3);
            Seen seen;
            for (unsigned x = part; x < 40320; x += 96) {
                const auto a = permutation(x, 8);
                for (unsigned s = 0; s < 8; ++s) {
                    const auto e = p->makeDDFromMatrix(cmat(a));
                    reduce(*p, e, a, 3, s, 0, true, cfg == 0, cfg == 0 ? nullptr : &seen);
                    const auto f = p->makeDDFromMatrix(cmat(a));
                    reduce(*p, f, a, 3, s, 0, false, cfg == 0, cfg == 0 ? nullptr : &seen);
                }
                mc::alive();
            }
        });
    }
    // products of reversible gates; circuits that differ only on the garbage
    void circuits() {
        const unsigned n  = 3 + mc::choose(3, "qubits-3");
        const unsigned g1 = mc::choose(10, "gate"), g2 = mc::choose(10, "gate");
        const auto     ni = static_cast<int>(n);
        const auto     nq = static_cast<dd::QubitCount>(n);
        auto           p  = std::make_unique<Pkg<Mid>>(n);
        const auto     top = static_cast<dd::Qubit>(n - 1);
        using dd::Control;
        const auto gate = [&](unsigned k) {
            switch (k) {
                case 0: return p->makeGateDD(dd::Xmat, nq, 0);
                case 1: return p->makeGateDD(dd::Xmat, nq, top);
                case 2: return p->makeGateDD(dd::Xmat, nq, Control{0}, top);
                case 3: return p->makeGateDD(dd::Xmat, nq, Control{top}, 0);
                case 4: return p->makeGateDD(dd::Xmat, nq, dd::Controls{Control{0}, Control{top, Control::Type::neg}}, 1);
                case 5: return p->makeSWAPDD(nq, dd::Controls{}, 0, top);
                case 6: return p->makeGateDD(dd::Xmat, nq, dd::Controls{Control{1}, Control{2}}, 0);
                case 7: return p->makePeresDD(nq, dd::Controls{}, 1, 0);
                case 8: return p->makeSWAPDD(nq, dd::Controls{Control{0}}, 1, 2);
                default: return p->makeIdent(nq);
            }
        };
        const auto m = p->multiply(gate(g1), gate(g2));
        const auto a = mat(m, ni);
        p->incRef(m);
        for (unsigned s = 0; s < (1U << n); ++s) {
            for (const bool reg: {true, false}) {
                auto e = m;
                p->incRef(e);
                const auto r = p->reduceGarbage(e, bits(s, n), reg);
                expect(mat(r, ni), merged(a, s, reg), "reduced circuit", 1e-12);
                // gates on garbage qubits after (before) the circuit do not matter
                for (unsigned q = 0; q < n; ++q) {
                    if (((s >> q) & 1U) != 0) {
                        for (unsigned c = 0; c < n; ++c) {
                            const auto x = c == q ? p->makeGateDD(dd::Xmat, nq, static_cast<dd::Qubit>(q)) : p->makeGateDD(dd::Xmat, nq, Control{static_cast<dd::Qubit>(c), (q & 1U) != 0 ? Control::Type::neg : Control::Type::pos}, static_cast<dd::Qubit>(q));
                            auto       f = reg ? p->multiply(x, m) : p->multiply(m, x);
                            p->incRef(f);
                            const auto r2 = p->reduceGarbage(f, bits(s, n), reg);
                            mc::op();
                            MC_CHECK(r2 == r, "circuits that agree on all other outputs reduce to different diagrams (garbage " << s << ", gate on " << q << " controlled by " << c << ")");
                            p->decRef(r2);
                        }
                    }
                }
                p->decRef(r);
            }
            mc::alive();
        }
        p->garbageCollect(true);
        expect(mat(m, ni), a, "circuit after reductions", 1e-12);
    }
    void basis() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 7 : 6, "qubits-1");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned w   = mc::choose(5, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n + w % 2);
            if (w < 4) {
                warm(*p, ni, w);
            }
            NoLeak<P> nl(*p);
            for (std::size_t x = 0; x < (1ULL << n); ++x) {
                for (std::size_t s = 0; s < (1ULL << n); ++s) {
                    auto e = p->makeBasisState(static_cast<dd::QubitCount>(n), bits(x, n));
                    p->incRef(e);
                    const auto r = p->reduceGarbage(e, bits(s, n + static_cast<unsigned>(s % 2)));
                    V          a(1ULL << n);
                    a[x] = 1;
                    expect(vec(r, ni), merged(a, s), "reduced basis state", 1e-12);
                    MC_CHECK(r == p->makeBasisState(static_cast<dd::QubitCount>(n), bits(x & ~s, n)), "basis state " << x << " reduced by " << s << " is not the diagram of basis state " << (x & ~s));
                    if (w == 4) {
                        p->garbageCollect(true);
                        MC_CHECK(p->vUniqueTable.getNodeCount() == n && r.p->ref == 1, "reducing basis state " << x << " by " << s << " keeps " << p->vUniqueTable.getNodeCount() << " nodes");
                    }
                    p->decRef(r);
                    if (w == 4) {
                        p->garbageCollect(true);
                        MC_CHECK(p->vUniqueTable.getNodeCount() == 0, "nodes are kept after the reduced state was released");
                    }
                }
                mc::alive();
            }
            nl.check("reducing garbage");
        });
    }
    void wide() {
        static const unsigned N[] = {8, 31, 32, 33, 63, 64, 65, 127, 128};
        const unsigned        n = N[mc::choose(9, "qubits")], pat = mc::choose(6, "state"), set = mc::choose(7, "garbage");
        const auto            bit = [&](unsigned q, unsigned k) {
            switch (k) {
                case 0: return false;
                case 1: return true;
                case 2: return q % 2 == 0;
                case 3: return q >= n / 2;
                case 4: return q == n - 1;
                case 5: return q == 0;
                default: return q % 5 == 3;
            }
        };
        auto              p = std::make_unique<Pkg<Mid>>(n);
        std::vector<bool> x, g, r;
        for (unsigned q = 0; q < n; ++q) {
            x.push_back(bit(q, pat));
            g.push_back(bit(q, set));
            r.push_back(x[q] && !g[q]);
        }
        auto e = p->makeBasisState(static_cast<dd::QubitCount>(n), x);
        p->incRef(e);
        const auto f = p->reduceGarbage(e, g);
        p->garbageCollect(true);
        mc::op();
        mc::state(mc::mix(n, pat * 8 + set));
        MC_CHECK(f == p->makeBasisState(static_cast<dd::QubitCount>(n), r), "reduced basis state of " << n << " qubits");
        // a permutation: X on every second qubit, merged to zeros: rows with garbage 0
        auto m = p->makeIdent(static_cast<dd::QubitCount>(n));
        for (unsigned q = 0; q < n; q += 2) {
            m = p->multiply(p->makeGateDD(dd::Xmat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(q)), m);
        }
        p->incRef(m);
        for (const bool reg: {true, false}) {
            p->incRef(m);
            auto       c = m;
            const auto d = p->reduceGarbage(c, g, reg);
            p->garbageCollect(true);
            for (unsigned k = 0; k < 4; ++k) { // column (row) with a given pattern: exactly one row is left
                std::string path(n, '0');
                for (unsigned q = 0; q < n; ++q) {
                    const bool in = bit(q, k + 2), out = g[q] ? false : in != (q % 2 == 0);
                    path[q] = static_cast<char>('0' + (reg ? 2 * (out ? 1 : 0) + (in ? 1 : 0) : 2 * (in ? 1 : 0) + (out ? 1 : 0)));
                }
                expect(cv(p->getValueByPath(d, path)), C{1, 0}, "entry of a wide reduced circuit");
                for (unsigned q = 0; q < n; q += 7) {
                    auto other = path;
                    other[q]   = static_cast<char>('0' + ((other[q] - '0') ^ (reg ? 2 : 1)));
                    expect(cv(p->getValueByPath(d, other)), C{0, 0}, "entry of a wide reduced circuit");
                }
            }
            p->decRef(d);
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C31", argc, argv,
                   {{"small", 3, false, small},
                    {"all-three-qubit-permutations", 2, false, three},
                    {"circuits", 3, false, circuits},
                    {"basis-states", 3, false, basis},
                    {"wide", 3, false, wide}},
                   {"all permutations of 1, 2 and 3 qubits, all products of two of 10 reversible gates on 3 to 5 qubits followed (preceded) by every gate on the garbage, all basis states of 1 to 6 (7) qubits, every garbage set, lists longer than the diagram, both orientations, repeated, with every ancillary set before (1 and 2 qubits); 6 states and one circuit on up to 128 qubits with 7 garbage sets; references and stored nodes counted in fresh packages",
                    {"the list of garbage qubits covers at least the qubits of the diagram", "a reference is held on the input", "matrices have entries 0 and 1 with at most one 1 per row and column, states are basis states"}});
}
