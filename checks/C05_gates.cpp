// C05: single-qubit gates with any number of positive and negative controls.
#include "ddx.hpp"
using namespace ddx;
namespace {
    struct G {
        const char* name;
        C           m[4];
    };
    const G GATES[] = {
            {"X", {0, 1, 1, 0}},
            {"H", {S2, S2, S2, -S2}},
            {"S", {1, 0, 0, C{0, 1}}},
            {"RY", {0.8, -0.6, 0.6, 0.8}},
            {"1234", {1, 2, 3, 4}},
            {"P0", {1, 0, 0, 0}},
            {"lower", {0, 0, 1, 0}},
            {"zero", {0, 0, 0, 0}},
            {"id", {1, 0, 0, 1}},
            {"cplx", {C{0.36, 0.48}, C{-0.64, 0.48}, C{0.64, 0.48}, C{0.36, -0.48}}},
            {"half", {0.5, 0, 0, 0.5}},
            {"Y", {0, C{0, -1}, C{0, 1}, 0}},
    };
    constexpr unsigned NG = 12;
    template<class P>
    dd::mEdge make(P& p, const G& g, int n, int start, int target, const std::vector<ref::Ctl>& rel) {
        auto abs = rel;
        for (auto& c: abs) {
            c.q += start;
        }
        const auto nq = static_cast<dd::QubitCount>(n);
        const auto t  = static_cast<dd::Qubit>(target + start);
        if (abs.empty()) {
            return p.makeGateDD(gm(g.m), nq, t, static_cast<std::size_t>(start));
        }
        if (abs.size() == 1 && g.name[0] != 'H') {
            return p.makeGateDD(gm(g.m), nq, *ctls(abs).begin(), t, static_cast<std::size_t>(start));
        }
        return p.makeGateDD(gm(g.m), nq, ctls(abs), t, static_cast<std::size_t>(start));
    }
    std::string name(const G& g, int n, int start, int target, const std::vector<ref::Ctl>& rel) {
        return std::string("gate ") + g.name + " on qubit " + std::to_string(target) + " of " + std::to_string(n) + " with controls " + str(rel) + " (offset " + std::to_string(start) + ")";
    }
    // every target, every assignment of controls, every gate, several offsets
    void all() {
        const unsigned maxn  = mc::thorough() ? 6 : 5;
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned n     = 1 + mc::choose(maxn, "n-1");
        const unsigned start = mc::choose(4, "start");
        const unsigned tgt   = mc::choose(n, "target");
        const unsigned w     = mc::choose(n >= 5 && !mc::thorough() ? 2 : 4, "env");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n + start + w % 2);
            warm(*p, static_cast<int>(std::min(n, 4U)), w);
            const auto ni = static_cast<int>(n);
            const auto ti = static_cast<int>(tgt);
            const auto si = static_cast<int>(start);
            std::size_t k = 0;
            for (std::size_t code = 0; code < pow3(ni - 1); ++code) {
                const auto c = controlsFrom(code, ni, {ti});
                for (const auto& g: GATES) {
                    if (n >= 5 && (code + (&g - GATES)) % (n == 5 ? 2 : 8) != 0) { // every control pattern with half (an eighth) of the gates
                        continue;
                    }
                    const auto e = make(*p, g, ni, si, ti, c);
                    if (e.isTerminal()) {
                        MC_CHECK(g.name[0] == 'z' || n == 0, name(g, ni, si, ti, c) << " is a terminal");
                    }
                    expect(mat(e, ni, si), ref::gate(ni, g.m, ti, c), name(g, ni, si, ti, c));
                    if (++k % 997 == 0) {
                        p->garbageCollect(true);
                    }
                    mc::alive();
                }
            }
        });
    }
    // every ordered pair of requests in one fresh package: the second does not depend on the first
    struct Req {
        int kind, n, start, target;
        int ctl;
        bool pos;
    };
    std::vector<Req> requests() {
        std::vector<Req> r;
        for (int start = 0; start < 4; ++start) {
            for (int n = 1; n + start <= 4; ++n) {
                r.push_back({1, n, start, 0, -1, false}); // makeIdent
                for (int t = 0; t < n; ++t) {
                    r.push_back({0, n, start, t, -1, false});
                    for (int c = 0; c < n; ++c) {
                        if (c != t) {
                            r.push_back({0, n, start, t, c, (c + t) % 2 == 0});
                        }
                    }
                    if (n >= 3) {
                        r.push_back({2, n, start, t, -1, true});
                        r.push_back({2, n, start, t, -1, false});
                    }
                }
            }
        }
        return r;
    }
    template<class P>
    void ask(P& p, const Req& r, const std::string& ctx) {
        if (r.kind == 1) {
            const auto e = r.start == 0 && r.n % 2 == 0 ? p.makeIdent(static_cast<dd::QubitCount>(r.n)) : p.makeIdent(static_cast<dd::Qubit>(r.start), static_cast<dd::Qubit>(r.start + r.n - 1));
            expect(mat(e, r.n, r.start), ref::ident(1ULL << r.n), "identity on qubits " + std::to_string(r.start) + ".." + std::to_string(r.start + r.n - 1) + ctx);
            return;
        }
        std::vector<ref::Ctl> c;
        if (r.kind == 0 && r.ctl >= 0) {
            c.push_back({r.ctl, r.pos});
        }
        if (r.kind == 2) {
            for (int q = 0; q < r.n; ++q) {
                if (q != r.target) {
                    c.push_back({q, r.pos});
                }
            }
        }
        const G& g = GATES[(r.n + r.target) % 4];
        expect(mat(make(p, g, r.n, r.start, r.target, c), r.n, r.start), ref::gate(r.n, g.m, r.target, c), name(g, r.n, r.start, r.target, c) + ctx);
    }
    void orders() {
        const auto     rq = requests();
        const unsigned a  = mc::choose(static_cast<unsigned>(rq.size()), "first request");
        for (std::size_t b = 0; b < rq.size(); ++b) {
            auto p = std::make_unique<Pkg<Tiny>>(4);
            ask(*p, rq[a], " (first request)");
            ask(*p, rq[b], " requested after request " + std::to_string(a));
            mc::alive();
        }
        auto p = std::make_unique<Pkg<Mid>>(4);
        ask(*p, rq[a], " (first request)");
        for (std::size_t b = 0; b < rq.size(); ++b) {
            ask(*p, rq[(b * 7 + a) % rq.size()], " in a sequence of requests");
            if (b % 50 == 49) {
                p->garbageCollect(true);
                ask(*p, rq[a], " after a collection");
            }
        }
    }
    // gates whose entries are close to each other, tiny, huge, or only numerically zero
    void values() {
        static const std::vector<C> L{{0, 0}, {1, 0}, {1e-6, 0}, {0, 1e-6}, {-1000, 3}, {1, 1e-8}, {S2, S2}};
        const unsigned n   = 1 + mc::choose(3, "n-1");
        const unsigned tgt = mc::choose(n, "target");
        const unsigned hi  = mc::choose(7, "entry 11");
        auto           p   = std::make_unique<Pkg<Mid>>(n);
        for (std::size_t lo = 0; lo < 343; ++lo) {
            const auto m = matFrom(lo * 7 + hi, L);
            G          g{"m", {m.a[0], m.a[1], m.a[2], m.a[3]}};
            for (std::size_t code = 0; code < pow3(static_cast<int>(n) - 1); code += 2) {
                const auto c = controlsFrom(code, static_cast<int>(n), {static_cast<int>(tgt)});
                expect(mat(make(*p, g, static_cast<int>(n), 0, static_cast<int>(tgt), c), static_cast<int>(n)), ref::gate(static_cast<int>(n), g.m, static_cast<int>(tgt), c), "gate " + ref::str(m) + " on qubit " + std::to_string(tgt) + " with controls " + str(c));
            }
        }
    }
    // many qubits: targets and controls everywhere
    C entry(const dd::mEdge& e, const std::vector<int>& row, const std::vector<int>& col, int start) {
        C   w   = val(e.w);
        int lvl = start + static_cast<int>(row.size()) - 1;
        for (auto x = e; !x.isTerminal(); --lvl) {
            MC_CHECK(x.p != nullptr && x.p->v == lvl, "gate diagram: level " << lvl << " is missing");
            const auto i = static_cast<std::size_t>(lvl - start);
            x            = x.p->e[static_cast<std::size_t>(2 * row[i] + col[i])];
            w            = ref::cmul(w, val(x.w));
        }
        MC_CHECK(w == (C{0, 0}) || lvl == start - 1, "gate diagram ends at level " << lvl);
        return w;
    }
    void wide() {
        const unsigned sizes[] = {7, 8, 16, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned total   = mc::pick(sizes, "qubits");
        const unsigned cset    = mc::choose(7, "controls");
        const unsigned so      = mc::choose(2, "offset");
        const unsigned start   = so == 0 ? 0 : total / 3;
        const auto     n       = static_cast<int>(total - start);
        const unsigned block   = mc::choose(4, "quarter of the targets");
        auto           p       = std::make_unique<Pkg<Mid>>(total);
        for (int t = static_cast<int>(block); t < n; t += 4) {
            std::vector<ref::Ctl> c;
            for (int q = 0; q < n; ++q) {
                if (q == t) {
                    continue;
                }
                switch (cset) {
                    case 0: break;
                    case 1:
                        if (q == (t + 1) % n) {
                            c.push_back({q, true});
                        }
                        break;
                    case 2:
                        if (q == (t + n - 1) % n) {
                            c.push_back({q, false});
                        }
                        break;
                    case 3: c.push_back({q, true}); break;
                    case 4: c.push_back({q, false}); break;
                    case 5:
                        if (q % 3 != 0) {
                            c.push_back({q, q % 3 == 1});
                        }
                        break;
                    default:
                        if (q == 0 || q == n - 1) {
                            c.push_back({q, q == 0});
                        }
                        break;
                }
            }
            const G&   g  = GATES[static_cast<unsigned>(t) % 5];
            const auto e  = make(*p, g, n, static_cast<int>(start), t, c);
            const auto nm = name(g, n, static_cast<int>(start), t, c);
            for (unsigned bg = 0; bg < 4; ++bg) {
                // column: controls satisfied; one control (first/middle/last) violated; other qubits alternate
                std::vector<int> col(static_cast<std::size_t>(n));
                for (int q = 0; q < n; ++q) {
                    col[static_cast<std::size_t>(q)] = (q + static_cast<int>(bg)) % 2;
                }
                for (const auto& k: c) {
                    col[static_cast<std::size_t>(k.q)] = k.pos ? 1 : 0;
                }
                bool act = true;
                if (bg > 0 && !c.empty()) {
                    const auto& k = c[bg == 1 ? 0 : (bg == 2 ? c.size() / 2 : c.size() - 1)];
                    col[static_cast<std::size_t>(k.q)] ^= 1;
                    act = false;
                }
                for (int b = 0; b < 2; ++b) {
                    col[static_cast<std::size_t>(t)] = b;
                    for (int o = 0; o < 2; ++o) {
                        auto row                         = col;
                        row[static_cast<std::size_t>(t)] = o;
                        const C want                     = act ? g.m[o * 2 + b] : C{o == b ? 1. : 0., 0};
                        const C got                      = entry(e, row, col, static_cast<int>(start));
                        mc::op();
                        mc::state(mc::mix(mc::mix(static_cast<std::uint64_t>(t), cset), mc::mix(total, bg * 4 + static_cast<unsigned>(2 * o + b))));
                        MC_CHECK(ref::close(got, want), nm << ": entry for target " << b << "->" << o << " with controls " << (act ? "satisfied" : "not satisfied") << " is " << ref::str(got) << ", expected " << ref::str(want));
                        for (int q = 0; q < n; ++q) {
                            if (q != t) {
                                auto bad = row;
                                bad[static_cast<std::size_t>(q)] ^= 1;
                                const C z = entry(e, bad, col, static_cast<int>(start));
                                MC_CHECK(ref::close(z, C{0, 0}), nm << ": changes qubit " << q);
                            }
                        }
                    }
                }
            }
            mc::alive();
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C05", argc, argv,
                   {{"targets-x-controls-x-offsets", 5, false, all},
                    {"ordered-pairs-of-requests", 1, false, orders},
                    {"gate-values", 3, false, values},
                    {"wide-registers", 4, false, wide}},
                   {"all targets x all absent/positive/negative control assignments x 12 gate matrices x offsets 0-3 for up to 5 (thorough 6) qubits; all ordered pairs of gate and identity requests on 4 qubits in one package; all gates over a 7-letter alphabet up to 3 qubits; registers up to 128 qubits with 7 control patterns; small and normal tables; fresh, used and collected packages",
                    {"gate entries are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
