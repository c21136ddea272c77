// C14: identity diagrams, identity/symmetry marks of nodes, closeness to the identity.
#include "machine.hpp"
using namespace ddx;
namespace {
    // all request sequences over all ranges of a register, interleaved with gates, collections, clears and resets
    void requests() {
        constexpr int  n     = 4;
        const unsigned depth = mc::thorough() ? 4 : 3;
        const unsigned cfg   = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n);
            struct Held {
                dd::mEdge e;
                int       l, h;
            };
            std::vector<Held>  held;
            std::vector<dd::mEdge> fresh; // identities by range obtained since the last event that may discard them
            std::map<std::pair<int, int>, dd::mEdge> last;
            const auto check = [&](const dd::mEdge& e, int l, int h, const char* what) {
                if (h < l) {
                    expect(mat(e, 0).a, V{1}, what);
                    return;
                }
                expect(mat(e, h - l + 1, l), ref::ident(1ULL << (h - l + 1)), std::string(what) + " on qubits " + std::to_string(l) + ".." + std::to_string(h));
                MC_CHECK(e.w == dd::Complex::one && e.p->isIdentity() && e.p->isSymmetric(), "identity on qubits " << l << ".." << h << " is not marked as one");
            };
            for (unsigned d = 0; d < depth; ++d) {
                const unsigned o = mc::choose(20, "op");
                if (o < 10) { // every range l <= h
                    int l = 0;
                    int h = 0;
                    for (unsigned k = 0; k < o; ++k) {
                        if (++h == n) {
                            ++l;
                            h = l;
                        }
                    }
                    const auto e = p->makeIdent(static_cast<dd::Qubit>(l), static_cast<dd::Qubit>(h));
                    check(e, l, h, "identity");
                    const auto it = last.find({l, h});
                    MC_CHECK(it == last.end() || it->second == e, "requesting the identity on qubits " << l << ".." << h << " twice gives different diagrams");
                    last[{l, h}] = e;
                } else if (o < 12) {
                    const int  k = o == 10 ? 2 : 4;
                    const auto e = p->makeIdent(static_cast<dd::QubitCount>(k));
                    check(e, 0, k - 1, "identity");
                    MC_CHECK(e == p->makeIdent(0, static_cast<dd::Qubit>(k - 1)), "makeIdent(n) and makeIdent(0, n-1) differ");
                    p->incRef(e);
                    held.push_back({e, 0, k - 1});
                } else if (o == 12) {
                    check(p->makeIdent(3, 1), 3, 1, "empty identity");
                    check(p->makeIdent(0), 0, -1, "empty identity");
                } else if (o == 13) {
                    const auto e = p->makeIdent(1, 2);
                    check(e, 1, 2, "identity");
                    p->incRef(e);
                    held.push_back({e, 1, 2});
                } else if (o == 14) {
                    const C    g[] = {0.6, 0.8, -0.8, 0.6};
                    const auto e   = p->makeGateDD(gm(g), n, dd::Control{1}, 2);
                    expect(mat(e, n), ref::gate(n, g, 2, {{1, true}}), "controlled gate between identities");
                    const auto f = p->makeGateDD(gm(g), 2, dd::Control{2, dd::Control::Type::neg}, 3, 2);
                    expect(mat(f, 2, 2), ref::gate(2, g, 1, {{0, false}}), "controlled gate on qubits 2..3");
                } else if (o == 15) {
                    p->garbageCollect(true);
                    last.clear();
                } else if (o == 16) {
                    p->clearIdentityTable();
                } else if (o == 17) {
                    p->clearComputeTables();
                } else if (o == 18) {
                    for (auto& x: held) {
                        p->decRef(x.e);
                    }
                    held.clear();
                    p->reset();
                    last.clear();
                } else {
                    const C x[] = {0, 1, 1, 0};
                    auto    e   = p->makeGateDD(gm(x), n, dd::Controls{dd::Control{0}, dd::Control{3, dd::Control::Type::neg}}, 1);
                    e           = p->multiply(e, e);
                    check(e, 0, n - 1, "a gate times its inverse");
                    MC_CHECK(e == p->makeIdent(n), "a gate times its inverse is not the identity diagram");
                    const auto id = p->extend(p->makeIdent(2), 1, 1);
                    check(id, 0, n - 1, "an extended identity");
                }
                for (const auto& x: held) {
                    check(x.e, x.l, x.h, "referenced identity");
                }
                for (const auto& x: p->getIdentityTable()) {
                    if (x.p != nullptr) {
                        check(x, 0, static_cast<int>(&x - p->getIdentityTable().data()), "stored identity");
                    }
                }
                for (const auto& x: last) { // still valid until collected
                    check(x.second, x.first.first, x.first.second, "earlier identity");
                }
            }
            // everything once more
            for (int l = 0; l < n; ++l) {
                for (int h = n - 1; h >= l; --h) {
                    check(p->makeIdent(static_cast<dd::Qubit>(l), static_cast<dd::Qubit>(h)), l, h, "identity at the end");
                }
            }
        });
    }
    // marks: constructors over alphabets, patterns, all operations, histories with recycled nodes
    void marksAlphabet() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned part = mc::choose(64, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            unsigned k = 0;
            const auto tick = [&](const char* what) {
                if (++k % 8 == 0) {
                    checkMarks(*p, what);
                    p->garbageCollect(true);
                    mc::alive();
                }
            };
            for (unsigned x = part; x < 6561; x += 64) {
                p->makeDDFromMatrix(cmat(matFrom(x, L9)));
                mc::state(mc::mix(x, 1));
                tick("2x2 matrices");
            }
            for (unsigned x = part; x < 4096; x += 64) {
                const auto e = p->makeDDFromMatrix(cmat(mat4(x, 8)));
                p->transpose(e);
                p->conjugateTranspose(e);
                mc::state(mc::mix(x, 2));
                tick("block matrices");
            }
            // diagonal and nearly diagonal 3-qubit matrices
            for (unsigned x = part; x < 6561; x += 64) {
                M        m(8);
                unsigned c = x;
                for (std::size_t i = 0; i < 8; ++i) {
                    m(i, i) = c % 3 == 2 ? C{-1, 0} : C{static_cast<double>(c % 3), 0};
                    c /= 3;
                }
                p->makeDDFromMatrix(cmat(m));
                m(x % 8, (x / 8) % 8) += C{0, 1};
                p->makeDDFromMatrix(cmat(m));
                mc::state(mc::mix(x, 3));
                tick("diagonal matrices");
            }
            checkMarks(*p, "end");
        });
    }
    void marksOperations() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 4 : 3, "n-1");
        const unsigned pa  = mc::choose(NMP - 1, "first");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n + 1);
            const auto ni = static_cast<int>(n);
            warm(*p, ni, w);
            const auto a = p->makeDDFromMatrix(cmat(matPat(ni, pa)));
            p->incRef(a);
            for (unsigned pb = 0; pb < NMP - 1; ++pb) {
                const auto b = p->makeDDFromMatrix(cmat(matPat(ni, pb)));
                p->multiply(a, b);
                p->multiply(p->conjugateTranspose(a), a);
                checkMarks(*p, "products");
                p->add(a, b);
                p->add(a, p->transpose(a));
                p->add(b, scaled(*p, a, C{0, 1}));
                checkMarks(*p, "sums");
                p->kronecker(p->makeDDFromMatrix(cmat(matPat(1, pb))), a);
                p->kronecker(b, p->makeIdent(1));
                p->extend(a, 1);
                checkMarks(*p, "tensor products");
                for (unsigned s = 1; s < (1U << n); ++s) {
                    std::vector<bool> el(n);
                    for (unsigned q = 0; q < n; ++q) {
                        el[q] = ((s >> q) & 1U) != 0;
                    }
                    if (!a.isTerminal()) {
                        p->partialTrace(a, el);
                    }
                    if (!b.isTerminal()) {
                        auto x = b;
                        p->incRef(x);
                        x = p->reduceAncillae(x, el, pb % 2 == 0);
                        p->decRef(x);
                    }
                }
                checkMarks(*p, "partial traces and ancillae");
                for (unsigned q = 0; q < n; ++q) {
                    for (unsigned i = 0; i < 4; ++i) {
                        p->deleteEdge(b, static_cast<dd::Qubit>(q), i);
                    }
                }
                checkMarks(*p, "deleted edges");
                if (!b.isTerminal()) {
                    std::stringstream ss;
                    dd::serialize(b, ss, true);
                    p->template deserialize<dd::mNode>(ss, true);
                    P    other(n);
                    auto bb = b;
                    auto x  = other.transfer(bb);
                    checkMarks(other, "transfer");
                    p->transfer(x);
                    checkMarks(*p, "deserialization and transfer");
                }
                mc::state(mc::mix(mc::mix(pa, pb), n));
                p->garbageCollect(true);
                checkMarks(*p, "collection");
            }
        });
    }
    void marksHistories() {
        static const std::vector<unsigned> ops{MH, MCX, MGen, MPhase, MSwap2, MIdent, MMul, MAdd, MT, MAdj, MSwapR, MDrop, MKron, MPtr, MAnc, MDelete, MSer, MTof, DGate, Collect, ClearC};
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned first = mc::choose(static_cast<unsigned>(ops.size()));
        const unsigned depth = mc::thorough() ? 4 : 3;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(2);
            Machine<P> m(*p, 2);
            m.start();
            m.step(DZero);
            for (unsigned d = 0; d < depth; ++d) {
                const unsigned o = ops[d == 0 ? first : mc::choose(static_cast<unsigned>(ops.size()))];
                if (!m.step(o)) {
                    mc::prune();
                }
                checkMarks(*p, opName(o));
                mc::state(ref::hash(m.dm[0]));
            }
        });
    }
    void marksGates() {
        const unsigned n   = 2 + mc::choose(mc::thorough() ? 4 : 3, "n-2");
        const unsigned tgt = mc::choose(n, "target");
        const unsigned cfg = mc::choose(2, "cfg");
        static const C G[8][4] = {{S2, S2, S2, -S2}, {0, 1, 1, 0}, {0, C{0, -1}, C{0, 1}, 0}, {1, 0, 0, C{0.6, 0.8}}, {0.8, -0.6, 0.6, 0.8}, {1, 0, 0, 1}, {-1, 0, 0, -1}, {1, 0, 0, -1}};
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            for (const auto& g: G) {
                for (std::size_t c = 0; c < pow3(ni - 1); ++c) {
                    p->makeGateDD(gm(g), static_cast<dd::QubitCount>(n), ctls(controlsFrom(c, ni, {static_cast<int>(tgt)})), static_cast<dd::Qubit>(tgt));
                    mc::state(mc::mix(c, static_cast<std::uint64_t>(&g - G)));
                    if (c % 27 == 26) {
                        checkMarks(*p, "controlled gates");
                    }
                }
                checkMarks(*p, "controlled gates");
                p->garbageCollect(true);
                mc::alive();
            }
        });
    }

    // ------------------------------------------------------------------------------------------------------
    // closeness: [x 0 0 y] with x close to the identity and y either close to x or (ancillary) zero, on every
    // level; up to the global factor
    bool isId(const V& d, std::size_t lo, std::size_t n, double eps) {
        if (n == 1) {
            return true;
        }
        const std::size_t h = n / 2;
        if (!isId(d, lo, h, eps)) {
            return false;
        }
        bool zero = true;
        for (std::size_t i = 0; i < h; ++i) {
            zero = zero && d[lo + h + i] == C{0, 0};
        }
        if (zero) {
            return true;
        }
        return std::abs(d[lo + h] - d[lo]) <= eps && isId(d, lo + h, h, eps);
    }
    bool closeTo(const M& m, double eps) {
        V d(m.d);
        for (std::size_t r = 0; r < m.d; ++r) {
            for (std::size_t c = 0; c < m.d; ++c) {
                if (r != c && std::abs(m(r, c)) > eps) {
                    return false;
                }
            }
            d[r] = m(r, r);
        }
        return d[0] != C{0, 0} && isId(d, 0, m.d, eps);
    }
    template<class P>
    void askClose(P& p, const M& m, int n, bool want, double tol, const std::string& what) {
        const C G[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {0, -2}};
        for (const auto& f: G) {
            const auto e = scaled(p, p.makeDDFromMatrix(cmat(m)), f);
            const bool r = tol == 0 ? p.isCloseToIdentity(e) : p.isCloseToIdentity(e, tol);
            mc::op();
            mc::state(mc::mix(ref::hash(m), r ? 1 : 0));
            MC_CHECK(r == want, what << " on " << n << " qubits, times " << ref::str(f) << ": " << (n <= 2 ? ref::str(m) : std::string()) << (r ? " is" : " is not") << " accepted as close to the identity");
        }
    }
    void closeDiagonal() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned part = mc::choose(81, "part");
        static const std::vector<C> D{{1, 0}, {0, 0}, {-1, 0}, {0, 1}, {1 + 1e-3, 0}, {0.5, 0}};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            for (unsigned x = part; x < 6561; x += 81) { // 3-qubit diagonals over {1, 0, -1}
                M        m(8);
                unsigned c = x;
                for (std::size_t i = 0; i < 8; ++i) {
                    m(i, i) = D[c % 3];
                    c /= 3;
                }
                if (x != 3280) { // not the zero matrix (all digits 1)
                    askClose(*p, m, 3, closeTo(m, 1e-5), 0, "diagonal matrix");
                }
            }
            for (unsigned x = part; x < 1296; x += 81) { // 2-qubit diagonals over six letters
                M        m(4);
                unsigned c = x;
                for (std::size_t i = 0; i < 4; ++i) {
                    m(i, i) = D[c % 6];
                    c /= 6;
                }
                if (ref::norm2(m.a) > 0) {
                    askClose(*p, m, 2, closeTo(m, 1e-5), 0, "diagonal matrix");
                }
            }
            p->garbageCollect(true);
        });
    }
    // the identity with one or two disturbed entries, for several tolerances
    void closePerturbed() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 4 : 3, "n-1");
        const unsigned ti  = mc::choose(4, "tolerance");
        const unsigned cfg = mc::choose(2, "cfg");
        const double   T[] = {0, 1e-10, 1e-4, 1e-7};
        const double   tol = T[ti] == 0 ? 1e-10 : T[ti];
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto ni = static_cast<int>(n);
            const auto N  = 1ULL << n;
            struct Dv {
                C    d;
                bool ok;
            };
            // off the diagonal the tolerance applies to the squared magnitude, on it to the squared magnitude and angle
            const double        big = 20 * std::sqrt(tol);
            const std::vector<Dv> off{{{tol / 20, 0}, true}, {{0, -tol / 20}, true}, {{big, 0}, false}, {{0, -big}, false}, {{0.5, 0}, false}};
            const std::vector<Dv> dia{{{tol / 20, 0}, true}, {{-tol / 20, 0}, true}, {{0, tol / 20}, true}, {{20 * tol, 0}, false}, {{-20 * tol, 0}, false}, {{0, 20 * tol}, false}, {{0, -20 * tol}, false}, {{-2, 0}, false}};
            for (std::size_t r = 0; r < N; ++r) {
                for (std::size_t c = 0; c < N; ++c) {
                    for (const auto& v: r == c ? dia : off) {
                        M m = ref::ident(N);
                        m(r, c) += v.d;
                        askClose(*p, m, ni, v.ok, T[ti], "identity with entry (" + std::to_string(r) + "," + std::to_string(c) + ") changed by " + ref::str(v.d));
                        if (n <= 2) {
                            for (std::size_t r2 = 0; r2 < N; ++r2) {
                                for (std::size_t c2 = 0; c2 < N; ++c2) {
                                    const auto& w = (r2 == c2 ? dia : off)[(r + c2) % 5];
                                    if ((r2 == r && c2 == c) || (r == c && r2 == c2 && !(v.ok && w.ok))) {
                                        continue; // two large diagonal changes may amount to a global factor
                                    }
                                    M k = m;
                                    k(r2, c2) += w.d;
                                    askClose(*p, k, ni, v.ok && w.ok, T[ti], "identity with two entries changed");
                                }
                            }
                        }
                    }
                }
                p->garbageCollect(true);
                mc::alive();
            }
            // gates and products
            for (unsigned q = 0; q < n; ++q) {
                const auto h = p->makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(q));
                const auto z = p->makeGateDD(dd::RZmat(0.7), static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(q));
                MC_CHECK(p->isCloseToIdentity(p->multiply(h, h)), "H*H is not accepted as the identity");
                MC_CHECK(!p->isCloseToIdentity(h), "H is accepted as the identity");
                MC_CHECK(!p->isCloseToIdentity(z), "RZ is accepted as the identity");
                MC_CHECK(p->isCloseToIdentity(p->multiply(z, p->conjugateTranspose(z))), "RZ*RZ^+ is not accepted as the identity");
            }
        });
    }
    // block matrices: shared blocks on several levels
    void closeBlocks() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned part = mc::choose(64, "part");
        static const std::vector<M> B{ref::ident(2), m2(0, 0, 0, 0), m2(1, 0, 0, 0), m2(1, 0, 0, -1), m2(-1, 0, 0, -1), m2(0, 0, 0, 1), m2(0, 1, 1, 0), m2(C{0, 1}, 0, 0, C{0, 1})};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            for (unsigned x = part; x < 4096; x += 64) { // diagonal of blocks
                const M z(2);
                M       m = blocks(blocks(B[x % 8], z, z, B[x / 8 % 8]), M(4), M(4), blocks(B[x / 64 % 8], z, z, B[x / 512]));
                if (ref::norm2(m.a) == 0) {
                    continue;
                }
                askClose(*p, m, 3, closeTo(m, 1e-5), 0, "diagonal of blocks");
            }
            for (unsigned x = part; x < 4096; x += 64) { // all blocks
                const M m = blocks(B[x % 8], B[x / 8 % 8], B[x / 64 % 8], B[x / 512]);
                if (ref::norm2(m.a) == 0) {
                    continue;
                }
                askClose(*p, m, 2, closeTo(m, 1e-5), 0, "block matrix");
            }
        });
    }
    void wide() {
        const unsigned sizes[] = {5, 16, 63, 64, 65, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned kind    = mc::choose(4, "kind");
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        const auto     nq      = static_cast<dd::QubitCount>(n);
        const auto     chain   = [&](const dd::mEdge& e, unsigned l, unsigned h) {
            const dd::mNode* q = e.p;
            for (unsigned v = h + 1; v-- > l;) {
                MC_CHECK(static_cast<unsigned>(q->v) == v && q->e[0].p == q->e[3].p && q->e[0].w == dd::Complex::one && q->e[3].w == dd::Complex::one && q->e[1].w == dd::Complex::zero && q->e[2].w == dd::Complex::zero && q->isSymmetric() && q->isIdentity(),
                         "identity on qubits " << l << ".." << h << " of " << n << " is wrong at qubit " << v);
                q = q->e[0].p;
            }
            MC_CHECK(dd::mNode::isTerminal(q), "identity on qubits " << l << ".." << h << " of " << n << " does not end in the terminal");
        };
        const unsigned starts[] = {0, 1, n / 2, n - 1};
        for (unsigned r = 0; r < 2; ++r) {
            for (const unsigned l: starts) {
                for (unsigned h = l; h < n; h += 1 + (kind + r) % 3) {
                    mc::op();
                    mc::state(mc::mix(mc::mix(l, h), n));
                    chain(p->makeIdent(static_cast<dd::Qubit>(l), static_cast<dd::Qubit>(h)), l, h);
                    if (kind == 1 && h % 7 == 3) {
                        p->garbageCollect(true);
                    }
                    if (kind == 2 && h % 5 == 2) {
                        p->makeGateDD(dd::Hmat, nq, dd::Control{static_cast<dd::Qubit>(h)}, static_cast<dd::Qubit>((h + 1) % n));
                    }
                    if (kind == 3 && h == n / 2) {
                        p->reset();
                    }
                }
            }
            chain(p->makeIdent(nq), 0, n - 1);
            MC_CHECK(p->isCloseToIdentity(p->makeIdent(nq)), "the identity is not accepted");
            for (unsigned q = 0; q < n; q += 9) {
                MC_CHECK(!p->isCloseToIdentity(p->makeGateDD(dd::Tmat, nq, static_cast<dd::Qubit>(q))), "T on qubit " << q << " is accepted as the identity");
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C14", argc, argv,
                   {{"identity-requests", 3, false, requests},
                    {"marks-of-alphabet-matrices", 2, false, marksAlphabet},
                    {"marks-after-operations", 4, false, marksOperations},
                    {"marks-in-histories", 3, false, marksHistories},
                    {"marks-of-gates", 3, false, marksGates},
                    {"closeness-of-diagonals", 2, false, closeDiagonal},
                    {"closeness-of-disturbed-identities", 3, false, closePerturbed},
                    {"closeness-of-blocks", 2, false, closeBlocks},
                    {"wide-registers", 2, false, wide}},
                   {"all sequences of 3 (4) of 20 requests (every qubit range of 4 qubits, gates, collections, clears, resets); marks of all stored nodes for all 6561 2x2 matrices over 9 letters, 4096 block matrices, 3-qubit diagonals, all operations on 15x15 pattern pairs up to 3 (4) qubits, all sequences of 3 (4) of 21 matrix operations, 8 gates with all control assignments up to 4 (5) qubits; closeness for all 3-qubit diagonals over {1,0,-1}, 2-qubit diagonals over 6 letters, identities with one (two) disturbed entries at 4 tolerances and all 8^4 block matrices, each with 5 global factors; registers up to 128 qubits",
                    {"entries are taken from finite alphabets", "deviations between tolerance and its square root off the diagonal are not decided"}});
}
