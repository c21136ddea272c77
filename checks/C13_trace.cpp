// C13: trace and partial trace equal the dense ones.
#include "ddx.hpp"
using namespace ddx;
namespace {
    int count(const std::vector<bool>& e) {
        int c = 0;
        for (const bool b: e) {
            c += b ? 1 : 0;
        }
        return c;
    }
    // every subset of the qubits; the list of qubits may also mention `extra` qubits above the matrix
    template<class P>
    void ask(P& p, const dd::mEdge& e, const M& a, int n, bool same, unsigned extra = 0, double rel = 1e-9) {
        double mx = 1;
        for (const auto& x: a.a) {
            mx = std::max(mx, std::abs(x));
        }
        const double tol  = rel * mx * static_cast<double>(a.d);
        const auto   name = [&] { return n <= 2 ? ref::str(a) : "a matrix of " + std::to_string(n) + " qubits"; };
        expect(cv(p.trace(e)), ref::trace(a), "trace of " + name(), tol);
        for (unsigned s = 0; s < (1U << (n + static_cast<int>(extra))); ++s) {
            std::vector<bool> el;
            for (int q = 0; q < n + static_cast<int>(extra); ++q) {
                el.push_back(((s >> q) & 1U) != 0);
            }
            std::vector<bool> in(el.begin(), el.begin() + n);
            const auto        want = ref::ptrace(a, n, in);
            const auto        r    = p.partialTrace(e, el);
            expect(mat(r, n - count(in)), want, "partial trace over set " + std::to_string(s) + " of " + name(), tol);
            if (same && mx <= 4 && n - count(in) > 0) { // ties between larger numbers are not resolved within the (absolute) tolerance
                const auto o = p.makeDDFromMatrix(cmat(want));
                MC_CHECK(o.p == r.p && ref::close(val(o.w), val(r.w), tol), "partial trace over set " << s << " of " << name() << " is not the diagram the package builds for that matrix " << ref::str(want) << " but " << ref::str(mat(r, n - count(in))));
            }
            if (count(in) == n && !e.isTerminal()) {
                MC_CHECK(r.isTerminal(), "trace over all qubits is not a scalar");
            }
        }
        expect(mat(e, n), a, "operand after taking traces");
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 1e-5}, {0, 0}, {1, 1e-3}};
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(27, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1 + w % 3);
            warm(*p, 1, w);
            NoLeak<P> nl(*p);
            for (unsigned x = hi; x < 6561; x += 27) {
                const auto a = matFrom(x, L9);
                ask(*p, p->makeDDFromMatrix(cmat(a)), a, 1, false, w % 3);
            }
            nl.check("trace");
        });
    }
    void two() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(64, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2 + w % 2);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            for (unsigned x = hi; x < 4096; x += 64) {
                const auto a = mat4(x, 8);
                const auto e = p->makeDDFromMatrix(cmat(a));
                ask(*p, e, a, 2, true, w % 2);
                const C c = F[x / 64 % 8];
                ask(*p, scaled(*p, e, c), ref::scale(a, c), 2, true);
            }
            nl.check("trace");
        });
    }
    // entries over four letters on the positions that matter: all 2-qubit matrices with the given diagonal blocks
    void diagonals() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(64, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            NoLeak<P> nl(*p);
            const unsigned total = mc::thorough() ? 65536 : 16384; // 4^8 / 4^7
            for (unsigned x = hi; x < total; x += 64) {
                unsigned   c = x;
                const auto n = [&] {
                    const auto r = L4[c % 4];
                    c /= 4;
                    return r;
                };
                // positions (0,0) (1,1) (2,2) (3,3) (0,2) (1,3) (2,0) (0,1)
                M a(4);
                a(0, 0) = n();
                a(1, 1) = n();
                a(2, 2) = n();
                a(3, 3) = n();
                a(0, 2) = n();
                a(1, 3) = n();
                a(2, 3) = n();
                a(1, 0) = n();
                ask(*p, p->makeDDFromMatrix(cmat(a)), a, 2, true);
                if (x / 64 % 32 == 31) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("trace");
        });
    }
    void nested() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(64, "upper blocks");
        static const std::vector<M> B = [] {
            std::vector<M> b{M(4), ref::ident(4)};
            b.push_back(blocks(m2(0, 1, 0, 0), m2(1, 0, 0, 1), m2(1, 0, 0, 1), m2(0, 0, 1, 0)));
            b.push_back(ref::scale(ref::ident(4), -1));
            b.push_back(blocks(m2(1, C{0, 1}, C{0, -1}, 2), m2(0, 0, 0, 0), m2(0, 0, 0, 0), m2(0, C{0, 1}, C{0, -1}, 0)));
            b.push_back(blocks(m2(1, 2, 3, 4), m2(0, 1, 1, 0), m2(0, 1, 1, 0), m2(4, 3, 2, 1)));
            b.push_back(ref::scale(b[5], C{0, -0.5}));
            b.push_back(blocks(m2(1, 0, 0, -1), m2(0, 0, 0, 0), m2(0, 0, 0, 0), m2(-1, 0, 0, 1)));
            return b;
        }();
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            NoLeak<P> nl(*p);
            for (unsigned lo = 0; lo < 64; ++lo) {
                const auto a = blocks(B[hi % 8], B[lo % 8], B[lo / 8], B[hi / 8]);
                ask(*p, p->makeDDFromMatrix(cmat(a)), a, 3, true, lo % 2);
                if (lo % 16 == 15) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("trace");
        });
    }
    void shapes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned pa  = mc::choose(NMP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n + w);
            warm(*p, std::min(ni, 4), w);
            NoLeak<P> nl(*p);
            const auto a = matPat(ni, pa);
            const auto e = p->makeDDFromMatrix(cmat(a));
            p->incRef(e);
            for (unsigned round = 0; round < 2; ++round) {
                for (unsigned f = 0; f < 8; ++f) {
                    ask(*p, scaled(*p, e, F[f]), ref::scale(a, F[f]), ni, n <= 3 && pa != 15, w);
                }
                if (n <= 3) {
                    for (unsigned pb = 0; pb < NMP; ++pb) {
                        const auto b  = matPat(ni, pb);
                        const auto eb = p->makeDDFromMatrix(cmat(b));
                        const auto ab = ref::mul(a, b);
                        ask(*p, p->multiply(e, eb), ab, ni, false, 0, 1e-8);
                    }
                    // trace of a tensor product; the partial trace undoes it
                    if (w >= 2) {
                        const auto b  = matPat(2, (pa + 3) % NMP);
                        const auto eb = p->makeDDFromMatrix(cmat(b));
                        ask(*p, p->kronecker(e, eb), ref::kron(a, b), ni + 2, false, 0, 1e-8);
                    }
                }
                nl.check("trace");
                p->garbageCollect(true);
            }
            p->decRef(e);
        });
    }
    // results that vanish, sums that cancel at different levels, deep registers, scalars
    void deep() {
        const unsigned n    = 1 + mc::choose(mc::thorough() ? 12 : 10, "n-1");
        const unsigned kind = mc::choose(6, "kind");
        const unsigned cfg  = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto nq = static_cast<dd::QubitCount>(n);
            if (n == 1 && kind == 0) {
                for (const auto& c: L9) {
                    const auto s = dd::mEdge::terminal(p->cn.lookup(c.real(), c.imag()));
                    expect(cv(p->trace(s)), c, "trace of a scalar");
                    expect(mat(p->partialTrace(s, {true}), 0).a, V{c}, "partial trace of a scalar");
                }
            }
            // product operators: trace is the product of the traces, partial traces are scaled product operators
            auto       m = p->makeIdent(nq);
            std::vector<C>                  tr(n, 2);
            std::vector<std::array<C, 4>>   g(n, {1, 0, 0, 1});
            for (unsigned q = 0; q < n; ++q) {
                switch (kind) {
                    case 0: break;
                    case 1: g[q] = {1, 0, 0, C{0, 1}}; break;
                    case 2: g[q] = q == n / 2 ? std::array<C, 4>{1, 0, 0, -1} : std::array<C, 4>{0.6, C{0, 0.8}, C{0, 0.8}, 0.6}; break;
                    case 3: g[q] = q % 2 == 0 ? std::array<C, 4>{0.25, 0.5, 0.5, -0.125} : std::array<C, 4>{1, 0, 0, 1}; break;
                    case 4: g[q] = {S2, S2, S2, -S2 * 0.5}; break;
                    default: g[q] = {C{0, 1}, 3, 0, 0}; break;
                }
                tr[q] = g[q][0] + g[q][3];
                m     = p->multiply(p->makeGateDD(gm(g[q].data()), nq, static_cast<dd::Qubit>(q)), m);
            }
            C all{1, 0};
            for (const auto& x: tr) {
                all = ref::cmul(all, x);
            }
            expect(cv(p->trace(m)), all, "trace of a product operator on " + std::to_string(n) + " qubits");
            for (unsigned s = 0; s < (1U << n); s += n > 6 ? 37 : 1) {
                std::vector<bool> el(n);
                C                 f{1, 0};
                M                 want(1);
                want(0, 0) = 1;
                int keep = 0;
                for (unsigned q = 0; q < n; ++q) {
                    if (((s >> q) & 1U) != 0) {
                        el[q] = true;
                        f     = ref::cmul(f, tr[q]);
                    } else {
                        ++keep;
                        if (keep <= 5) {
                            M x(2);
                            x.a  = V(g[q].begin(), g[q].end());
                            want = ref::kron(x, want);
                        }
                    }
                }
                if (keep > 5) {
                    continue;
                }
                expect(mat(p->partialTrace(m, el), keep), ref::scale(want, f), "partial trace of a product operator on " + std::to_string(n) + " qubits");
            }
            // differences of matrices with equal trace
            const auto x = p->add(m, scaled(*p, p->transpose(m), C{-1, 0}));
            expect(cv(p->trace(x)), C{0, 0}, "trace of A - A^T");
            const auto y = p->add(m, scaled(*p, p->makeIdent(nq), C{1, 1}));
            expect(cv(p->trace(y)), all + C{1, 1} * static_cast<double>(1ULL << n), "trace of A + cI", 1e-9 * static_cast<double>(1ULL << n));
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C13", argc, argv,
                   {{"all-1-qubit-matrices", 3, false, one},
                    {"2-qubit-block-matrices", 3, false, two},
                    {"2-qubit-sparse-alphabet", 2, false, diagonals},
                    {"nested-blocks", 2, false, nested},
                    {"structured-and-scaled", 4, false, shapes},
                    {"products-and-deep-registers", 3, false, deep}},
                   {"all subsets of traced qubits (and of qubits listed above the matrix) of: all 6561 2x2 matrices over 9 letters, 4096 two-qubit block matrices with 8 scale factors, 4^7 (4^8) two-qubit matrices over 4 letters, all 8^4 arrangements of inner 4x4 blocks, 16 patterns up to 5 (6) qubits with 8 scale factors, their products and tensor products, product operators up to 10 (12) qubits; packages larger than the matrix; small and normal tables; fresh, used and collected packages",
                    {"entries are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
