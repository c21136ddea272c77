// C04: matrix construction and read-out agree with the given matrix.
#include "ddx.hpp"
using namespace ddx;
namespace {
    bool parseNumber(const std::string& s, double& re, double& im) {
        re = im = 0;
        const char* t   = s.c_str();
        char*       end = nullptr;
        double      x   = strtod(t, &end);
        if (end == t) {
            return false;
        }
        if (*end == 'i') {
            im = x;
            return end[1] == 0;
        }
        re = x;
        if (*end == 0) {
            return true;
        }
        t  = end;
        im = strtod(t, &end);
        return end != t && *end == 'i' && end[1] == 0;
    }
    template<class P>
    void readBack(P& p, const dd::mEdge& e, const M& want, const std::string& what, double eps = 1e-10, bool print = false) {
        int n = 0;
        while ((1ULL << n) < want.d) {
            ++n;
        }
        const auto c0 = p.cn.cacheCount();
        expect(mat(e, n), want, what, eps);
        const bool zero = e.isTerminal() && n > 0;
        if (!zero) {
            const auto g = p.getMatrix(e);
            MC_CHECK(g.size() == want.d, what << ": getMatrix has " << g.size() << " rows");
            for (std::size_t i = 0; i < want.d; ++i) {
                MC_CHECK(g[i].size() == want.d, what << ": getMatrix row " << i << " has " << g[i].size() << " columns");
                for (std::size_t j = 0; j < want.d; ++j) {
                    MC_CHECK(ref::close(C(g[i][j]), want(i, j), eps), what << ": getMatrix entry (" << i << "," << j << ") is " << ref::str(C(g[i][j])) << ", expected " << ref::str(want(i, j)));
                }
            }
        }
        for (std::size_t i = 0; i < want.d; ++i) {
            for (std::size_t j = 0; j < want.d; ++j) {
                const auto a = cv(p.getValueByPath(e, i, j));
                MC_CHECK(ref::close(a, want(i, j), eps), what << ": entry (" << i << "," << j << ") by index is " << ref::str(a) << ", expected " << ref::str(want(i, j)));
                std::string s;
                for (int q = 0; q < n; ++q) {
                    s += static_cast<char>('0' + 2 * ((i >> q) & 1U) + ((j >> q) & 1U));
                }
                const auto b = cv(p.getValueByPath(e, s + (i % 2 == 0 ? "" : "3")));
                MC_CHECK(ref::close(b, want(i, j), eps), what << ": entry " << s << " by path is " << ref::str(b) << ", expected " << ref::str(want(i, j)));
            }
        }
        if (print && !zero && n > 0) {
            Capture cap;
            p.printMatrix(e);
            std::istringstream is(cap.os.str());
            std::string        l;
            for (std::size_t i = 0; i < want.d; ++i) {
                MC_CHECK(static_cast<bool>(std::getline(is, l)), what << ": printed matrix has only " << i << " lines");
                std::istringstream ls(l);
                std::string        tok;
                for (std::size_t j = 0; j < want.d; ++j) {
                    MC_CHECK(static_cast<bool>(ls >> tok), what << ": printed row " << i << " has only " << j << " entries: '" << l << "'");
                    double       re = 0;
                    double       im = 0;
                    const bool   ok = parseNumber(tok, re, im);
                    const double m  = 6e-3 * (1e-9 + std::max(std::abs(want(i, j).real()), std::abs(want(i, j).imag())));
                    MC_CHECK(ok && std::abs(re - want(i, j).real()) <= m && std::abs(im - want(i, j).imag()) <= m, what << ": printed entry (" << i << "," << j << ") is '" << tok << "', expected " << ref::str(want(i, j)));
                }
                MC_CHECK(!(ls >> tok), what << ": printed row " << i << " has an extra entry");
            }
            MC_CHECK(!std::getline(is, l), what << ": printed matrix has an extra line '" << l << "'");
        }
        MC_CHECK(p.cn.cacheCount() == c0, what << ": reading changes the number of temporaries in use");
    }
    template<class P>
    void build(P& p, const M& m, const std::string& env, bool print = false, double eps = 1e-10) {
        const auto c0 = p.cn.cacheCount();
        MC_NOTE("matrix " << ref::str(m));
        const auto e = p.makeDDFromMatrix(cmat(m));
        MC_CHECK(p.cn.cacheCount() == c0, "building " << ref::str(m) << " changes the number of temporaries in use");
        readBack(p, e, m, "matrix built from " + ref::str(m) + env, eps, print);
    }
    // all 2x2 matrices over nine letters
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(9, "entry 11");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1 + w);
            warm(*p, 1, w);
            for (std::size_t lo = 0; lo < 729; ++lo) {
                build(*p, matFrom(lo * 9 + hi, L9), std::string(" (") + warmName(w) + ")", lo % 11 == hi);
            }
        });
    }
    // all 4x4 matrices made of 2x2 blocks
    void two() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(mc::thorough() ? 4 : 2, "env") * (mc::thorough() ? 1 : 3);
        const unsigned hi  = mc::choose(8, "first block");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2 + w % 2);
            warm(*p, 2, w);
            for (std::size_t lo = 0; lo < 512; ++lo) {
                build(*p, mat4(lo * 8 + hi, 8), std::string(" (") + warmName(w) + ")", lo % 13 == hi);
            }
        });
    }
    // every zero pattern of a 4x4 matrix with distinct entries
    void zeros() {
        const unsigned hi = mc::choose(64, "rows 0");
        auto           p  = std::make_unique<Pkg<Mid>>(2);
        for (std::size_t lo = 0; lo < 1024; ++lo) {
            const std::size_t mask = lo * 64 + hi;
            M                 m(4);
            for (std::size_t i = 0; i < 16; ++i) {
                if (((mask >> i) & 1U) != 0) {
                    m.a[i] = C{1. + static_cast<double>(i), static_cast<double>(i % 3) - 1};
                }
            }
            const auto e = p->makeDDFromMatrix(cmat(m));
            expect(mat(e, 2), m, "matrix with zero pattern " + std::to_string(mask));
            if (lo % 256 == 255) {
                p->garbageCollect(true);
            }
        }
    }
    // pairs: building one matrix does not disturb one built before
    void pairs() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "n-1");
        const unsigned a   = mc::choose(NMP, "first");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n);
            const auto ma = matPat(static_cast<int>(n), a);
            const auto ea = p->makeDDFromMatrix(cmat(ma));
            p->incRef(ea);
            for (unsigned b = 0; b < NMP; ++b) {
                const auto mb = matPat(static_cast<int>(n), b);
                const auto eb = p->makeDDFromMatrix(cmat(mb));
                readBack(*p, eb, mb, "pattern " + std::to_string(b) + " after pattern " + std::to_string(a));
                readBack(*p, ea, ma, "pattern " + std::to_string(a) + " after building pattern " + std::to_string(b), 1e-10, b == a);
                if (b % 5 == 4) {
                    p->garbageCollect(true);
                }
            }
        });
    }
    // three to five qubits, and the sizes 0 and 1
    void shapes() {
        const unsigned n   = mc::choose(6, "n");
        const unsigned pat = mc::choose(NMP, "pattern");
        const unsigned w   = mc::choose(4, "env");
        auto           p   = std::make_unique<Pkg<Mid>>(std::max(n, 3U));
        warm(*p, 3, w);
        if (n == 0) {
            if (pat == 0) {
                const auto e = p->makeDDFromMatrix(dd::CMat{});
                MC_CHECK(e.isTerminal() && ref::close(val(e.w), C{1, 0}), "empty matrix does not give the scalar one");
            }
            M m(1);
            m(0, 0) = L9[pat % 9];
            build(*p, m, "");
            return;
        }
        build(*p, matPat(static_cast<int>(n), pat), std::string(" pattern ") + std::to_string(pat), n <= 3, pat == 1 || pat == 11 ? 1e-8 : 1e-10);
    }
    // matrices far larger than any dense array, read by path and index
    void wide() {
        const unsigned sizes[] = {16, 31, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned block   = mc::choose(8, "eighth of the qubits");
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        const auto     nq      = static_cast<dd::QubitCount>(n);
        const C        g[4]    = {{0.6, 0}, {0, 0.8}, {2, 0}, {0, 0}};
        for (unsigned q = block; q < n; q += 8) {
            const auto e = p->makeGateDD(gm(g), nq, static_cast<dd::Qubit>(q));
            for (unsigned bg = 0; bg < 3; ++bg) {
                std::string s(n, '0');
                for (unsigned k = 0; k < n; ++k) {
                    s[k] = bg == 0 || (bg == 2 && k % 3 != 0) ? '0' : '3';
                }
                for (unsigned x = 0; x < 4; ++x) {
                    s[q]         = static_cast<char>('0' + x);
                    const auto a = cv(p->getValueByPath(e, s));
                    mc::op();
                    mc::state(mc::mix(ref::hash(a), n * 1000 + q));
                    MC_CHECK(ref::close(a, g[x]), "entry " << s << " of a gate on qubit " << q << " of " << n << " is " << ref::str(a) << ", expected " << ref::str(g[x]));
                    bool high = false; // an index only describes the lowest 64 qubits; the others are zero
                    for (unsigned k = 64; k < n; ++k) {
                        high = high || s[k] != '0';
                    }
                    if (!high) {
                        std::size_t i = 0;
                        std::size_t j = 0;
                        for (unsigned k = 0; k < std::min(n, 64U); ++k) {
                            i |= static_cast<std::size_t>((s[k] - '0') >> 1) << k;
                            j |= static_cast<std::size_t>((s[k] - '0') & 1) << k;
                        }
                        const auto b = cv(p->getValueByPath(e, i, j));
                        MC_CHECK(ref::close(b, g[x]), "entry (" << i << "," << j << ") of a gate on qubit " << q << " of " << n << " is " << ref::str(b) << ", expected " << ref::str(g[x]));
                    }
                }
                for (unsigned k = 0; k < n; ++k) { // off-diagonal in any other qubit: zero
                    if (k == q) {
                        continue;
                    }
                    for (const char off: {'1', '2'}) {
                        std::string z = s;
                        z[q]          = '2';
                        z[k]          = off;
                        const auto a  = cv(p->getValueByPath(e, z));
                        MC_CHECK(ref::close(a, C{0, 0}), "entry " << z << " of a gate on qubit " << q << " of " << n << " is " << ref::str(a) << ", expected 0");
                    }
                }
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C04", argc, argv,
                   {{"all-2x2", 3, false, one},
                    {"all-4x4-block-matrices", 3, false, two},
                    {"all-zero-patterns-4x4", 1, false, zeros},
                    {"pairs", 3, false, pairs},
                    {"shapes", 3, false, shapes},
                    {"wide", 2, false, wide}},
                   {"all 2x2 matrices over 9 letters; all 4x4 matrices over 8 2x2 blocks; all 2^16 zero patterns of a 4x4 matrix; 16 patterns for 0-5 qubits, ordered pairs of them; gates on registers up to 128 qubits read by path and index; small and normal tables; fresh, used and collected packages",
                    {"entries are taken from finite alphabets", "dense evaluation in mc/ddx.hpp"}});
}
