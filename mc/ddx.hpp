// Glue between the library under test and the reference model.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
//
#include "dd/Package.hpp"

#include <algorithm>
#include <memory>
#include <set>

namespace ddx {
    using ref::C;
    using ref::M;
    using ref::V;

    // Table shapes that make every hash bucket / cache slot / node chunk collide.
    struct Tiny: dd::DDPackageConfig {
        static constexpr std::size_t UT_VEC_NBUCKET                 = 1U;
        static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 1U;
        static constexpr std::size_t UT_MAT_NBUCKET                 = 1U;
        static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 1U;
        static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 1U;
        static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 1U;
        static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 1U;
        static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 1U;
        static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 1U;
        static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 1U;
        static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 1U;
        static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 1U;
        static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 1U;
        static constexpr std::size_t CT_DM_NOISE_NBUCKET            = 1U;
        static constexpr std::size_t UT_DM_NBUCKET                  = 1U;
        static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE  = 1U;
        static constexpr std::size_t CT_DM_DM_MULT_NBUCKET          = 1U;
        static constexpr std::size_t CT_DM_ADD_NBUCKET              = 1U;
    };
    // Large enough that every computed result stays cached; small enough to construct quickly.
    struct Mid: dd::DDPackageConfig {
        static constexpr std::size_t UT_VEC_NBUCKET                 = 64U;
        static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 64U;
        static constexpr std::size_t UT_MAT_NBUCKET                 = 64U;
        static constexpr std::size_t UT_MAT_INITIAL_ALLOCATION_SIZE = 64U;
        static constexpr std::size_t CT_VEC_ADD_NBUCKET             = 1024U;
        static constexpr std::size_t CT_MAT_ADD_NBUCKET             = 1024U;
        static constexpr std::size_t CT_MAT_TRANS_NBUCKET           = 1024U;
        static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET      = 1024U;
        static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET        = 1024U;
        static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET        = 1024U;
        static constexpr std::size_t CT_VEC_KRON_NBUCKET            = 1024U;
        static constexpr std::size_t CT_MAT_KRON_NBUCKET            = 1024U;
        static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET      = 1024U;
        static constexpr std::size_t CT_DM_NOISE_NBUCKET            = 1024U;
        static constexpr std::size_t UT_DM_NBUCKET                  = 64U;
        static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE  = 64U;
        static constexpr std::size_t CT_DM_DM_MULT_NBUCKET          = 1024U;
        static constexpr std::size_t CT_DM_ADD_NBUCKET              = 1024U;
    };
    template<class Cfg>
    using Pkg = dd::Package<Cfg>;

    inline double val(const dd::CTEntry* e) {
        const auto p = reinterpret_cast<std::uintptr_t>(e);
        const auto v = reinterpret_cast<const dd::CTEntry*>(p & ~static_cast<std::uintptr_t>(1))->value;
        return (p & 1U) != 0U ? -v : v;
    }
    inline C val(const dd::Complex& c) { return {val(c.r), val(c.i)}; }
    inline C cv(const dd::ComplexValue& c) { return {c.r, c.i}; }

    // Independent evaluation of a decision diagram over n qubits: sum over all paths of the product of weights.
    // `base` is the lowest qubit of the diagram (diagrams may start above qubit 0); levels are counted from base.
    inline void evalV(const dd::vEdge& e, int level, const C& acc, std::size_t idx, V& out, int base = 0) {
        if (e.p == nullptr) {
            mc::fail("decision diagram contains a null successor");
        }
        const C w = ref::cmul(acc, val(e.w));
        if (e.isTerminal()) {
            if (level == 0) {
                out[idx] += w;
            } else if (val(e.w) != C{0, 0}) {
                mc::fail("non-zero edge skips " + std::to_string(level) + " level(s) of a state");
            }
            return;
        }
        if (level == 0 || e.p->v != base + level - 1) {
            mc::fail("state node for qubit " + std::to_string(static_cast<int>(e.p->v)) + " found where qubit " + std::to_string(level - 1) + " belongs");
        }
        evalV(e.p->e[0], level - 1, w, idx, out, base);
        evalV(e.p->e[1], level - 1, w, idx | (1ULL << (level - 1)), out, base);
    }
    inline V vec(const dd::vEdge& e, int n, int base = 0) {
        V out(1ULL << n);
        evalV(e, n, {1, 0}, 0, out, base);
        return out;
    }
    template<class Node>
    void evalM(const dd::Edge<Node>& e, int level, const C& acc, std::size_t r, std::size_t c, M& out, int base = 0) {
        if (e.p == nullptr) {
            mc::fail("decision diagram contains a null successor");
        }
        const C w = ref::cmul(acc, val(e.w));
        if (e.isTerminal()) {
            if (level == 0) {
                out(r, c) += w;
            } else if (val(e.w) != C{0, 0}) {
                mc::fail("non-zero edge skips " + std::to_string(level) + " level(s) of a matrix");
            }
            return;
        }
        if (level == 0 || e.p->v != base + level - 1) {
            mc::fail("matrix node for qubit " + std::to_string(static_cast<int>(e.p->v)) + " found where qubit " + std::to_string(level - 1) + " belongs");
        }
        const std::size_t b = 1ULL << (level - 1);
        evalM(e.p->e[0], level - 1, w, r, c, out, base);
        evalM(e.p->e[1], level - 1, w, r, c | b, out, base);
        evalM(e.p->e[2], level - 1, w, r | b, c, out, base);
        evalM(e.p->e[3], level - 1, w, r | b, c | b, out, base);
    }
    inline M mat(const dd::mEdge& e, int n, int base = 0) {
        M out(1ULL << n);
        evalM(e, n, {1, 0}, 0, 0, out, base);
        return out;
    }
    // dense -> library containers
    inline dd::CVec cvec(const V& v) { return dd::CVec(v.begin(), v.end()); }
    inline dd::CMat cmat(const M& m) {
        dd::CMat r(m.d, dd::CVec(m.d));
        for (std::size_t i = 0; i < m.d; ++i) {
            for (std::size_t j = 0; j < m.d; ++j) {
                r[i][j] = m(i, j);
            }
        }
        return r;
    }
    inline dd::GateMatrix gm(const C* g) {
        return {dd::ComplexValue{g[0].real(), g[0].imag()}, dd::ComplexValue{g[1].real(), g[1].imag()}, dd::ComplexValue{g[2].real(), g[2].imag()}, dd::ComplexValue{g[3].real(), g[3].imag()}};
    }
    inline dd::Controls ctls(const std::vector<ref::Ctl>& c) {
        dd::Controls r;
        for (const auto& k: c) {
            r.insert(dd::Control{static_cast<dd::Qubit>(k.q), k.pos ? dd::Control::Type::pos : dd::Control::Type::neg});
        }
        return r;
    }
    inline std::string str(const std::vector<ref::Ctl>& c) {
        std::string s = "{";
        for (const auto& k: c) {
            s += (k.pos ? "+" : "-") + std::to_string(k.q);
        }
        return s + "}";
    }
    // compare and record
    inline void expect(const V& got, const V& want, const std::string& what, double eps = 1e-9) {
        mc::op();
        mc::state(ref::hash(want));
        if (!ref::close(got, want, eps)) {
            mc::fail(what + ": got " + ref::str(got) + ", expected " + ref::str(want));
        }
    }
    inline void expect(const M& got, const M& want, const std::string& what, double eps = 1e-9) {
        mc::op();
        mc::state(ref::hash(want));
        if (!ref::close(got, want, eps)) {
            mc::fail(what + ": got " + ref::str(got) + ", expected " + ref::str(want));
        }
    }
    inline void expect(const C& got, const C& want, const std::string& what, double eps = 1e-9) {
        mc::op();
        mc::state(ref::hash(want));
        if (!ref::close(got, want, eps)) {
            mc::fail(what + ": got " + ref::str(got) + ", expected " + ref::str(want));
        }
    }
    // every assignment of {absent, positive, negative} to the qubits other than those in `skip`
    inline std::vector<ref::Ctl> controlsFrom(std::size_t code, int n, std::initializer_list<int> skip) {
        std::vector<ref::Ctl> r;
        for (int q = 0; q < n; ++q) {
            bool s = false;
            for (const int k: skip) {
                s = s || k == q;
            }
            if (s) {
                continue;
            }
            const auto d = code % 3;
            code /= 3;
            if (d != 0) {
                r.push_back({q, d == 1});
            }
        }
        return r;
    }
    inline std::size_t pow3(int k) {
        std::size_t r = 1;
        while (k-- > 0) {
            r *= 3;
        }
        return r;
    }
    // vector number `code` over an amplitude alphabet
    inline V vecFrom(std::size_t code, int n, const std::vector<C>& alpha) {
        V r(1ULL << n);
        for (auto& x: r) {
            x = alpha[code % alpha.size()];
            code /= alpha.size();
        }
        return r;
    }
    inline std::size_t ipow(std::size_t b, std::size_t e) {
        std::size_t r = 1;
        while (e-- > 0) {
            r *= b;
        }
        return r;
    }
    inline const double S2 = std::sqrt(0.5);

    // ------------------------------------------------------------------------------------------------------
    // Operand sets shared by the checks
    // ------------------------------------------------------------------------------------------------------
    inline const std::vector<C> L3{{0, 0}, {1, 0}, {0, -0.5}};
    inline const std::vector<C> L4{{0, 0}, {1, 0}, {-1, 0}, {0, 1}};
    inline const std::vector<C> L5{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.6, -0.8}};
    inline const std::vector<C> L9{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {S2, 0}, {0.6, -0.8}, {1e-6, 0}, {2.5, 0}, {0, -0.3}};
    inline M                    m2(C a, C b, C c, C d) {
        M r(2);
        r.a = {a, b, c, d};
        return r;
    }
    inline M matFrom(std::size_t code, const std::vector<C>& alpha) { // 2x2
        M r(2);
        for (auto& x: r.a) {
            x = alpha[code % alpha.size()];
            code /= alpha.size();
        }
        return r;
    }
    inline M blocks(const M& a, const M& b, const M& c, const M& d) {
        M r(2 * a.d);
        for (std::size_t i = 0; i < a.d; ++i) {
            for (std::size_t j = 0; j < a.d; ++j) {
                r(i, j)             = a(i, j);
                r(i, j + a.d)       = b(i, j);
                r(i + a.d, j)       = c(i, j);
                r(i + a.d, j + a.d) = d(i, j);
            }
        }
        return r;
    }
    // 2x2 blocks: zero, identity, flip, phase flip, shift, full, rotated, scaled identity
    inline const std::vector<M>& B8() {
        static const std::vector<M> b{m2(0, 0, 0, 0), m2(1, 0, 0, 1), m2(0, 1, 1, 0), m2(1, 0, 0, -1), m2(0, 1, 0, 0), m2(1, 2, 3, 4), m2(C{0, 0.6}, -0.8, 0.8, C{0, -0.6}), m2(0.5, 0, 0, 0.5)};
        return b;
    }
    // 4x4 matrix number `code` built from the first k blocks
    inline M mat4(std::size_t code, std::size_t k) {
        const auto& b = B8();
        return blocks(b[code % k], b[code / k % k], b[code / k / k % k], b[code / k / k / k % k]);
    }
    // a spread of dense, sparse, structured and badly scaled vectors of n qubits
    constexpr unsigned NVP = 14;
    inline V           vecPat(int n, unsigned pat) {
        V v(1ULL << n);
        for (std::size_t i = 0; i < v.size(); ++i) {
            const auto d = static_cast<double>(i);
            switch (pat) {
                case 0: v[i] = i == 0 ? 1 : 0; break;
                case 1: v[i] = i == v.size() - 1 ? C{0, 1} : C{0, 0}; break;
                case 2: v[i] = 1. / std::sqrt(static_cast<double>(v.size())); break;
                case 3: v[i] = (__builtin_popcountll(i) & 1) != 0 ? -0.5 : 0.5; break;
                case 4: v[i] = i == 0 || i == v.size() - 1 ? S2 : 0; break;
                case 5: v[i] = C{std::cos(d), std::sin(d)} / std::sqrt(static_cast<double>(v.size())); break;
                case 6: v[i] = {d + 1, -d}; break;
                case 7: v[i] = i % 3 == 1 ? C{0, 0} : C{0.3 - 0.1 * d, 0.05 * d}; break;
                case 8: v[i] = __builtin_popcountll(i) == 1 ? C{0.4, 0} : C{0, 0}; break;
                case 9: v[i] = std::pow(10., -static_cast<double>(i % 6)); break;
                case 10: v[i] = (i & 1U) != 0 ? C{0, 0} : C{-1, d}; break;
                case 11: v[i] = i >= v.size() / 2 ? C{d, 1} : C{0, 0}; break;
                case 12: v[i] = 0; break;
                default: v[i] = C{static_cast<double>(i * 7 % 5) - 2, static_cast<double>(i * 3 % 4) - 1}; break;
            }
        }
        return v;
    }
    constexpr unsigned NMP = 16;
    inline M           matPat(int n, unsigned pat) {
        const std::size_t d = 1ULL << n;
        M                 m(d);
        for (std::size_t r = 0; r < d; ++r) {
            for (std::size_t c = 0; c < d; ++c) {
                const auto R_ = static_cast<double>(r);
                const auto C_ = static_cast<double>(c);
                C&         x  = m(r, c);
                switch (pat) {
                    case 0: x = r == c ? 1 : 0; break;
                    case 1: x = C{R_ + 1, C_ - 1}; break;
                    case 2: x = std::polar(1. / std::sqrt(static_cast<double>(d)), 2 * M_PI * R_ * C_ / static_cast<double>(d)); break; // QFT
                    case 3: x = (r + 1) % d == c ? 1 : 0; break;                                                                   // cyclic shift
                    case 4: x = r == c ? C{std::cos(R_), std::sin(R_)} : C{0, 0}; break;
                    case 5: x = (__builtin_popcountll(r & c) & 1) != 0 ? -0.25 : 0.25; break;
                    case 6: x = r < c ? C{R_ - C_, 0.5} : C{0, 0}; break;
                    case 7: x = r + c == d - 1 ? C{0, 1} : C{0, 0}; break;
                    case 8: x = C{static_cast<double>((r * 5 + c * 3) % 7) - 3, static_cast<double>((r + 2 * c) % 3) - 1}; break;
                    case 9: x = r == c ? 0.5 : 0; break;
                    case 10: x = r == 0 && c == d - 1 ? C{0, -2} : C{0, 0}; break;
                    case 11: x = C{R_ == C_ ? 2. : 0.3 * (R_ + C_), R_ == C_ ? 0. : R_ - C_}; break; // hermitian
                    case 12: x = 0; break;
                    case 13: x = r == c || r + c == d - 1 ? S2 : 0; break;
                    case 14: x = (r ^ c) == 1 ? C{0, r < c ? -1. : 1.} : C{0, 0}; break; // Y on the lowest qubit
                    default: x = std::pow(10., -static_cast<double>((r * 3 + c) % 6)); break;
                }
            }
        }
        return m;
    }
    inline double scaleOf(const V& v) { // largest magnitude; tolerances of comparisons are relative to it
        double s = 1;
        for (const auto& x: v) {
            s = std::max(s, std::abs(x));
        }
        return s;
    }

    // ------------------------------------------------------------------------------------------------------
    // Environments: the same question is asked of a package in different conditions.
    // ------------------------------------------------------------------------------------------------------
    template<class T>
    struct Tag {
        using type = T;
    };
    template<class F>
    void withCfg(unsigned c, F f) {
        if (c == 0) {
            f(Tag<Tiny>{});
        } else {
            f(Tag<Mid>{});
        }
    }
    // 0: fresh; 1: earlier operations left unreferenced nodes and cached results; 2: the same, followed by a
    // forced collection (nodes and numbers get recycled); 3: as 2 with some diagrams kept alive
    template<class P>
    void warm(P& p, int n, unsigned mode) {
        if (mode == 0 || n <= 0) {
            return;
        }
        const auto             nq = static_cast<dd::QubitCount>(n);
        std::vector<dd::vEdge> vs;
        std::vector<dd::mEdge> ms;
        vs.push_back(p.makeZeroState(nq));
        vs.push_back(p.makeBasisState(nq, std::vector<bool>(static_cast<std::size_t>(n), true)));
        vs.push_back(p.makeBasisState(nq, std::vector<dd::BasisStates>(static_cast<std::size_t>(n), dd::BasisStates::left)));
        if (n <= 4) {
            dd::CVec v;
            for (std::size_t i = 0; i < (1ULL << n); ++i) {
                v.emplace_back(0.3 + 0.11 * static_cast<double>(i % 3), i % 4 == 1 ? -0.7 : 0.2 * static_cast<double>(i % 2));
            }
            vs.push_back(p.makeStateFromVector(v));
        }
        for (int q = 0; q < n; ++q) {
            ms.push_back(p.makeGateDD(dd::Hmat, nq, static_cast<dd::Qubit>(q)));
            ms.push_back(p.makeGateDD(dd::Smat, nq, static_cast<dd::Qubit>(q)));
            ms.push_back(p.makeGateDD(dd::RYmat(0.4), nq, static_cast<dd::Qubit>(q)));
            if (q > 0) {
                ms.push_back(p.makeGateDD(dd::Xmat, nq, dd::Control{0}, static_cast<dd::Qubit>(q)));
                ms.push_back(p.makeGateDD(dd::Zmat, nq, dd::Control{static_cast<dd::Qubit>(q), dd::Control::Type::neg}, 0));
            }
        }
        ms.push_back(p.makeIdent(nq));
        std::vector<dd::vEdge> rv;
        std::vector<dd::mEdge> rm;
        for (const auto& m: ms) {
            for (const auto& v: vs) {
                rv.push_back(p.multiply(m, v));
            }
            rm.push_back(p.multiply(m, ms[0]));
            rm.push_back(p.transpose(m));
            rm.push_back(p.conjugateTranspose(m));
            rm.push_back(p.add(m, ms[1]));
        }
        for (const auto& v: vs) {
            rv.push_back(p.add(v, vs[0]));
            (void)p.innerProduct(v, vs[1]);
            (void)p.fidelity(v, rv[0]);
        }
        if (mode == 3) {
            p.incRef(vs[2]);
            p.incRef(rv[1]);
            p.incRef(rm[0]);
            p.incRef(rm[rm.size() - 1]);
        }
        if (mode >= 2) {
            p.garbageCollect(true);
        }
    }
    inline const char* warmName(unsigned m) {
        static const char* const N[] = {"fresh", "after other operations", "after other operations and a collection", "after other operations and a collection with live diagrams"};
        return N[m];
    }
    // the same diagram times a number
    template<class P, class E>
    E scaled(P& p, const E& e, const C& c) {
        const C w = ref::cmul(val(e.w), c);
        if (w == C{0, 0}) {
            return E::zero;
        }
        const auto l = p.cn.lookup(w.real(), w.imag());
        return l == dd::Complex::zero ? E::zero : E{e.p, l};
    }
    // no operation may keep temporaries: compares the number in use before and after
    template<class P>
    struct NoLeak {
        P&          p;
        std::size_t before;
        explicit NoLeak(P& q):
            p(q), before(q.cn.cacheCount()) {}
        void check(const std::string& what) const {
            if (p.cn.cacheCount() != before) {
                mc::fail(what + ": " + std::to_string(before) + " temporaries in use before, " + std::to_string(p.cn.cacheCount()) + " after");
            }
        }
    };
    // the pool of temporaries is intact: exactly `inUse` numbers are missing from the first chunk and no entry is
    // handed out twice (only for histories that never needed more than the first chunk)
    template<class P>
    void checkTemps(P& p, const std::string& what, std::size_t inUse = 0) {
        auto& cache = p.cn.complexCache;
        if (cache.getCount() != inUse) {
            mc::fail(what + ": " + std::to_string(cache.getCount()) + " temporaries in use, expected " + std::to_string(inUse));
        }
        const auto              alloc = cache.getAllocations();
        const auto              k     = (alloc - inUse) / 2;
        std::vector<dd::Complex> got;
        std::vector<const void*> all;
        for (std::size_t i = 0; i < k; ++i) {
            got.push_back(cache.getCachedComplex());
            all.push_back(got.back().r);
            all.push_back(got.back().i);
        }
        if (cache.getAllocations() != alloc) {
            mc::fail(what + ": temporaries were lost (only part of the " + std::to_string(alloc) + " allocated ones can be handed out)");
        }
        std::sort(all.begin(), all.end());
        if (std::adjacent_find(all.begin(), all.end()) != all.end()) {
            mc::fail(what + ": a temporary is handed out twice");
        }
        while (!got.empty()) {
            cache.returnToCache(got.back());
            got.pop_back();
        }
    }
    struct Capture { // captures std::cout
        std::ostringstream os;
        std::streambuf*    old;
        Capture():
            old(std::cout.rdbuf(os.rdbuf())) {}
        ~Capture() { std::cout.rdbuf(old); }
    };
    // number of distinct nodes of a diagram, including the terminal
    template<class Node>
    std::size_t countNodes(const dd::Edge<Node>& root) {
        const auto align = [](const Node* q) { return reinterpret_cast<const Node*>(reinterpret_cast<std::uintptr_t>(q) & ~static_cast<std::uintptr_t>(7)); };
        std::vector<const Node*> todo{align(root.p)};
        std::set<const Node*>    seen{todo.front()};
        while (!todo.empty()) {
            const Node* q = todo.back();
            todo.pop_back();
            if (Node::isTerminal(q)) {
                continue;
            }
            for (const auto& e: q->e) {
                const Node* c = align(e.p);
                if (c != nullptr && seen.insert(c).second) {
                    todo.push_back(c);
                }
            }
        }
        return seen.size();
    }
} // namespace ddx
