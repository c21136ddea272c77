// C33: requests that cannot be fulfilled raise an exception and leave the package as it was.
#include "ddx.hpp"
#include "dd/Export.hpp"

#include <cstdio>
#include <filesystem>
#include <map>
#include <sstream>
using namespace ddx;
namespace {
    // true if the request raised an exception
    template<class F>
    bool refused(const F& f) {
        try {
            f();
        } catch (const mc::Violation&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    C amp(const dd::vEdge& r, const std::string& bits) { // index = qubit
        C    w = val(r.w);
        auto e = r;
        while (!e.isTerminal()) {
            e = e.p->e[static_cast<std::size_t>(bits[static_cast<std::size_t>(e.p->v)] - '0')];
            w = ref::cmul(w, val(e.w));
        }
        return w;
    }
    template<class E>
    void levels(const E& e, unsigned n, unsigned start, const std::string& what) {
        const dd::Edge<std::remove_pointer_t<decltype(e.p)>>* x = &e;
        for (int q = static_cast<int>(start + n) - 1; q >= static_cast<int>(start); --q) {
            MC_CHECK(!x->isTerminal() && x->p->v == q, what << ": the diagram does not have one level per qubit");
            for (const auto& c: x->p->e) {
                if (!(val(c.w) == C{0, 0})) {
                    x = &c;
                    break;
                }
            }
        }
        MC_CHECK(x->isTerminal(), what << ": the diagram has more levels than qubits");
    }
    // A package together with diagrams that are in use, and a twin that never sees an invalid request.
    template<class P>
    struct Session {
        unsigned           n;
        std::unique_ptr<P> p;
        std::unique_ptr<P> twin;
        struct Held {
            dd::vEdge a;
            dd::vEdge b;
            dd::mEdge m;
            dd::mEdge i;
            dd::dEdge d;
        } h, g;
        explicit Session(unsigned nq):
            n(nq), p(std::make_unique<P>(nq)), twin(std::make_unique<P>(nq)) {
            if (n > 0) {
                h = hold(*p);
                g = hold(*twin);
            }
        }
        unsigned k() const { return std::min(n, 3U); } // qubits of the diagrams used for the comparison
        Held     hold(P& x) {
            Held       r;
            const auto q = static_cast<dd::QubitCount>(k());
            r.a          = x.makeStateFromVector(cvec(vecPat(static_cast<int>(k()), 5)));
            r.b          = x.makeBasisState(static_cast<dd::QubitCount>(n), std::vector<dd::BasisStates>(n, dd::BasisStates::left));
            r.m          = x.makeGateDD(dd::RYmat(0.7), q, static_cast<dd::Qubit>(k() - 1));
            r.i          = x.makeIdent(q);
            r.d          = x.makeZeroDensityOperator(q);
            x.incRef(r.a);
            x.incRef(r.b);
            x.incRef(r.m);
            x.incRef(r.i);
            x.incRef(r.d);
            return r;
        }
        // everything observable of a short piece of work
        std::vector<double> work(P& x, const Held& y, unsigned round) {
            std::vector<double> o;
            const auto          q   = static_cast<dd::QubitCount>(k());
            const auto          add = [&](const C& c) {
                o.push_back(c.real());
                o.push_back(c.imag());
            };
            const auto all = [&](const dd::vEdge& e) {
                for (const auto& c: vec(e, static_cast<int>(k()))) {
                    add(c);
                }
            };
            all(y.a);
            all(x.multiply(y.m, y.a));
            all(x.add(y.a, x.makeZeroState(q)));
            const auto u = x.makeGateDD(dd::RXmat(0.1 * (round + 1)), q, static_cast<dd::Qubit>(round % k()));
            for (const auto& c: mat(x.multiply(u, x.conjugateTranspose(y.m)), static_cast<int>(k())).a) {
                add(c);
            }
            for (const auto& c: mat(y.i, static_cast<int>(k())).a) {
                add(c);
            }
            add(cv(x.innerProduct(y.a, y.a)));
            o.push_back(x.expectationValue(y.i, y.a));
            std::string z(n, '0');
            for (unsigned b = 0; b < std::min(n, 5U); ++b) {
                z[n - 1 - b] = '1';
                add(amp(y.b, z) * std::pow(2., n / 2.));
            }
            auto d = y.d;
            x.incRef(d);
            x.applyOperationToDensity(d, u, true);
            for (const auto& row: x.getDensityMatrix(d)) {
                for (const auto& c: row) {
                    add(C{c.real(), c.imag()});
                }
            }
            dd::dEdge::alignDensityEdge(d);
            x.decRef(d);
            if (n <= 5) { // as large as the package allows
                const auto w = x.makeStateFromVector(cvec(vecPat(static_cast<int>(n), 7)));
                for (const auto& c: vec(w, static_cast<int>(n))) {
                    add(c);
                }
            }
            return o;
        }
        std::vector<std::size_t> counts(P& x) {
            x.garbageCollect(true);
            return {x.qubits(), x.vUniqueTable.getNodeCount(), x.vUniqueTable.getActiveNodeCount(), x.mUniqueTable.getNodeCount(), x.mUniqueTable.getActiveNodeCount(), x.dUniqueTable.getNodeCount(), x.dUniqueTable.getActiveNodeCount(), x.cn.complexTable.getCount(), x.cn.cacheCount()};
        }
        unsigned round = 0;
        void     compare(const std::string& what, bool collect = true) {
            mc::op();
            if (n == 0) {
                return;
            }
            const auto a = work(*p, h, round);
            const auto b = work(*twin, g, round);
            ++round;
            MC_CHECK(a.size() == b.size(), "after " << what << ": results differ");
            for (std::size_t i = 0; i < a.size(); ++i) {
                MC_CHECK(std::abs(a[i] - b[i]) < 1e-11, "after " << what << ": the package gives " << a[i] << " instead of " << b[i]);
            }
            if (collect) {
                static const char* const N[] = {"qubits", "state nodes", "active state nodes", "matrix nodes", "active matrix nodes", "density matrix nodes", "active density matrix nodes", "numbers", "temporary numbers"};
                const auto               c   = counts(*p);
                const auto               d   = counts(*twin);
                for (std::size_t i = 0; i < c.size(); ++i) {
                    MC_CHECK(c[i] == d[i], "after " << what << ": " << c[i] << " " << N[i] << " instead of " << d[i]);
                }
            }
        }
    };
    // ---- more qubits than the package has ---------------------------------------------------------------------
    constexpr unsigned NKINDS = 24;
    const char*        kindName(unsigned k) {
        static const char* const N[] = {"makeZeroState", "makeBasisState(bits)", "makeBasisState(states)", "makeGateDD", "makeGateDD with a control", "makeGateDD with controls", "makeTwoQubitGateDD", "makeSWAPDD", "controlled makeSWAPDD", "makePeresDD", "makePeresdagDD", "makeiSWAPDD", "makeiSWAPinvDD", "makeDCXDD", "makeRZZDD", "makeRYYDD", "makeRXXDD", "makeRZXDD", "makeECRDD", "makeXXMinusYYDD", "makeXXPlusYYDD", "makeIdent", "makeIdent(range)", "makeZeroDensityOperator"};
        return N[k];
    }
    bool two(unsigned k) { return k >= 4 && k <= 20; }
    template<class P>
    void request(P& p, unsigned kind, unsigned n, unsigned start, const std::string& what) {
        const auto q  = static_cast<dd::QubitCount>(n);
        const auto hi = static_cast<dd::Qubit>(std::min(127U, start + n - 1));
        const auto lo = static_cast<dd::Qubit>(std::min(start, 126U));
        const auto v  = [&](const dd::vEdge& e) { levels(e, n, start, what); };
        const auto m  = [&](const dd::mEdge& e) { levels(e, n, start, what); };
        const dd::Controls none{};
        switch (kind) {
            case 0: v(p.makeZeroState(q, start)); break;
            case 1: v(p.makeBasisState(q, std::vector<bool>(400, true), start)); break;
            case 2: v(p.makeBasisState(q, std::vector<dd::BasisStates>(400, dd::BasisStates::minus), start)); break;
            case 3: m(p.makeGateDD(dd::Hmat, q, hi, start)); break;
            case 4: m(p.makeGateDD(dd::Xmat, q, dd::Control{hi}, lo, start)); break;
            case 5: m(p.makeGateDD(dd::Xmat, q, dd::Controls{dd::Control{lo, dd::Control::Type::neg}}, hi, start)); break;
            case 6: m(p.makeTwoQubitGateDD(dd::SWAPmat, q, lo, hi, start)); break;
            case 7: m(p.makeSWAPDD(q, lo, hi, start)); break;
            case 8: m(p.makeSWAPDD(q, none, lo, hi, start)); break;
            case 9: m(p.makePeresDD(q, none, lo, hi, start)); break;
            case 10: m(p.makePeresdagDD(q, none, lo, hi, start)); break;
            case 11: m(p.makeiSWAPDD(q, lo, hi, start)); break;
            case 12: m(p.makeiSWAPinvDD(q, hi, lo, start)); break;
            case 13: m(p.makeDCXDD(q, lo, hi, start)); break;
            case 14: m(p.makeRZZDD(q, lo, hi, 0.4, start)); break;
            case 15: m(p.makeRYYDD(q, lo, hi, 0.4, start)); break;
            case 16: m(p.makeRXXDD(q, hi, lo, 0.4, start)); break;
            case 17: m(p.makeRZXDD(q, lo, hi, 0.4, start)); break;
            case 18: m(p.makeECRDD(q, lo, hi, start)); break;
            case 19: m(p.makeXXMinusYYDD(q, lo, hi, 0.4, 0.2, start)); break;
            case 20: m(p.makeXXPlusYYDD(q, lo, hi, 0.4, 0.2, start)); break;
            case 21: m(p.makeIdent(q)); break;
            case 22: m(p.makeIdent(static_cast<dd::Qubit>(start), static_cast<dd::Qubit>(start + n - 1))); break;
            default: levels(p.makeZeroDensityOperator(q), n, 0, what); break;
        }
    }
    void limits() {
        static const unsigned NS[] = {1, 2, 3, 4, 127, 128};
        const unsigned        N    = NS[mc::choose(6, "size of the package")];
        const unsigned        cfg  = mc::choose(2, "cfg");
        const unsigned        kind = mc::choose(NKINDS, "request");
        const unsigned        warm_ = mc::choose(2, "invalid requests first");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            Session<P>                s(N);
            static const unsigned     vals[] = {0, 1, 2, 3, 4, 5, 6, 63, 64, 126, 127, 128, 129, 130, 200, 254, 255};
            std::vector<std::array<unsigned, 2>> rs;
            for (const unsigned n: vals) {
                for (const unsigned st: vals) {
                    const bool ok = n + st <= N;
                    if (n == 0 && (kind >= 3 || st > 0) && !(kind >= 21 && st == 0)) {
                        continue;
                    }
                    if (two(kind) && n < 2) {
                        continue;
                    }
                    if ((kind == 21 || kind == 23) && st != 0) {
                        continue;
                    }
                    if (kind == 22 && n + st > 128) { // not expressible
                        continue;
                    }
                    if (ok && n > 6 && !(n == N || n + st == N)) { // large valid ones: only at the limit
                        continue;
                    }
                    rs.push_back({n, st});
                }
            }
            if (warm_ == 1) {
                std::stable_sort(rs.begin(), rs.end(), [&](const auto& a, const auto& b) { return (a[0] + a[1] <= N) < (b[0] + b[1] <= N); });
            }
            for (const auto& r: rs) {
                mc::alive();
                mc::op();
                const bool ok   = r[0] + r[1] <= N;
                const auto what = std::string(kindName(kind)) + " of " + std::to_string(r[0]) + " qubits from qubit " + std::to_string(r[1]) + " in a package of " + std::to_string(N);
                MC_NOTE(what);
                const bool no = refused([&] { request(*s.p, kind, r[0], r[1], what); });
                MC_CHECK(ok || no, what << " was not refused");
                MC_CHECK(!ok || !no, what << " was refused");
                if (ok) { // the twin gets the same request
                    request(*s.twin, kind, r[0], r[1], what);
                }
                mc::state(mc::mix(mc::mix(kind, N), r[0] * 256 + r[1]));
                if (!ok && (r[0] < 8 || N > 100)) {
                    s.compare(what);
                }
            }
            s.compare(kindName(kind));
        });
    }
    // ---- vectors and matrices of every shape ------------------------------------------------------------------
    void vectors() {
        const unsigned N   = 1 + mc::choose(6, "size of the package");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            Session<P> s(N);
            for (std::size_t len = 0; len <= 520; len += len < 70 || (len >= 126 && len < 130) || (len >= 254 && len < 258) || len >= 510 ? 1 : 2) {
                mc::alive();
                for (unsigned zero = 0; zero < 2; ++zero) { // also of a vector without non-zero entries
                    const bool pow2 = len > 0 && (len & (len - 1)) == 0;
                    const bool ok   = len == 0 || (pow2 && len <= (1ULL << N));
                    dd::CVec   v(len);
                    for (std::size_t i = 0; i < len; ++i) {
                        v[i] = zero != 0 ? std::complex<dd::fp>{0, 0} : std::complex<dd::fp>{1. + static_cast<double>(i % 5), static_cast<double>(i % 3)};
                    }
                    const auto what = "a state vector of length " + std::to_string(len) + " in a package of " + std::to_string(N) + " qubits";
                    MC_NOTE(what);
                    mc::op();
                    mc::state(mc::mix(N, len));
                    const bool no = refused([&] {
                        const auto e = s.p->makeStateFromVector(v);
                        if (ok && len > 1 && zero == 0) {
                            int n = 0;
                            while ((1ULL << n) < len) {
                                ++n;
                            }
                            expect(vec(e, n), V(v.begin(), v.end()), what);
                        } });
                    MC_CHECK(ok || no, what << " was not refused");
                    MC_CHECK(!ok || !no, what << " was refused");
                    if (!ok && (len < 20 || pow2)) {
                        s.compare(what);
                    }
                }
            }
            s.compare("state vectors of all lengths");
        });
    }
    void matrices() {
        const unsigned N    = 1 + mc::choose(4, "size of the package");
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned rows = mc::choose(19, "rows");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            Session<P> s(N);
            const auto ask = [&](const std::vector<std::size_t>& lens, bool zero) {
                mc::alive();
                mc::op();
                dd::CMat    m;
                std::string shape;
                bool        square = true;
                for (std::size_t i = 0; i < lens.size(); ++i) {
                    m.emplace_back();
                    for (std::size_t j = 0; j < lens[i]; ++j) {
                        m.back().emplace_back(zero ? 0. : 1. + static_cast<double>((i * 3 + j) % 5), 0.);
                    }
                    shape += " " + std::to_string(lens[i]);
                    square = square && lens[i] == lens.size();
                }
                const auto what = "a matrix with rows of length" + shape + " in a package of " + std::to_string(N) + " qubits";
                const bool ok   = lens.empty() || (square && (lens.size() & (lens.size() - 1)) == 0 && lens.size() <= (1ULL << N));
                MC_NOTE(what);
                std::uint64_t h = N;
                for (const auto l: lens) {
                    h = mc::mix(h, l);
                }
                mc::state(h);
                const bool no = refused([&] {
                    const auto e = s.p->makeDDFromMatrix(m);
                    if (ok && lens.size() > 1 && !zero) {
                        int n = 0;
                        while ((1ULL << n) < lens.size()) {
                            ++n;
                        }
                        M want(lens.size());
                        for (std::size_t i = 0; i < want.d; ++i) {
                            for (std::size_t j = 0; j < want.d; ++j) {
                                want(i, j) = C{m[i][j].real(), m[i][j].imag()};
                            }
                        }
                        expect(mat(e, n), want, what);
                    } });
                MC_CHECK(ok || no, what << " was not refused");
                MC_CHECK(!ok || !no, what << " was refused");
                if (!ok && s.round < 40) {
                    s.compare(what);
                }
            };
            for (std::size_t c = 0; c <= 18; ++c) { // all rows alike
                ask(std::vector<std::size_t>(rows, c), false);
                ask(std::vector<std::size_t>(rows, c), true);
            }
            if (rows <= 4) { // every combination of slightly wrong rows
                for (std::size_t k = 0; k < pow3(static_cast<int>(rows)); ++k) {
                    std::vector<std::size_t> l(rows);
                    auto                     d = k;
                    for (auto& x: l) {
                        x = rows + d % 3 - (rows > 0 ? 1 : 0);
                        d /= 3;
                    }
                    ask(l, false);
                }
            }
            for (std::size_t r = 0; r < rows; ++r) { // one wrong row
                for (const std::size_t w: {std::size_t{0}, std::size_t{1}, static_cast<std::size_t>(rows) / 2, static_cast<std::size_t>(rows) - 1, static_cast<std::size_t>(rows) + 1, 2 * static_cast<std::size_t>(rows)}) {
                    std::vector<std::size_t> l(rows, rows);
                    l[r] = w;
                    ask(l, false);
                    ask(l, true);
                }
            }
            if (rows == 18) { // larger ones around the limit
                for (const std::size_t k: {31U, 32U, 33U, 64U}) {
                    ask(std::vector<std::size_t>(k, k), false);
                }
            }
            s.compare("matrices of all shapes");
        });
    }
    // ---- descriptions of basis states -------------------------------------------------------------------------
    void basis() {
        const unsigned N   = 1 + mc::choose(5, "size of the package");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            Session<P> s(N);
            for (unsigned len = 0; len <= N + 2; ++len) {
                for (unsigned n = 0; n <= N + 1; ++n) {
                    for (unsigned st = 0; st <= N + 1; ++st) {
                        for (unsigned kind = 0; kind < 2; ++kind) {
                            mc::alive();
                            mc::op();
                            if (n == 0 && st > 0) {
                                continue;
                            }
                            const bool ok   = n + st <= N && n + st <= len;
                            const auto what = "a basis state of " + std::to_string(n) + " qubits from qubit " + std::to_string(st) + " described by " + std::to_string(len) + (kind == 0 ? " bits" : " states") + " in a package of " + std::to_string(N) + " qubits";
                            MC_NOTE(what);
                            mc::state(mc::mix(mc::mix(N, len), n * 16 + st));
                            std::vector<bool>            b(len);
                            std::vector<dd::BasisStates> k(len, dd::BasisStates::zero);
                            std::string                  bits(N, '0');
                            for (unsigned i = 0; i < len; ++i) {
                                b[i] = i % 2 == 1;
                                k[i] = i % 2 == 1 ? dd::BasisStates::one : dd::BasisStates::zero;
                                if (i < N) {
                                    bits[i] = i % 2 == 1 ? '1' : '0';
                                }
                            }
                            const auto q  = static_cast<dd::QubitCount>(n);
                            const bool no = refused([&] {
                                const auto e = kind == 0 ? s.p->makeBasisState(q, b, st) : s.p->makeBasisState(q, k, st);
                                if (ok) {
                                    levels(e, n, st, what);
                                    expect(amp(e, bits), C{1, 0}, what);
                                } });
                            MC_CHECK(ok || no, what << " was not refused");
                            MC_CHECK(!ok || !no, what << " was refused");
                            if (!ok && N <= 3) {
                                s.compare(what);
                            }
                        }
                    }
                }
            }
            s.compare("descriptions of basis states");
        });
    }
    // ---- results that do not fit ------------------------------------------------------------------------------
    void combined() {
        static const unsigned NS[] = {1, 2, 3, 4, 5, 128};
        const unsigned        N    = NS[mc::choose(6, "size of the package")];
        const unsigned        cfg  = mc::choose(2, "cfg");
        const unsigned        kind = mc::choose(8, "request");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            Session<P>            s(N);
            auto                  other  = std::make_unique<P>(128);
            static const unsigned vals[] = {1, 2, 3, 4, 5, 6, 63, 64, 65, 126, 127, 128};
            const auto            state  = [](P& p, unsigned n, unsigned z) { return p.makeBasisState(static_cast<dd::QubitCount>(n), std::vector<dd::BasisStates>(n, z == 0 ? dd::BasisStates::one : dd::BasisStates::right)); };
            const auto            gate   = [](P& p, unsigned n, unsigned z) { return z == 0 ? p.makeIdent(static_cast<dd::QubitCount>(n)) : p.makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(n / 2)); };
            for (const unsigned a: vals) {
                for (const unsigned b: vals) {
                    for (unsigned z = 0; z < 4; ++z) {
                        mc::alive();
                        const bool pair = kind <= 2;
                        if (pair && z > 0 && N > 100 && cfg == 0) { // takes forever without a cache
                            continue;
                        }
                        if (pair ? (a > N || b > N) : b > 1) {
                            continue;
                        }
                        const unsigned need = pair ? a + b : a;
                        const bool     ok   = need <= N;
                        std::string    what;
                        bool           no = false;
                        switch (kind) {
                            case 0: {
                                const auto x = state(*s.p, a, z % 2);
                                const auto y = state(*s.p, b, z / 2);
                                no           = refused([&] { levels(s.p->kronecker(x, y), need, 0, "the tensor product"); });
                                what         = "a tensor product of states of " + std::to_string(a) + " and " + std::to_string(b) + " qubits";
                                break;
                            }
                            case 1: {
                                const auto x = gate(*s.p, a, z % 2);
                                const auto y = gate(*s.p, b, z / 2);
                                no           = refused([&] { levels(s.p->kronecker(x, y), need, 0, "the tensor product"); });
                                what         = "a tensor product of matrices on " + std::to_string(a) + " and " + std::to_string(b) + " qubits";
                                break;
                            }
                            case 2: {
                                if (b > 127) {
                                    continue;
                                }
                                const auto x = gate(*s.p, a, z % 2);
                                no           = refused([&] {
                                    if (z / 2 == 0) {
                                        levels(s.p->extend(x, static_cast<dd::Qubit>(b)), need, 0, "the extension");
                                    } else {
                                        levels(s.p->extend(x, 0, static_cast<dd::Qubit>(b)), need, 0, "the extension");
                                    } });
                                what         = "an extension of a matrix on " + std::to_string(a) + " qubits by " + std::to_string(b);
                                break;
                            }
                            case 3: {
                                auto x = state(*other, a, z % 2);
                                no     = refused([&] { levels(s.p->transfer(x), a, 0, "the transferred state"); });
                                what   = "a transfer of a state of " + std::to_string(a) + " qubits";
                                break;
                            }
                            case 4: {
                                auto x = gate(*other, a, z % 2);
                                no     = refused([&] { levels(s.p->transfer(x), a, 0, "the transferred matrix"); });
                                what   = "a transfer of a matrix on " + std::to_string(a) + " qubits";
                                break;
                            }
                            case 5: {
                                std::stringstream f;
                                dd::serialize(state(*other, a, z % 2), f, z / 2 == 0);
                                no   = refused([&] { levels(s.p->template deserialize<dd::vNode>(f, z / 2 == 0), a, 0, "the deserialized state"); });
                                what = "a serialized state of " + std::to_string(a) + " qubits";
                                break;
                            }
                            case 6: {
                                std::stringstream f;
                                dd::serialize(gate(*other, a, z % 2), f, z / 2 == 0);
                                no   = refused([&] { levels(s.p->template deserialize<dd::mNode>(f, z / 2 == 0), a, 0, "the deserialized matrix"); });
                                what = "a serialized matrix on " + std::to_string(a) + " qubits";
                                break;
                            }
                            default: {
                                std::vector<bool> anc(a, z % 2 == 1);
                                no   = refused([&] {
                                    const auto e = s.p->createInitialMatrix(static_cast<dd::QubitCount>(a), anc);
                                    levels(e, a, 0, "the initial matrix");
                                    s.p->decRef(e); });
                                what = "an initial matrix on " + std::to_string(a) + " qubits";
                                break;
                            }
                        }
                        what += " in a package of " + std::to_string(N) + " qubits";
                        mc::op();
                        MC_NOTE(what);
                        mc::state(mc::mix(mc::mix(N, kind), a * 256 + b));
                        MC_CHECK(ok || no, what << " was not refused");
                        MC_CHECK(!ok || !no, what << " was refused");
                        if (!ok && (N <= 5 || a + b > 120)) {
                            s.compare(what);
                        }
                    }
                }
            }
            s.compare("results of every size");
        });
    }
    // ---- mismatched operands, density matrices, files ------------------------------------------------------------
    void operands() {
        const unsigned N   = 1 + mc::choose(5, "size of the package");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            Session<P> s(N);
            for (unsigned a = 1; a <= N; ++a) {
                for (unsigned b = 0; b <= N; ++b) {
                    for (unsigned z = 0; z < 8; ++z) {
                        mc::alive();
                        mc::op();
                        const auto qa = static_cast<dd::QubitCount>(a);
                        const auto qb = static_cast<dd::QubitCount>(b);
                        const auto m  = z % 2 == 0 ? s.p->makeIdent(qa) : s.p->makeGateDD(dd::Zmat, qa, static_cast<dd::Qubit>(a - 1));
                        const auto v  = z / 2 % 2 == 0 ? s.p->makeZeroState(qb) : s.p->makeBasisState(qb, std::vector<dd::BasisStates>(b, dd::BasisStates::plus));
                        const auto what = "an expectation value of a matrix on " + std::to_string(a) + " qubits for a state of " + std::to_string(b);
                        MC_NOTE(what);
                        mc::state(mc::mix(mc::mix(N, a), b * 8 + z));
                        if (z / 4 == 1) { // results needed later than the refusal are in use
                            s.p->incRef(m);
                            s.p->incRef(v);
                        }
                        const bool no = refused([&] { expect(C{s.p->expectationValue(m, v), 0}, C{z % 2 == 0 || z / 2 % 2 == 0 ? 1. : 0., 0}, what); });
                        MC_CHECK(a == b || no, what << " was not refused");
                        MC_CHECK(a != b || !no, what << " was refused");
                        if (z / 4 == 1) {
                            s.p->decRef(m);
                            s.p->decRef(v);
                        }
                        s.compare(what);
                        // and the other way round: a number as operator
                        if (b > 0) {
                            const auto w = s.p->makeZeroState(qb); // the other one may have been collected
                            MC_CHECK(refused([&] { (void)s.p->expectationValue(dd::mEdge::one, w); }), "an expectation value of a number for a state of " << b << " qubits was not refused");
                        }
                    }
                }
            }
        });
    }
    void files() {
        const unsigned N    = 1 + mc::choose(3, "size of the package");
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned node = mc::choose(2, "matrix");
        const unsigned bin  = mc::choose(2, "binary");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            namespace fs = std::filesystem;
            Session<P> s(N);
            char       dir[] = "/tmp/dd-c33-XXXXXX";
            if (mkdtemp(dir) == nullptr) {
                mc::fail("no scratch directory");
            }
            const std::string   d = dir;
            struct Clean {
                std::string d;
                ~Clean() {
                    std::error_code e;
                    fs::remove_all(d, e);
                }
            } clean{d};
            fs::create_directory(d + "/sub");
            { std::ofstream(d + "/empty"); }
            { std::ofstream(d + "/text") << "this is not a decision diagram\n"; }
            const auto read = [&](const std::string& f) {
                return refused([&] {
                    if (node == 0) {
                        (void)s.p->template deserialize<dd::vNode>(f, bin == 1);
                    } else {
                        (void)s.p->template deserialize<dd::mNode>(f, bin == 1);
                    } });
            };
            const auto write = [&](const std::string& f) {
                return refused([&] {
                    if (node == 0) {
                        dd::serialize(s.h.a, f, bin == 1);
                    } else {
                        dd::serialize(s.h.m, f, bin == 1);
                    } });
            };
            for (unsigned again = 0; again < 2; ++again) {
                for (const char* f: {"/missing", "/missing/file", "/empty", "/sub", "/text", "/empty/file"}) {
                    mc::op();
                    MC_NOTE("reading " << f);
                    MC_CHECK(read(d + f), "reading the unreadable file " << f << " was not refused");
                    s.compare(std::string("reading ") + f);
                }
                MC_CHECK(read(""), "reading a file without a name was not refused");
                for (const char* f: {"/missing/file", "/sub", "/empty/file"}) {
                    mc::op();
                    MC_NOTE("writing " << f);
                    MC_CHECK(write(d + f), "writing to the impossible place " << f << " was not refused");
                    s.compare(std::string("writing ") + f);
                }
                MC_CHECK(!write(d + "/good"), "writing a file was refused");
                MC_CHECK(!read(d + "/good"), "reading a file was refused");
                s.compare("reading a good file");
                mc::state(mc::mix(mc::mix(N, node), bin * 2 + again));
            }
        });
    }
    // ---- unbalanced releases ----------------------------------------------------------------------------------
    // all reference counts (nothing is created or collected between two looks at them)
    template<class P>
    struct Snap {
        P&                             p;
        std::vector<const dd::CTEntry*> numbers;
        explicit Snap(P& q):
            p(q) {
            for (auto* b: p.cn.complexTable.getTable()) {
                for (; b != nullptr; b = b->next) {
                    numbers.push_back(b);
                }
            }
        }
        std::vector<std::size_t> operator()() const {
            std::vector<std::size_t> r;
            const auto               nodes = [&](auto& tab) {
                r.push_back(tab.getNodeCount());
                r.push_back(tab.getActiveNodeCount());
                for (const auto& level: tab.getTables()) {
                    for (auto* b: level) {
                        for (; b != nullptr; b = b->next) {
                            r.push_back(b->ref);
                        }
                    }
                }
            };
            nodes(p.vUniqueTable);
            nodes(p.mUniqueTable);
            nodes(p.dUniqueTable);
            r.push_back(p.cn.complexTable.getCount());
            for (const auto* b: numbers) {
                r.push_back(b->refCount);
            }
            return r;
        }
    };
    std::size_t refs(const dd::CTEntry* e) { // references of a number, or "never runs out"
        const auto* a = reinterpret_cast<const dd::CTEntry*>(reinterpret_cast<std::uintptr_t>(e) & ~static_cast<std::uintptr_t>(1));
        if (a == &dd::ComplexTable<>::zero || a == &dd::ComplexTable<>::one || a == &dd::ComplexTable<>::sqrt2_2) {
            return 1U << 20;
        }
        return a->refCount;
    }
    bool sameEntry(const dd::Complex& c) { return (reinterpret_cast<std::uintptr_t>(c.r) | 1U) == (reinterpret_cast<std::uintptr_t>(c.i) | 1U); }
    template<class E>
    bool covered(const E& e) { // whether the references that a release takes are there
        if (!e.isTerminal() && e.p->ref == 0) {
            return false;
        }
        if (e.w == dd::Complex::zero || e.w == dd::Complex::one) {
            return true;
        }
        if (sameEntry(e.w)) {
            return refs(e.w.r) >= 2;
        }
        return refs(e.w.r) >= 1 && refs(e.w.i) >= 1;
    }
    template<unsigned K>
    void releases() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned len = 1 + mc::choose(mc::thorough() ? 6 : 5, "length-1");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(2);
            const auto run = [&](auto& es, const auto& check) {
                std::vector<int> held(es.size(), 0);
                const Snap<P>    snap(*p);
                for (unsigned d = 0; d < len; ++d) {
                    const auto k = mc::choose(static_cast<unsigned>(2 * es.size()), "step");
                    auto&      e = es[k / 2];
                    mc::op();
                    if (k % 2 == 0) {
                        p->incRef(e);
                        ++held[k / 2];
                        continue;
                    }
                    const bool ok = covered(e);
                    if (ok && held[k / 2] == 0) { // takes away a reference of something else; nobody can notice
                        mc::prune();
                    }
                    const auto before = snap();
                    const bool no = refused([&] { p->decRef(e); });
                    const auto after = snap();
                    MC_CHECK(ok || no, "an unbalanced release of diagram " << k / 2 << " was not refused");
                    MC_CHECK(!ok || !no, "a release of diagram " << k / 2 << " was refused although it is in use");
                    if (no) {
                        MC_CHECK(before == after, "a refused release of diagram " << k / 2 << " changed reference counts");
                    } else {
                        --held[k / 2];
                    }
                }
                // what is still in use survives
                p->garbageCollect(true);
                for (std::size_t i = 0; i < es.size(); ++i) {
                    if (held[i] > 0) {
                        check(i);
                    }
                }
                for (std::size_t i = 0; i < es.size(); ++i) {
                    for (; held[i] > 0; --held[i]) {
                        p->decRef(es[i]);
                    }
                }
                p->garbageCollect(true);
                MC_CHECK(p->vUniqueTable.getNodeCount() + p->mUniqueTable.getNodeCount() + p->dUniqueTable.getNodeCount() == 0 && p->cn.complexTable.getCount() == 1, "something remains after everything was released");
            };
            if constexpr (K == 0) {
                const auto a = p->makeStateFromVector(cvec({0.3, C{0, 0.4}, 0, -0.2}));
                std::vector<dd::vEdge> es{a, scaled(*p, a, C{0.9, 0.35}), scaled(*p, a, C{0.35, 0.35}), p->makeStateFromVector(cvec({0.35, C{0, 0.9}, 0.9, -0.35})), dd::vEdge::terminal(p->cn.lookup(0.35, -0.9))};
                std::vector<V>         want;
                for (std::size_t i = 0; i < es.size(); ++i) {
                    want.push_back(i == 4 ? V{val(es[i].w)} : vec(es[i], 2));
                }
                run(es, [&](std::size_t i) { expect(i == 4 ? V{val(es[i].w)} : vec(es[i], 2), want[i], "a diagram in use after refused releases"); });
            } else if constexpr (K == 1) {
                const auto a = p->makeGateDD(dd::RYmat(0.7), 2, 0);
                std::vector<dd::mEdge> es{a, scaled(*p, a, C{0.25, -0.25}), p->makeGateDD(dd::RZmat(0.7), 2, 1), scaled(*p, a, C{-0.25, 0.7}), dd::mEdge::terminal(p->cn.lookup(0.7, 0.))};
                std::vector<M>         want;
                for (std::size_t i = 0; i < es.size(); ++i) {
                    want.push_back(i == 4 ? M(1) : mat(es[i], 2));
                }
                p->clearComputeTables();
                run(es, [&](std::size_t i) {
                    if (i != 4) {
                        expect(mat(es[i], 2), want[i], "a diagram in use after refused releases");
                    } });
            } else {
                auto d = p->makeZeroDensityOperator(2);
                p->incRef(d);
                dd::dEdge b = d;
                p->incRef(b);
                p->applyOperationToDensity(b, p->makeGateDD(dd::RYmat(0.7), 2, 0), false);
                dd::dEdge c = b;
                p->incRef(c);
                p->applyOperationToDensity(c, p->makeGateDD(dd::RXmat(0.3), 2, 1), false);
                std::vector<dd::dEdge> es{d, b, c, scaled(*p, b, C{0.6, 0})};
                std::vector<M>         want;
                for (const auto& e: es) {
                    M x(4);
                    evalM(e, 2, {1, 0}, 0, 0, x);
                    want.push_back(x);
                }
                p->decRef(b);
                p->decRef(c);
                p->decRef(d);
                run(es, [&](std::size_t i) {
                    M x(4);
                    evalM(es[i], 2, {1, 0}, 0, 0, x);
                    expect(x, want[i], "a diagram in use after refused releases"); });
            }
        });
    }
    // ---- packages of impossible size --------------------------------------------------------------------------
    void sizes() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned how = mc::choose(3, "how");
        const unsigned a   = mc::choose(8, "first size");
        static const unsigned first[] = {0, 1, 2, 3, 64, 126, 127, 128};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            std::vector<std::size_t> ns;
            for (std::size_t n = 0; n <= 300; ++n) {
                ns.push_back(n);
            }
            for (const std::size_t n: {std::size_t{511}, std::size_t{1024}, std::size_t{65535}, std::size_t{65536}, std::size_t{1} << 20U}) {
                ns.push_back(n);
            }
            if (how == 0) {
                for (const auto n: ns) {
                    mc::alive();
                    mc::op();
                    mc::state(n);
                    const bool no = refused([&] {
                        auto p = std::make_unique<P>(n);
                        MC_CHECK(p->qubits() == n, "a package of " << n << " qubits reports " << p->qubits());
                        if (n > 0) {
                            levels(p->makeZeroState(static_cast<dd::QubitCount>(n)), static_cast<unsigned>(n), 0, "the zero state");
                            levels(p->makeIdent(static_cast<dd::QubitCount>(n)), static_cast<unsigned>(n), 0, "the identity");
                        } });
                    MC_CHECK(no == (n > 128), "a package of " << n << " qubits was " << (no ? "refused" : "not refused"));
                }
                return;
            }
            Session<P> s(first[a]);
            auto       cur = static_cast<std::size_t>(first[a]);
            if (how == 2) {
                std::reverse(ns.begin(), ns.end());
            }
            for (const auto n: ns) {
                if (n < cur) { // making a package smaller is a different question
                    continue;
                }
                mc::alive();
                mc::op();
                mc::state(mc::mix(cur, n));
                const bool no = refused([&] { s.p->resize(n); });
                MC_CHECK(no == (n > 128), "resizing to " << n << " qubits was " << (no ? "refused" : "not refused"));
                if (!no) {
                    s.twin->resize(n);
                    cur = n;
                    levels(s.p->makeZeroState(static_cast<dd::QubitCount>(n)), static_cast<unsigned>(n), 0, "the zero state");
                    levels(s.p->makeIdent(static_cast<dd::QubitCount>(n)), static_cast<unsigned>(n), 0, "the identity");
                    (void)s.twin->makeZeroState(static_cast<dd::QubitCount>(n));
                    (void)s.twin->makeIdent(static_cast<dd::QubitCount>(n));
                }
                MC_CHECK(s.p->qubits() == cur, "after resizing to " << n << " qubits the package reports " << s.p->qubits() << " instead of " << cur);
                MC_CHECK(refused([&] { (void)s.p->makeZeroState(static_cast<dd::QubitCount>(cur + 1)); }), "a state of " << cur + 1 << " qubits was not refused by a package of " << cur);
                if (n < 12 || n % 16 == 0 || (n > 124 && n < 140)) {
                    s.compare("resizing to " + std::to_string(n) + " qubits");
                }
            }
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C33", argc, argv, {{"limits", 4, false, limits}, {"vectors", 2, false, vectors}, {"matrices", 3, false, matrices}, {"basis", 2, false, basis}, {"combined", 3, false, combined}, {"operands", 2, false, operands}, {"files", 4, false, files}, {"releases-states", 3, false, releases<0>}, {"releases-matrices", 3, false, releases<1>}, {"releases-density", 3, false, releases<2>}, {"sizes", 3, false, sizes}},
                   {"packages of 1-6, 127 and 128 qubits; 24 kinds of diagrams on 0-255 qubits starting at qubit 0-255; vectors of length 0-520; matrices of 0-18 rows and columns (33, 64) with every combination of wrong rows up to 4 rows and one wrong row above; basis state descriptions of every length up to size+2; tensor products, extensions, transfers and files of diagrams of 1-128 qubits; expectation values for all pairs of sizes; unreadable files; all sequences of up to 5 (thorough 6) references and releases of 4-5 diagrams that share nodes and weights; packages of 0-300 and up to 2^20 qubits. After refusals the package is compared with one that never saw the request",
                    {"a release that takes a reference held by another part of the program cannot be recognised and is left out"}});
}
