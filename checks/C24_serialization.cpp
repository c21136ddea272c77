// C24: serializing and deserializing reproduces the diagram.
#include "ddx.hpp"
#include "dd/Export.hpp"

#include <sys/stat.h>
#include <unistd.h>
using namespace ddx;
namespace {
    // diagrams that were there before and must survive in the package that is read into
    template<class P>
    struct Kept {
        P&        p;
        dd::vEdge v;
        dd::mEdge m;
        V         dv;
        M         dm;
        Kept(P& q, int n):
            p(q) {
            dv = vecPat(n, 6);
            dm = matPat(n, 1);
            v  = p.makeStateFromVector(cvec(dv));
            m  = p.makeDDFromMatrix(cmat(dm));
            p.incRef(v);
            p.incRef(m);
            n_ = n;
        }
        void check() {
            expect(vec(v, n_), dv, "another state in the package that was read into");
            expect(mat(m, n_), dm, "another matrix in the package that was read into");
        }

    private:
        int n_ = 0;
    };
    inline V dense(const dd::vEdge& e, int n, int base = 0) { return vec(e, n, base); }
    inline V dense(const dd::mEdge& e, int n, int base = 0) { return mat(e, n, base).a; }
    template<class E>
    using NodeOf = std::remove_pointer_t<decltype(E{}.p)>;

    template<class E>
    std::string put(const E& e, bool bin) {
        std::ostringstream os;
        dd::serialize(e, os, bin);
        return os.str();
    }
    template<class E, class P>
    E get(P& p, const std::string& s, bool bin) {
        std::istringstream is(s);
        return p.template deserialize<NodeOf<E>>(is, bin);
    }
    // write, read into the same package: exactly the original
    template<class P, class E>
    std::string same(P& p, const E& e, int n, const V& want, bool bin, int base = 0) {
        NoLeak<P>  nl(p);
        const auto data = put(e, bin);
        MC_CHECK(dense(e, n, base).size() == want.size() && ref::close(dense(e, n, base), want, 1e-9 * scaleOf(want)), "writing changed the diagram");
        const auto r = get<E>(p, data, bin);
        if (r.p != e.p || r.w != e.w) {
            mc::fail(std::string(bin ? "binary" : "text") + " form read into the same package: got " + ref::str(dense(r, n, base)) + ", expected the original diagram of " + ref::str(want) + (bin ? "" : "; written was\n" + data));
        }
        mc::op();
        nl.check("writing and reading");
        return data;
    }
    // read what another package wrote
    template<class E, class P>
    E other(P& q, const std::string& data, int n, const V& want, bool bin, int base = 0, bool again = true) {
        NoLeak<P>  nl(q);
        const auto r = get<E>(q, data, bin);
        expect(dense(r, n, base), want, std::string(bin ? "binary" : "text") + " form read into another package", 1e-10 * scaleOf(want));
        if (again) {
            const auto s = get<E>(q, data, bin);
            MC_CHECK(s == r, "reading the same data twice gives two different diagrams");
        }
        nl.check("reading");
        return r;
    }

    // reading text is slow: the quick check takes the binary form for three quarters of the large sets
    inline bool textToo(std::size_t x, bool bin) {
        return mc::thorough() || bin == (x % 4 != 0);
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, -1}, {0.5, 0}, {3, -4}, {1e-4, 1e-5}, {0, 0}, {1.0 / 3, 1e-3}, {12345.678, 0.1}};
    // states: same, fresh and used target package
    void statesBody(int n, unsigned parts, std::size_t total, const std::vector<C>& alpha) {
        const unsigned w   = n == 3 ? 2 * mc::choose(2, "env") : mc::choose(4, "env");
        const unsigned cfg = n == 1 ? mc::choose(2, "cfg") : (w + w / 2) & 1U;
        const unsigned hi  = mc::choose(parts, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n);
            auto q  = std::make_unique<P>(n + 1);
            warm(*p, n, w);
            warm(*q, n + 1, 3 - w);
            Kept<P> kept(*q, n);
            for (std::size_t x = hi; x < total; x += parts) {
                const auto a = vecFrom(x, n, alpha);
                const C    f = F[(x / parts) % 9];
                const auto b = ref::scale(a, f);
                const auto e = scaled(*p, p->makeStateFromVector(cvec(a)), f);
                for (unsigned bin = 0; bin < 2; ++bin) {
                    if (n == 3 && !textToo(x / parts + cfg, bin == 1)) {
                        continue;
                    }
                    const auto data = same(*p, e, n, b, bin == 1);
                    other<dd::vEdge>(*q, data, n, b, bin == 1, 0, x / parts % 4 == 3);
                }
                if (x / parts % 64 == 63) {
                    q->garbageCollect(true);
                    kept.check();
                    mc::alive();
                }
            }
            kept.check();
        });
    }
    void states() {
        const unsigned n = 1 + mc::choose(3, "qubits-1");
        if (n == 1) {
            statesBody(1, 1, 81, L9);
        } else if (n == 2) {
            statesBody(2, 25, mc::thorough() ? 6561 : 625, mc::thorough() ? L9 : L5);
        } else {
            statesBody(3, 27, 6561, L3);
        }
    }
    // four-qubit states from three-qubit halves built of shared, distinct and zero quarters: all shapes of sharing
    void shapes() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(27, "part");
        static const std::vector<V> Q{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {1, C{0, 1}}};
        const unsigned              k = mc::thorough() ? 4 : 3;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            auto q  = std::make_unique<P>(4);
            for (std::size_t x = hi; x < ipow(k, 8); x += 27) {
                V           a;
                std::size_t c = x;
                for (unsigned i = 0; i < 8; ++i, c /= k) {
                    const auto& s = Q[c % k + (k == 3 && c % k == 2 ? 2 : 0)];
                    a.insert(a.end(), s.begin(), s.end());
                }
                const auto e = p->makeStateFromVector(cvec(a));
                for (unsigned bin = 0; bin < 2; ++bin) {
                    if (textToo(x / 27 + cfg * 2, bin == 1)) {
                        other<dd::vEdge>(*q, same(*p, e, 4, a, bin == 1), 4, a, bin == 1, 0, x / 27 % 8 == 7);
                    }
                }
                if (x / 27 % 128 == 127) {
                    mc::alive();
                    q->garbageCollect(true);
                }
            }
        });
    }
    void matrices() {
        const unsigned n   = 1 + mc::choose(2, "qubits-1");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = cfg * 2;
        const unsigned hi  = mc::choose(25, "part");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            auto       q  = std::make_unique<P>(n + 1);
            warm(*p, ni, w);
            warm(*q, ni + 1, 3 - w);
            Kept<P>           kept(*q, ni);
            const std::size_t total = n == 1 ? (mc::thorough() ? 6561 : 625) : 4096;
            for (std::size_t x = hi; x < total; x += 25) {
                const auto a = n == 1 ? matFrom(x, mc::thorough() ? L9 : L5) : mat4(x, 8);
                const C    f = F[(x / 25) % 9];
                const auto b = ref::scale(a, f);
                const auto e = scaled(*p, p->makeDDFromMatrix(cmat(a)), f);
                for (unsigned bin = 0; bin < 2; ++bin) {
                    if (n == 1 || textToo(x / 25 + cfg * 2, bin == 1)) {
                        other<dd::mEdge>(*q, same(*p, e, ni, b.a, bin == 1), ni, b.a, bin == 1, 0, x / 25 % 4 == 3);
                    }
                }
                mc::alive();
            }
            q->garbageCollect(true);
            kept.check();
        });
    }
    // all values of weights in both forms
    void values() {
        static const double parts[] = {0, 1, 1.0 / 3, 0.1, std::sqrt(0.5), 1e-6, 1e-9, 12345.678901234567, 1e6 / 7, 0.999999999};
        const unsigned      a = mc::choose(10, "real part"), b = mc::choose(10, "imaginary part"), sg = mc::choose(4, "signs");
        const C             c{(sg & 1U) != 0 ? -parts[a] : parts[a], (sg & 2U) != 0 ? -parts[b] : parts[b]};
        auto                p = std::make_unique<Pkg<Tiny>>(2);
        auto                q = std::make_unique<Pkg<Tiny>>(2);
        // numbers closer to each other than a few tolerances would make "the same diagram" ambiguous: start afresh for every pair
        static const C D[] = {{0, 0}, {1, 0}, {-1, 0}, {0, -1.0 / 3}, {0.1, std::sqrt(0.5)}, {-1e-6, 0}, {1e-9, 1e-9}, {12345.678901234567, -1}, {-std::sqrt(0.5), -1e-6}, {0, 1e6 / 7}, {0.999999999, 0}, {0, 1e-9}};
        for (unsigned x = 0; x < 12; ++x) {
            const C d = D[x];
            const V v{c, d};
            p->reset();
            const auto e = p->makeStateFromVector(cvec(v));
            for (unsigned bin = 0; bin < 2; ++bin) {
                // a state whose amplitudes are all small is not stored in a form that is stable under the absolute tolerance
                const bool small = std::abs(c) < 1e-2 && std::abs(d) < 1e-2;
                const auto data  = small ? put(e, bin == 1) : same(*p, e, 1, vec(e, 1), bin == 1);
                const auto r     = get<dd::vEdge>(*q, data, bin == 1);
                const V    w1 = vec(e, 1), w2 = vec(r, 1);
                mc::op();
                mc::state(ref::hash(w1));
                for (unsigned i = 0; i < 2; ++i) {
                    MC_CHECK(std::abs(w1[i] - w2[i]) <= 1e-12 * std::max(scaleOf(w1), 1.), "amplitude " << i << " is " << ref::str(w2) << " after reading, " << ref::str(w1) << " was written:\n" << (bin == 1 ? "" : data));
                }
            }
            M m(2);
            m.a            = {d, 0, c, 1};
            const auto em  = p->makeDDFromMatrix(cmat(m));
            const auto bin = (x + sg) % 2 == 1;
            const auto dm  = same(*p, em, 1, mat(em, 1).a, bin);
            expect(mat(get<dd::mEdge>(*q, dm, bin), 1).a, mat(em, 1).a, "matrix read into another package", 1e-12 * scaleOf(m.a));
            mc::alive();
        }
        // the same value as a diagram without nodes
        const auto w = p->cn.lookup(c.real(), c.imag());
        const auto v = w == dd::Complex::zero ? dd::vEdge::zero : dd::vEdge::terminal(w);
        const auto m = w == dd::Complex::zero ? dd::mEdge::zero : dd::mEdge::terminal(w);
        for (unsigned bin = 0; bin < 2; ++bin) {
            other<dd::vEdge>(*q, same(*p, v, 0, V{val(v.w)}, bin == 1), 0, V{val(v.w)}, bin == 1);
            other<dd::mEdge>(*q, same(*p, m, 0, V{val(m.w)}, bin == 1), 0, V{val(m.w)}, bin == 1);
        }
    }
    // structured diagrams, registers that do not start at qubit 0
    void structured() {
        const unsigned n    = 1 + mc::choose(5, "qubits-1");
        const unsigned base = mc::choose(3, "first qubit");
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned bin  = mc::choose(2, "binary");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n + base);
            auto       q  = std::make_unique<P>(n + base);
            if (base == 0) {
                for (unsigned pa = 0; pa < NVP; ++pa) {
                    const auto a = vecPat(ni, pa);
                    other<dd::vEdge>(*q, same(*p, p->makeStateFromVector(cvec(a)), ni, a, bin == 1), ni, a, bin == 1);
                }
                for (unsigned pa = 0; pa < NMP; ++pa) {
                    const auto a = matPat(ni, pa);
                    other<dd::mEdge>(*q, same(*p, p->makeDDFromMatrix(cmat(a)), ni, a.a, bin == 1), ni, a.a, bin == 1);
                }
            }
            // offset registers: basis states and gates
            for (unsigned s = 0; s < ipow(3, n); ++s) {
                std::vector<dd::BasisStates> bs(n + base, dd::BasisStates::zero);
                for (unsigned k = 0, c = s; k < n; ++k, c /= 3) {
                    bs[base + k] = c % 3 == 0 ? dd::BasisStates::zero : (c % 3 == 1 ? dd::BasisStates::one : dd::BasisStates::left);
                }
                const auto e = p->makeBasisState(static_cast<dd::QubitCount>(n), bs, base);
                const auto v = vec(e, ni, static_cast<int>(base));
                other<dd::vEdge>(*q, same(*p, e, ni, v, bin == 1, static_cast<int>(base)), ni, v, bin == 1, static_cast<int>(base));
            }
            for (unsigned tq = 0; tq < n; ++tq) {
                for (unsigned cq = 0; cq < n; ++cq) {
                    dd::Controls cs;
                    if (cq != tq) {
                        cs.insert(dd::Control{static_cast<dd::Qubit>(base + cq), cq % 2 == 0 ? dd::Control::Type::pos : dd::Control::Type::neg});
                    }
                    const auto e = p->makeGateDD(dd::U3mat(0.3, 1.1, -0.7), static_cast<dd::QubitCount>(n), cs, static_cast<dd::Qubit>(base + tq), base);
                    const auto v = mat(e, ni, static_cast<int>(base)).a;
                    other<dd::mEdge>(*q, same(*p, e, ni, v, bin == 1, static_cast<int>(base)), ni, v, bin == 1, static_cast<int>(base));
                }
            }
        });
    }
    void wide() {
        const unsigned sizes[] = {31, 64, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned kind    = mc::choose(4, "kind");
        const unsigned bin     = mc::choose(2, "binary");
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        auto           q       = std::make_unique<Pkg<Mid>>(n);
        const auto     nq      = static_cast<dd::QubitCount>(n);
        if (kind < 2) {
            dd::vEdge e;
            if (kind == 0) { // GHZ with an imaginary part
                std::vector<bool> ones(n, true);
                const auto        f = scaled(*p, p->makeBasisState(nq, ones), {0, S2});
                e                   = p->add(scaled(*p, p->makeZeroState(nq), S2), f);
            } else {
                std::vector<dd::BasisStates> bs(n);
                for (unsigned k = 0; k < n; ++k) {
                    bs[k] = k % 7 == 0 ? dd::BasisStates::one : (k % 11 == 0 ? dd::BasisStates::left : dd::BasisStates::zero);
                }
                e = p->makeBasisState(nq, bs);
            }
            const auto data = put(e, bin == 1);
            MC_CHECK(get<dd::vEdge>(*p, data, bin == 1) == e, "state of " << n << " qubits is not reproduced");
            const auto r = get<dd::vEdge>(*q, data, bin == 1);
            MC_CHECK(p->size(e) == q->size(r), "state of " << n << " qubits has another number of nodes after reading");
            for (unsigned k = 0; k < n + 2; ++k) {
                std::string path(n, k == n ? '1' : '0');
                if (k < n) {
                    path[k] = '1';
                }
                mc::op();
                MC_CHECK(ref::close(cv(p->getValueByPath(e, path)), cv(q->getValueByPath(r, path)), 1e-11), "amplitude " << path);
            }
        } else {
            auto e = p->makeGateDD(dd::RYmat(0.4), nq, dd::Controls{dd::Control{0}, dd::Control{static_cast<dd::Qubit>(n / 2), dd::Control::Type::neg}}, static_cast<dd::Qubit>(n - 1));
            if (kind == 3) {
                e = p->multiply(e, p->makeGateDD(dd::Hmat, nq, static_cast<dd::Qubit>(n / 3)));
            }
            const auto data = put(e, bin == 1);
            MC_CHECK(get<dd::mEdge>(*p, data, bin == 1) == e, "matrix of " << n << " qubits is not reproduced");
            const auto r = get<dd::mEdge>(*q, data, bin == 1);
            MC_CHECK(p->size(e) == q->size(r), "matrix of " << n << " qubits has another number of nodes after reading");
            for (unsigned k = 0; k < n; ++k) {
                for (unsigned d = 0; d < 4; ++d) {
                    std::string path(n, k % 2 == 0 ? '0' : '3');
                    path[k] = static_cast<char>('0' + d);
                    mc::op();
                    MC_CHECK(ref::close(cv(p->getValueByPath(e, path)), cv(q->getValueByPath(r, path)), 1e-11), "entry " << path);
                }
            }
        }
    }
    struct Scratch {
        std::string d;
        Scratch() {
            const char* t = getenv("TMPDIR");
            d             = std::string(t != nullptr ? t : "/tmp") + "/c24." + std::to_string(getpid());
            mkdir(d.c_str(), 0700);
        }
        [[nodiscard]] std::string file() const { return d + "/x.dd"; }
        ~Scratch() {
            unlink(file().c_str());
            rmdir(d.c_str());
        }
    };
    // sequences of file writes, collections and reads: the last write counts, whatever was in the file before
    void files() {
        const unsigned depth = mc::thorough() ? 4 : 3;
        const unsigned bin0  = mc::choose(2, "first format");
        const unsigned cfg   = mc::choose(2, "cfg");
        std::vector<unsigned> seq;
        for (unsigned d = 0; d < depth; ++d) {
            seq.push_back(mc::choose(8, "write"));
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto    p = std::make_unique<P>(3);
            auto    q = std::make_unique<P>(3);
            Scratch scratch;
            // 6 diagrams of very different sizes; operations 6 and 7 collect in the writing / reading package
            for (const auto s: seq) {
                const bool bin = ((s + bin0) & 1U) != 0;
                if (s == 6) {
                    p->garbageCollect(true);
                    continue;
                }
                if (s == 7) {
                    q->garbageCollect(true);
                    continue;
                }
                if (s < 4) {
                    const unsigned pats[] = {6, 12, 4, 5};
                    const auto     a      = vecPat(s == 2 ? 1 : 3, pats[s]);
                    const auto     e      = p->makeStateFromVector(cvec(a));
                    const int      n      = s == 2 ? 1 : 3;
                    dd::serialize(e, scratch.file(), bin);
                    const auto r = p->template deserialize<dd::vNode>(scratch.file(), bin);
                    MC_CHECK(r == e, "state read from a file into the same package differs");
                    const auto r2 = q->template deserialize<dd::vNode>(scratch.file(), bin);
                    expect(vec(r2, n), a, "state read from a file");
                    q->incRef(r2);
                    q->garbageCollect(true);
                    expect(vec(r2, n), a, "state read from a file after a collection");
                    q->decRef(r2);
                } else {
                    const int  n = s == 4 ? 2 : 3;
                    const auto a = matPat(n, s == 4 ? 9 : 2);
                    const auto e = p->makeDDFromMatrix(cmat(a));
                    dd::serialize(e, scratch.file(), bin);
                    MC_CHECK(p->template deserialize<dd::mNode>(scratch.file(), bin) == e, "matrix read from a file into the same package differs");
                    const auto r2 = q->template deserialize<dd::mNode>(scratch.file(), bin);
                    expect(mat(r2, n), a, "matrix read from a file");
                    q->incRef(r2);
                    q->garbageCollect(true);
                    expect(mat(r2, n), a, "matrix read from a file after a collection");
                    q->decRef(r2);
                }
            }
        });
    }
    // what was written is read back after the original is gone and its memory reused, then used in operations
    void later() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned pa  = mc::choose(NVP, "state");
        const unsigned pm  = mc::choose(NMP, "matrix");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            for (unsigned bin = 0; bin < 2; ++bin) {
                auto       p  = std::make_unique<P>(3);
                const auto a  = vecPat(3, pa);
                const auto m  = matPat(3, pm);
                const auto sv = put(p->makeStateFromVector(cvec(a)), bin == 1);
                const auto sm = put(p->makeDDFromMatrix(cmat(m)), bin == 1);
                p->garbageCollect(true);
                warm(*p, 3, 2);
                const auto e = get<dd::vEdge>(*p, sv, bin == 1);
                const auto f = get<dd::mEdge>(*p, sm, bin == 1);
                expect(vec(e, 3), a, "state read after the original was collected");
                expect(mat(f, 3), m, "matrix read after the original was collected");
                expect(vec(p->multiply(f, e), 3), ref::mul(m, a), "product of reread diagrams", 1e-8);
                expect(mat(p->transpose(f), 3), ref::transpose(m), "transpose of a reread matrix");
                const auto g = p->makeDDFromMatrix(cmat(m));
                MC_CHECK(g.p == f.p || pm == 2 || pm == 15, "a reread matrix has other nodes than the same matrix built again");
                p->incRef(e);
                p->incRef(f);
                p->garbageCollect(true);
                expect(vec(e, 3), a, "reread state after a collection");
                expect(mat(f, 3), m, "reread matrix after a collection");
                p->decRef(e);
                p->decRef(f);
                p->garbageCollect(true);
                MC_CHECK(p->vUniqueTable.getNodeCount() == 0 && p->mUniqueTable.getNodeCount() == 0, "nodes remain after everything was released");
            }
        });
    }
    // hand-written text: comments, empty lines, spaces, nodes whose weights are not normalized
    void handwritten() {
        const unsigned a = mc::choose(8, "w0"), b = mc::choose(8, "w1"), c = mc::choose(8, "root");
        static const char* const W[] = {"1", "-0.5", "2", "0.25i", "-i", "1e-3+2.5E-1i", "0.5 - 0.25i", ".5+ i"};
        static const C           X[] = {1, -0.5, 2, C{0, 0.25}, C{0, -1}, C{1e-3, 0.25}, C{0.5, -0.25}, C{0.5, 1}};
        auto                     p   = std::make_unique<Pkg<Mid>>(2);
        NoLeak<Pkg<Mid>>         nl(*p);
        std::ostringstream       s;
        s << "1\n"
          << W[c] << "\n\n0 0 (-1 " << W[a] << ") (-1 " << W[b] << ") # a node\n7 0 () (-1 " << W[a] << ")\n9 1 (0 1) (7 " << W[b] << ")   \n";
        std::istringstream is(s.str());
        const auto         r = p->deserialize<dd::vNode>(is, false);
        expect(vec(r, 2), V{ref::cmul(X[c], X[a]), ref::cmul(X[c], X[b]), 0, ref::cmul(ref::cmul(X[c], X[b]), X[a])}, "hand-written text\n" + s.str());
        std::ostringstream sm;
        sm << "1\n"
           << W[c] << "\n3 0 (-1 " << W[a] << ") () () (-1 " << W[b] << ")\n1 0 () (-1 " << W[b] << ") () ()\n4 1 (3 " << W[a] << ") (1 1) () (3 " << W[b] << ")\n";
        std::istringstream im(sm.str());
        const auto         m = p->deserialize<dd::mNode>(im, false);
        const auto d         = m2(X[a], 0, 0, X[b]);
        expect(mat(m, 2), ref::scale(blocks(ref::scale(d, X[a]), m2(0, X[b], 0, 0), M(2), ref::scale(d, X[b])), X[c]), "hand-written text\n" + sm.str());
        nl.check("reading");
    }
    // more nodes than 16 bits can number, all distinct
    void scale() {
        const unsigned kind = mc::choose(2, "kind");
        const unsigned bin  = mc::choose(2, "binary");
        const int      n    = kind == 0 ? 17 : 9;
        auto           p    = std::make_unique<dd::Package<>>(static_cast<std::size_t>(n));
        auto           q    = std::make_unique<dd::Package<>>(static_cast<std::size_t>(n));
        const auto     val  = [](std::size_t i) {
            std::uint64_t h = (i + 1) * 0x9e3779b97f4a7c15ULL;
            h ^= h >> 29U;
            h *= 0xbf58476d1ce4e5b9ULL;
            h ^= h >> 32U;
            return C{0.1 + static_cast<double>(h % 997) / 997., static_cast<double>(h / 997 % 1009) / 1009.};
        };
        const auto go = [&](const auto& e, const V& want) {
            MC_CHECK(p->size(e) > (1U << 16U) + 2, "the diagram has only " << p->size(e) << " nodes");
            mc::alive();
            const auto data = put(e, bin == 1);
            mc::alive();
            using E      = std::remove_cv_t<std::remove_reference_t<decltype(e)>>;
            const auto r = get<E>(*q, data, bin == 1);
            mc::alive();
            mc::op();
            MC_CHECK(q->size(r) == p->size(e), "a diagram of " << p->size(e) << " nodes has " << q->size(r) << " after reading");
            const auto have = dense(r, n);
            for (std::size_t i = 0; i < want.size(); ++i) {
                MC_CHECK(std::abs(have[i] - want[i]) < 1e-9, "entry " << i << " of a diagram with " << p->size(e) << " nodes is " << ref::str(V{have[i]}) << " after reading, " << ref::str(V{want[i]}) << " was written");
            }
            mc::state(want.size() + bin);
        };
        if (kind == 0) {
            V v(1ULL << 17U);
            for (std::size_t i = 0; i < v.size(); ++i) {
                v[i] = val(i);
            }
            const auto e = p->makeStateFromVector(cvec(v));
            p->incRef(e);
            go(e, v);
        } else {
            M m(512);
            for (std::size_t i = 0; i < m.a.size(); ++i) {
                m.a[i] = val(i);
            }
            const auto e = p->makeDDFromMatrix(cmat(m));
            p->incRef(e);
            go(e, m.a);
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C24", argc, argv,
                   {{"all-small-states", 3, false, states},
                    {"shapes-of-sharing", 2, false, shapes},
                    {"small-matrices", 3, false, matrices},
                    {"weight-values", 3, false, values},
                    {"structured-and-offset", 4, false, structured},
                    {"wide-registers", 3, false, wide},
                    {"sequences-of-files", 4, false, files},
                    {"read-after-reuse", 3, false, later},
                    {"hand-written-text", 3, false, handwritten},
                    {"many-nodes", 2, false, scale}},
                   {"all states over the alphabets (81 of 1 qubit, 625 (6561) of 2, 6561 of 3 qubits; text for a quarter of them in the quick check) with 9 root factors, 3^8 (4^8) four-qubit states over all arrangements of shared, distinct and zero parts, 625 (6561) 1-qubit and 4096 2-qubit matrices, 14 + 16 structured objects up to 5 qubits, product states and gates with offset 0..2, 400 complex values against 12 others as weights, scalars, registers up to 128 qubits; text and binary; read into the same package, a used and a smaller-table one; all sequences of 3 (4) file writes and collections; after collection and reuse of the original's nodes; hand-written text with comments and unnormalised nodes; one state and one matrix of more than 2^16 different nodes",
                    {"weights are taken from finite alphabets", "files are written in a scratch directory"}});
}
