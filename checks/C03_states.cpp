// C03: state construction and read-out agree with the state vector.
#include "ddx.hpp"
using namespace ddx;
namespace {
    template<class P>
    void readBack(P& p, const dd::vEdge& e, const V& want, const std::string& what, double eps = 1e-10, bool print = false) {
        const int  n  = static_cast<int>(std::log2(static_cast<double>(want.size())) + 0.5);
        const auto c0 = p.cn.cacheCount();
        expect(vec(e, n), want, what, eps);
        const bool zero = e.isTerminal() && n > 0; // a zero diagram does not know its number of qubits
        if (!zero) {
            const auto got = p.getVector(e);
            if (!ref::close(V(got.begin(), got.end()), want, eps)) {
                mc::fail(what + ": getVector gives " + ref::str(V(got.begin(), got.end())) + ", expected " + ref::str(want));
            }
        }
        for (std::size_t i = 0; i < want.size(); ++i) {
            const auto a = cv(p.getValueByPath(e, i));
            if (!ref::close(a, want[i], eps)) {
                mc::fail(what + ": amplitude by index " + std::to_string(i) + " is " + ref::str(a) + ", expected " + ref::str(want[i]));
            }
            std::string s;
            for (int q = 0; q < n; ++q) {
                s += ((i >> q) & 1U) != 0U ? '1' : '0';
            }
            const auto b = cv(p.getValueByPath(e, s + "0"));
            if (!ref::close(b, want[i], eps)) {
                mc::fail(what + ": amplitude by path " + s + " is " + ref::str(b) + ", expected " + ref::str(want[i]));
            }
        }
        if (print && !zero && n > 0) {
            Capture cap;
            p.printVector(e);
            std::istringstream is(cap.os.str());
            std::string        l;
            for (std::size_t i = 0; i < want.size(); ++i) {
                if (!std::getline(is, l)) {
                    mc::fail(what + ": printed vector has only " + std::to_string(i) + " lines");
                }
                const auto  colon = l.find(':');
                std::string bits;
                for (int q = n - 1; q >= 0; --q) {
                    bits += ((i >> q) & 1U) != 0U ? '1' : '0';
                }
                if (colon == std::string::npos || l.substr(0, colon) != bits) {
                    mc::fail(what + ": printed line '" + l + "' where index " + bits + " belongs");
                }
                std::string t = l.substr(colon + 1);
                t.erase(0, t.find_first_not_of(' '));
                double re = 0;
                double im = 0;
                // a | bi | a+bi | a-bi with three significant digits
                char*       end = nullptr;
                double      x   = strtod(t.c_str(), &end);
                if (*end == 'i') {
                    im = x;
                    ++end;
                } else {
                    re = x;
                    if (*end != 0) {
                        im = strtod(end, &end);
                        if (*end == 'i') {
                            ++end;
                        } else {
                            end = const_cast<char*>("?");
                        }
                    }
                }
                const double m = 6e-3 * (1e-9 + std::max(std::abs(want[i].real()), std::abs(want[i].imag())));
                if (*end != 0 || std::abs(re - want[i].real()) > m || std::abs(im - want[i].imag()) > m) {
                    mc::fail(what + ": printed line '" + l + "' for amplitude " + ref::str(want[i]));
                }
            }
            if (std::getline(is, l)) {
                mc::fail(what + ": printed vector has extra line '" + l + "'");
            }
        }
        MC_CHECK(p.cn.cacheCount() == c0, what << ": reading changes the number of temporaries in use");
    }
    const C TINY1{1e-7, 0};
    const std::vector<C> A9{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {S2, 0}, {0.6, -0.8}, {1e-6, 0}, {2.5, 0}, {0, -0.3}};

    // every vector of 1 and 2 qubits over a 9 letter alphabet
    void vectors2() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned n   = 1 + mc::choose(2, "n-1");
        const unsigned hi  = n == 2 ? mc::choose(81, "high amplitudes") : 0;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n + w % 2 * 3);
            warm(*p, static_cast<int>(n), w);
            for (std::size_t lo = 0; lo < 81; ++lo) {
                const auto v = vecFrom(lo + 81 * hi, static_cast<int>(n), A9);
                const auto e = p->makeStateFromVector(cvec(v));
                MC_NOTE("vector " << ref::str(v));
                readBack(*p, e, v, "state built from " + ref::str(v) + " (" + warmName(w) + ")", 1e-10, lo % 9 == hi % 9);
            }
        });
    }
    // three qubits: all 3^8 vectors over {0, 1, -i/2}; the same package sees 729 of them in a row
    void vectors3() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(27, "low letters");
        const std::vector<C> A{{0, 0}, {1, 0}, {0, -0.5}};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            for (std::size_t lo = 0; lo < 243; ++lo) {
                const auto v = vecFrom(lo * 27 + hi, 3, A);
                readBack(*p, p->makeStateFromVector(cvec(v)), v, "state built from " + ref::str(v));
                if (lo == 120) {
                    p->garbageCollect(true);
                }
            }
        });
    }
    // vectors spanning many orders of magnitude, and all sizes 0, 1, 2, 4, ..., 64
    void shapes() {
        const unsigned n   = mc::choose(8, "qubits");
        const unsigned pat = mc::choose(8, "pattern");
        const unsigned w   = mc::choose(3, "env");
        auto           p   = std::make_unique<Pkg<Mid>>(std::max(n, 3U));
        warm(*p, 3, w);
        if (n == 7 && pat == 0) { // empty vector: the scalar one
            const auto e = p->makeStateFromVector(dd::CVec{});
            MC_CHECK(e.isTerminal() && ref::close(val(e.w), C{1, 0}), "empty vector does not give the scalar one");
            return;
        }
        V v(1ULL << n);
        for (std::size_t i = 0; i < v.size(); ++i) {
            const auto d = static_cast<double>(i);
            switch (pat) {
                case 0: v[i] = {d + 1, -d}; break;
                case 1: v[i] = i % 3 == 0 ? C{0, 0} : C{std::cos(d), std::sin(d)}; break;
                case 2: v[i] = {std::pow(10., -static_cast<double>(i % 10)), 0}; break;
                case 3: v[i] = {0, -std::pow(10., -static_cast<double>((i * 7) % 9))}; break;
                case 4: v[i] = i == v.size() - 1 ? C{-1, 0} : C{0, 0}; break;
                case 5: v[i] = (__builtin_popcountll(i) & 1) != 0 ? C{-1, 0} : C{1, 0}; break;
                case 6: v[i] = {1. / std::sqrt(static_cast<double>(v.size())), 0}; break;
                default: v[i] = i % 2 == 0 ? C{1e-3 * (d + 1), 1e-4} : C{-30 * d, 1e3}; break;
            }
        }
        const auto e = p->makeStateFromVector(cvec(v));
        readBack(*p, e, v, "state built from " + ref::str(v), pat == 7 || pat == 0 ? 1e-7 : 1e-10, true);
    }
    const dd::BasisStates BS[] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left};
    const C               BV[6][2] = {{1, 0}, {0, 1}, {S2, S2}, {S2, -S2}, {S2, C{0, S2}}, {S2, C{0, -S2}}};
    // product states: every assignment of the six letters to 1..4 (5) qubits, every start offset 0..3
    void product() {
        const unsigned maxn  = mc::thorough() ? 6 : 4;
        const unsigned n     = 1 + mc::choose(maxn, "n-1");
        const unsigned start = mc::choose(4, "start");
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned w     = mc::choose(3, "env");
        const unsigned last  = mc::choose(6, "top letter");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n + start);
            warm(*p, static_cast<int>(n), w);
            for (std::size_t code = 0; code < ipow(6, n - 1); ++code) {
                std::vector<dd::BasisStates> s(n + start, dd::BasisStates::minus);
                V                            v{1};
                std::size_t                  c = code;
                std::string                  name;
                for (unsigned q = 0; q < n; ++q) {
                    const std::size_t k = q == n - 1 ? last : c % 6;
                    c /= 6;
                    s[start + q] = BS[k];
                    v            = ref::kron(V{BV[k][0], BV[k][1]}, v);
                    name += "01+-RL"[k];
                }
                const auto e    = p->makeBasisState(static_cast<dd::QubitCount>(n), s, start);
                const auto what = "product state " + name + " (lowest qubit first) starting at " + std::to_string(start);
                expect(vec(e, static_cast<int>(n), static_cast<int>(start)), v, what);
                if (start == 0) {
                    readBack(*p, e, v, what, 1e-10, code % 7 == 0);
                } else {
                    // read-out addresses qubits by their absolute index
                    for (std::size_t i = 0; i < v.size(); ++i) {
                        const auto a = cv(p->getValueByPath(e, i << start));
                        MC_CHECK(ref::close(a, v[i]), what << ": amplitude " << i << " is " << ref::str(a) << ", expected " << ref::str(v[i]));
                    }
                }
            }
        });
    }
    // computational basis states given as bits, and zero states, every start offset
    void basis() {
        const unsigned n     = mc::choose(8, "n");
        const unsigned start = mc::choose(5, "start");
        const unsigned w     = mc::choose(3, "env");
        auto           p     = std::make_unique<Pkg<Mid>>(std::max(n + start, 1U));
        warm(*p, static_cast<int>(std::min(n, 4U)), w);
        const auto nq = static_cast<dd::QubitCount>(n);
        for (std::size_t code = 0; code < (1ULL << n); ++code) {
            std::vector<bool> s(n + start, true);
            for (unsigned q = 0; q < n; ++q) {
                s[start + q] = ((code >> q) & 1U) != 0;
            }
            V v(1ULL << n);
            v[code]      = 1;
            const auto e = p->makeBasisState(nq, s, start);
            expect(vec(e, static_cast<int>(n), static_cast<int>(start)), v, "basis state " + std::to_string(code) + " of " + std::to_string(n) + " qubits at " + std::to_string(start));
            if (n > 0 && start == 0) {
                readBack(*p, e, v, "basis state " + std::to_string(code), 1e-12, code % 5 == 0);
            }
        }
        V v(1ULL << n);
        v[0] = 1;
        expect(vec(p->makeZeroState(nq, start), static_cast<int>(n), static_cast<int>(start)), v, "zero state of " + std::to_string(n) + " qubits at " + std::to_string(start));
    }
    // many qubits: every single-qubit deviation from the all-zero and the all-one state, read by path and index
    void wide() {
        const unsigned       sizes[] = {16, 31, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned       n       = mc::pick(sizes, "qubits");
        const unsigned       kind    = mc::choose(3, "kind");
        const unsigned       block   = mc::choose(4, "quarter of the qubits");
        auto                 p       = std::make_unique<Pkg<Mid>>(n);
        const auto           nq      = static_cast<dd::QubitCount>(n);
        for (unsigned q = block; q < n; q += 4) {
            dd::vEdge         e{};
            std::vector<bool> bits(n, kind == 1);
            double            amp = 1;
            if (kind == 2) { // all zero except one qubit in |->
                std::vector<dd::BasisStates> s(n, dd::BasisStates::zero);
                s[q] = dd::BasisStates::minus;
                e    = p->makeBasisState(nq, s);
                bits[q] = true;
                amp     = -S2;
            } else {
                bits[q] = !bits[q];
                e       = p->makeBasisState(nq, bits);
            }
            for (unsigned k = 0; k <= n; ++k) { // k == n: the state itself; otherwise qubit k flipped
                auto b = bits;
                if (k < n) {
                    b[k] = !b[k];
                }
                std::string path;
                std::size_t idx = 0;
                for (unsigned i = 0; i < n; ++i) {
                    path += b[i] ? '1' : '0';
                    if (i < 64) {
                        idx |= static_cast<std::size_t>(b[i]) << i;
                    }
                }
                const double want = k == n ? amp : (kind == 2 && k == q ? S2 : 0);
                const C      a    = cv(p->getValueByPath(e, path));
                MC_CHECK(ref::close(a, C{want, 0}), n << " qubits, qubit " << q << " deviates: amplitude at " << path << " is " << ref::str(a) << ", expected " << want);
                bool high = false; // an index only describes the lowest 64 qubits; the others are zero
                for (unsigned i = 64; i < n; ++i) {
                    high = high || b[i];
                }
                if (!high) {
                    const C b2 = cv(p->getValueByPath(e, idx));
                    MC_CHECK(ref::close(b2, C{want, 0}), n << " qubits, qubit " << q << " deviates: amplitude at index " << idx << " is " << ref::str(b2) << ", expected " << want);
                }
                mc::op();
            }
            // every level is there
            int lvl = static_cast<int>(n) - 1;
            for (dd::vEdge x = e; !x.isTerminal(); --lvl) {
                MC_CHECK(x.p->v == lvl, "level " << lvl << " is missing");
                x = x.p->e[val(x.p->e[0].w) == C{0, 0} ? 1 : 0];
            }
            mc::state(mc::mix(mc::mix(n, q), kind));
            if (q % 32 == block) {
                p->garbageCollect(true);
            }
        }
        for (unsigned start = block; start < n; start += 4) { // zero state on the qubits from start upwards
            const auto e   = p->makeZeroState(static_cast<dd::QubitCount>(n - start), start);
            int        lvl = static_cast<int>(n) - 1;
            for (dd::vEdge x = e; !x.isTerminal(); --lvl) {
                MC_CHECK(x.p->v == lvl && val(x.p->e[0].w) == (C{1, 0}) && val(x.p->e[1].w) == (C{0, 0}), "zero state from " << start << " is wrong at level " << lvl);
                x = x.p->e[0];
            }
            MC_CHECK(lvl == static_cast<int>(start) - 1, "zero state from " << start << " ends at level " << lvl);
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C03", argc, argv,
                   {{"vectors-1-2-qubits", 3, false, vectors2},
                    {"vectors-3-qubits", 2, false, vectors3},
                    {"vector-shapes", 3, false, shapes},
                    {"product-states", 5, false, product},
                    {"basis-states-and-offsets", 3, false, basis},
                    {"wide-registers", 3, false, wide}},
                   {"all vectors of 1-2 qubits over a 9-letter amplitude alphabet and of 3 qubits over 3 letters; 8 patterns up to 64 amplitudes; all product states of up to 4 (thorough 6) qubits x offsets; all basis states up to 7 qubits x offsets; all single-qubit deviations on registers up to 128 qubits; small and normal tables; fresh, used and collected packages",
                    {"amplitude values are taken from finite alphabets", "dense evaluation in mc/ddx.hpp"}});
}
