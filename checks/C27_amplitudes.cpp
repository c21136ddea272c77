// C27: amplitude export writes every amplitude in order.
#include "ddx.hpp"

#include <sys/stat.h>
#include <unistd.h>
using namespace ddx;
namespace {
    // reads a+bi, bi, a: written here independently of the library's reader
    C parse(const std::string& s) {
        const char* c   = s.c_str();
        char*       end = nullptr;
        double      a   = strtod(c, &end);
        if (end == c) {
            mc::fail("'" + s + "' is not a number");
        }
        if (*end == 'i' && end[1] == 0) {
            return {0, a};
        }
        if (*end == 0) {
            return {a, 0};
        }
        char*        e2 = nullptr;
        const double b  = strtod(end, &e2);
        if ((*end != '+' && *end != '-') || e2 == end || *e2 != 'i' || e2[1] != 0) {
            mc::fail("'" + s + "' is not a complex number");
        }
        return {a, b};
    }
    struct Scratch {
        std::string d, file;
        Scratch() {
            const char* t = getenv("TMPDIR");
            d             = std::string(t != nullptr ? t : "/tmp") + "/c27." + std::to_string(getpid());
            file          = d + "/a.txt";
            mkdir(d.c_str(), 0700);
        }
        ~Scratch() {
            unlink(file.c_str());
            rmdir(d.c_str());
        }
    };
    V fromText(const std::string& s, std::size_t n, const std::string& what) {
        V                  r;
        std::istringstream is(s);
        for (std::string l; std::getline(is, l);) {
            r.push_back(parse(l));
        }
        MC_CHECK(s.empty() || s.back() == '\n', what << ": the last line is incomplete");
        MC_CHECK(r.size() == n, what << ": " << r.size() << " lines, expected " << n);
        return r;
    }
    V fromBinary(const std::string& s, std::size_t n, const std::string& what) {
        MC_CHECK(s.size() == n * 16, what << ": " << s.size() << " bytes, expected " << n * 16);
        V r(n);
        for (std::size_t i = 0; i < n; ++i) {
            double x[2];
            memcpy(x, s.data() + 16 * i, 16);
            r[i] = {x[0], x[1]};
        }
        return r;
    }
    // every way of exporting; `files` also through a file
    template<class P>
    void all(P& p, const dd::vEdge& e, const V& want, int n, unsigned order, Scratch* files = nullptr) {
        const std::size_t d   = 1ULL << n;
        const auto        nq  = static_cast<dd::QubitCount>(n);
        const double      tol = 1e-10 * scaleOf(want);
        NoLeak<P>         nl(p);
        const auto        copy = e;
        for (unsigned k = 0; k < 5; ++k) {
            switch ((k + order) % 5) {
                case 0: {
                    std::ostringstream os;
                    p.exportAmplitudes(e, os, nq, false);
                    expect(fromText(os.str(), d, "text"), want, "amplitudes as text", tol);
                    break;
                }
                case 1: {
                    std::ostringstream os;
                    p.exportAmplitudes(e, os, nq, true);
                    expect(fromBinary(os.str(), d, "binary"), want, "amplitudes in binary form", tol);
                    break;
                }
                case 2: {
                    V v(d, {7, -7}); // every entry has to be written
                    p.exportAmplitudes(e, v, nq);
                    expect(v, want, "amplitudes as vector", tol);
                    break;
                }
                case 3: {
                    V v(d), w(d);
                    for (std::size_t i = 0; i < d; ++i) {
                        v[i] = {0.5 * static_cast<double>(i) - 1, 3 - static_cast<double>(i % 3)};
                        w[i] = v[i] + want[i];
                    }
                    p.addAmplitudes(e, v, nq);
                    expect(v, w, "added amplitudes", tol);
                    p.addAmplitudes(e, v, nq);
                    expect(v, ref::add(w, want), "amplitudes added twice", tol);
                    break;
                }
                default:
                    if (files != nullptr) {
                        for (const bool bin: {true, false, true}) {
                            p.exportAmplitudes(e, files->file, nq, bin);
                            std::ifstream     is(files->file, std::ios::binary);
                            std::stringstream ss;
                            ss << is.rdbuf();
                            expect(bin ? fromBinary(ss.str(), d, "binary file") : fromText(ss.str(), d, "text file"), want, "amplitudes in a file", tol);
                        }
                    }
            }
        }
        MC_CHECK(e == copy && ref::close(vec(e, n), want, 1e-9 * scaleOf(want)), "exporting changed the state");
        nl.check("exporting");
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, -1}, {0.5, 0}, {3, -4}, {0, 0}, {1.0 / 3, 0.25}, {1e-5, 0}};
    void states() {
        const unsigned n   = 1 + mc::choose(3, "qubits-1");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned w   = n == 3 ? 2 * cfg : mc::choose(4, "env");
        const unsigned hi  = mc::choose(27, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const auto& alpha = n == 1 ? L9 : (n == 2 ? L9 : (mc::thorough() ? L4 : L3));
            const auto  total = ipow(alpha.size(), 1ULL << n);
            const auto  ni    = static_cast<int>(n);
            auto        p     = std::make_unique<P>(n);
            warm(*p, ni, w);
            unsigned k = 0;
            for (std::size_t x = hi; x < total; x += 27, ++k) {
                const auto a = vecFrom(x, ni, alpha);
                const C    f = F[k % 8];
                all(*p, scaled(*p, p->makeStateFromVector(cvec(a)), f), ref::scale(a, f), ni, k);
                if (k % 64 == 63) {
                    mc::alive();
                    p->garbageCollect(true);
                }
            }
        });
    }
    // zero branches at every place: all subsets of non-zero amplitudes
    void supports() {
        const unsigned hi = mc::choose(64, "part");
        auto           p  = std::make_unique<Pkg<Tiny>>(4);
        for (unsigned s = hi; s < 65536; s += 64) {
            V a(16);
            for (unsigned i = 0; i < 16; ++i) {
                a[i] = ((s >> i) & 1U) != 0 ? C{0.1 * (i + 1), i % 2 == 0 ? 0. : -0.5} : C{0, 0};
            }
            all(*p, p->makeStateFromVector(cvec(a)), a, 4, s);
            if (s / 64 % 128 == 127) {
                mc::alive();
                p->garbageCollect(true);
            }
        }
    }
    void structured() {
        const unsigned n   = mc::choose(mc::thorough() ? 11 : 9, "qubits");
        const unsigned pa  = mc::choose(NVP, "pattern");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(std::max(n, 1U) + 1);
            warm(*p, std::min(ni, 3), w);
            Scratch scratch;
            if (n == 0) {
                for (const auto& c: L9) {
                    const auto l = p->cn.lookup(c.real(), c.imag());
                    all(*p, dd::vEdge::terminal(l), V{c}, 0, pa, &scratch);
                }
                return;
            }
            const auto a = vecPat(ni, pa);
            const auto e = p->makeStateFromVector(cvec(a));
            p->incRef(e);
            all(*p, e, a, ni, pa, &scratch);
            all(*p, scaled(*p, e, {0, -0.5}), ref::scale(a, {0, -0.5}), ni, pa, &scratch);
            p->garbageCollect(true);
            all(*p, e, a, ni, pa + 1, &scratch);
            p->decRef(e);
            // a state that adds up to nothing
            all(*p, p->add(e, scaled(*p, e, -1)), V(1ULL << n), ni, pa);
        });
    }
    // values in text
    void values() {
        static const double parts[] = {0, 1, 1.0 / 3, 0.1, std::sqrt(0.5), 1e-6, 1e-12, 12345.678901234567, 1e7 / 7, 0.999999999};
        const unsigned      a = mc::choose(10, "real part"), b = mc::choose(10, "imaginary part"), s = mc::choose(4, "signs");
        auto                p = std::make_unique<Pkg<Tiny>>(1);
        const C             c{(s & 1U) != 0 ? -parts[a] : parts[a], (s & 2U) != 0 ? -parts[b] : parts[b]};
        for (const auto& d: {C{0, 0}, C{1, 0}, C{0, -1}, C{0.3, 0.4}, C{-1e-3, 2}}) {
            const auto e = p->makeStateFromVector(cvec(V{c, d}));
            const auto w = vec(e, 1);
            all(*p, e, w, 1, a + b);
            std::ostringstream os;
            p->exportAmplitudes(e, os, 1, false);
            const auto g = fromText(os.str(), 2, "text");
            for (unsigned i = 0; i < 2; ++i) {
                MC_CHECK(std::abs(g[i] - w[i]) <= 4e-15 * std::abs(w[i]) + 4e-13, "amplitude written as " << os.str() << ", expected " << ref::str(w));
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C27", argc, argv,
                   {{"all-small-states", 3, false, states},
                    {"all-supports", 1, false, supports},
                    {"structured", 4, false, structured},
                    {"values", 3, false, values}},
                   {"all states over the alphabets (81 of 1 qubit, 6561 of 2 and 6561 (65536) of 3 qubits) with 8 root factors, all 65536 patterns of zero amplitudes on 4 qubits, 14 patterns on 1 to 8 (10) qubits, scalars and the zero state, 400 complex values; text, binary, vector, sum, text and binary file, in every order; fresh, used and collected packages with small and normal tables",
                    {"amplitudes are taken from finite alphabets", "the qubit count asked for is the one of the state", "files are written in a scratch directory"}});
}
