// Dense reference model: boring linear algebra on std::complex<double>, written independently of the library.
// Vectors: index bit q is qubit q.  Matrices: row-major, M[r*dim+c].
#pragma once
#include "mc.hpp"

#include <cmath>
#include <complex>

namespace ref {
    using C = std::complex<double>;
    using V = std::vector<C>;
    struct M {
        std::size_t d = 1;
        V           a{C{0, 0}};
        M() = default;
        explicit M(std::size_t dim):
            d(dim), a(dim * dim) {}
        C&       operator()(std::size_t r, std::size_t c) { return a[r * d + c]; }
        const C& operator()(std::size_t r, std::size_t c) const { return a[r * d + c]; }
    };
    inline C cmul(const C& x, const C& y) { return {x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real()}; }
    inline M ident(std::size_t d) {
        M m(d);
        for (std::size_t i = 0; i < d; ++i) {
            m(i, i) = 1;
        }
        return m;
    }
    inline M mul(const M& x, const M& y) {
        M r(x.d);
        for (std::size_t i = 0; i < x.d; ++i) {
            for (std::size_t k = 0; k < x.d; ++k) {
                if (x(i, k) == C{0, 0}) {
                    continue;
                }
                for (std::size_t j = 0; j < x.d; ++j) {
                    r(i, j) += cmul(x(i, k), y(k, j));
                }
            }
        }
        return r;
    }
    inline V mul(const M& x, const V& v) {
        V r(v.size());
        for (std::size_t i = 0; i < x.d; ++i) {
            for (std::size_t k = 0; k < x.d; ++k) {
                r[i] += cmul(x(i, k), v[k]);
            }
        }
        return r;
    }
    inline V add(const V& x, const V& y) {
        V r(x);
        for (std::size_t i = 0; i < r.size(); ++i) {
            r[i] += y[i];
        }
        return r;
    }
    inline M add(const M& x, const M& y) {
        M r(x);
        for (std::size_t i = 0; i < r.a.size(); ++i) {
            r.a[i] += y.a[i];
        }
        return r;
    }
    inline V scale(const V& x, C s) {
        V r(x);
        for (auto& e: r) {
            e = cmul(e, s);
        }
        return r;
    }
    inline M scale(const M& x, C s) {
        M r(x);
        r.a = scale(x.a, s);
        return r;
    }
    // x becomes the more significant part
    inline V kron(const V& x, const V& y) {
        V r;
        for (const auto& a: x) {
            for (const auto& b: y) {
                r.push_back(cmul(a, b));
            }
        }
        return r;
    }
    inline M kron(const M& x, const M& y) {
        M r(x.d * y.d);
        for (std::size_t i = 0; i < x.d; ++i) {
            for (std::size_t j = 0; j < x.d; ++j) {
                for (std::size_t k = 0; k < y.d; ++k) {
                    for (std::size_t l = 0; l < y.d; ++l) {
                        r(i * y.d + k, j * y.d + l) = cmul(x(i, j), y(k, l));
                    }
                }
            }
        }
        return r;
    }
    inline M transpose(const M& x) {
        M r(x.d);
        for (std::size_t i = 0; i < x.d; ++i) {
            for (std::size_t j = 0; j < x.d; ++j) {
                r(j, i) = x(i, j);
            }
        }
        return r;
    }
    inline M adjoint(const M& x) {
        M r = transpose(x);
        for (auto& e: r.a) {
            e = std::conj(e);
        }
        return r;
    }
    inline C inner(const V& x, const V& y) {
        C r{};
        for (std::size_t i = 0; i < x.size(); ++i) {
            r += cmul(std::conj(x[i]), y[i]);
        }
        return r;
    }
    inline C trace(const M& x) {
        C r{};
        for (std::size_t i = 0; i < x.d; ++i) {
            r += x(i, i);
        }
        return r;
    }
    inline double norm2(const V& x) {
        double r = 0;
        for (const auto& e: x) {
            r += std::norm(e);
        }
        return r;
    }
    struct Ctl {
        int  q;
        bool pos;
    };
    // gate `g` (2x2, row-major) on `target` of n qubits, active when all controls are satisfied
    inline M gate(int n, const C* g, int target, const std::vector<Ctl>& ctl = {}) {
        const std::size_t d = 1ULL << n;
        M                 r(d);
        for (std::size_t c = 0; c < d; ++c) {
            bool act = true;
            for (const auto& k: ctl) {
                act = act && (((c >> k.q) & 1ULL) != 0) == k.pos;
            }
            if (!act) {
                r(c, c) = 1;
                continue;
            }
            const std::size_t b = (c >> target) & 1ULL;
            for (std::size_t o = 0; o < 2; ++o) {
                const std::size_t row = (c & ~(1ULL << target)) | (o << target);
                r(row, c)             = g[o * 2 + b];
            }
        }
        return r;
    }
    // two-qubit gate `g` (4x4, row-major, index = 2*bit(t0)+bit(t1))
    inline M gate2(int n, const C* g, int t0, int t1, const std::vector<Ctl>& ctl = {}) {
        const std::size_t d = 1ULL << n;
        M                 r(d);
        for (std::size_t c = 0; c < d; ++c) {
            bool act = true;
            for (const auto& k: ctl) {
                act = act && (((c >> k.q) & 1ULL) != 0) == k.pos;
            }
            if (!act) {
                r(c, c) = 1;
                continue;
            }
            const std::size_t b = 2 * ((c >> t0) & 1ULL) + ((c >> t1) & 1ULL);
            for (std::size_t o = 0; o < 4; ++o) {
                const std::size_t row = (c & ~(1ULL << t0) & ~(1ULL << t1)) | ((o >> 1) << t0) | ((o & 1) << t1);
                r(row, c)             = g[o * 4 + b];
            }
        }
        return r;
    }
    // partial trace; elim[q] = trace out qubit q; remaining qubits keep their order
    inline M ptrace(const M& x, int n, const std::vector<bool>& elim) {
        int keep = 0;
        for (int q = 0; q < n; ++q) {
            keep += elim[static_cast<std::size_t>(q)] ? 0 : 1;
        }
        M    r(1ULL << keep);
        auto split = [&](std::size_t i, std::size_t& k, std::size_t& t) {
            k      = 0;
            t      = 0;
            int kb = 0;
            int tb = 0;
            for (int q = 0; q < n; ++q) {
                const std::size_t b = (i >> q) & 1ULL;
                if (elim[static_cast<std::size_t>(q)]) {
                    t |= b << tb++;
                } else {
                    k |= b << kb++;
                }
            }
        };
        for (std::size_t i = 0; i < x.d; ++i) {
            for (std::size_t j = 0; j < x.d; ++j) {
                std::size_t ki = 0;
                std::size_t ti = 0;
                std::size_t kj = 0;
                std::size_t tj = 0;
                split(i, ki, ti);
                split(j, kj, tj);
                if (ti == tj) {
                    r(ki, kj) += x(i, j);
                }
            }
        }
        return r;
    }
    inline bool close(const C& x, const C& y, double eps = 1e-9) { return std::abs(x.real() - y.real()) <= eps && std::abs(x.imag() - y.imag()) <= eps; }
    inline bool close(const V& x, const V& y, double eps = 1e-9) {
        if (x.size() != y.size()) {
            return false;
        }
        for (std::size_t i = 0; i < x.size(); ++i) {
            if (!close(x[i], y[i], eps)) {
                return false;
            }
        }
        return true;
    }
    inline bool close(const M& x, const M& y, double eps = 1e-9) { return x.d == y.d && close(x.a, y.a, eps); }
    inline std::string str(const C& c) {
        std::ostringstream o;
        o.precision(17);
        o << c.real() << (c.imag() < 0 ? "" : "+") << c.imag() << "i";
        return o.str();
    }
    inline std::string str(const V& v) {
        std::ostringstream o;
        o << "[";
        for (std::size_t i = 0; i < v.size(); ++i) {
            o << (i != 0 ? ", " : "") << v[i].real();
            if (v[i].imag() != 0) {
                o << (v[i].imag() < 0 ? "" : "+") << v[i].imag() << "i";
            }
        }
        o << "]";
        return o.str();
    }
    inline std::string str(const M& m) { return "M" + std::to_string(m.d) + str(m.a); }
    inline std::uint64_t hash(const C& c, std::uint64_t h = 7) {
        const auto q = [](double x) { return static_cast<std::uint64_t>(static_cast<std::int64_t>(std::floor(x * 1e6 + 0.5))); };
        return mc::mix(mc::mix(h, q(c.real())), q(c.imag()));
    }
    inline std::uint64_t hash(const V& v, std::uint64_t h = 11) {
        for (const auto& e: v) {
            h = hash(e, h);
        }
        return h;
    }
    inline std::uint64_t hash(const M& m, std::uint64_t h = 13) { return hash(m.a, mc::mix(h, m.d)); }
} // namespace ref
