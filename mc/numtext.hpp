// An independent reader for the number texts of the library (fractions, 1/sqrt(2), pi, exponential form).
#pragma once
#include "mc.hpp"
#include "ref.hpp"

#include <cmath>
#include <string>

namespace numtext {
    using ref::C;
    struct Reader {
        const std::string& s;
        std::size_t        k    = 0;
        bool               bare = false; // contains a number that may have been rounded

        bool eat(const char* t) {
            const std::size_t l = std::char_traits<char>::length(t);
            if (s.compare(k, l, t) == 0) {
                k += l;
                return true;
            }
            return false;
        }
        [[nodiscard]] bool digit() const { return k < s.size() && (s[k] >= '0' && s[k] <= '9'); }
        [[noreturn]] void  bad() const { mc::fail("'" + s + "' is not a number (position " + std::to_string(k) + ")"); }
        double             number() {
            if (!digit()) {
                bad();
            }
            char*        end = nullptr;
            const double v   = strtod(s.c_str() + k, &end);
            k                = static_cast<std::size_t>(end - s.c_str());
            return v;
        }
        double integer() {
            const auto   b = k;
            const double v = number();
            for (auto i = b; i < k; ++i) {
                if (s[i] < '0' || s[i] > '9') {
                    bad();
                }
            }
            return v;
        }
        // what may follow a numerator
        double denominator() {
            if (!eat("/")) {
                return 1;
            }
            if (eat("√2")) {
                return std::sqrt(2.);
            }
            if (eat("(")) {
                const double b = integer();
                if (!eat("√2") || !eat(")")) {
                    bad();
                }
                return b * std::sqrt(2.);
            }
            return integer();
        }
        // one term without its sign; `unit` receives whether an i was read
        double term(bool& unit) {
            double     v    = 1;
            const bool num  = digit();
            const auto from = k;
            if (num) {
                v = number();
            }
            const bool frac = s.find_first_of(".e", from) < k;
            const bool pi   = eat("π");
            if (pi) {
                v *= M_PI;
            }
            unit = eat("i");
            if (!num && !pi && !unit) {
                bad();
            }
            const auto   slash = k;
            const double d     = denominator();
            if (slash == k && !pi) {
                bare = bare || num;
            } else if (frac) {
                bad();
            }
            return v / d;
        }
        C rectangular() {
            C   r{0, 0};
            int terms = 0;
            while (k < s.size() && s[k] != ' ') {
                const bool minus = eat("-");
                const bool plus  = !minus && eat("+");
                if (terms > 0 && !minus && !plus) {
                    bad();
                }
                bool         unit = false;
                const double v    = term(unit) * (minus ? -1 : 1);
                if (unit ? r.imag() != 0 : terms > 0) {
                    bad(); // a part given twice or in the wrong order
                }
                if (!unit && k < s.size() && s[k] == '(') {
                    if (eat("(1+i)")) {
                        r = {v, v};
                    } else if (eat("(1-i)")) {
                        r = {v, -v};
                    } else {
                        bad();
                    }
                    return r;
                }
                r += unit ? C{0, v} : C{v, 0};
                ++terms;
            }
            if (terms == 0) {
                bad();
            }
            return r;
        }
        // e(i pi x)
        double phase() {
            if (!eat("ℯ(")) {
                bad();
            }
            const double sg = eat("-") ? -1 : 1;
            if (!eat("iπ")) {
                bad();
            }
            double v = 1;
            if (eat(" ")) {
                const bool num = digit();
                if (num) {
                    v = number();
                }
                const bool pi = eat("π") || (num && eat(" π"));
                if (pi) {
                    v *= M_PI;
                }
                if (!num && !pi) {
                    bad();
                }
                const auto slash = k;
                v /= denominator();
                bare = bare || (slash == k && !pi);
            } else {
                v /= denominator();
            }
            if (!eat(")")) {
                bad();
            }
            return sg * v;
        }
        void end() const {
            if (k != s.size()) {
                bad();
            }
        }
    };
    // the difference a text may show: `digits` significant digits where a plain number is given
    inline double slack(const Reader& r, double size, int digits) {
        return 4e-12 * std::max(1., size) + (r.bare ? size * 0.501 * std::pow(10., 1 - std::max(digits, 1)) : 0);
    }
    inline void rectangular(const std::string& s, const C& want, int digits, const std::string& what) {
        Reader  r{s};
        const C v = r.rectangular();
        r.end();
        MC_CHECK(std::abs(v.real() - want.real()) <= slack(r, std::abs(want.real()), digits) && std::abs(v.imag() - want.imag()) <= slack(r, std::abs(want.imag()), digits),
                 what << ": '" << s << "' means " << ref::str(v) << ", expected " << ref::str(want));
    }
    inline void polar(const std::string& s, const C& want, const std::string& what) {
        Reader r{s};
        C      v{0, 0};
        if (s.find("ℯ") == std::string::npos) {
            v = r.rectangular();
        } else {
            double mag = 1;
            if (s.compare(0, 3, "ℯ") != 0) {
                const C m = r.rectangular();
                if (m.imag() != 0 || m.real() < 0 || !r.eat(" ")) {
                    r.bad();
                }
                mag = m.real();
            }
            v = std::polar(mag, M_PI * r.phase());
        }
        r.end();
        const double size = std::abs(want);
        MC_CHECK(std::abs(v - want) <= 4e-11 * std::max(1., size) + (r.bare ? size * 2.2e-5 : 0), what << ": '" << s << "' means " << ref::str(v) << ", expected " << ref::str(want));
    }
    // plain text: real, imaginary or both
    inline void plain(const std::string& s, const C& want, int digits, const std::string& what) {
        for (const char c: s) {
            if (std::string("0123456789+-.ei").find(c) == std::string::npos) {
                mc::fail(what + ": '" + s + "' is not a plain number");
            }
        }
        rectangular(s, want, digits, what);
    }
} // namespace numtext
