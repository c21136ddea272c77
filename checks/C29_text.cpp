// C29: formatting and parsing of complex numbers.
#include "ddx.hpp"
#include "numtext.hpp"
//
#include "dd/Export.hpp"

#include <numeric>
using namespace ddx;
namespace {
    const double TOL = 1024 * std::numeric_limits<double>::epsilon();
    // sizes whose texts have to be exact, written or not as fractions, and sizes next to them
    const std::vector<double>& sizes() {
        static const std::vector<double> v = [] {
            std::vector<double> r{0, TOL / 2, TOL * 0.95, TOL * 1.05, TOL * 2, TOL * 3.5, TOL * 5};
            for (const double unit: {1., std::sqrt(0.5), M_PI}) {
                for (const double a: {1., 2., 3., 7., 10., 1000., 123457., 1234567.}) {
                    for (const double b: {1., 2., 3., 8., 1000., 1023., 1024., 1025.}) {
                        if (a == 1 || a == b || std::gcd(static_cast<int>(a), static_cast<int>(b)) == 1) {
                            r.push_back(a / b * unit);
                        }
                    }
                }
            }
            for (const double x: {1., 0.5, std::sqrt(0.5), M_PI, 0.1}) {
                for (const double d: {-1e-6, -4 * TOL, -1.5 * TOL, -0.5 * TOL, 0.5 * TOL, 1.5 * TOL, 4 * TOL, 1e-6, 1e-9}) {
                    r.push_back(x + d);
                }
            }
            for (const double x: {1e-12, 1e-11, 1.23456789e-10, 3.3e-7, 1e-5, 9.999995e-5, 1.0 / 2049, 0.0123456, 0.1234, 0.54321987654321, 0.99999949, 0.9999995, 3.14159, 12.3456789, 99999.96, 123456.7, 999999.6, 1234567.89, 98765432.1234, 4503599627370495.5, 9007199254740993., 1e15 + 0.5, 1e18, 1e19, 3e20, 1.5e100}) {
                r.push_back(x);
            }
            return r;
        }();
        return v;
    }
    double real(const std::string& s) {
        char*        end = nullptr;
        const double v   = strtod(s.c_str(), &end);
        if (end != s.c_str() + s.size()) {
            mc::fail("'" + s + "' is not a number");
        }
        return v;
    }
    // plain text, split into its parts the way the reader wants them
    void parse(const std::string& s, const C& want, bool exact) {
        std::string re, im;
        if (!s.empty() && s.back() == 'i') {
            auto k = s.size() - 1;
            while (k > 0 && !((s[k] == '+' || s[k] == '-') && s[k - 1] != 'e')) {
                --k;
            }
            re = s.substr(0, k);
            im = s.substr(k);
        } else {
            re = s;
        }
        dd::ComplexValue v{7, -7};
        v.fromString(re, im);
        const C w{std::abs(want.real()) <= TOL ? 0. : want.real(), std::abs(want.imag()) <= TOL ? 0. : want.imag()};
        if (exact) {
            MC_CHECK(cv(v) == w, "'" << re << "', '" << im << "' read as " << ref::str(cv(v)) << ", written from " << ref::str(w));
        } else {
            const C r{re.empty() ? 0. : real(re), im.empty() ? 0. : real(im.substr(0, im.size() - 1))};
            MC_CHECK(cv(v) == r, "'" << re << "', '" << im << "' read as " << ref::str(cv(v)) << ", expected " << ref::str(r));
        }
        // spaces around the imaginary part are allowed
        if (im.size() > 1) {
            const auto       before = v;
            dd::ComplexValue u{7, -7};
            u.fromString(re, std::string(1, im[0]) + " " + im.substr(1));
            MC_CHECK(u == before, "'" << im << "' with a space read as " << ref::str(cv(u)));
        }
    }
    struct Num { // a number of the package with the given value, whatever the package would do to it
        dd::CTEntry r{}, i{};
        bool        nr, ni;
        explicit Num(const C& c):
            nr(std::signbit(c.real())), ni(std::signbit(c.imag())) {
            r.value = std::abs(c.real());
            i.value = std::abs(c.imag());
        }
        dd::Complex get() {
            return {nr ? dd::CTEntry::getNegativePointer(&r) : &r, ni ? dd::CTEntry::getNegativePointer(&i) : &i};
        }
    };
    const std::string& same(const std::string& a, const std::string& b, const char* what) {
        if (a != b) {
            mc::fail(std::string(what) + ": '" + a + "' and '" + b + "' for the same number");
        }
        return a;
    }
    template<class T>
    std::string streamed(const T& t) {
        std::ostringstream os;
        os << t;
        return os.str();
    }
    void number(const C& c) {
        mc::op();
        mc::state(mc::mix(std::hash<double>{}(c.real()), std::hash<double>{}(c.imag())));
        Num        n(c);
        const auto z = n.get();
        MC_CHECK(val(z) == c, "bad harness");
        const dd::ComplexValue zv{c.real(), c.imag()};
        const std::string      w = "number " + ref::str(c);
        numtext::rectangular(same(same(z.toString(), streamed(z), "stream"), streamed(zv), "value"), c, 6, w + " as text");
        numtext::rectangular(dd::conditionalFormat(z, false), c, 6, w + " as text for the export");
        for (const int p: {0, 1, 3, 12, 17, -1}) {
            const int d = p < 0 ? 6 : p;
            numtext::rectangular(z.toString(true, p), c, d, w + " with " + std::to_string(p) + " digits");
            const auto s = z.toString(false, p);
            numtext::plain(s, c, d, w + " plain with " + std::to_string(p) + " digits");
            parse(s, c, p == 17);
        }
        numtext::polar(dd::conditionalFormat(z), c, w + " in polar form");
        // binary
        for (const bool value: {false, true}) {
            std::stringstream ss;
            if (value) {
                zv.writeBinary(ss);
            } else {
                z.writeBinary(ss);
            }
            dd::ComplexValue r{7, -7};
            r.readBinary(ss);
            MC_CHECK(cv(r) == c && ss.tellg() == 16, w << " read back from binary form as " << ref::str(cv(r)));
        }
        MC_CHECK(val(z) == c, w << " changed by writing it");
    }
    void rectangular() {
        const auto a = mc::choose(static_cast<unsigned>(sizes().size()), "real part");
        for (const double b: sizes()) {
            for (unsigned s = 0; s < 4; ++s) {
                number({(s & 1U) != 0 ? -sizes()[a] : sizes()[a], (s & 2U) != 0 ? -b : b});
            }
        }
        for (const double d: {-2 * TOL, -0.9 * TOL, -0.4 * TOL, 0.4 * TOL, 0.9 * TOL, 2 * TOL, 1e-9}) { // almost equal parts
            for (unsigned s = 0; s < 4; ++s) {
                number({(s & 1U) != 0 ? -sizes()[a] : sizes()[a], ((s & 2U) != 0 ? -1 : 1) * (sizes()[a] + d)});
            }
        }
    }
    // magnitude and phase on the grid of exactly representable phases
    void polar() {
        const unsigned     b     = 1 + mc::choose(64, "denominator-1");
        static const double mag[] = {1, 0.5, std::sqrt(0.5), 2, 1. / 3, M_PI, 0.1234, 1e-3, 12345.6, 1 + 2e-13, 1 - 3e-13};
        for (const double m: mag) {
            for (const double unit: {1., std::sqrt(0.5), M_PI}) {
                for (unsigned a = 0; a / unit <= 2 * b + 2 && a * unit <= b * 1.0000001; ++a) {
                    for (const double e: {0., 2e-13, 1e-9, 3e-4}) {
                        const double ph = M_PI * (a * unit / b + e);
                        number(std::polar(m, ph));
                        number(std::polar(m, -ph));
                    }
                }
            }
            mc::alive();
        }
    }
    // single parts through the low-level formatter: both signs, real and imaginary, every small fraction
    void parts() {
        const unsigned b   = 1 + mc::choose(128, "denominator-1");
        const unsigned max = mc::thorough() ? 1024 : 130;
        for (const double unit: {1., std::sqrt(0.5), M_PI}) {
            for (unsigned a = 0; a <= max; ++a) {
                for (const double e: {0., 1e-13, -1e-13, 1e-8}) {
                    for (const double sg: {1., -1.}) {
                        const double x = sg * (a * unit / b + e);
                        mc::op();
                        for (const bool im: {false, true}) {
                            std::ostringstream os;
                            dd::ComplexValue::printFormatted(os, x, im);
                            const auto s = os.str();
                            MC_CHECK(!im || (!s.empty() && (s[0] == '+' || s[0] == '-')), "imaginary part '" << s << "' without a sign");
                            numtext::rectangular(s, im ? C{0, x} : C{x, 0}, 6, "part");
                        }
                    }
                }
            }
        }
        for (unsigned a = 1; a <= max; ++a) {
            const auto f = dd::ComplexValue::getLowestFraction(static_cast<double>(a) / b);
            const auto g = std::gcd(a, b);
            MC_CHECK(f.first == a / g && f.second == b / g, a << "/" << b << " found as " << f.first << "/" << f.second);
        }
        // imaginary units without a number
        for (const auto& [t, v]: {std::pair{"+i", 1.}, {"-i", -1.}, {"+ i", 1.}, {"- i", -1.}, {"1i", 1.}, {"-1i", -1.}, {"+2i", 2.}, {"- 2.5e-3i", -2.5e-3}, {"", 0.}}) {
            for (const auto& [u, w]: {std::pair{"", 0.}, {"1", 1.}, {"-2.5", -2.5}, {"1e-3", 1e-3}}) {
                dd::ComplexValue c{7, -7};
                c.fromString(u, t);
                MC_CHECK(c.r == w && c.i == v, "'" << u << "', '" << t << "' read as " << ref::str(cv(c)));
            }
        }
        mc::state(b);
    }
    // numbers as the package creates them
    void looked() {
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned a   = mc::choose(static_cast<unsigned>(sizes().size()), "size");
        withCfg(cfg, [&](auto t) {
            auto p = std::make_unique<Pkg<typename decltype(t)::type>>(1);
            for (const double b: {0., 1., std::sqrt(0.5), 0.25, sizes()[a], 0.1234, 3e-13}) {
                for (unsigned s = 0; s < 4; ++s) {
                    const C          c{(s & 1U) != 0 ? -sizes()[a] : sizes()[a], (s & 2U) != 0 ? -b : b};
                    const auto       l = p->cn.lookup(c.real(), c.imag());
                    const auto       v = val(l);
                    auto             k = p->cn.getCached(c.real(), c.imag());
                    std::stringstream ss;
                    numtext::rectangular(l.toString(), v, 6, "stored number");
                    numtext::plain(l.toString(false, 17), v, 17, "stored number");
                    parse(l.toString(false, 17), v, true);
                    numtext::polar(dd::conditionalFormat(l), v, "stored number in polar form");
                    numtext::rectangular(k.toString(), c, 6, "temporary");
                    numtext::polar(dd::conditionalFormat(k), c, "temporary in polar form");
                    l.writeBinary(ss);
                    k.writeBinary(ss);
                    dd::ComplexValue r{}, q{};
                    r.readBinary(ss);
                    q.readBinary(ss);
                    MC_CHECK(cv(r) == v && cv(q) == c, "binary form of a stored number");
                    p->cn.returnToCache(k);
                    mc::op();
                }
            }
            mc::state(a);
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C29", argc, argv,
                   {{"rectangular", 1, false, rectangular},
                    {"polar", 1, false, polar},
                    {"parts", 1, false, parts},
                    {"package-numbers", 2, false, looked}},
                   {"all pairs of about 200 sizes (fractions with denominators to 1025 of 1, 1/sqrt(2) and pi, numbers around the tolerance, decimals from 1e-12 to 1e100) x signs x 6 precisions x formatted, plain, polar and binary form; all phases a/b with b to 64 of pi, pi/sqrt(2) and pi*pi x 11 magnitudes x 4 offsets; all parts a/b with b to 128",
                    {"magnitudes up to 1e100", "plain text is handed to the reader as it was split into its parts"}});
}
