// C07: predefined gate matrices are the textbook matrices.
#include "ddx.hpp"
using namespace ddx;
namespace {
    const C I{0, 1};
    M       of(const dd::GateMatrix& g) { return m2(cv(g[0]), cv(g[1]), cv(g[2]), cv(g[3])); }
    M       of(const dd::TwoQubitGateMatrix& g) {
        M m(4);
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                m(i, j) = cv(g[i][j]);
            }
        }
        return m;
    }
    void same(const M& got, const M& want, const std::string& what, bool unitary = true) {
        expect(got, want, what, 1e-13);
        if (unitary) {
            MC_CHECK(ref::close(ref::mul(got, ref::adjoint(got)), ref::ident(got.d), 1e-12), what << " is not unitary");
        }
    }
    const M ID = m2(1, 0, 0, 1), X = m2(0, 1, 1, 0), Y = m2(0, -I, I, 0), Z = m2(1, 0, 0, -1);
    M       k2(const M& a, const M& b) { return ref::kron(a, b); }
    // exp(-i t/2 A) for A*A = 1
    M rot(const M& a, double t) { return ref::add(ref::scale(ref::ident(a.d), std::cos(t / 2)), ref::scale(a, C{0, -std::sin(t / 2)})); }
    // exp(A) by its power series, independent of any closed form
    M expm(const M& a) {
        M r = ref::ident(a.d);
        M s = a;
        for (auto& x: s.a) {
            x /= 1024.;
        }
        M t = ref::ident(a.d);
        for (int k = 1; k < 14; ++k) {
            t = ref::scale(ref::mul(t, s), 1. / k);
            r = ref::add(r, t);
        }
        for (int k = 0; k < 10; ++k) {
            r = ref::mul(r, r);
        }
        return r;
    }
    void constants() {
        const double h = S2;
        const C      w = std::polar(1., M_PI / 4);
        struct E {
            const char* n;
            M           got, want;
        };
        const E l[] = {
                {"Imat", of(dd::Imat), ID},
                {"Hmat", of(dd::Hmat), m2(h, h, h, -h)},
                {"Xmat", of(dd::Xmat), X},
                {"Ymat", of(dd::Ymat), Y},
                {"Zmat", of(dd::Zmat), Z},
                {"Smat", of(dd::Smat), m2(1, 0, 0, I)},
                {"Sdagmat", of(dd::Sdagmat), m2(1, 0, 0, -I)},
                {"Tmat", of(dd::Tmat), m2(1, 0, 0, w)},
                {"Tdagmat", of(dd::Tdagmat), m2(1, 0, 0, std::conj(w))},
                {"SXmat", of(dd::SXmat), m2(C{0.5, 0.5}, C{0.5, -0.5}, C{0.5, -0.5}, C{0.5, 0.5})},
                {"SXdagmat", of(dd::SXdagmat), m2(C{0.5, -0.5}, C{0.5, 0.5}, C{0.5, 0.5}, C{0.5, -0.5})},
                {"Vmat", of(dd::Vmat), rot(X, M_PI / 2)},
                {"Vdagmat", of(dd::Vdagmat), rot(X, -M_PI / 2)},
        };
        for (const auto& e: l) {
            same(e.got, e.want, e.n);
        }
        same(ref::mul(of(dd::SXmat), of(dd::SXmat)), X, "SX squared");
        same(ref::mul(of(dd::SXmat), of(dd::SXdagmat)), ID, "SX times SXdag");
        same(ref::mul(of(dd::Tmat), of(dd::Tmat)), of(dd::Smat), "T squared");
        same(ref::mul(of(dd::Smat), of(dd::Smat)), Z, "S squared");
        same(ref::mul(of(dd::Vmat), of(dd::Vdagmat)), ID, "V times Vdag");
        auto m4 = [](std::vector<C> v) {
            M m(4);
            m.a = std::move(v);
            return m;
        };
        same(of(dd::CXmat), m4({1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0}), "CXmat");
        same(of(dd::CZmat), m4({1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, -1}), "CZmat");
        same(of(dd::SWAPmat), m4({1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1}), "SWAPmat");
        same(of(dd::iSWAPmat), m4({1, 0, 0, 0, 0, 0, I, 0, 0, I, 0, 0, 0, 0, 0, 1}), "iSWAPmat");
        same(of(dd::iSWAPinvmat), m4({1, 0, 0, 0, 0, 0, -I, 0, 0, -I, 0, 0, 0, 0, 0, 1}), "iSWAPinvmat");
        same(of(dd::DCXmat), m4({1, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0}), "DCXmat");
        same(of(dd::ECRmat), ref::mul(rot(k2(Z, X), -M_PI / 4), ref::mul(k2(X, ID), rot(k2(Z, X), M_PI / 4))), "ECRmat");
        struct N {
            const char*      n;
            dd::ComplexValue v;
            C                w;
        };
        const N c[] = {{"complex_one", dd::complex_one, 1}, {"complex_mone", dd::complex_mone, -1}, {"complex_zero", dd::complex_zero, 0}, {"complex_i", dd::complex_i, I}, {"complex_mi", dd::complex_mi, -I}, {"complex_SQRT2_2", dd::complex_SQRT2_2, h}, {"complex_mSQRT2_2", dd::complex_mSQRT2_2, -h}, {"complex_iSQRT2_2", dd::complex_iSQRT2_2, I * h}, {"complex_miSQRT2_2", dd::complex_miSQRT2_2, -I * h}, {"complex_1plusi", dd::complex_1plusi, w}, {"complex_1minusi", dd::complex_1minusi, std::conj(w)}, {"complex_1plusi_2", dd::complex_1plusi_2, C{0.5, 0.5}}, {"complex_1minusi_2", dd::complex_1minusi_2, C{0.5, -0.5}}};
        for (const auto& e: c) {
            expect(cv(e.v), e.w, e.n, 1e-15);
        }
        expect(C{dd::SQRT2_2, dd::PI}, C{h, M_PI}, "SQRT2_2, PI", 1e-15);
        expect(C{dd::PI_2, dd::PI_4}, C{M_PI / 2, M_PI / 4}, "PI_2, PI_4", 1e-15);
    }
    double angle(unsigned k) { // multiples of pi/12 on [-4pi,4pi] and some irregular values
        if (k < 97) {
            return (static_cast<double>(k) - 48) * M_PI / 12;
        }
        const double x[] = {1e-3, -1e-7, 0.1234, 2.718281828, -5.4321, 100.5, -1000.25};
        return x[k - 97];
    }
    constexpr unsigned NA = 104;
    void               rotations() {
        const unsigned k = mc::choose(NA, "angle");
        const double   t = angle(k);
        const auto     s = " of angle " + std::to_string(t);
        same(of(dd::RXmat(t)), rot(X, t), "RXmat" + s);
        same(of(dd::RYmat(t)), rot(Y, t), "RYmat" + s);
        same(of(dd::RZmat(t)), rot(Z, t), "RZmat" + s);
        same(of(dd::Phasemat(t)), m2(1, 0, 0, std::polar(1., t)), "Phasemat" + s);
        same(of(dd::RXXmat(t)), rot(k2(X, X), t), "RXXmat" + s);
        same(of(dd::RYYmat(t)), rot(k2(Y, Y), t), "RYYmat" + s);
        same(of(dd::RZZmat(t)), rot(k2(Z, Z), t), "RZZmat" + s);
        same(of(dd::RZXmat(t)), rot(k2(Z, X), t), "RZXmat" + s);
        same(of(dd::XXMinusYYmat(t)), of(dd::XXMinusYYmat(t, 0.)), "XXMinusYYmat with default second angle" + s);
        same(of(dd::XXPlusYYmat(t)), of(dd::XXPlusYYmat(t, 0.)), "XXPlusYYmat with default second angle" + s);
        if (std::abs(t) < 14) {
            expect(of(dd::RXXmat(t)), expm(ref::scale(k2(X, X), C{0, -t / 2})), "RXXmat against the exponential" + s, 1e-9);
            expect(of(dd::RYmat(t)), expm(ref::scale(Y, C{0, -t / 2})), "RYmat against the exponential" + s, 1e-9);
            // the half sum / difference generators
            const M a = ref::scale(ref::add(k2(X, X), ref::scale(k2(Y, Y), -1)), C{0, -t / 4});
            const M b = ref::scale(ref::add(k2(X, X), k2(Y, Y)), C{0, -t / 4});
            expect(of(dd::XXMinusYYmat(t, 0.)), expm(a), "XXMinusYYmat against the exponential" + s, 1e-9);
            expect(of(dd::XXPlusYYmat(t, 0.)), expm(b), "XXPlusYYmat against the exponential" + s, 1e-9);
        }
    }
    void twoAngles() {
        const double t = angle(mc::choose(NA, "first angle"));
        for (unsigned k = 0; k < NA; ++k) {
            const double b = angle(k);
            const auto   s = "(" + std::to_string(t) + "," + std::to_string(b) + ")";
            const double h = S2;
            same(of(dd::U2mat(t, b)), m2(h, -h * std::polar(1., t), h * std::polar(1., b), h * std::polar(1., t + b)), "U2mat" + s);
            // XXMinusYY = RZ1(beta) exp(-i t/4 (XX-YY)) RZ1(-beta) up to ordering; closed form
            const C c  = std::cos(t / 2);
            const C is = -I * std::sin(t / 2);
            M       x  = ref::ident(4);
            x(0, 0)    = c;
            x(3, 3)    = c;
            x(0, 3)    = is * std::polar(1., b);
            x(3, 0)    = is * std::polar(1., -b);
            same(of(dd::XXMinusYYmat(t, b)), x, "XXMinusYYmat" + s);
            M y     = ref::ident(4);
            y(1, 1) = c;
            y(2, 2) = c;
            y(1, 2) = is * std::polar(1., b);
            y(2, 1) = is * std::polar(1., -b);
            same(of(dd::XXPlusYYmat(t, b)), y, "XXPlusYYmat" + s);
        }
    }
    void u3() {
        const unsigned step = mc::thorough() ? 1 : 3;
        const unsigned i    = mc::choose((NA + step - 1) / step, "lambda");
        const double   la   = angle(i * step);
        for (unsigned j = 0; j < NA; j += step) {
            for (unsigned k = 0; k < NA; k += step) {
                const double ph = angle(j);
                const double th = angle(k);
                const double c  = std::cos(th / 2);
                const double s  = std::sin(th / 2);
                same(of(dd::U3mat(la, ph, th)), m2(c, -s * std::polar(1., la), s * std::polar(1., ph), c * std::polar(1., la + ph)), "U3mat(" + std::to_string(la) + "," + std::to_string(ph) + "," + std::to_string(th) + ")");
            }
        }
    }
    // inverse pairs and squares also as diagrams: the product is the identity diagram itself
    void diagrams() {
        const unsigned n = 1 + mc::choose(3, "n-1");
        const unsigned q = mc::choose(n, "target");
        auto           p = std::make_unique<Pkg<Mid>>(n);
        struct P {
            const char*    n;
            dd::GateMatrix a, b;
        };
        std::vector<P> l{{"H,H", dd::Hmat, dd::Hmat}, {"X,X", dd::Xmat, dd::Xmat}, {"Y,Y", dd::Ymat, dd::Ymat}, {"Z,Z", dd::Zmat, dd::Zmat}, {"S,Sdag", dd::Smat, dd::Sdagmat}, {"T,Tdag", dd::Tmat, dd::Tdagmat}, {"SX,SXdag", dd::SXmat, dd::SXdagmat}, {"V,Vdag", dd::Vmat, dd::Vdagmat}};
        for (unsigned k = 0; k < NA; ++k) {
            const double t = angle(k);
            l.push_back({"RX", dd::RXmat(t), dd::RXmat(-t)});
            l.push_back({"RY", dd::RYmat(t), dd::RYmat(-t)});
            l.push_back({"RZ", dd::RZmat(t), dd::RZmat(-t)});
            l.push_back({"Phase", dd::Phasemat(t), dd::Phasemat(-t)});
        }
        for (const auto& g: l) {
            const auto a = p->makeGateDD(g.a, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(q));
            const auto b = p->makeGateDD(g.b, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(q));
            expect(mat(p->multiply(a, b), static_cast<int>(n)), ref::ident(1ULL << n), std::string("diagram of ") + g.n + " times its inverse", 1e-11);
            expect(mat(p->multiply(b, a), static_cast<int>(n)), ref::ident(1ULL << n), std::string("diagram of ") + g.n + " inverse first", 1e-11);
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C07", argc, argv,
                   {{"constants", 1, false, constants},
                    {"rotations", 1, false, rotations},
                    {"two-angle-families", 1, false, twoAngles},
                    {"U3", 1, false, u3},
                    {"inverse-pairs-as-diagrams", 2, false, diagrams}},
                   {"all named constants; 104 angles (multiples of pi/12 over [-4pi,4pi] and irregular values) for one-angle families, all pairs of them for two-angle families, all triples (quick: every third) for U3; inverse pairs multiplied as diagrams on 1-3 qubits",
                    {"angles are taken from a finite grid", "textbook matrices and a power-series exponential in the harness"}});
}
