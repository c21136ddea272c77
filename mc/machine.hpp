// A small machine that drives one package through an operation history.  It holds a few registers (two states,
// two matrices, one density matrix), each referenced in the package exactly while it is held, together with
// their dense values.  Checks enumerate all operation sequences over sub-alphabets and attach monitors.
#pragma once
#include "ddx.hpp"
//
#include "dd/Export.hpp"

#include <random>
#include <unordered_map>

namespace ddx {
    enum Op : unsigned {
        VZero,     // V0 := |0..0>
        VProd,     // V0 := product of left/plus/... states
        VGen,      // V0 := generic vector
        VSparse,   // V0 := sparse vector with repeated blocks
        VMul,      // V0 := M0 V0
        VMul1,     // V0 := M1 V0
        VAdd,      // V0 := V0 + V1
        VSwap,     // exchange V0 and V1
        VDrop,     // release V0
        VDup,      // V0 := another reference to V1
        VScale,    // V0 := c V0
        VMeasure0, // measure qubit 0 of V0, collapse (draw 0)
        VMeasure1, // measure the top qubit of V0, collapse (draw just below 1)
        VMeasureA, // measure all with collapse
        VDelete,   // V0 := V0 with the branch q0=1 removed
        VSer,      // V0 := read(write(V0))
        VTrans,    // V0 := V0 transferred from another package (round trip)
        VGarb,     // reduceGarbage on a basis state
        MH,        // M0 := H on 0
        MCX,       // M0 := CX
        MGen,      // M0 := generic matrix
        MPhase,    // M0 := phase gate on the top qubit with negative control
        MSwap2,    // M0 := iSWAP (n>=2)
        MIdent,    // M0 := identity
        MMul,      // M0 := M0 M1
        MAdd,      // M0 := M0 + M1
        MT,        // M0 := transpose
        MAdj,      // M0 := adjoint
        MSwapR,    // exchange
        MDrop,     // release M0
        MDup,      // M0 := another reference to M1
        MKron,     // M0 := kron of two small matrices
        MPtr,      // M0 := identity (x) partial trace of M0 over the top qubit
        MAnc,      // M0 := M0 with the top qubit an ancilla
        MDelete,   // M0 := M0 without quadrant 1 at qubit 0
        MSer,      // M0 := read(write(M0))
        MTof,      // M0 := multi-controlled X (cached)
        DZero,     // D := |0><0|
        DGate,     // D := M D M^dagger with M = H on 0
        DGate2,    // ... with CX
        DDrop,
        Read,      // innerProduct, fidelity, expectation, trace, size, dot export, amplitudes (no change)
        Collect,   // forced collection
        CollectU,  // unforced collection
        ClearC,    // clear the operation caches
        OpCount
    };
    inline const char* opName(unsigned o) {
        static const char* const N[] = {"V0=|0>", "V0=product", "V0=generic", "V0=sparse", "V0=M0*V0", "V0=M1*V0", "V0+=V1", "swap V", "release V0", "V0=V1", "V0*=c", "measure q0", "measure top", "measure all", "delete edge V0", "serialize V0", "transfer V0", "reduceGarbage V0", "M0=H0", "M0=CX", "M0=generic", "M0=P(top)", "M0=iSWAP", "M0=I", "M0=M0*M1", "M0+=M1", "M0=M0^T", "M0=M0^+", "swap M", "release M0", "M0=M1", "M0=kron", "M0=I(x)ptrace", "M0 ancilla", "delete edge M0", "serialize M0", "M0=toffoli", "D=|0><0|", "D=HDH", "D=CX D CX", "release D", "read", "collect", "collect(unforced)", "clear caches"};
        return N[o];
    }
    template<class P>
    struct Machine {
        P&        p;
        int       n;
        dd::QubitCount nq;
        std::size_t N;
        dd::vEdge v[2]{dd::vEdge::zero, dd::vEdge::zero};
        V         dv[2];
        bool      hv[2]{false, false};
        dd::mEdge m[2]{dd::mEdge::zero, dd::mEdge::zero};
        M         dm[2];
        bool      hm[2]{false, false};
        dd::dEdge d = dd::dEdge::zero;
        M         dd_;
        bool      hd = false;
        std::mt19937_64 rng{};

        Machine(P& q, int nn):
            p(q), n(nn), nq(static_cast<dd::QubitCount>(nn)), N(1ULL << nn) {
            for (auto& x: dv) {
                x.assign(N, 0);
            }
            for (auto& x: dm) {
                x = M(N);
            }
            dd_ = M(N);
        }
        // V0 = generic, V1 = product, M0 = H0, M1 = CX (or phase)
        void start() {
            step(VProd);
            step(VSwap);
            step(VSparse);
            step(n > 1 ? MCX : MPhase);
            step(MSwapR);
            step(MH);
        }
        void setV(const dd::vEdge& e, const V& x) { // takes a new reference
            p.incRef(e);
            if (hv[0]) {
                p.decRef(v[0]);
            }
            v[0]  = e;
            dv[0] = x;
            hv[0] = true;
        }
        void setM(const dd::mEdge& e, const M& x) {
            p.incRef(e);
            if (hm[0]) {
                p.decRef(m[0]);
            }
            m[0]  = e;
            dm[0] = x;
            hm[0] = true;
        }
        void release() {
            for (int i = 0; i < 2; ++i) {
                if (hv[i]) {
                    p.decRef(v[i]);
                    hv[i] = false;
                }
                if (hm[i]) {
                    p.decRef(m[i]);
                    hm[i] = false;
                }
            }
            if (hd) {
                auto e = d;
                dd::dEdge::alignDensityEdge(e);
                p.decRef(e);
                hd = false;
            }
        }
        V gen(double s) const {
            V x(N);
            for (std::size_t i = 0; i < N; ++i) {
                x[i] = C{s - 0.25 * static_cast<double>(i), 0.1 * static_cast<double>(i * i % 3)};
            }
            return x;
        }
        M genM() const {
            M x(N);
            for (std::size_t i = 0; i < N; ++i) {
                for (std::size_t j = 0; j < N; ++j) {
                    x(i, j) = C{static_cast<double>((i * 3 + j) % 4) * 0.5 - 0.5, i < j ? 0.5 : 0.};
                }
            }
            return x;
        }
        static void seed(std::mt19937_64& r, double u); // next draws are u
        void setDraw(bool high) {
            // generate_canonical<double,53> takes one 64-bit word: the state is filled with one repeated word
            std::ostringstream os;
            const std::uint64_t w = high ? 0xFFFFFFFFFFFFF000ULL : 0ULL;
            (void)w;
            std::stringstream ss;
            for (int i = 0; i < 312; ++i) {
                ss << (high ? highState() : 0ULL) << ' ';
            }
            ss << 312 - 312;
            ss >> rng;
        }
        static std::uint64_t highState() {
            // a state word whose tempered output is close to 2^64 (inverse of the tempering of 0xFFF...F000)
            static const std::uint64_t s = [] {
                std::uint64_t y = 0xFFFFFFFFFFFFF000ULL;
                y ^= y >> 43U;
                y ^= (y << 37U) & 0xFFF7EEE000000000ULL;
                std::uint64_t z = y;
                for (int i = 0; i < 8; ++i) {
                    z = y ^ ((z << 17U) & 0x71D67FFFEDA60000ULL);
                }
                y = z;
                z = y;
                for (int i = 0; i < 8; ++i) {
                    z = y ^ ((z >> 29U) & 0x5555555555555555ULL);
                }
                return z;
            }();
            return s;
        }
        bool normalised() const { return hv[0] && std::abs(ref::norm2(dv[0]) - 1) < 1e-10; }
        // returns false if the operation does not apply in this state
        bool step(unsigned o) {
            MC_NOTE(opName(o));
            mc::op();
            switch (o) {
                case VZero: {
                    V x(N);
                    x[0] = 1;
                    setV(p.makeZeroState(nq), x);
                    return true;
                }
                case VProd: {
                    std::vector<dd::BasisStates> b;
                    V                            x{1};
                    for (int q = 0; q < n; ++q) {
                        const dd::BasisStates s[] = {dd::BasisStates::left, dd::BasisStates::plus, dd::BasisStates::one};
                        const V               w[] = {{S2, C{0, -S2}}, {S2, S2}, {0, 1}};
                        b.push_back(s[q % 3]);
                        x = ref::kron(w[q % 3], x);
                    }
                    setV(p.makeBasisState(nq, b), x);
                    return true;
                }
                case VGen: {
                    const auto x = gen(0.5);
                    setV(p.makeStateFromVector(cvec(x)), x);
                    return true;
                }
                case VSparse: {
                    V x(N);
                    for (std::size_t i = 0; i < N; ++i) {
                        x[i] = (i & 1U) == 0 ? C{i < N / 2 ? 0.6 : 0., i < N / 2 ? 0. : -0.8} : C{0, 0};
                    }
                    if (n == 1) {
                        x = {0.6, C{0, -0.8}};
                    } else {
                        x = ref::scale(x, C{1. / std::sqrt(ref::norm2(x)), 0});
                    }
                    setV(p.makeStateFromVector(cvec(x)), x);
                    return true;
                }
                case VMul:
                case VMul1: {
                    const int k = o == VMul ? 0 : 1;
                    if (!hv[0] || !hm[k]) {
                        return false;
                    }
                    setV(p.multiply(m[k], v[0]), ref::mul(dm[k], dv[0]));
                    return true;
                }
                case VAdd:
                    if (!hv[0] || !hv[1]) {
                        return false;
                    }
                    setV(p.add(v[0], v[1]), ref::add(dv[0], dv[1]));
                    return true;
                case VSwap:
                    if (!hv[0] && !hv[1]) {
                        return false;
                    }
                    std::swap(v[0], v[1]);
                    std::swap(dv[0], dv[1]);
                    std::swap(hv[0], hv[1]);
                    return true;
                case VDrop:
                    if (!hv[0]) {
                        return false;
                    }
                    p.decRef(v[0]);
                    hv[0] = false;
                    v[0]  = dd::vEdge::zero;
                    return true;
                case VDup:
                    if (!hv[1]) {
                        return false;
                    }
                    setV(v[1], V(dv[1]));
                    return true;
                case VScale:
                    if (!hv[0]) {
                        return false;
                    }
                    setV(scaled(p, v[0], C{0.5, -1}), ref::scale(dv[0], C{0.5, -1}));
                    return true;
                case VMeasure0:
                case VMeasure1: {
                    if (!normalised()) {
                        return false;
                    }
                    setDraw(o == VMeasure1);
                    const int   q = o == VMeasure0 ? 0 : n - 1;
                    V           x = dv[0];
                    double      p0 = 0;
                    for (std::size_t i = 0; i < N; ++i) {
                        p0 += ((i >> q) & 1U) == 0 ? std::norm(x[i]) : 0;
                    }
                    if (p0 < 1e-9 || p0 > 1 - 1e-9) {
                        return false; // borderline draws belong to C16
                    }
                    const char r = p.measureOneCollapsing(v[0], static_cast<dd::Qubit>(q), true, rng);
                    MC_CHECK(r == (o == VMeasure0 ? '0' : '1'), "measuring qubit " << q << " with " << (o == VMeasure0 ? "the smallest" : "the largest") << " draw returned " << r);
                    for (std::size_t i = 0; i < N; ++i) {
                        if ((((i >> q) & 1U) != 0) != (r == '1')) {
                            x[i] = 0;
                        }
                    }
                    dv[0] = ref::scale(x, C{1. / std::sqrt(ref::norm2(x)), 0});
                    return true;
                }
                case VMeasureA: {
                    if (!normalised()) {
                        return false;
                    }
                    setDraw(false);
                    const auto s = p.measureAll(v[0], true, rng);
                    std::size_t i = 0;
                    for (std::size_t k = 0; k < s.size(); ++k) {
                        i = i * 2 + (s[k] == '1' ? 1 : 0);
                    }
                    if (std::norm(dv[0][i]) < 1e-12) {
                        mc::fail("measuring all qubits returned " + s + ", which has probability zero");
                    }
                    V x(N);
                    x[i]  = 1;
                    dv[0] = x;
                    return true;
                }
                case VDelete: {
                    if (!hv[0]) {
                        return false;
                    }
                    V x = dv[0];
                    for (std::size_t i = 1; i < N; i += 2) {
                        x[i] = 0;
                    }
                    setV(p.deleteEdge(v[0], 0, 1), x);
                    return true;
                }
                case VSer: {
                    if (!hv[0] || v[0].isTerminal()) {
                        return false;
                    }
                    std::stringstream ss;
                    dd::serialize(v[0], ss, true);
                    setV(p.template deserialize<dd::vNode>(ss, true), V(dv[0]));
                    return true;
                }
                case VTrans: {
                    if (!hv[0] || v[0].isTerminal()) {
                        return false;
                    }
                    P    other(static_cast<std::size_t>(n));
                    auto x = other.transfer(v[0]);
                    setV(p.transfer(x), V(dv[0]));
                    return true;
                }
                case VGarb: { // reduceGarbage hands the reference over itself
                    V x(N);
                    x[N - 1] = 1;
                    setV(p.makeBasisState(nq, std::vector<bool>(static_cast<std::size_t>(n), true)), x);
                    std::vector<bool> g(static_cast<std::size_t>(n));
                    g[static_cast<std::size_t>(n) - 1] = true;
                    v[0]            = p.reduceGarbage(v[0], g);
                    V y(N);
                    y[(N - 1) & ~(N / 2)] = 1;
                    dv[0]                 = y;
                    return true;
                }
                case MH: {
                    const C g[] = {S2, S2, S2, -S2};
                    setM(p.makeGateDD(dd::Hmat, nq, 0), ref::gate(n, g, 0));
                    return true;
                }
                case MCX: {
                    if (n < 2) {
                        return false;
                    }
                    const C g[] = {0, 1, 1, 0};
                    setM(p.makeGateDD(dd::Xmat, nq, dd::Control{0}, 1), ref::gate(n, g, 1, {{0, true}}));
                    return true;
                }
                case MGen: {
                    const auto x = genM();
                    setM(p.makeDDFromMatrix(cmat(x)), x);
                    return true;
                }
                case MPhase: {
                    const C g[] = {1, 0, 0, C{0.6, 0.8}};
                    if (n == 1) {
                        setM(p.makeGateDD(gm(g), nq, 0), ref::gate(n, g, 0));
                    } else {
                        setM(p.makeGateDD(gm(g), nq, dd::Control{0, dd::Control::Type::neg}, static_cast<dd::Qubit>(n - 1)), ref::gate(n, g, n - 1, {{0, false}}));
                    }
                    return true;
                }
                case MSwap2: {
                    if (n < 2) {
                        return false;
                    }
                    M u(4);
                    u(0, 0) = u(3, 3) = 1;
                    u(1, 2) = u(2, 1) = C{0, 1};
                    setM(p.makeiSWAPDD(nq, static_cast<dd::Qubit>(n - 1), 0), ref::gate2(n, u.a.data(), n - 1, 0));
                    return true;
                }
                case MIdent:
                    setM(p.makeIdent(nq), ref::ident(N));
                    return true;
                case MMul:
                    if (!hm[0] || !hm[1]) {
                        return false;
                    }
                    setM(p.multiply(m[0], m[1]), ref::mul(dm[0], dm[1]));
                    return true;
                case MAdd:
                    if (!hm[0] || !hm[1]) {
                        return false;
                    }
                    setM(p.add(m[0], m[1]), ref::add(dm[0], dm[1]));
                    return true;
                case MT:
                    if (!hm[0]) {
                        return false;
                    }
                    setM(p.transpose(m[0]), ref::transpose(dm[0]));
                    return true;
                case MAdj:
                    if (!hm[0]) {
                        return false;
                    }
                    setM(p.conjugateTranspose(m[0]), ref::adjoint(dm[0]));
                    return true;
                case MSwapR:
                    if (!hm[0] && !hm[1]) {
                        return false;
                    }
                    std::swap(m[0], m[1]);
                    std::swap(dm[0], dm[1]);
                    std::swap(hm[0], hm[1]);
                    return true;
                case MDrop:
                    if (!hm[0]) {
                        return false;
                    }
                    p.decRef(m[0]);
                    hm[0] = false;
                    m[0]  = dd::mEdge::zero;
                    return true;
                case MDup:
                    if (!hm[1]) {
                        return false;
                    }
                    setM(m[1], M(dm[1]));
                    return true;
                case MKron: {
                    if (n < 2) {
                        return false;
                    }
                    const auto a = m2(0.5, C{0, 1}, 0, -1);
                    M          b = ref::ident(N / 2);
                    b(0, 0)      = C{0, 1};
                    setM(p.kronecker(p.makeDDFromMatrix(cmat(a)), p.makeDDFromMatrix(cmat(b))), ref::kron(a, b));
                    return true;
                }
                case MPtr: {
                    if (!hm[0] || n < 2) {
                        return false;
                    }
                    std::vector<bool> el(static_cast<std::size_t>(n));
                    el[static_cast<std::size_t>(n) - 1] = true;
                    const M     t = ref::ptrace(dm[0], n, el);
                    const auto  e = p.partialTrace(m[0], el);
                    if (e.w == dd::Complex::zero) {
                        return false;
                    }
                    setM(p.kronecker(p.makeIdent(1), e), ref::kron(ref::ident(2), t));
                    return true;
                }
                case MAnc: {
                    if (!hm[0] || m[0].isTerminal()) {
                        return false;
                    }
                    std::vector<bool> a(static_cast<std::size_t>(n));
                    a[static_cast<std::size_t>(n) - 1] = true;
                    m[0]                               = p.reduceAncillae(m[0], a);
                    for (std::size_t i = 0; i < N; ++i) {
                        for (std::size_t j = N / 2; j < N; ++j) {
                            dm[0](i, j) = 0;
                        }
                    }
                    return true;
                }
                case MDelete: {
                    if (!hm[0]) {
                        return false;
                    }
                    M x = dm[0];
                    for (std::size_t i = 0; i < N; i += 2) {
                        for (std::size_t j = 1; j < N; j += 2) {
                            x(i, j) = 0;
                        }
                    }
                    setM(p.deleteEdge(m[0], 0, 1), x);
                    return true;
                }
                case MSer: {
                    if (!hm[0] || m[0].isTerminal()) {
                        return false;
                    }
                    std::stringstream ss;
                    dd::serialize(m[0], ss, false);
                    setM(p.template deserialize<dd::mNode>(ss, false), M(dm[0]));
                    return true;
                }
                case MTof: {
                    if (n < 2) {
                        return false;
                    }
                    dd::Controls          c;
                    std::vector<ref::Ctl> rc;
                    for (int q = 1; q < n; ++q) {
                        c.insert(dd::Control{static_cast<dd::Qubit>(q)});
                        rc.push_back({q, true});
                    }
                    const C g[] = {0, 1, 1, 0};
                    setM(p.makeGateDD(dd::Xmat, nq, c, 0), ref::gate(n, g, 0, rc));
                    return true;
                }
                case DZero: {
                    auto e = p.makeZeroDensityOperator(nq);
                    p.incRef(e);
                    if (hd) {
                        auto f = d;
                        dd::dEdge::alignDensityEdge(f);
                        p.decRef(f);
                    }
                    d         = e;
                    hd        = true;
                    dd_       = M(N);
                    dd_(0, 0) = 1;
                    return true;
                }
                case DGate:
                case DGate2: {
                    if (!hd || (o == DGate2 && n < 2)) {
                        return false;
                    }
                    M u;
                    dd::mEdge g;
                    if (o == DGate) {
                        const C h[] = {S2, S2, S2, -S2};
                        u = ref::gate(n, h, 0);
                        g = p.makeGateDD(dd::Hmat, nq, 0);
                    } else {
                        const C x[] = {0, 1, 1, 0};
                        u = ref::gate(n, x, 1, {{0, true}});
                        g = p.makeGateDD(dd::Xmat, nq, dd::Control{0}, 1);
                    }
                    p.applyOperationToDensity(d, g, true);
                    dd_ = ref::mul(ref::mul(u, dd_), ref::adjoint(u));
                    return true;
                }
                case DDrop: {
                    if (!hd) {
                        return false;
                    }
                    auto e = d;
                    dd::dEdge::alignDensityEdge(e);
                    p.decRef(e);
                    hd = false;
                    return true;
                }
                case Read: {
                    if (hv[0] && hv[1] && !v[0].isTerminal() && !v[1].isTerminal()) {
                        expect(cv(p.innerProduct(v[0], v[1])), ref::inner(dv[0], dv[1]), "inner product");
                        const C ip = ref::inner(dv[0], dv[1]);
                        expect(C{p.fidelity(v[0], v[1]), 0}, C{std::norm(ip), 0}, "fidelity");
                    }
                    if (hm[0] && !m[0].isTerminal()) {
                        expect(cv(p.trace(m[0])), ref::trace(dm[0]), "trace");
                        (void)p.size(m[0]);
                        (void)p.isCloseToIdentity(m[0]);
                    }
                    if (hv[0] && !v[0].isTerminal()) {
                        std::ostringstream os;
                        dd::toDot(v[0], os, true, true, false, true, true);
                        p.exportAmplitudes(v[0], os, nq, false);
                        (void)p.size(v[0]);
                        const auto x = p.getVector(v[0]);
                        if (!ref::close(V(x.begin(), x.end()), dv[0])) {
                            mc::fail("read-out of V0 differs");
                        }
                    }
                    return true;
                }
                case Collect: p.garbageCollect(true); return true;
                case CollectU: p.garbageCollect(false); return true;
                case ClearC: p.clearComputeTables(); return true;
                default: mc::fail("harness error: unknown operation");
            }
        }
        // all references held by the registers
        template<class R>
        void roots(R& r) const {
            for (int i = 0; i < 2; ++i) {
                if (hv[i]) {
                    r.root(v[i]);
                }
                if (hm[i]) {
                    r.root(m[i]);
                }
            }
            if (hd) {
                r.root(d);
            }
        }
        // every held diagram still represents its value
        void verify(const char* after) {
            for (int i = 0; i < 2; ++i) {
                if (hv[i]) {
                    const auto g = vec(v[i], n);
                    mc::state(mc::mix(ref::hash(dv[i]), static_cast<std::uint64_t>(i)));
                    if (!ref::close(g, dv[i], 1e-9)) {
                        mc::fail("after " + std::string(after) + ": V" + std::to_string(i) + " is " + ref::str(g) + ", expected " + ref::str(dv[i]));
                    }
                }
                if (hm[i]) {
                    const auto g = mat(m[i], n);
                    mc::state(mc::mix(ref::hash(dm[i]), static_cast<std::uint64_t>(i)));
                    if (!ref::close(g, dm[i], 1e-9)) {
                        mc::fail("after " + std::string(after) + ": M" + std::to_string(i) + " is " + ref::str(g) + ", expected " + ref::str(dm[i]));
                    }
                }
            }
            if (hd) {
                auto       e = d;
                const auto x = p.getDensityMatrix(e);
                M          g(N);
                for (std::size_t i = 0; i < N; ++i) {
                    for (std::size_t j = 0; j < N; ++j) {
                        g(i, j) = C{x[i][j].real(), x[i][j].imag()};
                    }
                }
                mc::state(ref::hash(dd_));
                if (!ref::close(g, dd_, 1e-9)) {
                    mc::fail("after " + std::string(after) + ": D is " + ref::str(g) + ", expected " + ref::str(dd_));
                }
            }
        }
    };
    // every node in the table is in normal form, no two are equal; returns the number of nodes
    inline bool bad(double a) { return !(std::abs(a) < 1e18); }
    template<class Node>
    void checkNode(const Node* q, const std::string& what, bool offsets) {
        constexpr std::size_t K = std::tuple_size_v<decltype(q->e)>;
        bool                  allZero = true;
        double                sum = 0;
        double                mx  = 0;
        bool                  one = false;
        for (std::size_t i = 0; i < K; ++i) {
            const auto& e = q->e[i];
            const auto* ep = reinterpret_cast<const Node*>(reinterpret_cast<std::uintptr_t>(e.p) & ~static_cast<std::uintptr_t>(7)); // density edges carry marks
            if (ep == nullptr || e.w.r == nullptr || e.w.i == nullptr) {
                mc::fail(what + ": null successor or weight");
            }
            const C w = val(e.w);
            if (bad(w.real()) || bad(w.imag())) {
                mc::fail(what + ": successor weight is not a number");
            }
            const double a = std::norm(w);
            sum += a;
            mx = std::max(mx, a);
            if (w == C{0, 0}) {
                if (!Node::isTerminal(ep)) {
                    mc::fail(what + ": edge " + std::to_string(i) + " of a node for qubit " + std::to_string(int(q->v)) + " has weight zero but does not point to the terminal");
                }
                continue;
            }
            one     = one || std::abs(w - C{1, 0}) < 1e-11;
            allZero = false;
            if (Node::isTerminal(ep)) {
                if (q->v != 0 && !offsets) {
                    mc::fail(what + ": non-zero edge of a node for qubit " + std::to_string(int(q->v)) + " points to the terminal");
                }
            } else if (ep->v != q->v - 1) {
                mc::fail(what + ": edge of a node for qubit " + std::to_string(int(q->v)) + " points to a node for qubit " + std::to_string(int(ep->v)));
            }
        }
        if (allZero) {
            mc::fail(what + ": a node for qubit " + std::to_string(int(q->v)) + " has only zero successors");
        }
        if constexpr (K == 2) {
            if (std::abs(sum - 1) > 1e-10) {
                mc::fail(what + ": squared successor weights of a state node for qubit " + std::to_string(int(q->v)) + " sum to " + std::to_string(sum));
            }
        } else if (mx > 1 + 1e-9 || !one) {
            std::string w;
            for (std::size_t i = 0; i < K; ++i) {
                w += " " + ref::str(val(q->e[i].w));
            }
            mc::fail(what + ": matrix node for qubit " + std::to_string(int(q->v)) + " is not normalised:" + w);
        }
    }
    template<class Node>
    struct SuccHash {
        std::size_t operator()(const Node* q) const {
            std::uint64_t h = 0;
            for (const auto& e: q->e) {
                h = mc::mix(h, reinterpret_cast<std::uintptr_t>(e.p));
            }
            return h;
        }
    };
    template<class Table>
    std::size_t checkTable(const Table& t, const std::string& what, bool offsets = false) {
        using Node = std::remove_pointer_t<std::decay_t<decltype(t.getTables()[0][0])>>;
        std::size_t cnt = 0;
        std::size_t var = 0;
        for (const auto& tab: t.getTables()) {
            std::unordered_multimap<std::size_t, const Node*> seen;
            for (Node* q: tab) {
                for (; q != nullptr; q = q->next) {
                    ++cnt;
                    if (cnt > 10000000) {
                        mc::fail(what + ": the node table contains a cycle");
                    }
                    if (static_cast<std::size_t>(q->v) != var) {
                        mc::fail(what + ": node for qubit " + std::to_string(int(q->v)) + " stored in the table of qubit " + std::to_string(var));
                    }
                    checkNode(q, what, offsets);
                    const auto h = SuccHash<Node>{}(q);
                    auto [a, b]  = seen.equal_range(h);
                    for (; a != b; ++a) {
                        bool eq = true;
                        for (std::size_t i = 0; i < q->e.size() && eq; ++i) {
                            // only what the library considers equal: pointers and weights within tolerance
                            eq = q->e[i].p == a->second->e[i].p && std::abs(val(q->e[i].w.r) - val(a->second->e[i].w.r)) < 1e-13 && std::abs(val(q->e[i].w.i) - val(a->second->e[i].w.i)) < 1e-13;
                        }
                        if constexpr (std::is_same_v<Node, dd::dNode>) {
                            eq = false; // density nodes are marked in place while an operation runs and may be stored twice
                        }
                        if (eq) {
                            mc::fail(what + ": two stored nodes for qubit " + std::to_string(var) + " have identical successors");
                        }
                    }
                    seen.emplace(h, q);
                }
            }
            ++var;
        }
        if (cnt != t.getNodeCount()) {
            mc::fail(what + ": node table holds " + std::to_string(cnt) + " nodes but reports " + std::to_string(t.getNodeCount()));
        }
        return cnt;
    }
    // the identity and symmetry marks of every stored matrix node are exactly right
    template<class P>
    std::size_t checkMarks(P& p, const std::string& what, int base = 0) {
        std::unordered_map<const dd::mNode*, M> val_;
        std::size_t                             k = 0;
        int                                     v = 0;
        for (const auto& tab: p.mUniqueTable.getTables()) {
            for (const dd::mNode* q: tab) {
                for (; q != nullptr; q = q->next) {
                    const std::size_t d = 1ULL << (v - base);
                    M                 m(2 * d);
                    for (std::size_t i = 0; i < 4; ++i) {
                        const auto& e = q->e[i];
                        const C     w = val(e.w);
                        if (w == C{0, 0}) {
                            continue;
                        }
                        const auto it = val_.find(e.p);
                        for (std::size_t r = 0; r < d; ++r) {
                            for (std::size_t c = 0; c < d; ++c) {
                                const C x = it != val_.end() ? it->second(r, c) : (r == c && r == 0 ? C{1, 0} : C{0, 0});
                                m((i >> 1U) * d + r, (i & 1U) * d + c) = ref::cmul(w, x);
                            }
                        }
                    }
                    const bool id  = ref::close(m, ref::ident(2 * d), 1e-11);
                    const bool sym = ref::close(m, ref::transpose(m), 1e-11);
                    if (q->isIdentity() != id) {
                        mc::fail(what + ": node of " + ref::str(m) + " on " + std::to_string(v + 1) + " qubits is" + (q->isIdentity() ? "" : " not") + " marked as an identity");
                    }
                    if (q->isSymmetric() != sym) {
                        mc::fail(what + ": node of " + ref::str(m) + " on " + std::to_string(v + 1) + " qubits is" + (q->isSymmetric() ? "" : " not") + " marked as symmetric");
                    }
                    val_.emplace(q, std::move(m));
                    ++k;
                }
            }
            ++v;
        }
        mc::op(k);
        if (!dd::mNode::terminal->isIdentity() || !dd::mNode::terminal->isSymmetric()) {
            mc::fail(what + ": the terminal lost its marks");
        }
        return k;
    }
    // ------------------------------------------------------------------------------------------------------
    // Exact reference counts: recomputed from the referenced roots and compared with every stored node and number
    // ------------------------------------------------------------------------------------------------------
    struct RefModel {
        std::unordered_map<const void*, std::size_t> nodes;   // references from outside
        std::unordered_map<const void*, std::size_t> numbers; // by entry
        static const void* align(const void* q) { return reinterpret_cast<const void*>(reinterpret_cast<std::uintptr_t>(q) & ~static_cast<std::uintptr_t>(7)); }
        void               number(const dd::Complex& w) {
            ++numbers[align(w.r)];
            ++numbers[align(w.i)];
        }
        template<class Node>
        void root(const dd::Edge<Node>& e) {
            number(e.w);
            const auto* q = static_cast<const Node*>(align(e.p));
            if (q != nullptr && !Node::isTerminal(q)) {
                ++nodes[q];
            }
        }
        template<class Table>
        std::size_t checkTable(const Table& t, const std::string& what, const char* kind, bool exact) {
            using Node = std::remove_pointer_t<std::decay_t<decltype(t.getTables()[0][0])>>;
            std::unordered_map<const void*, std::size_t> want;
            std::unordered_map<const void*, const Node*> stored;
            for (const auto& tab: t.getTables()) {
                for (const Node* q: tab) {
                    for (; q != nullptr; q = q->next) {
                        stored.emplace(q, q);
                    }
                }
            }
            std::vector<const Node*> todo;
            std::size_t              live = 0;
            for (const auto& [q, k]: nodes) {
                if (const auto it = stored.find(q); it != stored.end()) {
                    want[q] += k;
                    todo.push_back(it->second);
                }
            }
            std::unordered_map<const void*, bool> seen;
            while (!todo.empty()) {
                const Node* q = todo.back();
                todo.pop_back();
                if (seen[q]) {
                    continue;
                }
                seen[q] = true;
                ++live;
                for (const auto& e: q->e) {
                    number(e.w);
                    const auto* c = static_cast<const Node*>(align(e.p));
                    if (c == nullptr || Node::isTerminal(c)) {
                        continue;
                    }
                    ++want[c];
                    if (stored.find(c) == stored.end()) {
                        mc::fail(what + ": a " + kind + " node for qubit " + std::to_string(int(c->v)) + " below a referenced diagram is no longer in the node table");
                    }
                    todo.push_back(c);
                }
            }
            std::size_t positive = 0;
            for (const auto& [ptr, q]: stored) {
                const auto it = want.find(ptr);
                const auto w  = it == want.end() ? 0 : it->second;
                positive += q->ref > 0 ? 1 : 0;
                if (exact ? static_cast<std::size_t>(q->ref) != w : (w > 0 && q->ref == 0)) {
                    mc::fail(what + ": " + kind + " node for qubit " + std::to_string(int(q->v)) + " has reference count " + std::to_string(q->ref) + ", expected " + std::to_string(w));
                }
            }
            if (exact && (t.getActiveNodeCount() != live || positive != live)) {
                mc::fail(what + ": " + std::to_string(t.getActiveNodeCount()) + " " + kind + " nodes are counted as active, expected " + std::to_string(live));
            }
            found += seen.size();
            return live;
        }
        std::size_t found = 0;
        // exact: every count is exactly right; otherwise: everything below a root is stored and referenced
        template<class P>
        void check(P& p, const std::string& what, bool exact) {
            std::size_t ext = nodes.size();
            std::size_t k   = 0;
            for (const auto& [q, n]: nodes) {
                (void)n;
                k += inTable(p.vUniqueTable, q) || inTable(p.mUniqueTable, q) || inTable(p.dUniqueTable, q) ? 1 : 0;
            }
            if (k != ext) {
                mc::fail(what + ": the root of a referenced diagram is no longer in the node table");
            }
            checkTable(p.vUniqueTable, what, "state", exact);
            checkTable(p.mUniqueTable, what, "matrix", exact);
            checkTable(p.dUniqueTable, what, "density matrix", exact);
            // numbers
            const auto& T = p.cn.complexTable;
            using Tab     = std::decay_t<decltype(T)>;
            std::unordered_map<const void*, const dd::CTEntry*> stored;
            for (const dd::CTEntry* e: T.getTable()) {
                for (; e != nullptr; e = e->next) {
                    stored.emplace(e, e);
                    std::size_t w = 0;
                    if (const auto it = numbers.find(e); it != numbers.end()) {
                        w = it->second;
                    }
                    if (exact && e->value == 0.5) {
                        ++w; // permanent
                    }
                    if (exact ? static_cast<std::size_t>(e->refCount) != w : (w > 0 && e->refCount == 0)) {
                        mc::fail(what + ": number " + std::to_string(e->value) + " has reference count " + std::to_string(e->refCount) + ", expected " + std::to_string(w));
                    }
                }
            }
            for (const auto& [e, w]: numbers) {
                if (w > 0 && e != &Tab::zero && e != &Tab::one && e != &Tab::sqrt2_2 && stored.find(e) == stored.end()) {
                    mc::fail(what + ": a number of a referenced diagram is no longer in the number table");
                }
            }
            if (stored.size() != T.getCount()) {
                mc::fail(what + ": the number table holds " + std::to_string(stored.size()) + " numbers but reports " + std::to_string(T.getCount()));
            }
            mc::op(found);
        }
        template<class Table>
        static bool inTable(const Table& t, const void* x) {
            for (const auto& tab: t.getTables()) {
                for (const auto* q: tab) {
                    for (; q != nullptr; q = q->next) {
                        if (q == x) {
                            return true;
                        }
                    }
                }
            }
            return false;
        }
    };
    template<class P>
    void checkTables(P& p, const std::string& what, bool offsets = false) {
        checkTable(p.vUniqueTable, what, offsets);
        checkTable(p.mUniqueTable, what, offsets);
        checkTable(p.dUniqueTable, what, offsets);
    }
} // namespace ddx
