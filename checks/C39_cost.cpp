// C39: the work of an operation is polynomial in the number of qubits when the diagrams have few nodes.
// FLAGS: -fsanitize-coverage=trace-pc
#include "ddx.hpp"
#include "draws.hpp"
#include "dd/Export.hpp"

#include <random>
#include <sstream>
using namespace ddx;

namespace {
    std::uint64_t steps  = 0;
    std::uint64_t budget = 0; // 0: not counting
    const char*   what   = "";
    unsigned      size_  = 0;
} // namespace
extern "C" __attribute__((no_sanitize_coverage, used)) void __sanitizer_cov_trace_pc() {
    if (budget != 0 && ++steps > budget) {
        const auto limit = budget;
        budget           = 0;
        mc::copyStr(mc::R.shm->trace, sizeof(mc::R.shm->trace), mc::R.trace);
        mc::copyStr(mc::R.shm->msg, sizeof(mc::R.shm->msg), std::string(what) + " on " + std::to_string(size_) + " qubits takes more than " + std::to_string(limit) + " steps");
        _exit(10);
    }
}
namespace {
    using P = dd::Package<>;
    // the default tables for density matrices have one entry only
    struct DensityConfig: public dd::DDPackageConfig {
        static constexpr std::size_t UT_DM_NBUCKET                 = 16384U;
        static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE = 2048U;
        static constexpr std::size_t CT_DM_DM_MULT_NBUCKET         = 16384U;
        static constexpr std::size_t CT_DM_ADD_NBUCKET             = 16384U;
    };
    using DP = dd::Package<DensityConfig>;
    struct Ctx {
        unsigned           n;
        std::unique_ptr<P> p;
        dd::QubitCount     q;
        std::unique_ptr<DP> dp;
        dd::dEdge           rho{};
        dd::mEdge           op{};
        explicit Ctx(unsigned k):
            n(k), p(std::make_unique<P>(k)), q(static_cast<dd::QubitCount>(k)) {}
    };
    double ang(unsigned i) { return 0.3 + 0.01 * static_cast<double>(i % 7); }
    constexpr unsigned NS = 6, NM = 9;
    const char*        SN[] = {"zero state", "product state", "GHZ-like state", "W state", "state with two crossing nodes per qubit", "state with three crossing nodes per qubit"};
    const char*        MN[] = {"identity", "tensor product", "fully controlled gate", "gate on the top qubit", "matrix with two crossing nodes per qubit", "diagonal phases", "controlled from the top", "ladder of CNOTs", "phases close to one"};
    // w nodes per level; every node uses two (four) nodes of the level below
    dd::vEdge crossing(P& p, unsigned n, unsigned w) {
        std::vector<dd::vEdge> cur;
        for (unsigned k = 0; k < w; ++k) {
            cur.push_back(dd::vEdge::one);
        }
        for (unsigned v = 0; v < n; ++v) {
            std::vector<dd::vEdge> nx;
            for (unsigned k = 0; k < w; ++k) {
                auto a = cur[k];
                auto b = cur[(k + 1) % w];
                a.w    = p.cn.lookup(std::cos(0.4 + 0.3 * k), 0.);
                b.w    = p.cn.lookup(std::sin(0.4 + 0.3 * k), 0.);
                nx.push_back(p.makeDDNode(static_cast<dd::Qubit>(v), std::array{a, b}));
            }
            cur = nx;
        }
        return cur[0];
    }
    dd::mEdge crossingM(P& p, unsigned n) {
        std::vector<dd::mEdge> cur{dd::mEdge::one, dd::mEdge::one};
        for (unsigned v = 0; v < n; ++v) {
            std::vector<dd::mEdge> nx;
            for (unsigned k = 0; k < 2; ++k) {
                const double w[2][4] = {{1, 0.5, 0.25, 0.75}, {0.6, 1, 0.4, 0.3}};
                std::array<dd::mEdge, 4> e{};
                for (unsigned i = 0; i < 4; ++i) {
                    e[i]   = cur[(i + k + i / 2) % 2];
                    e[i].w = p.cn.lookup(w[k][i], 0.);
                }
                nx.push_back(p.makeDDNode(static_cast<dd::Qubit>(v), e));
            }
            cur = nx;
        }
        return cur[0];
    }
    dd::vEdge state(Ctx& c, unsigned f) {
        auto&     p = *c.p;
        dd::vEdge e{};
        switch (f) {
            case 0: return p.makeZeroState(c.q);
            case 1:
                e = dd::vEdge::one;
                for (unsigned v = 0; v < c.n; ++v) {
                    auto a = e;
                    auto b = e;
                    a.w    = p.cn.lookup(std::cos(ang(v)), 0.);
                    b.w    = p.cn.lookup(0., std::sin(ang(v)));
                    e      = p.makeDDNode(static_cast<dd::Qubit>(v), std::array{a, b});
                }
                return e;
            case 2: {
                auto a = dd::vEdge::one;
                auto b = dd::vEdge::one;
                for (unsigned v = 0; v + 1 < c.n; ++v) {
                    a = p.makeDDNode(static_cast<dd::Qubit>(v), std::array{a, dd::vEdge::zero});
                    b = p.makeDDNode(static_cast<dd::Qubit>(v), std::array{dd::vEdge::zero, b});
                }
                a.w = p.cn.lookup(0.6, 0.);
                b.w = p.cn.lookup(0., 0.8);
                return p.makeDDNode(static_cast<dd::Qubit>(c.n - 1), std::array{a, b});
            }
            case 3: {
                auto z = dd::vEdge::one; // |0..0>
                auto w = dd::vEdge::zero;
                for (unsigned v = 0; v < c.n; ++v) {
                    const double k = v + 1.;
                    auto         a = w;
                    auto         b = z;
                    if (v > 0) {
                        a.w = p.cn.lookup(std::sqrt((k - 1) / k), 0.);
                    }
                    b.w = p.cn.lookup(std::sqrt(1 / k), 0.);
                    w   = p.makeDDNode(static_cast<dd::Qubit>(v), std::array{a, b});
                    z   = p.makeDDNode(static_cast<dd::Qubit>(v), std::array{z, dd::vEdge::zero});
                }
                return w;
            }
            case 4: return crossing(p, c.n, 2);
            default: return crossing(p, c.n, 3);
        }
    }
    dd::mEdge matrix(Ctx& c, unsigned f) {
        auto& p = *c.p;
        switch (f) {
            case 0: return p.makeIdent(c.q);
            case 1: {
                auto e = dd::mEdge::one;
                for (unsigned v = 0; v < c.n; ++v) {
                    std::array<dd::mEdge, 4> x{e, e, e, e};
                    const double             s = std::sin(ang(v));
                    const double             k = std::cos(ang(v));
                    x[0].w                     = p.cn.lookup(k, 0.);
                    x[1].w                     = p.cn.lookup(-s, 0.);
                    x[2].w                     = p.cn.lookup(s, 0.);
                    x[3].w                     = p.cn.lookup(k, 0.);
                    e                          = p.makeDDNode(static_cast<dd::Qubit>(v), x);
                }
                return e;
            }
            case 2: {
                dd::Controls cs;
                for (unsigned i = 1; i < c.n; ++i) {
                    cs.insert(dd::Control{static_cast<dd::Qubit>(i), i % 2 == 0 ? dd::Control::Type::neg : dd::Control::Type::pos});
                }
                return p.makeGateDD(dd::RYmat(0.7), c.q, cs, 0);
            }
            case 3: return p.makeGateDD(dd::Hmat, c.q, static_cast<dd::Qubit>(c.n - 1));
            case 4: return crossingM(p, c.n);
            case 5: {
                auto e = dd::mEdge::one;
                for (unsigned v = 0; v < c.n; ++v) {
                    std::array<dd::mEdge, 4> x{e, dd::mEdge::zero, dd::mEdge::zero, e};
                    x[3].w = p.cn.lookup(std::cos(ang(v)), std::sin(ang(v)));
                    e      = p.makeDDNode(static_cast<dd::Qubit>(v), x);
                }
                return e;
            }
            case 6: return p.makeGateDD(dd::Xmat, c.q, dd::Control{static_cast<dd::Qubit>(c.n - 1)}, 0);
            case 8: return p.makeGateDD(dd::GateMatrix{dd::complex_one, dd::complex_zero, dd::complex_zero, {1, 1e-11}}, c.q, 0);
            default: {
                auto e = p.makeIdent(c.q);
                for (unsigned v = 0; v + 1 < c.n; ++v) {
                    e = p.multiply(p.makeGateDD(dd::Xmat, c.q, dd::Control{static_cast<dd::Qubit>(v)}, static_cast<dd::Qubit>(v + 1)), e);
                }
                return e;
            }
        }
    }
    using Fn = std::function<void(Ctx&, unsigned, unsigned)>;
    struct OpT {
        const char* name;
        char        a; // operand kinds: v, m or -
        char        b;
        std::function<void(Ctx&, dd::vEdge&, dd::mEdge&, dd::vEdge&, dd::mEdge&)> f;
    };
    std::vector<bool> every(unsigned n, unsigned k) {
        std::vector<bool> r(n);
        for (unsigned i = 0; i < n; ++i) {
            r[i] = i % k == k - 1;
        }
        return r;
    }
    // operands on half the register
    struct Half {
        Ctx&           c;
        unsigned       n;
        dd::QubitCount q;
        explicit Half(Ctx& x):
            c(x), n(x.n), q(x.q) {
            c.n /= 2;
            c.q = static_cast<dd::QubitCount>(c.n);
        }
        Half(const Half&)            = delete;
        Half& operator=(const Half&) = delete;
        ~Half() {
            c.n = n;
            c.q = q;
        }
    };
    const std::vector<OpT>& ops() {
        static const std::vector<OpT> O = {
                {"makeZeroState", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)c.p->makeZeroState(c.q); }},
                {"makeBasisState", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)c.p->makeBasisState(c.q, std::vector<dd::BasisStates>(c.n, dd::BasisStates::left)); }},
                {"makeIdent", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)c.p->makeIdent(c.q); }},
                {"makeGateDD", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)matrix(c, 2); }},
                {"makeTwoQubitGateDD", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)c.p->makeECRDD(c.q, 0, static_cast<dd::Qubit>(c.n - 1)); (void)c.p->makeRXXDD(c.q, static_cast<dd::Qubit>(c.n - 1), 0, 0.3); }},
                {"makeZeroDensityOperator", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)c.p->makeZeroDensityOperator(c.q); }},
                {"matrix-vector product", 'm', 'v', [](Ctx& c, auto&, auto& m, auto& v, auto&) { (void)c.p->multiply(m, v); }},
                {"matrix product", 'm', 'm', [](Ctx& c, auto&, auto& m, auto&, auto& k) { (void)c.p->multiply(m, k); }},
                {"state addition", 'v', 'v', [](Ctx& c, auto& a, auto&, auto& b, auto&) { (void)c.p->add(a, b); }},
                {"matrix addition", 'm', 'm', [](Ctx& c, auto&, auto& a, auto&, auto& b) { (void)c.p->add(a, b); }},
                {"inner product", 'v', 'v', [](Ctx& c, auto& a, auto&, auto& b, auto&) { (void)c.p->innerProduct(a, b); }},
                {"fidelity", 'v', 'v', [](Ctx& c, auto& a, auto&, auto& b, auto&) { (void)c.p->fidelity(a, b); }},
                {"expectation value", 'm', 'v', [](Ctx& c, auto&, auto& m, auto& v, auto&) { try { (void)c.p->expectationValue(m, v); } catch (const std::exception&) {} }},
                {"transpose", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->transpose(m); }},
                {"adjoint", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->conjugateTranspose(m); }},
                {"trace", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->trace(m); }},
                {"partial trace", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->partialTrace(m, every(c.n, 2)); }},
                {"isCloseToIdentity", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->isCloseToIdentity(m); }},
                {"state size", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { (void)c.p->size(v); }},
                {"matrix size", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->size(m); }},
                {"reduceAncillae", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { c.p->incRef(m); (void)c.p->reduceAncillae(m, every(c.n, 3)); }},
                {"reduceGarbage(state)", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { c.p->incRef(v); (void)c.p->reduceGarbage(v, every(c.n, 3)); }},
                {"reduceGarbage(matrix)", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { c.p->incRef(m); (void)c.p->reduceGarbage(m, every(c.n, 3)); }},
                {"measureAll", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { std::mt19937_64 g(1); c.p->incRef(v); (void)c.p->measureAll(v, true, g, 0.1); }},
                {"measure bottom", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { std::mt19937_64 g(1); c.p->incRef(v); (void)c.p->measureOneCollapsing(v, 0, false, g, 0.1); }},
                {"measure top", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { std::mt19937_64 g(1); c.p->incRef(v); (void)c.p->measureOneCollapsing(v, static_cast<dd::Qubit>(c.n - 1), true, g, 0.1); }},
                {"deleteEdge(state)", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { (void)c.p->deleteEdge(v, 0, 1); }},
                {"deleteEdge(matrix)", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->deleteEdge(m, 0, 1); }},
                {"write and read state", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { std::stringstream s; dd::serialize(v, s, true); (void)c.p->template deserialize<dd::vNode>(s, true); }},
                {"write and read matrix", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { std::stringstream s; dd::serialize(m, s, true); (void)c.p->template deserialize<dd::mNode>(s, true); }},
                {"graph of state", 'v', '-', [](Ctx&, auto& v, auto&, auto&, auto&) { std::stringstream s; dd::toDot(v, s); }},
                {"graph of matrix", 'm', '-', [](Ctx&, auto&, auto& m, auto&, auto&) { std::stringstream s; dd::toDot(m, s); }},
                {"transfer", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { P p(c.n); (void)p.transfer(v); }},
                {"transfer of matrix", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { P p(c.n); (void)p.transfer(m); }},
                {"text of state", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { std::stringstream s; dd::serialize(v, s, false); (void)c.p->template deserialize<dd::vNode>(s, false); }},
                {"text of matrix", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { std::stringstream s; dd::serialize(m, s, false); (void)c.p->template deserialize<dd::mNode>(s, false); }},
                {"edge weights of state", 'v', '-', [](Ctx&, auto& v, auto&, auto&, auto&) { std::stringstream s; dd::exportEdgeWeights(v, s); }},
                {"edge weights of matrix", 'm', '-', [](Ctx&, auto&, auto& m, auto&, auto&) { std::stringstream s; dd::exportEdgeWeights(m, s); }},
                {"memory graph of matrix", 'm', '-', [](Ctx&, auto&, auto& m, auto&, auto&) { std::stringstream s; dd::toDot(m, s, true, true, true, true, false); }},
                {"one matrix entry", 'm', '-', [](Ctx& c, auto&, auto& m, auto&, auto&) { (void)c.p->getValueByPath(m, std::string(c.n, '3')); }},
                {"entry by index", 'm', 'v', [](Ctx& c, auto&, auto& m, auto& v, auto&) { (void)c.p->getValueByPath(m, 1, 2); (void)c.p->getValueByPath(v, 5); }},
                {"kronecker product of states", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { for (unsigned i = 0; i < NS; ++i) { for (unsigned k = 0; k < NS; ++k) { const Half h(c); auto a = state(c, i); auto b = state(c, k); (void)c.p->kronecker(a, b); } } }},
                {"kronecker product of matrices", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { for (unsigned i = 0; i < NM; ++i) { for (unsigned k = 0; k < NM; ++k) { const Half h(c); auto a = matrix(c, i); auto b = matrix(c, k); (void)c.p->kronecker(a, b); } } }},
                {"extend", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { for (unsigned i = 0; i < NM; ++i) { const auto q = static_cast<dd::Qubit>(c.n / 4); const Half h(c); auto a = matrix(c, i); (void)c.p->extend(a, q, q); } }},
                {"createInitialMatrix", '-', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { (void)c.p->createInitialMatrix(c.q, every(c.n, 2)); }},
                {"density matrix evolution", 'm', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { c.dp->applyOperationToDensity(c.rho, c.op, false); c.dp->applyOperationToDensity(c.rho, c.op, false); }},
                {"reduced density matrix evolution", 'm', '-', [](Ctx& c, auto&, auto&, auto&, auto&) { c.dp->applyOperationToDensity(c.rho, c.op, true); c.dp->applyOperationToDensity(c.rho, c.op, true); }},
                {"one amplitude", 'v', '-', [](Ctx& c, auto& v, auto&, auto&, auto&) { (void)c.p->getValueByPath(v, std::string(c.n, '0')); }},
                {"references and collection", 'v', 'm', [](Ctx& c, auto& v, auto&, auto&, auto& m) { c.p->incRef(v); c.p->incRef(m); c.p->decRef(v); c.p->garbageCollect(true); c.p->decRef(m); c.p->garbageCollect(true); }},
        };
        return O;
    }
    // combinations whose result has few nodes; sums of unrelated states or matrices have many
    bool small(unsigned o, unsigned a, unsigned b) {
        const std::string n = ops()[o].name;
        if (n == "matrix-vector product" || n == "expectation value") {
            return a == 1 ? b <= 1 : a == 3 ? b <= 3 : a != 4 || b == 0;
        }
        if (n == "matrix product") {
            return (a != 4 && b != 4 && !(a == 1 && b == 7)) || a == 0 || b == 0;
        }
        if (n == "state addition") {
            return a == b || (a <= 3 && b <= 3);
        }
        if (n == "matrix addition") {
            return a == b || (a != 4 && b != 4 && a != 5 && b != 5 && !(a + b == 8));
        }
        if (n == "reduceGarbage(matrix)") { // specified for reversible circuits only
            return a == 0 || a == 6 || a == 7;
        }
        if (n.find("density matrix evolution") != std::string::npos) {
            return a != 4;
        }
        if (n == "reduceGarbage(state)") {
            return a == 0 || a == 2;
        }
        return true;
    }
    // repeat: what the same request costs again
    std::uint64_t cost(unsigned o, unsigned fa, unsigned fb, unsigned n, std::uint64_t limit, bool repeat = false) {
        Ctx         c(n);
        const auto& op = ops()[o];
        what           = op.name;
        size_          = n;
        dd::vEdge   va{}, vb{};
        dd::mEdge   ma{}, mb{};
        if (op.a == 'v') {
            va = state(c, fa);
            c.p->incRef(va);
        } else if (op.a == 'm') {
            ma = matrix(c, fa);
            c.p->incRef(ma);
        }
        if (op.b == 'v') {
            vb = state(c, fb);
            c.p->incRef(vb);
        } else if (op.b == 'm') {
            mb = matrix(c, fb);
            c.p->incRef(mb);
        }
        c.p->clearComputeTables();
        if (std::string(op.name).find("density matrix evolution") != std::string::npos) {
            c.dp  = std::make_unique<DP>(n);
            c.rho = c.dp->makeZeroDensityOperator(c.q);
            c.op  = c.dp->transfer(ma);
            c.dp->incRef(c.rho);
            c.dp->incRef(c.op);
        }
        if (repeat) {
            op.f(c, va, ma, vb, mb);
        }
        steps  = 0;
        budget = limit;
        op.f(c, va, ma, vb, mb);
        budget = 0;
        mc::op(steps);
        return steps;
    }
    void wide() {
        const unsigned o  = mc::choose(static_cast<unsigned>(ops().size()), "operation");
        const auto&    op = ops()[o];
        const unsigned a  = mc::choose(op.a == 'v' ? NS : op.a == 'm' ? NM : 1, "first operand");
        const unsigned b  = mc::choose(op.b == 'v' ? NS : op.b == 'm' ? NM : 1, "second operand");
        if (!small(o, a, b)) {
            mc::prune();
        }
        MC_NOTE(op.name << " of " << (op.a == 'v' ? SN[a] : op.a == 'm' ? MN[a] : "nothing") << " and " << (op.b == 'v' ? SN[b] : op.b == 'm' ? MN[b] : "nothing"));
        std::uint64_t last = cost(o, a, b, 4, 5000000);
        for (const unsigned n: {8U, 16U, 32U, 64U, 127U}) {
            mc::alive();
            MC_NOTE(n << " qubits; " << last << " steps for half as many");
            last = cost(o, a, b, n, 12 * last + 50000);
            mc::state(mc::mix(o * 64 + a * 8 + b, n));
        }
    }
    bool cached(unsigned o) {
        const std::string n = ops()[o].name;
        return n.find("product") != std::string::npos || n.find("addition") != std::string::npos || n == "fidelity" || n == "expectation value" || n == "transpose" || n == "adjoint" || n == "makeIdent";
    }
    // the same request again is answered from a cache
    void again() {
        const unsigned o = mc::choose(static_cast<unsigned>(ops().size()), "operation");
        if (!cached(o)) {
            mc::prune();
        }
        const auto&    op = ops()[o];
        const unsigned a  = mc::choose(op.a == 'v' ? NS : op.a == 'm' ? NM : 1, "first operand");
        const unsigned b  = mc::choose(op.b == 'v' ? NS : op.b == 'm' ? NM : 1, "second operand");
        if (!small(o, a, b)) {
            mc::prune();
        }
        MC_NOTE(op.name << " of " << (op.a == 'v' ? SN[a] : op.a == 'm' ? MN[a] : "nothing") << " and " << (op.b == 'v' ? SN[b] : op.b == 'm' ? MN[b] : "nothing"));
        for (const unsigned n: {4U, 16U, 64U, 127U}) {
            mc::alive();
            mc::state(mc::mix(o * 64 + a * 8 + b, n));
            const auto k = cost(o, a, b, n, 0, true);
            MC_CHECK(k <= 3000, "repeating the " << op.name << " of " << (op.a == 'v' ? SN[a] : op.a == 'm' ? MN[a] : "nothing") << " and " << (op.b == 'v' ? SN[b] : op.b == 'm' ? MN[b] : "nothing") << " on " << n << " qubits takes " << k << " steps");
        }
    }
    // tables with many entries: the work per entry stays the same
    void tables() {
        const unsigned kind = mc::choose(5, "what");
        const unsigned val_ = mc::choose(2, "values");
        const auto     make = [&](unsigned n) {
            Ctx               c(n);
            const std::size_t N = 1ULL << n;
            const auto        x = [&](std::size_t i) {
                const double t = std::fmod(static_cast<double>(i + 1) * 0.6180339887498949, 1.);
                switch (val_) {
                    case 0: return std::complex<double>{0.1 + t, 0.05 + std::fmod(t * 7.31, 1.)}; // spread over [0,1)
                    default: return std::complex<double>{(i * 2654435761U >> 7U) % 2 == 0 ? 1. : -1., 0}; // few values, all patterns
                }
            };
            dd::CVec v(N), w(N);
            for (std::size_t i = 0; i < N; ++i) {
                v[i] = x(i);
                w[i] = x(N - 1 - i);
            }
            dd::CMat m;
            if (kind == 1) {
                const std::size_t R = 1ULL << (n / 2);
                m.assign(R, dd::CVec(R));
                for (std::size_t i = 0; i < R; ++i) {
                    for (std::size_t j = 0; j < R; ++j) {
                        m[i][j] = x(i * R + j);
                    }
                }
            }
            const auto e = c.p->makeStateFromVector(kind >= 2 ? v : dd::CVec{1, 1});
            const auto f = c.p->makeStateFromVector(kind >= 2 ? w : dd::CVec{1, 1});
            c.p->incRef(e);
            c.p->incRef(f);
            steps  = 0;
            budget = ~0ULL;
            switch (kind) {
                case 0: (void)c.p->makeStateFromVector(v); break;
                case 1: (void)c.p->makeDDFromMatrix(m); break;
                case 2: (void)c.p->add(e, f); break;
                case 3: (void)c.p->innerProduct(e, f); break;
                default: (void)c.p->multiply(c.p->makeGateDD(dd::Hmat, c.q, static_cast<dd::Qubit>(n / 2)), e); break;
            }
            budget = 0;
            mc::op(steps);
            return steps;
        };
        std::uint64_t last = 0;
        const unsigned top = mc::thorough() ? 14 : 12;
        for (unsigned n = kind == 1 ? 8 : 6; n <= top; n += 2) { // four times as many entries
            mc::alive();
            const auto k = make(n);
            mc::state(mc::mix(kind * 8 + val_, n));
            MC_NOTE(n << " qubits: " << k << " steps");
            MC_CHECK(last == 0 || k <= 8 * last + 20000, "four times as many entries (" << (1ULL << n) << ") take " << k << " instead of " << last << " steps");
            last = k;
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C39", argc, argv, {{"wide-registers", 2, false, wide}, {"requests-repeated", 2, false, again}, {"large-tables", 2, false, tables}},
                   {"49 operations x 6 state and 9 matrix families with one to three nodes per qubit (all pairs whose result is small) on 4, 8, 16, 32, 64 and 127 qubits: doubling the register at most multiplies the executed basic blocks by 12; 11 cached operations repeated on 4-127 qubits within a constant number of steps; construction, addition, inner product and multiplication of dense states and matrices with 2^6-2^12 (thorough 2^14) entries: four times the entries at most eight times the steps",
                    {"steps are basic blocks entered, counted by compiler instrumentation (-fsanitize-coverage=trace-pc)", "numbers that are close together share a bucket of the number table by design; the large tables hold numbers that are spread", "combinations whose result has exponentially many nodes are left out"}});
}
