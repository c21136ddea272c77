// C35: operations on one package, used by checks/C35_independence.cpp and checks/C35_threads.cc
#pragma once
#include "machine.hpp"

using namespace ddx;
namespace {
    // operations in addition to those of the machine
    enum : unsigned { XReset = OpCount, XReborn, XGrow, XTables, XNumbers, XDot, XText, XGates, XReadOut, XAsk, XRefuse, XMany, XNoise, AllOps };
    const char* name(unsigned o) {
        static const char* const N[] = {"reset", "destroy and create", "resize", "other tables", "numbers as text", "export dot", "read and write", "gates", "read-outs", "questions", "refusals", "many nodes and numbers", "density matrix"};
        return o < OpCount ? opName(o) : N[o - OpCount];
    }
    template<class P>
    struct Side {
        int                         n;
        std::unique_ptr<P>          p;
        std::unique_ptr<Machine<P>> m;
        explicit Side(int q):
            n(q), p(std::make_unique<P>(static_cast<std::size_t>(q))), m(std::make_unique<Machine<P>>(*p, q)) { m->start(); }
        void forget() {
            m->hv[0] = m->hv[1] = m->hm[0] = m->hm[1] = m->hd = false;
        }
        bool act(unsigned o) {
            if (o < OpCount) {
                return m->step(o);
            }
            mc::op();
            MC_NOTE(name(o));
            auto&      q  = *p;
            const auto nq = static_cast<dd::QubitCount>(n);
            switch (o) {
                case XReset:
                    q.reset();
                    forget();
                    m->start();
                    return true;
                case XReborn:
                    m.reset();
                    p.reset();
                    p = std::make_unique<P>(static_cast<std::size_t>(n));
                    m = std::make_unique<Machine<P>>(*p, n);
                    m->start();
                    return true;
                case XGrow: {
                    q.resize(q.qubits() + 1);
                    const auto e = q.makeZeroState(static_cast<dd::QubitCount>(q.qubits()));
                    q.incRef(e);
                    q.decRef(e);
                    (void)q.makeIdent(static_cast<dd::QubitCount>(q.qubits()));
                    return true;
                }
                case XTables: {
                    const auto g = q.makeGateDD(dd::Xmat, nq, 0);
                    const dd::Controls c{dd::Control{static_cast<dd::Qubit>(n - 1)}};
                    (void)q.toffoliTable.lookup(nq, c, 0);
                    q.toffoliTable.insert(nq, c, 0, g);
                    (void)q.toffoliTable.lookup(nq, c, 0);
                    q.stochasticNoiseOperationCache.insert(0, 0, g);
                    (void)q.stochasticNoiseOperationCache.lookup(0, 0);
                    auto       d = q.makeZeroDensityOperator(nq);
                    (void)q.densityNoise.lookup(d, {0});
                    q.densityNoise.insert(d, d, {0});
                    (void)q.densityNoise.lookup(d, {0});
                    std::ostringstream os;
                    q.toffoliTable.printStatistics(os);
                    q.stochasticNoiseOperationCache.printStatistics(os);
                    q.densityNoise.printStatistics(os);
                    q.vUniqueTable.printStatistics(os);
                    q.mUniqueTable.printStatistics(os);
                    q.dUniqueTable.printStatistics(os);
                    q.vectorAdd.printStatistics(os);
                    q.matrixTranspose.printStatistics(os);
                    q.matrixMatrixMultiplication.printStatistics(os);
                    q.cn.complexTable.printStatistics(os);
                    return true;
                }
                case XNumbers: {
                    std::ostringstream os;
                    for (const double x: {0.5, -0.25, dd::SQRT2_2, 0.3, dd::PI, 1e-15}) {
                        const auto c = q.cn.lookup(x, 0.5 - x);
                        os << c << c.toString(true) << c.toString(false, 3) << dd::ComplexValue{x, x};
                        (void)dd::ComplexValue::getLowestFraction(x);
                        dd::ComplexValue::printFormatted(os, x, true);
                        dd::ComplexValue z{};
                        z.fromString("0.5", "-0.25i");
                        auto t = q.cn.getTemporary(x, -x);
                        dd::ComplexNumbers::mul(t, t, c);
                        dd::ComplexNumbers::div(t, t, q.cn.lookup(0.7, 0.1));
                        auto k = q.cn.addCached(t, c);
                        dd::ComplexNumbers::incRef(q.cn.lookup(k));
                        dd::ComplexNumbers::decRef(q.cn.lookup(k));
                        q.cn.returnToCache(k);
                        (void)dd::ComplexNumbers::mag2(c);
                        (void)dd::ComplexNumbers::arg(c);
                        std::stringstream ss;
                        c.writeBinary(ss);
                        z.readBinary(ss);
                    }
                    (void)dd::ComplexTable<>::tolerance();
                    return true;
                }
                case XDot: {
                    std::ostringstream os;
                    for (unsigned k = 0; k < 32; ++k) {
                        if (m->hv[0] && !m->v[0].isTerminal()) {
                            dd::toDot(m->v[0], os, (k & 1U) != 0, (k & 2U) != 0, (k & 4U) != 0, (k & 8U) != 0, (k & 16U) != 0);
                        }
                        if (m->hm[0] && !m->m[0].isTerminal() && k < 16) {
                            dd::toDot(m->m[0], os, (k & 1U) != 0, (k & 2U) != 0, (k & 4U) != 0, (k & 8U) != 0, k % 3 == 0);
                        }
                    }
                    return true;
                }
                case XText:
                    for (const bool bin: {true, false}) {
                        std::stringstream ss;
                        std::stringstream st;
                        const auto v = q.makeBasisState(nq, std::vector<dd::BasisStates>(static_cast<std::size_t>(n), dd::BasisStates::right));
                        dd::serialize(v, ss, bin);
                        const auto w = q.template deserialize<dd::vNode>(ss, bin);
                        MC_CHECK(ref::close(vec(v, n), vec(w, n), 1e-9), "reading a state back");
                        const auto g = q.makeGateDD(dd::SXmat, nq, 0);
                        dd::serialize(g, st, bin);
                        const auto h = q.template deserialize<dd::mNode>(st, bin);
                        MC_CHECK(ref::close(mat(g, n), mat(h, n), 1e-9), "reading a matrix back");
                    }
                    return true;
                case XGates: {
                    if (n < 2) {
                        (void)q.makeGateDD(dd::Phasemat(0.3), nq, 0);
                        return true;
                    }
                    const dd::Controls none{};
                    (void)q.makeSWAPDD(nq, none, 0, 1);
                    (void)q.makePeresDD(nq, none, 0, 1);
                    (void)q.makePeresdagDD(nq, none, 1, 0);
                    (void)q.makeiSWAPDD(nq, none, 0, 1);
                    (void)q.makeiSWAPinvDD(nq, none, 0, 1);
                    (void)q.makeDCXDD(nq, none, 0, 1);
                    (void)q.makeRZZDD(nq, none, 0, 1, 0.3);
                    (void)q.makeRYYDD(nq, none, 0, 1, 0.3);
                    (void)q.makeRXXDD(nq, none, 0, 1, 0.3);
                    (void)q.makeRZXDD(nq, none, 0, 1, 0.3);
                    (void)q.makeECRDD(nq, none, 0, 1);
                    (void)q.makeXXMinusYYDD(nq, none, 0, 1, 0.3, 0.1);
                    (void)q.makeXXPlusYYDD(nq, none, 0, 1, 0.3, 0.1);
                    (void)q.makeTwoQubitGateDD(dd::ECRmat, nq, 1, 0);
                    return true;
                }
                case XReadOut: {
                    if (!m->hv[0] || m->v[0].isTerminal()) {
                        return false;
                    }
                    auto&                            v = m->v[0];
                    std::ostringstream               os;
                    std::vector<std::complex<dd::fp>> a(1ULL << static_cast<unsigned>(n));
                    q.exportAmplitudes(v, os, nq, true);
                    q.exportAmplitudes(v, a, nq);
                    q.addAmplitudes(v, a, nq);
                    (void)q.getVector(v);
                    (void)q.getValueByPath(v, 0);
                    (void)q.getValueByPath(v, std::string(static_cast<std::size_t>(n), '1'));
                    if (m->hm[0] && !m->m[0].isTerminal()) {
                        (void)q.getMatrix(m->m[0]);
                        (void)q.getValueByPath(m->m[0], 0, 1);
                        dd::exportEdgeWeights(m->m[0], os);
                    }
                    dd::exportEdgeWeights(v, os);
                    return true;
                }
                case XAsk: {
                    for (int k = 0; k < 2; ++k) {
                        if (m->hv[k]) {
                            (void)q.size(m->v[k]);
                            (void)q.isLocallyConsistent(m->v[k]);
                            if (m->normalised()) {
                                (void)q.determineMeasurementProbabilities(m->v[0], 0, true);
                                (void)q.determineMeasurementProbabilities(m->v[0], 0, false);
                            }
                        }
                        if (m->hm[k]) {
                            (void)q.size(m->m[k]);
                            (void)q.isCloseToIdentity(m->m[k]);
                            if (!m->m[k].isTerminal()) {
                                (void)q.trace(m->m[k]);
                                (void)q.partialTrace(m->m[k], std::vector<bool>(static_cast<std::size_t>(n), true));
                                if (m->hv[0] && !m->v[0].isTerminal() && k == 0) {
                                    const auto h = q.makeGateDD(dd::Zmat, nq, 0);
                                    (void)q.expectationValue(h, m->v[0]);
                                }
                            }
                        }
                    }
                    
                    return true;
                }
                case XRefuse: {
                    unsigned   k   = 0;
                    const auto big = static_cast<dd::QubitCount>(q.qubits() + 1);
                    try {
                        (void)q.makeZeroState(big);
                    } catch (const std::exception&) {
                        ++k;
                    }
                    try {
                        (void)q.makeGateDD(dd::Xmat, big, 0);
                    } catch (const std::exception&) {
                        ++k;
                    }
                    try {
                        std::stringstream ss("nonsense");
                        (void)q.template deserialize<dd::vNode>(ss, false);
                    } catch (const std::exception&) {
                        ++k;
                    }
                    MC_CHECK(k == 3, "refused " << k << " of 3 impossible requests");
                    return true;
                }
                case XMany: {
                    for (unsigned i = 0; i < 12; ++i) {
                        V x(1ULL << static_cast<unsigned>(n));
                        for (std::size_t j = 0; j < x.size(); ++j) {
                            x[j] = C{0.1 + 0.01 * static_cast<double>(i * 7 + j), 0.3 - 0.02 * static_cast<double>(j)};
                        }
                        const auto e = q.makeStateFromVector(cvec(x));
                        q.incRef(e);
                        if (i % 4 == 3) {
                            q.garbageCollect(true);
                        }
                        q.decRef(e);
                    }
                    for (unsigned i = 0; i < 40; ++i) {
                        (void)q.cn.lookup(0.013 * i, -0.017 * i);
                        (void)q.cn.getTemporary();
                    }
                    std::vector<dd::Complex> taken;
                    for (unsigned i = 0; i < 40; ++i) {
                        taken.push_back(q.cn.getCached(0.1 * i, 1.));
                    }
                    for (auto& c: taken) {
                        q.cn.returnToCache(c);
                    }
                    return true;
                }
                default: { // density matrix
                    auto d = q.makeZeroDensityOperator(nq);
                    q.incRef(d);
                    for (unsigned i = 0; i < 3; ++i) {
                        const auto g = q.makeGateDD(dd::RYmat(0.4 + i), nq, static_cast<dd::Qubit>(i % static_cast<unsigned>(n)));
                        q.applyOperationToDensity(d, g, true);
                    }
                    (void)q.getProbVectorFromDensityMatrix(d, 0.001);
                    (void)q.getDensityMatrix(d);
                    (void)q.size(d);
                    dd::dEdge::alignDensityEdge(d);
                    q.decRef(d);
                    return true;
                }
            }
        }
    };
    template<class F>
    void withTwo(unsigned c, F f) {
        withCfg(c & 1U, [&](auto a) { withCfg(c >> 1U, [&](auto b) { f(a, b); }); });
    }
    const int SIZES[][2] = {{2, 2}, {3, 2}, {1, 3}};
} // namespace
