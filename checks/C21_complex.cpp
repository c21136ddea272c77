// C21: complex number operations are correct for all operands and aliasing; temporaries are distinct, durable and reused.
#include "ddx.hpp"
using namespace ddx;
namespace {
    using dd::Complex;
    using dd::CTEntry;
    using CN             = dd::ComplexNumbers;
    constexpr double TOL = std::numeric_limits<double>::epsilon() * 1024;

    const std::vector<double>& parts() {
        static const std::vector<double> p{0., 1., -1., 0.5, -S2, S2, 0.3, -2.5, 1 + 0.5 * TOL, -1e-3, 1e3, 0.5 * TOL};
        return p;
    }
    C operand(std::size_t k) { return {parts()[k % parts().size()], parts()[k / parts().size()]}; }
    const unsigned NOP = 144;
    // number of references of everything in the table, to see that arithmetic stores and counts nothing
    std::size_t refs(const CN& cn) {
        std::size_t n = 0;
        for (const auto* b: cn.complexTable.getTable()) {
            for (const auto* e = b; e != nullptr; e = e->next) {
                n += e->refCount;
            }
        }
        return n;
    }
    void near(const Complex& got, const C& want, double scale, const std::string& what) {
        mc::op();
        mc::state(ref::hash(ref::V{want}));
        const C g = ddx::val(got);
        MC_CHECK(std::abs(g - want) <= 8 * TOL * scale, what << ": got " << ref::str(ref::V{g}) << ", expected " << ref::str(ref::V{want}));
    }
    struct Env {
        CN cn;
        // the same value in each of the forms in which the package hands numbers around
        Complex make(const C& v, unsigned form) {
            switch (form) {
                case 0: return cn.lookup(v.real(), v.imag());
                case 1: return cn.getCached(v.real(), v.imag());
                case 2: return CN::conj(cn.lookup(v.real(), -v.imag()));
                case 3: return CN::neg(cn.lookup(-v.real(), -v.imag()));
                default: {
                    auto c = cn.getCached(-v.real(), -v.imag());
                    return CN::neg(c);
                }
            }
        }
    };
    void arithmetic() {
        const unsigned ia = mc::choose(NOP, "left operand");
        const unsigned fa = mc::choose(5, "left form");
        const unsigned fb = mc::choose(5, "right form");
        auto           e  = std::make_unique<Env>();
        auto&          cn = e->cn;
        const C        A  = operand(ia);
        for (unsigned ib = 0; ib < NOP; ++ib) {
            mc::alive();
            const C B = operand(ib);
            for (unsigned alias = 0; alias < 5; ++alias) {
                if ((alias == 1 || alias == 3) && fa != 1) {
                    continue; // the result can only be stored in a temporary
                }
                if (alias == 2 && fb != 1) {
                    continue;
                }
                if (alias >= 3 && ib != ia) {
                    continue;
                }
                for (unsigned o = 0; o < 4; ++o) {
                    if (o == 3 && std::abs(B) < 1e-6) {
                        continue;
                    }
                    const auto before = cn.cacheCount();
                    Complex    a      = e->make(A, fa);
                    Complex    b      = alias >= 3 ? a : e->make(B, fb);
                    const C    av     = ddx::val(a);
                    const C    bv     = ddx::val(b);
                    Complex    r      = alias == 1 || alias == 3 ? a : alias == 2 ? b : cn.getCached(7, 7);
                    const auto keepA  = ddx::val(a);
                    const auto keepB  = ddx::val(b);
                    const auto stored = cn.complexTable.getCount();
                    C          want;
                    double     scale = 1 + std::abs(av) + std::abs(bv);
                    const auto used  = cn.cacheCount();
                    std::string name;
                    switch (o) {
                        case 0: CN::add(r, a, b); want = av + bv; name = "sum"; break;
                        case 1: CN::sub(r, a, b); want = av - bv; name = "difference"; break;
                        case 2: CN::mul(r, a, b); want = ref::cmul(av, bv); name = "product"; break;
                        default:
                            CN::div(r, a, b);
                            want  = ref::cmul(av, std::conj(bv)) / std::norm(bv);
                            scale = (1 + std::abs(av) + std::abs(want)) * (1 + 1 / std::abs(bv));
                            name  = "quotient";
                            break;
                    }
                    name += " of " + ref::str(ref::V{av, bv}) + " forms " + std::to_string(fa) + std::to_string(fb) + " aliasing " + std::to_string(alias);
                    near(r, want, scale, name);
                    MC_CHECK(cn.cacheCount() == used, name << ": the number of temporaries changed");
                    if (alias != 1 && alias != 3) {
                        MC_CHECK(ddx::val(a) == keepA, name << ": the left operand was changed");
                    }
                    if (alias != 2 && alias != 3) {
                        MC_CHECK(ddx::val(b) == keepB, name << ": the right operand was changed");
                    }
                    // the variant that provides the temporary itself
                    if (alias == 0 || alias == 4) {
                        Complex c = o == 0 ? cn.addCached(a, b) : o == 1 ? cn.subCached(a, b) : o == 2 ? cn.mulCached(a, b) : cn.divCached(a, b);
                        near(c, want, scale, name + " (cached)");
                        MC_CHECK(cn.cacheCount() == used + 2, name << ": a new temporary was not counted");
                        MC_CHECK(c.r != r.r && c.i != r.i && c.r != c.i, name << ": a temporary in use was handed out");
                        cn.returnToCache(c);
                        cn.returnToCache(r);
                    }
                    MC_CHECK(cn.complexTable.getCount() == stored, name << ": numbers were stored");
                    auto give = [&](Complex x, unsigned f) {
                        if (f == 1 || f == 4) {
                            Complex y{CTEntry::getAlignedPointer(x.r), CTEntry::getAlignedPointer(x.i)};
                            cn.returnToCache(y);
                        }
                    };
                    if (alias < 3) {
                        give(b, fb);
                    }
                    give(a, fa);
                    MC_CHECK(cn.cacheCount() == before, name << ": " << before << " temporaries in use before, " << cn.cacheCount() << " after returning all");
                }
            }
        }
        // one operand
        for (unsigned k = 0; k < 2; ++k) {
            Complex     a  = e->make(A, fa);
            const C     av = ddx::val(a);
            const auto  s  = 1 + std::abs(av);
            std::string w  = " of " + ref::str(ref::V{av});
            near(CN::conj(a), std::conj(av), s, "conjugate" + w);
            near(CN::neg(a), -av, s, "negation" + w);
            MC_CHECK(CN::conj(CN::conj(a)) == a, "conjugating twice" << w << " is not the identity");
            MC_CHECK(CN::neg(CN::neg(a)) == a, "negating twice" << w << " is not the identity");
            MC_CHECK(ddx::val(a) == av, "conjugation or negation changed the operand" << w);
            MC_CHECK(std::abs(CN::mag2(a) - std::norm(av)) <= 8 * TOL * s * s, "squared magnitude" << w << " is " << CN::mag2(a));
            MC_CHECK(std::abs(CN::mag(a) - std::abs(av)) <= 8 * TOL * s, "magnitude" << w << " is " << CN::mag(a));
            const auto arg = CN::arg(a);
            MC_CHECK(std::abs(ref::cmul(std::polar(1., arg), std::abs(av)) - av) <= 16 * TOL * s && arg <= M_PI && arg >= -M_PI, "argument" << w << " is " << arg);
            MC_CHECK(std::abs(arg - std::atan2(av.imag(), av.real())) < 1e-9 || std::abs(av) < 1e-9, "argument" << w << " is " << arg);
            MC_CHECK(a.approximatelyZero() == (std::abs(av.real()) <= TOL && std::abs(av.imag()) <= TOL), "negligible" << w);
            MC_CHECK(a.approximatelyOne() == (std::abs(av.real() - 1) <= TOL && std::abs(av.imag()) <= TOL), "close to one" << w);
            const dd::ComplexValue x{av.real(), av.imag()};
            MC_CHECK(x.approximatelyZero() == a.approximatelyZero() && x.approximatelyOne() == a.approximatelyOne(), "value and number disagree" << w);
            if (fa == 0 || fa == 2 || fa == 3) {
                MC_CHECK(a.exactlyZero() == a.approximatelyZero() && a.exactlyOne() == a.approximatelyOne(), "stored zero or one is not the permanent one" << w);
                MC_CHECK(a == cn.lookup(av.real(), av.imag()), "the same value was stored differently" << w);
            }
            for (unsigned ib = 0; ib < NOP; ++ib) {
                Complex b  = e->make(operand(ib), fb);
                const C bv = ddx::val(b);
                const bool eq = std::abs(av.real() - bv.real()) <= TOL && std::abs(av.imag() - bv.imag()) <= TOL;
                MC_CHECK(a.approximatelyEquals(b) == eq, "comparison" << w << " with " << ref::str(ref::V{bv}));
                const dd::ComplexValue y{bv.real(), bv.imag()};
                MC_CHECK(x.approximatelyEquals(y) == eq && (x == y) == (av == bv) && (x != y) == (av != bv), "comparison of values" << w << " with " << ref::str(ref::V{bv}));
                const auto z = x + y;
                auto       q = x;
                q += y;
                MC_CHECK(z.r == av.real() + bv.real() && z.i == av.imag() + bv.imag() && q == z, "sum of values" << w << " and " << ref::str(ref::V{bv}));
            }
        }
        MC_CHECK(refs(cn) == 1, "arithmetic changed reference counts");
    }
    // looking up all pairs of special values with all signs
    std::vector<double> specials() {
        std::vector<double> r{0., TOL, 0.9 * TOL, 1.1 * TOL, 2.5 * TOL, 1., 1 + 0.9 * TOL, 1 - 1.1 * TOL, S2, S2 + 0.9 * TOL, S2 - 1.1 * TOL, 0.5, 0.5 + 0.9 * TOL, 1e-9, 0.3, 0.3 + 0.6 * TOL, 0.3 - 0.6 * TOL, 0.6, 2., 1000.25, 1e17, 8191.5 / 65536, 8191.5 / 65536 + 0.8 * TOL, 8191.5 / 65536 - 0.8 * TOL, 5e-324, 1e-300};
        const auto          n = r.size();
        for (std::size_t i = 0; i < n; ++i) {
            r.push_back(-r[i]);
        }
        return r;
    }
    void lookups() {
        const auto   s = specials();
        const double x = s[mc::choose(static_cast<unsigned>(s.size()), "real part")];
        auto         cn = std::make_unique<CN>();
        for (const double y: s) {
            mc::alive();
            const auto a = cn->lookup(x, y);
            mc::op();
            std::ostringstream w;
            w << std::hexfloat << "looking up (" << x << "," << y << ")";
            auto part = [&](const CTEntry* e, double v, const char* which) {
                MC_CHECK(e != nullptr, w.str() << " returned nothing");
                MC_CHECK(std::abs(ddx::val(e) - v) <= TOL, w.str() << ": " << which << " is " << ddx::val(e));
                if (std::abs(v) <= TOL) {
                    MC_CHECK(e == &dd::ComplexTable<>::zero, w.str() << ": negligible " << which << " is not zero");
                    MC_CHECK(CTEntry::exactlyZero(e) && CTEntry::approximatelyZero(e), w.str() << ": zero is not recognised");
                } else {
                    MC_CHECK(!CTEntry::exactlyZero(e), w.str() << ": " << which << " became zero");
                    MC_CHECK(CTEntry::isNegativePointer(e) == (v < 0), w.str() << ": sign of the " << which << " is lost");
                    MC_CHECK(CTEntry::getAlignedPointer(e)->value > 0, w.str() << ": a negative number was stored");
                    MC_CHECK(CTEntry::val(e) == ddx::val(e) && CTEntry::val(CTEntry::flipPointerSign(e)) == -ddx::val(e), w.str() << ": sign handling of the " << which);
                }
                const double m = std::abs(v);
                MC_CHECK((std::abs(m - 1) <= TOL) == (CTEntry::getAlignedPointer(e) == &dd::ComplexTable<>::one), w.str() << ": one is not permanent");
            };
            part(a.r, x, "real part");
            part(a.i, y, "imaginary part");
            MC_CHECK(cn->lookup(x, y) == a, w.str() << " twice gives two numbers");
            MC_CHECK(cn->lookup(a) == a, w.str() << ": looking up the stored number gives another one");
            MC_CHECK(cn->lookup(std::complex<double>{x, y}) == a && cn->lookup(dd::ComplexValue{x, y}) == a, w.str() << ": overloads disagree");
            MC_CHECK(cn->lookup(-x, -y) == CN::neg(a), w.str() << ": the negated value is stored differently");
            MC_CHECK(cn->lookup(x, -y) == CN::conj(a), w.str() << ": the conjugated value is stored differently");
            MC_CHECK(a.exactlyZero() == (std::abs(x) <= TOL && std::abs(y) <= TOL), w.str() << ": exactlyZero");
            MC_CHECK(a.exactlyOne() == (std::abs(x - 1) <= TOL && std::abs(y) <= TOL), w.str() << ": exactlyOne");
            auto c = cn->getCached(x, y);
            MC_CHECK(cn->lookup(c) == a, w.str() << ": looking up a temporary of this value gives another number");
            auto d = cn->getCached(dd::ComplexValue{x, y});
            auto e = cn->getCached(std::complex<double>{x, y});
            MC_CHECK(ddx::val(c) == C(x, y) && ddx::val(d) == C(x, y) && ddx::val(e) == C(x, y), w.str() << ": temporaries with this value hold another one");
            auto t = cn->getTemporary(x, y);
            auto u = cn->getTemporary(dd::ComplexValue{y, x});
            MC_CHECK(ddx::val(u) == C(y, x) && ddx::val(c) == C(x, y), w.str() << ": a temporary number overwrote one in use");
            (void)t;
            cn->returnToCache(c);
            cn->returnToCache(e);
            cn->returnToCache(d);
            MC_CHECK(cn->cacheCount() == 0, w.str() << ": temporaries in use after returning all");
            // references of both parts, which may be the same entry
            auto before = std::pair{CTEntry::getAlignedPointer(a.r)->refCount, CTEntry::getAlignedPointer(a.i)->refCount};
            CN::incRef(a);
            auto perm = [](const CTEntry* q) { q = CTEntry::getAlignedPointer(q); return q == &dd::ComplexTable<>::zero || q == &dd::ComplexTable<>::one || q == &dd::ComplexTable<>::sqrt2_2; };
            const unsigned same = CTEntry::getAlignedPointer(a.r) == CTEntry::getAlignedPointer(a.i) ? 2 : 1;
            MC_CHECK(CTEntry::getAlignedPointer(a.r)->refCount == before.first + (perm(a.r) ? 0 : same) && CTEntry::getAlignedPointer(a.i)->refCount == before.second + (perm(a.i) ? 0 : same), w.str() << ": reference counts of the parts are wrong");
            cn->garbageCollect(true);
            MC_CHECK(ddx::val(a) == ddx::val(cn->lookup(a)) && cn->lookup(x, y) == a, w.str() << ": a referenced number was collected");
            CN::decRef(a);
            MC_CHECK(CTEntry::getAlignedPointer(a.r)->refCount == before.first && CTEntry::getAlignedPointer(a.i)->refCount == before.second, w.str() << ": reference counts of the parts are not restored");
            cn->garbageCollect(true);
        }
    }
    // every sequence of requests and returns
    template<class Cache>
    void cacheSeq(unsigned depth) {
        Cache                cache;
        std::vector<Complex> out;
        double               next = 1;
        std::vector<double>  mark;
        auto                 check = [&](const char* what) {
            MC_CHECK(cache.getCount() == 2 * out.size(), what << ": " << cache.getCount() << " entries in use reported, " << 2 * out.size() << " handed out");
            std::set<const void*> seen;
            for (std::size_t i = 0; i < out.size(); ++i) {
                MC_CHECK(seen.insert(out[i].r).second && seen.insert(out[i].i).second, what << ": an entry was handed out twice");
                MC_CHECK(out[i].r->value == mark[i] && out[i].i->value == -mark[i], what << ": a temporary in use was changed");
            }
            MC_CHECK(cache.getAllocations() >= cache.getCount(), what << ": more in use than allocated");
        };
        std::size_t peak = 0;
        for (unsigned d = 0; d < depth; ++d) {
            mc::op();
            const auto allocs = cache.getAllocations();
            const auto o      = mc::choose(7, "op");
            switch (o) {
                case 0:
                case 1: {
                    for (unsigned k = 0; k < (o == 0 ? 1U : 3U); ++k) {
                        const auto al = cache.getAllocations();
                        auto       c  = cache.getCachedComplex();
                        MC_CHECK(c.r != nullptr && c.i != nullptr && c.r->refCount == 0 && c.i->refCount == 0, "a temporary has references");
                        MC_CHECK(cache.getAllocations() == al || 2 * out.size() + 2 > al, "memory was allocated although temporaries were free");
                        c.r->value = next;
                        c.i->value = -next;
                        out.push_back(c);
                        mark.push_back(next);
                        next += 1;
                        check("request");
                    }
                    break;
                }
                case 2: {
                    auto t = cache.getTemporaryComplex();
                    MC_CHECK(cache.getAllocations() == allocs || 2 * out.size() + 2 > allocs, "memory was allocated although temporaries were free");
                    t.r->value = 1e9;
                    t.i->value = 1e9;
                    MC_CHECK(t.r != t.i, "a temporary uses one entry for both parts");
                    check("temporary request");
                    break;
                }
                case 6:
                    cache.clear();
                    out.clear();
                    mark.clear();
                    check("clear");
                    break;
                default: {
                    if (out.empty()) {
                        mc::prune();
                    }
                    const std::size_t i = o == 3 ? 0 : o == 4 ? out.size() - 1 : out.size() / 2;
                    cache.returnToCache(out[i]);
                    out.erase(out.begin() + static_cast<std::ptrdiff_t>(i));
                    mark.erase(mark.begin() + static_cast<std::ptrdiff_t>(i));
                    check("return");
                }
            }
            peak = std::max(peak, out.size());
            mc::state(mc::mix(out.size(), mc::mix(cache.getAllocations(), d)));
        }
        // the rest of the pool is intact as well
        const auto        alloc = cache.getAllocations();
        const std::size_t n     = alloc / 2 - out.size();
        for (std::size_t i = 0; i < n; ++i) {
            auto c     = cache.getCachedComplex();
            c.r->value = next;
            c.i->value = -next;
            out.push_back(c);
            mark.push_back(next);
            next += 1;
        }
        check("using the whole pool");
        MC_CHECK(cache.getAllocations() == alloc, "the pool grew although entries were free: some temporaries were lost");
    }
    void caches() {
        const unsigned depth = mc::thorough() ? 9 : 7;
        switch (mc::choose(3, "pool")) {
            case 0: cacheSeq<dd::ComplexCache<2, 2>>(depth); break;
            case 1: cacheSeq<dd::ComplexCache<4, 1>>(depth); break;
            default: cacheSeq<dd::ComplexCache<2, 3>>(depth); break;
        }
    }
    // many temporaries of a package: growth, values survive, all return patterns
    void growth() {
        const unsigned    pat = mc::choose(6, "return pattern");
        const std::size_t n   = std::vector<std::size_t>{900, 5000, 20000}[mc::choose(3, "amount")];
        auto              cn  = std::make_unique<CN>();
        std::vector<Complex> out;
        for (unsigned round = 0; round < 3; ++round) {
            for (std::size_t i = out.size(); i < n; ++i) {
                out.push_back(cn->getCached(static_cast<double>(i), -static_cast<double>(i)));
                mc::op();
            }
            std::set<const void*> seen;
            for (std::size_t i = 0; i < n; ++i) {
                MC_CHECK(ddx::val(out[i]) == C(static_cast<double>(i), -static_cast<double>(i)), "temporary " << i << " of " << n << " holds " << out[i].r->value);
                MC_CHECK(seen.insert(out[i].r).second && seen.insert(out[i].i).second, "temporary " << i << " shares an entry with another one");
            }
            MC_CHECK(cn->cacheCount() == 2 * n, n << " temporaries handed out, " << cn->cacheCount() << " entries reported");
            const auto           allocs = cn->complexCache.getAllocations();
            std::vector<Complex> keep;
            for (std::size_t k = 0; k < n; ++k) {
                const std::size_t i = pat % 2 == 0 ? k : n - 1 - k;
                const bool        r = pat < 2 || (pat < 4 ? i % 3 == 0 : i >= n / 2);
                if (r) {
                    cn->returnToCache(out[i]);
                } else {
                    keep.push_back(out[i]);
                }
            }
            MC_CHECK(cn->cacheCount() == 2 * keep.size(), keep.size() << " temporaries in use, " << cn->cacheCount() << " entries reported");
            out.clear();
            for (std::size_t i = 0; i < keep.size(); ++i) {
                keep[i].r->value = static_cast<double>(i);
                keep[i].i->value = -static_cast<double>(i);
                out.push_back(keep[i]);
            }
            const auto have = out.size();
            for (std::size_t i = have; i < n; ++i) {
                out.push_back(cn->getCached(static_cast<double>(i), -static_cast<double>(i)));
            }
            MC_CHECK(cn->complexCache.getAllocations() == allocs, "returned temporaries were not reused");
            mc::alive();
        }
        cn->clear();
        MC_CHECK(cn->cacheCount() == 0, "temporaries in use after a clear");
        auto a = cn->getCached(1, 2);
        auto b = cn->getCached(3, 4);
        MC_CHECK(ddx::val(a) == C(1, 2) && ddx::val(b) == C(3, 4), "temporaries after a clear overlap");
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C21", argc, argv,
                   {{"arithmetic", 3, false, arithmetic},
                    {"lookups", 1, false, lookups},
                    {"temporaries", 4, false, caches},
                    {"growth", 2, false, growth}},
                   {"all pairs of 144 operands (12 x 12 parts) x 5 x 5 forms (stored, temporary, conjugated, negated pointers) x 5 aliasing patterns for sum, difference, product and quotient, all operands for the unary operations and comparisons; all pairs of 52 special signed parts looked up; all sequences of 7 (thorough 9) requests, returns (3 orders) and clears for 3 pool shapes; growth to 20000 temporaries with 6 return patterns",
                    {"quotients of operands below 1e-6 are not asked for, since operands within the tolerance count as equal"}});
}
