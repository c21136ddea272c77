// C20: the number table stores each value once within tolerance, keeps referenced numbers and recycles the others.
#include "mc.hpp"
//
#include "dd/ComplexTable.hpp"

#include <cmath>
#include <memory>
namespace {
    using dd::fp;
    // contents of a table as they have to be, and every operation with its specification
    template<class T>
    struct Model {
        using E = typename T::Entry;
        struct Num {
            E*           e;
            fp           v;
            dd::RefCount ref;
        };
        T                t;
        std::vector<Num> live;
        fp               tol;
        explicit Model(fp tolerance):
            t(withTol(tolerance)), tol(tolerance) {
            // a new table holds exactly the permanent entry 1/2
            read(0.5);
        }
        static T withTol(fp tolerance) {
            T::setTolerance(tolerance);
            return T{};
        }
        void read(fp v) {
            std::size_t n = 0;
            for (const auto* b: t.getTable()) {
                for (auto* e = b; e != nullptr; e = e->next) {
                    ++n;
                    MC_CHECK(n == 1 && e->value == v && e->refCount > 0, "a new table holds " << e->value << " with " << e->refCount << " references");
                    live.push_back({const_cast<E*>(e), e->value, e->refCount});
                }
            }
            MC_CHECK(n == 1, "a new table does not hold exactly one number");
        }
        static fp key(const fp v) { return static_cast<fp>(T::hash(v)); }

        E* lookup(const fp v) {
            mc::op();
            const auto  allocs = t.getAllocations();
            const auto  before = t.getCount();
            E* const    e      = t.lookup(v);
            std::string w;
            if (mc::tracing()) {
                MC_NOTE("lookup " << std::hexfloat << v << " -> " << (e == &T::zero ? "zero" : e == &T::one ? "one" : e == &T::sqrt2_2 ? "sqrt2_2" : ""));
            }
            MC_CHECK(e != nullptr, "looking up " << v << " returned nothing");
            const E* perm = std::abs(v) <= tol ? &T::zero : std::abs(v - 1) <= tol ? &T::one : std::abs(v - dd::SQRT2_2) <= tol ? &T::sqrt2_2 : nullptr;
            if (perm != nullptr) {
                MC_CHECK(e == perm, "looking up " << std::hexfloat << v << " did not return the permanent entry");
                MC_CHECK(t.getCount() == before, "looking up a permanent entry changed the number of entries");
                return e;
            }
            MC_CHECK(e != &T::zero && e != &T::one && e != &T::sqrt2_2, "looking up " << std::hexfloat << v << " returned a permanent entry");
            std::vector<Num*> cand;
            for (auto& x: live) {
                if (std::abs(x.v - v) <= tol) {
                    cand.push_back(&x);
                }
            }
            if (cand.empty()) {
                for (const auto& x: live) {
                    MC_CHECK(x.e != e, "looking up " << std::hexfloat << v << " returned the entry of " << x.v);
                }
                MC_CHECK(e->value == v, "looking up " << std::hexfloat << v << " returned a new entry with value " << e->value);
                MC_CHECK(e->refCount == 0, "a new entry starts with " << e->refCount << " references");
                MC_CHECK(t.getCount() == before + 1, "inserting a number changed the count from " << before << " to " << t.getCount());
                MC_CHECK(t.getAllocations() == allocs || live.size() + spare >= allocs, "memory was allocated although " << allocs - live.size() << " entries were free");
                live.push_back({e, v, 0});
                return e;
            }
            MC_CHECK(t.getCount() == before, "looking up a stored number changed the count from " << before << " to " << t.getCount());
            const Num* hit = nullptr;
            for (const auto* x: cand) {
                if (x->e == e) {
                    hit = x;
                }
            }
            MC_CHECK(hit != nullptr, "looking up " << std::hexfloat << v << " stored it again although " << cand[0]->v << " is stored");
            if (cand.size() == 2 && (key(v - tol) == key(v + tol) || key(cand[0]->v) != key(cand[1]->v))) {
                const auto* other = hit == cand[0] ? cand[1] : cand[0];
                MC_CHECK(std::abs(hit->v - v) <= std::abs(other->v - v), "looking up " << std::hexfloat << v << " returned " << hit->v << " although " << other->v << " is closer");
            }
            return e;
        }
        std::size_t spare = 0; // entries handed out directly
        void        inc(const std::size_t i) {
            mc::op();
            auto& x = live[i];
            MC_NOTE("incRef " << std::hexfloat << x.v);
            T::incRef(i % 2 == 0 ? x.e : E::getNegativePointer(x.e));
            if (x.ref != std::numeric_limits<dd::RefCount>::max()) {
                ++x.ref;
            }
        }
        void dec(const std::size_t i) {
            mc::op();
            auto& x = live[i];
            MC_NOTE("decRef " << std::hexfloat << x.v << " with " << x.ref << " references");
            bool thrown = false;
            try {
                T::decRef(i % 2 == 0 ? x.e : E::getNegativePointer(x.e));
            } catch (const std::runtime_error&) {
                thrown = true;
            }
            MC_CHECK(thrown == (x.ref == 0), "releasing a number with " << x.ref << " references " << (thrown ? "raised" : "did not raise") << " an error");
            if (x.ref != 0 && x.ref != std::numeric_limits<dd::RefCount>::max()) {
                --x.ref;
            }
        }
        void saturate(const std::size_t i) {
            live[i].ref = live[i].e->refCount = std::numeric_limits<dd::RefCount>::max();
        }
        void gc(const bool force) {
            mc::op();
            const bool        due  = force || t.possiblyNeedsCollection();
            const std::size_t n    = live.size();
            const auto        got  = t.garbageCollect(force);
            std::size_t       dead = 0;
            for (const auto& x: live) {
                dead += x.ref == 0 ? 1U : 0U;
            }
            MC_NOTE("garbageCollect(" << force << ") -> " << got);
            if (!due) {
                MC_CHECK(got == 0, "a collection that is not due removed " << got << " numbers");
                return;
            }
            if (n <= 1 && got == 0) {
                return; // documented: nothing to be done for a minimal table
            }
            MC_CHECK(got == dead, "the collection reports " << got << " removed numbers, " << dead << " of " << n << " are unreferenced");
            live.erase(std::remove_if(live.begin(), live.end(), [](const Num& x) { return x.ref == 0; }), live.end());
        }
        void clear() {
            mc::op();
            t.clear();
            live.clear();
            MC_NOTE("clear");
            read(0.5);
        }
        void check() {
            std::size_t   n = 0;
            std::uint64_t h = 0;
            for (const auto* b: t.getTable()) {
                for (const auto* e = b; e != nullptr; e = e->next) {
                    ++n;
                    MC_CHECK(n <= live.size(), "the table holds more numbers than it should");
                    bool found = false;
                    for (const auto& x: live) {
                        if (x.e == e) {
                            MC_CHECK(e->value == x.v, "the stored number " << std::hexfloat << x.v << " turned into " << e->value);
                            MC_CHECK(e->refCount == x.ref, "the number " << x.v << " has " << e->refCount << " references instead of " << x.ref);
                            found = true;
                            h += mc::mix(static_cast<std::uint64_t>(e->refCount) + 7, std::hash<double>{}(e->value));
                        }
                    }
                    MC_CHECK(found, "the table holds " << e->value << ", which was not inserted or has been collected");
                }
            }
            mc::state(h);
            MC_CHECK(n == live.size(), "the table holds " << n << " of " << live.size() << " numbers");
            MC_CHECK(t.getCount() == n, "the table holds " << n << " numbers and reports " << t.getCount());
            MC_CHECK(t.getPeakCount() >= n, "peak count " << t.getPeakCount() << " with " << n << " numbers stored");
            MC_CHECK(t.getAllocations() >= n, n << " numbers stored in " << t.getAllocations() << " allocated entries");
            MC_CHECK(T::zero.value == 0 && T::one.value == 1 && T::sqrt2_2.value == dd::SQRT2_2 && T::zero.refCount == 1 && T::one.refCount == 1 && T::sqrt2_2.refCount == 1, "a permanent entry was changed");
            MC_CHECK(T::zero.next == nullptr && T::one.next == nullptr && T::sqrt2_2.next == nullptr, "a permanent entry was chained");
        }
        // everything that is stored is found again at its place
        void findAll() {
            const auto copy = live;
            for (const auto& x: copy) {
                MC_CHECK(lookup(x.v) == x.e, "looking up the stored value " << std::hexfloat << x.v << " returned another entry");
            }
            check();
        }
    };
    constexpr fp TOL = std::numeric_limits<fp>::epsilon() * 1024;
    // all offsets in multiples of the tolerance; neighbours are within or beyond one tolerance of each other
    const std::vector<fp>& offsets() {
        static const std::vector<fp> o{-2.2, -1.1, -0.5, 0, 0.5, 1.1, 2.2};
        return o;
    }
    template<class F>
    void withTable(unsigned c, F&& f) {
        switch (c) {
            case 0: f(static_cast<dd::ComplexTable<1, 1, 2, 2>*>(nullptr)); break;
            case 1: f(static_cast<dd::ComplexTable<2, 1, 2, 4>*>(nullptr)); break;
            case 2: f(static_cast<dd::ComplexTable<17, 2, 1, 3>*>(nullptr)); break;
            default: f(static_cast<dd::ComplexTable<257, 3, 3, 1000>*>(nullptr)); break;
        }
    }
    // values whose neighbourhood matters: bucket borders, the permanent entries, ordinary and clipped values
    template<class T>
    std::vector<fp> centres(fp tol) {
        std::vector<fp> r{0.3, 0.5, 1 + 0.9 * tol, dd::SQRT2_2 - 0.9 * tol, 1.9 * tol, 1 - 1.3 * tol, dd::SQRT2_2 + 1.2 * tol, 2.5};
        const auto      m = static_cast<fp>(T::MASK);
        for (const fp k: {0., 1., 6., 7., m - 2, m - 1}) {
            if (k >= 0 && k < m) {
                r.push_back((k + 0.5) / m);
            }
        }
        return r;
    }
    const unsigned NTAB = 4;

    void sequences(unsigned depth, unsigned nCentre) {
        const unsigned len = 1 + mc::choose(depth, "length-1");
        const unsigned c   = mc::choose(NTAB, "table");
        const fp       tol = mc::choose(2, "tolerance") == 0 ? TOL : 1e-4;
        withTable(c, [&](auto* ty) {
            using T      = std::remove_pointer_t<decltype(ty)>;
            const auto z = centres<T>(tol);
            const fp   B = z[mc::choose(std::min<unsigned>(nCentre, static_cast<unsigned>(z.size())), "centre")];
            Model<T>   m(tol);
            const auto nOff = static_cast<unsigned>(offsets().size());
            for (unsigned d = 0; d < len; ++d) {
                const unsigned o = mc::choose(nOff + 2 + 3 + 2 + 1, "op");
                if (o < nOff) {
                    m.lookup(std::max(0., B + offsets()[o] * tol));
                } else if (o < nOff + 2) {
                    m.gc(o == nOff);
                } else if (o < nOff + 7) {
                    // the most recently stored entries
                    const unsigned k = (o - nOff - 2) % 3;
                    if (k >= m.live.size()) {
                        mc::prune();
                    }
                    const auto i = m.live.size() - 1 - k;
                    if (m.live[i].v == 0.5 && m.live[i].ref == 1 && o >= nOff + 5) {
                        mc::prune(); // the reference held by the table itself is not the user's to release
                    }
                    if (o < nOff + 5) {
                        m.inc(i);
                    } else {
                        m.dec(i);
                    }
                } else {
                    if (m.live.size() < 2) {
                        mc::prune();
                    }
                    m.saturate(m.live.size() - 1);
                }
            }
            m.check();
            m.findAll();
        });
    }
    // fill one neighbourhood in every order, keep every subset, collect, and use the table again
    void chains(unsigned rounds) {
        static const std::vector<std::vector<fp>> sets{{-4, -2.5, -0.6, 0.6, 2.5, 4}, {-1.2, 0, 1.2, 2.4, 3.6, 30}, {-3.6, -2.4, -1.2, 0, 1.2, -30}};
        const unsigned                            c     = mc::choose(NTAB, "table");
        const auto&                               s     = mc::pick(sets, "set");
        const unsigned                            perm  = mc::choose(120, "order");
        const unsigned                            keep0 = mc::choose(32, "kept");
        withTable(c, [&](auto* ty) {
            using T = std::remove_pointer_t<decltype(ty)>;
            for (const fp B: centres<T>(TOL)) {
                Model<T>              m(TOL);
                std::vector<unsigned> idx{0, 1, 2, 3, 4};
                unsigned              code = perm;
                std::vector<fp>       vals;
                for (unsigned k = 5; k > 0; --k) {
                    vals.push_back(std::max(0., B + s[idx[code % k]] * TOL));
                    idx.erase(idx.begin() + code % k);
                    code /= k;
                }
                unsigned keep = keep0;
                for (unsigned r = 0; r < rounds; ++r) {
                    for (std::size_t i = 0; i < vals.size(); ++i) {
                        auto* e = m.lookup(vals[i]);
                        if ((keep >> i & 1U) != 0) {
                            for (std::size_t j = 0; j < m.live.size(); ++j) {
                                if (m.live[j].e == e) {
                                    m.inc(j);
                                }
                            }
                        }
                    }
                    m.check();
                    m.gc(true);
                    m.check();
                    for (const fp o: s) {
                        m.lookup(std::max(0., B + (o + 0.4) * TOL));
                    }
                    m.findAll();
                    // release what was kept for the next round, which keeps other ones
                    for (std::size_t j = 0; j < m.live.size(); ++j) {
                        while (m.live[j].ref > (m.live[j].v == 0.5 ? 1U : 0U)) {
                            m.dec(j);
                        }
                    }
                    m.gc(r % 2 == 0);
                    m.check();
                    keep = (keep * 7 + 11) % 32;
                    std::rotate(vals.begin(), vals.begin() + 2, vals.end());
                }
                if (keep0 % 4 == 1) {
                    m.clear();
                    m.check();
                    for (const auto v: vals) {
                        m.lookup(v);
                    }
                    m.gc(true);
                    m.findAll();
                }
            }
        });
    }
    using Default = dd::ComplexTable<>;
    std::vector<fp> special() {
        std::vector<fp> r;
        const auto      mask = static_cast<fp>(Default::MASK);
        for (const fp b: {0.5 / mask, 1.5 / mask, 2.5 / mask, 8191.5 / mask, 32767.5 / mask, 32768.5 / mask, (mask - 1.5) / mask, (mask - 0.5) / mask, 0.5, 0.3, 1., dd::SQRT2_2, 0., 2., 1000.5}) {
            for (const fp o: {-1.4, -0.8, -0.3, 0., 0.3, 0.8, 1.4}) {
                if (b + o * TOL >= 0) {
                    r.push_back(b + o * TOL);
                }
            }
        }
        for (const fp v: {1e6, 1e6 + 1e-6, 1e18, 3e18, 1e19, 1e100, 1e308, 4 * TOL, 1e-9, 1e-6, 0.25, 0.75, 1. / 3, 140737488355327., 140737488355329.}) {
            r.push_back(v);
        }
        return r;
    }
    // every ordered pair of special values in the default table
    void pairs() {
        const auto     s = special();
        const fp       x = s[mc::choose(static_cast<unsigned>(s.size()), "first")];
        Model<Default> m(TOL);
        for (const fp y: s) {
            mc::alive();
            auto* a = m.lookup(x);
            auto* b = m.lookup(y);
            auto* again = m.lookup(x); // a value stored in between may be closer than the first answer, but not closer than x itself
            MC_CHECK(again == a || a->value != x, "looking up " << std::hexfloat << x << " again after " << y << " gave another entry");
            if (std::abs(x - y) > 2 * TOL) {
                MC_CHECK(a != b, "the different numbers " << x << " and " << y << " share an entry");
            }
            m.check();
            m.gc(true);
            MC_CHECK(m.live.size() <= 1, "harness error");
        }
        // with everything stored at once
        for (const fp y: s) {
            m.lookup(y);
        }
        m.check();
        m.findAll();
    }
    // every sequence of four lookups around each special place of the default table
    void groups(unsigned depth) {
        const auto      mask = static_cast<fp>(Default::MASK);
        std::vector<fp> c{0.5 / mask, 1.5 / mask, 32767.5 / mask, (mask - 0.5) / mask, 0.5, 0.3, 1. + 1.2 * TOL, dd::SQRT2_2 + 1.2 * TOL, 1. - 1.2 * TOL, dd::SQRT2_2 - 1.2 * TOL, 2., 1.9 * TOL};
        const fp        B = mc::pick(c, "centre");
        const auto      n = static_cast<unsigned>(offsets().size());
        const unsigned  a = mc::choose(n, "first");
        Model<Default>  m(TOL);
        std::size_t     k = 1;
        for (unsigned i = 1; i < depth; ++i) {
            k *= n;
        }
        for (std::size_t code = 0; code < k; ++code) {
            mc::alive();
            m.lookup(std::max(0., B + offsets()[a] * TOL));
            auto q = code;
            for (unsigned i = 1; i < depth; ++i) {
                m.lookup(std::max(0., B + offsets()[q % n] * TOL));
                q /= n;
            }
            m.check();
            m.gc(true);
        }
    }
    // collection limit: collection without force happens exactly when the table says so, and the initial limit is the configured one
    void limits() {
        const unsigned c    = mc::choose(NTAB - 1, "table");
        const unsigned kept = mc::choose(8, "kept pattern");
        const unsigned when = 1 + mc::choose(6, "collect every");
        const bool     cl   = mc::choose(2, "after clear") == 1;
        withTable(c, [&](auto* ty) {
            using T = std::remove_pointer_t<decltype(ty)>;
            Model<T>          m(TOL);
            const std::size_t limit = c == 0 ? 2 : c == 1 ? 4 : 3;
            if (cl) {
                m.lookup(0.3);
                m.clear();
            }
            bool first = true;
            for (unsigned i = 0; i < 40; ++i) {
                auto* e = m.lookup(0.01 + 0.0173 * i);
                if (first) {
                    MC_CHECK(m.t.possiblyNeedsCollection() == (m.live.size() >= limit), "with " << m.live.size() << " numbers the table " << (m.t.possiblyNeedsCollection() ? "needs" : "needs no") << " collection; the limit is " << limit);
                }
                if ((kept >> (i % 3) & 1U) != 0 && m.live.back().e == e) {
                    m.inc(m.live.size() - 1);
                }
                if (i % when == when - 1) {
                    const bool due = m.t.possiblyNeedsCollection();
                    m.gc(false);
                    first = first && !due;
                    m.check();
                }
            }
            m.findAll();
        });
    }
    // entries handed out directly are distinct, fresh and reused
    void entries(unsigned depth) {
        const unsigned c = mc::choose(NTAB, "table");
        withTable(c, [&](auto* ty) {
            using T = std::remove_pointer_t<decltype(ty)>;
            Model<T>                              m(TOL);
            std::vector<typename T::Entry*>       out;
            for (unsigned d = 0; d < depth; ++d) {
                switch (mc::choose(5, "op")) {
                    case 0: {
                        const auto allocs = m.t.getAllocations();
                        auto*      e      = m.t.getEntry();
                        mc::op();
                        MC_CHECK(e != nullptr && e->refCount == 0, "a new entry has " << e->refCount << " references");
                        for (auto* x: out) {
                            MC_CHECK(x != e, "an entry was handed out twice");
                        }
                        for (const auto& x: m.live) {
                            MC_CHECK(x.e != e, "a stored entry was handed out");
                        }
                        MC_CHECK(m.t.getAllocations() == allocs || out.size() + m.live.size() >= allocs, "memory was allocated although entries were free");
                        out.push_back(e);
                        e->value    = 77;
                        e->refCount = 5;
                        break;
                    }
                    case 1:
                        if (out.empty()) {
                            mc::prune();
                        }
                        m.t.returnEntry(out.front());
                        out.erase(out.begin());
                        MC_CHECK(!m.t.availableEmpty(), "a returned entry is not available");
                        break;
                    case 2:
                        if (out.size() < 2) {
                            mc::prune();
                        }
                        m.t.returnEntry(out.back());
                        out.pop_back();
                        break;
                    case 3: m.spare = out.size(); m.lookup(0.1 + 0.03 * d); break;
                    default: m.gc(true); break;
                }
            }
            for (auto* x: out) {
                MC_CHECK(x->value == 77 && x->refCount == 5, "an entry in use was changed");
            }
            m.check();
            m.spare = out.size();
            m.findAll();
        });
    }
    // many numbers at once: growth of the memory, long chains, bulk collection
    void many() {
        const unsigned order = mc::choose(4, "order");
        const unsigned keep  = mc::choose(5, "keep every");
        const unsigned n     = mc::thorough() ? 40000 : 6000;
        auto           run   = [&](auto* ty) {
            using T = std::remove_pointer_t<decltype(ty)>;
            T::setTolerance(TOL);
            auto                                  t = std::make_unique<T>();
            std::map<fp, typename T::Entry*>      in;
            for (unsigned round = 0; round < 3; ++round) {
                std::vector<fp> v;
                for (unsigned i = 0; i < n; ++i) {
                    const unsigned j = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7919U) % n : (i % 2 == 0 ? i / 2 : n - 1 - i / 2);
                    v.push_back(round == 1 ? 1e-5 + j * 3e-9 : 0.0001 + j * 0.00017);
                }
                for (const fp x: v) {
                    auto* e = t->lookup(x);
                    mc::op();
                    MC_CHECK(std::abs(e->value - x) <= TOL, "looking up " << x << " returned " << e->value);
                    if (e != &T::zero && e != &T::one && e != &T::sqrt2_2 && std::abs(x - 0.5) > TOL) {
                        const auto it = in.find(x);
                        MC_CHECK(it == in.end() || it->second == e, "the stored number " << x << " was stored again");
                        in[x] = e;
                    }
                }
                mc::alive();
                MC_CHECK(t->getCount() == in.size() + 1, "the table holds " << in.size() + 1 << " numbers and reports " << t->getCount());
                unsigned k = 0;
                for (auto it = in.begin(); it != in.end();) {
                    if (it->second->refCount == 0 && keep != 0 && k++ % keep == 0) {
                        T::incRef(it->second);
                    }
                    it = it->second->refCount == 0 ? in.erase(it) : std::next(it);
                }
                t->garbageCollect(true);
                MC_CHECK(t->getCount() == in.size() + 1, "after the collection the table holds " << in.size() + 1 << " numbers and reports " << t->getCount());
                std::set<const void*> seen;
                for (const auto* b: t->getTable()) {
                    for (const auto* e = b; e != nullptr; e = e->next) {
                        seen.insert(e);
                        MC_CHECK(seen.size() <= in.size() + 1, "collected numbers are still stored");
                    }
                }
                for (const auto& [x, e]: in) {
                    MC_CHECK(seen.count(e) == 1 && e->value == x, "the referenced number " << x << " was collected or changed");
                    MC_CHECK(t->lookup(x) == e, "the referenced number " << x << " is not found");
                }
                mc::alive();
            }
        };
        if (mc::choose(2, "table") == 0) {
            run(static_cast<Default*>(nullptr));
        } else {
            run(static_cast<dd::ComplexTable<33, 1, 2, 50>*>(nullptr));
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C20", argc, argv,
                   {{"sequences", 6, false, [] { sequences(mc::thorough() ? 5 : 4, 14); }},
                    {"deep-sequences", 6, false, [] { sequences(mc::thorough() ? 6 : 5, mc::thorough() ? 4 : 2); }},
                    {"chains", 4, false, [] { chains(mc::thorough() ? 8 : 3); }},
                    {"pairs", 1, false, pairs},
                    {"groups", 2, false, [] { groups(mc::thorough() ? 5 : 4); }},
                    {"limits", 4, false, limits},
                    {"entries", 4, false, [] { entries(mc::thorough() ? 9 : 7); }},
                    {"many", 3, false, many}},
                   {"all sequences of up to 4 (thorough 5; 5 around two and 6 around four centres) lookups of 7 values spaced around a bucket border, a permanent entry or an ordinary value, reference changes, saturations and collections in tables of 1, 2, 17 and 257 buckets with two tolerances; all orders of 5 neighbours x all kept subsets x 3 (8) rounds of collection and reuse; all ordered pairs of 120 special values and all sequences of 4 (5) lookups around 12 places in the default table; collection limits; all sequences of 7 (9) direct entry requests; three rounds of 6000 (40000) numbers",
                    {"the tolerance is smaller than half a bucket"}});
}
