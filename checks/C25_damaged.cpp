// C25: damaged serialized input is rejected, never misread or fatal.
#include "ddx.hpp"
#include "dd/Export.hpp"

#include <sys/stat.h>
#include <unistd.h>
using namespace ddx;
namespace {
    template<class E>
    using NodeOf = std::remove_pointer_t<decltype(E{}.p)>;
    template<class E>
    std::string put(const E& e, bool bin) {
        std::ostringstream os;
        dd::serialize(e, os, bin);
        return os.str();
    }
    constexpr unsigned NV = 6, NM = 5;
    template<class P>
    dd::vEdge state(P& p, unsigned k) {
        switch (k) {
            case 0: return p.makeStateFromVector({{0.6, 0}, {0, -0.8}});
            case 1: return p.makeStateFromVector(cvec(vecPat(2, 6)));
            case 2: return p.makeStateFromVector(cvec(vecPat(3, 4)));
            case 3: return p.makeStateFromVector(cvec(vecPat(3, 7)));
            case 4: return p.makeStateFromVector(cvec(vecPat(3, 11)));
            default: return dd::vEdge::terminal(p.cn.lookup(0.5, -1.5));
        }
    }
    template<class P>
    dd::mEdge matrix(P& p, unsigned k) {
        switch (k) {
            case 0: return p.makeDDFromMatrix(cmat(m2(1, C{0, 2}, 0, -0.5)));
            case 1: return p.makeDDFromMatrix(cmat(matPat(2, 1)));
            case 2: return p.makeGateDD(dd::Hmat, 3, dd::Control{0}, 2);
            case 3: return p.makeDDFromMatrix(cmat(matPat(2, 14)));
            default: return dd::mEdge::terminal(p.cn.lookup(-2, 0));
        }
    }
    // a diagram is well formed: levels descend one by one to the terminal, all below the size of the package
    template<class E>
    void wellFormed(const E& e, std::size_t nq) {
        MC_CHECK(e.p != nullptr, "the result has no node");
        if (e.isTerminal()) {
            (void)val(e.w);
            return;
        }
        MC_CHECK(e.p->v >= 0 && static_cast<std::size_t>(e.p->v) < nq, "the result has a node for qubit " << static_cast<int>(e.p->v) << " in a package of " << nq);
        MC_CHECK(val(e.w) != (C{0, 0}), "the result has a node below weight zero");
        // the lowest qubit: follow non-zero edges
        auto c    = e;
        int  base = e.p->v;
        while (!c.isTerminal()) {
            base      = c.p->v;
            bool down = false;
            for (const auto& s: c.p->e) {
                MC_CHECK(s.p != nullptr, "a node has a null successor");
                if (!down && val(s.w) != C{0, 0}) {
                    c    = s;
                    down = true;
                }
            }
            MC_CHECK(down, "a node without non-zero successors");
        }
        const int n = e.p->v - base + 1;
        if constexpr (std::is_same_v<E, dd::vEdge>) {
            mc::state(ref::hash(vec(e, n, base)));
        } else {
            mc::state(ref::hash(mat(e, n, base).a));
        }
    }
    // reads damaged data; afterwards the package must be as good as before
    struct Victim {
        using P = Pkg<Tiny>;
        std::size_t        nq;
        std::unique_ptr<P> p;
        dd::vEdge          v;
        dd::mEdge          m;
        V                  dv;
        M                  dm;
        std::string        goodV, goodM;
        explicit Victim(std::size_t n):
            nq(n), p(std::make_unique<P>(n)) {
            const int k = std::min<int>(static_cast<int>(n), 2);
            dv          = vecPat(k, 13);
            dm          = matPat(k, 8);
            v           = p->makeStateFromVector(cvec(dv));
            m           = p->makeDDFromMatrix(cmat(dm));
            p->incRef(v);
            p->incRef(m);
            goodV = put(v, true);
            goodM = put(m, true);
        }
        template<class E>
        bool read(const std::string& data, bool bin, const std::string& what) {
            bool thrown = false;
            {
                NoLeak<P> nl(*p);
                try {
                    std::istringstream is(data);
                    const auto         e = p->template deserialize<NodeOf<E>>(is, bin);
                    wellFormed(e, nq);
                } catch (const std::exception&) {
                    thrown = true;
                }
                mc::op();
                nl.check("reading damaged data (" + what + ")");
            }
            return thrown;
        }
        void usable(bool full) {
            const int          k = std::min<int>(static_cast<int>(nq), 2);
            std::istringstream iv(goodV), im(goodM);
            MC_CHECK(p->deserialize<dd::vNode>(iv, true) == v, "good data are no longer read correctly");
            MC_CHECK(p->deserialize<dd::mNode>(im, true) == m, "good data are no longer read correctly");
            if (full) {
                expect(vec(v, k), dv, "another state in the package");
                expect(mat(m, k), dm, "another matrix in the package");
                p->garbageCollect(true);
                expect(vec(v, k), dv, "another state in the package after a collection");
                expect(mat(m, k), dm, "another matrix in the package after a collection");
                expect(vec(p->multiply(m, v), k), ref::mul(dm, dv), "product after reading damaged data");
                p->garbageCollect(true);
                MC_CHECK(p->vUniqueTable.getNodeCount() == p->vUniqueTable.getActiveNodeCount(), "nodes of damaged data cannot be collected");
                MC_CHECK(p->mUniqueTable.getNodeCount() == p->mUniqueTable.getActiveNodeCount(), "nodes of damaged data cannot be collected");
            }
        }
    };
    struct Subject {
        bool        isState = true;
        std::string data;
        int         n = 0; // qubits
    };
    Subject subject(bool bin, unsigned k) {
        auto    p = std::make_unique<Pkg<Mid>>(3);
        Subject s;
        s.isState = k < NV;
        if (s.isState) {
            const auto e = state(*p, k);
            s.n          = e.isTerminal() ? 0 : e.p->v + 1;
            s.data       = put(e, bin);
        } else {
            const auto e = matrix(*p, k - NV);
            s.n          = e.isTerminal() ? 0 : e.p->v + 1;
            s.data       = put(e, bin);
        }
        return s;
    }
    bool readAs(Victim& v, bool isState, const std::string& d, bool bin, const std::string& what) {
        return isState ? v.read<dd::vEdge>(d, bin, what) : v.read<dd::mEdge>(d, bin, what);
    }
    // every truncation point, in packages of the right size, larger and too small ones
    void truncation() {
        const unsigned k    = mc::choose(NV + NM, "diagram");
        const bool     bin  = mc::choose(2, "binary") == 1;
        const unsigned size = mc::choose(3, "package size");
        const auto     s    = subject(bin, k);
        const int      nq   = size == 0 ? std::max(s.n, 1) : (size == 1 ? s.n + 2 : s.n - 1);
        if (nq < 1) {
            return;
        }
        const unsigned part = mc::choose(4, "part");
        Victim         v(static_cast<std::size_t>(nq));
        for (std::size_t l = part; l <= s.data.size(); l += 4) {
            const auto d      = s.data.substr(0, l);
            const bool thrown = readAs(v, s.isState, d, bin, "cut to " + std::to_string(l) + " bytes");
            if (l == s.data.size()) {
                MC_CHECK(thrown == (size == 2), "complete data: " << (thrown ? "rejected" : "accepted although the package is too small"));
            }
            if (bin) { // binary data say how long they are: only whole records are complete
                const std::size_t rec   = 9 + (s.isState ? 2 : 4) * 24;
                const bool        whole = l >= 24 && (l - 24) % rec == 0;
                MC_CHECK(whole || thrown, "binary data cut to " << l << " bytes, in the middle of a record, are accepted");
            } else if (l < 3) {
                MC_CHECK(thrown, "text cut to " << l << " bytes is accepted");
            }
            v.usable(l % 16 == part);
            mc::alive();
        }
    }
    std::vector<std::string> tokens(const std::string& s) {
        std::vector<std::string> r;
        for (std::size_t i = 0; i < s.size();) {
            std::size_t j = i + 1;
            if (isdigit(static_cast<unsigned char>(s[i])) != 0) {
                while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) != 0 || s[j] == '.' || s[j] == 'e')) {
                    ++j;
                }
            }
            r.push_back(s.substr(i, j - i));
            i = j;
        }
        return r;
    }
    // every token of the text replaced, deleted, doubled or exchanged with its neighbour
    void textTokens() {
        static const char* const R[] = {"", "0", "1", "2", "3", "7", "-1", "-2", "-3", "127", "128", "255", "300", "99999999999", "x", "(", ")", " ", "\n", "1e5", "0.5", ".", "i", "#", "()", "(-1 1)", "(1 1)"};
        constexpr unsigned       NR  = sizeof(R) / sizeof(R[0]);
        const unsigned           k   = mc::choose(NV + NM, "diagram");
        const auto               s   = subject(false, k);
        const auto               t   = tokens(s.data);
        const unsigned           at  = mc::choose(static_cast<unsigned>(t.size()), "token");
        Victim                   v(static_cast<std::size_t>(std::max(s.n, 1) + at % 2));
        const auto               join = [](const std::vector<std::string>& x) {
            std::string r;
            for (const auto& y: x) {
                r += y;
            }
            return r;
        };
        for (unsigned r = 0; r < NR + 2; ++r) {
            if (!mc::thorough() && r < NR && (r + at) % 3 == 1 && r > 10) {
                continue;
            }
            auto u = t;
            if (r < NR) {
                u[at] = R[r];
            } else if (r == NR) {
                u[at] += u[at];
            } else if (at + 1 < u.size()) {
                std::swap(u[at], u[at + 1]);
            }
            const auto d      = join(u);
            const bool thrown = readAs(v, s.isState, d, false, "token " + std::to_string(at) + " replaced by '" + (r < NR ? R[r] : "...") + "'");
            if (at == 0 && r < NR && std::string(R[r]) != "1") {
                const std::string first = R[r];
                const bool        still = first == "()" || first.rfind("(", 0) == 0 || first == "x" || first == "" || first == " " || first == "\n";
                MC_CHECK(thrown || still, "text with version '" << R[r] << "' is accepted");
            }
            v.usable(r % 8 == 0);
            mc::alive();
        }
    }
    // every line deleted, doubled, exchanged with the next; every node or qubit index in a line replaced so that it is invalid
    void textLines() {
        const unsigned           k = mc::choose(NV + NM, "diagram");
        const auto               s = subject(false, k);
        std::vector<std::string> lines;
        std::istringstream       is(s.data);
        for (std::string l; std::getline(is, l);) {
            lines.push_back(l);
        }
        const unsigned at = mc::choose(static_cast<unsigned>(lines.size()), "line");
        const unsigned op = mc::choose(4, "change");
        Victim         v(static_cast<std::size_t>(std::max(s.n, 1)));
        auto           u = lines;
        if (op == 0) {
            u.erase(u.begin() + at);
        } else if (op == 1) {
            u.insert(u.begin() + at, u[at]);
        } else if (op == 2 && at + 1 < u.size()) {
            std::swap(u[at], u[at + 1]);
        } else if (op == 3) {
            std::rotate(u.begin() + at, u.begin() + at + 1, u.end());
        }
        std::string d;
        for (const auto& l: u) {
            d += l + "\n";
        }
        const bool thrown = readAs(v, s.isState, d, false, "lines rearranged");
        if (at == 0 && op == 0 && lines.size() > 1 && lines[1].rfind("1", 0) != 0) {
            MC_CHECK(thrown, "text without a version line is accepted");
        }
        v.usable(true);
    }
    // consequences that must be noticed: data of the right shape whose references, qubits or version are wrong
    void mustReject() {
        const bool     isState = mc::choose(2, "state") == 1;
        const bool     bin     = mc::choose(2, "binary") == 1;
        const unsigned what    = mc::choose(6, "damage");
        const unsigned nq      = 1 + mc::choose(3, "qubits-1");
        const unsigned vals[]  = {nq, nq + 1, 63, 127, 128, 200, 255, 256 + nq - 1};
        const unsigned which   = mc::choose(8, "value");
        Victim         v(nq);
        const unsigned N = isState ? 2 : 4;
        // a chain of nodes 0..nq-1; `bad` selects what is wrong with the last but one or last of them
        std::string d;
        const auto  put64 = [&](std::int64_t x) { d.append(reinterpret_cast<const char*>(&x), 8); };
        const auto  putD  = [&](double x) { d.append(reinterpret_cast<const char*>(&x), 8); };
        const auto  at    = what == 5 ? 0 : nq - 1;
        const std::uint64_t version = what == 0 ? (which == 1 ? 2 : (which == 0 ? 0 : (1ULL << (8 * which)) + (which % 2))) : 1;
        if (bin) {
            d.append(reinterpret_cast<const char*>(&version), 8);
            putD(1);
            putD(0);
        } else {
            d = std::to_string(version) + "\n1\n";
        }
        for (unsigned k = 0; k < nq; ++k) {
            std::int64_t idx = k, q = k, child = static_cast<std::int64_t>(k) - 1;
            if (what == 1 && k == at) { // undefined node, in the future
                child = vals[which];
            } else if (what == 2 && k == at) { // undefined node, negative
                child = -3 - static_cast<std::int64_t>(which);
            } else if (what == 3 && k == at) { // qubit outside the package
                q = vals[which];
                if (bin && q > 255) {
                    return;
                }
            } else if (what == 4 && k == at) { // node that refers to itself
                child = idx;
            } else if (what == 5 && k == at) { // a lower level than required
                if (nq < 2 || which > 0) {
                    return;
                }
                q = 1; // two nodes of qubit 1 on top of each other
            }
            const unsigned slot = (which + k) % N;
            if (bin) {
                put64(idx);
                d.push_back(static_cast<char>(q));
                for (unsigned i = 0; i < N; ++i) {
                    put64(i == slot ? child : -1);
                    putD(i == slot ? 1 : 0);
                    putD(0);
                }
            } else {
                d += std::to_string(idx) + " " + std::to_string(q);
                for (unsigned i = 0; i < N; ++i) {
                    d += i == slot ? " (" + std::to_string(child) + " 1)" : std::string(" ()");
                }
                d += "\n";
            }
        }
        if (what == 2 && !bin && false) {
            return;
        }
        const bool thrown = readAs(v, isState, d, bin, "wrong reference, qubit or version");
        MC_CHECK(thrown, (bin ? std::string("binary data") : "text\n" + d) << " with " << (what == 0 ? "a wrong version" : what == 1 || what == 2 || what == 4 ? "a reference to an undefined node" : what == 3 ? "a qubit outside the package" : "nodes of one qubit on top of each other") << " accepted");
        v.usable(true);
    }
    // every structural field of the binary form replaced; every bit of the version; weights replaced by other finite numbers
    void binaryFields() {
        const unsigned k = mc::choose(NV + NM, "diagram");
        const auto     s = subject(true, k);
        // fields: version, root (2), per record: index, qubit, N x (child, 2 weights)
        struct Field {
            std::size_t off;
            int         kind; // 0 version 1 weight 2 index 3 qubit 4 child
        };
        std::vector<Field> f{{0, 0}, {8, 1}, {16, 1}};
        const unsigned     N = s.isState ? 2 : 4;
        for (std::size_t o = 24; o < s.data.size();) {
            f.push_back({o, 2});
            f.push_back({o + 8, 3});
            o += 9;
            for (unsigned i = 0; i < N; ++i, o += 24) {
                f.push_back({o, 4});
                f.push_back({o + 8, 1});
                f.push_back({o + 16, 1});
            }
        }
        const auto& x = f[mc::choose(static_cast<unsigned>(f.size()), "field")];
        Victim      v(static_cast<std::size_t>(std::max(s.n, 1)));
        const auto  go = [&](const void* value, std::size_t len, bool must) {
            auto d = s.data;
            memcpy(&d[x.off], value, len);
            const bool thrown = readAs(v, s.isState, d, true, "field at byte " + std::to_string(x.off) + " replaced");
            MC_CHECK(!must || thrown || d == s.data, "binary data with a wrong version are accepted");
            v.usable(false);
        };
        if (x.kind == 0) {
            for (unsigned b = 0; b < 64; ++b) {
                std::uint64_t val = 1ULL ^ (1ULL << b);
                go(&val, 8, true);
            }
        } else if (x.kind == 1) {
            for (const double val: {0., 1., -1., 0.5, 1e-20, -1e-9, 1e5, -1e100, 3e-13}) {
                go(&val, 8, false);
            }
        } else if (x.kind == 3) {
            for (unsigned b = 0; b < 256; ++b) {
                const auto val = static_cast<unsigned char>(b);
                go(&val, 1, false);
            }
        } else {
            for (const std::int64_t val: {0LL, 1LL, 2LL, 3LL, 4LL, 5LL, 6LL, 7LL, 8LL, 100LL, -1LL, -2LL, -3LL, -100LL, 1LL << 31, 1LL << 32, 1LL << 62, std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max()}) {
                go(&val, 8, false);
            }
        }
        v.usable(true);
    }
    // the other kind of diagram (text), the other format, files that cannot be read
    void kinds() {
        const unsigned k = mc::choose(NV + NM, "diagram");
        const bool     b = mc::choose(2, "binary") == 1;
        const auto     s = subject(b, k);
        Victim         v(3);
        if (!b) {
            const bool thrown = readAs(v, !s.isState, s.data, false, "data of the other kind");
            MC_CHECK(thrown || s.n == 0, "text of a " << (s.isState ? "state" : "matrix") << " is read as the other kind");
        }
        MC_CHECK(readAs(v, s.isState, s.data, !b, "data in the other format"), "data in the other format are accepted");
        v.usable(true);
        const char*       t = getenv("TMPDIR");
        const std::string d = std::string(t != nullptr ? t : "/tmp") + "/c25." + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
        const std::string file = d + "/x.dd";
        const auto        readFile = [&](const std::string& name) {
            try {
                if (s.isState) {
                    (void)v.p->deserialize<dd::vNode>(name, b);
                } else {
                    (void)v.p->deserialize<dd::mNode>(name, b);
                }
            } catch (const std::exception&) {
                return true;
            }
            return false;
        };
        const bool missing = readFile(file), dir = readFile(d);
        {
            std::ofstream o(file);
        }
        const bool empty = readFile(file);
        {
            std::ofstream o(file, std::ios::binary);
            o << s.data;
        }
        const bool good = readFile(file);
        unlink(file.c_str());
        rmdir(d.c_str());
        MC_CHECK(missing && dir && empty && !good, "files: missing " << missing << ", directory " << dir << ", empty " << empty << " must be rejected, a good one (" << good << ") not");
        v.usable(true);
    }
    // two faults in a row, in every order, then good data
    void repeated() {
        const bool     b = mc::choose(2, "binary") == 1;
        const unsigned k = mc::choose(NV + NM, "diagram");
        const auto     s = subject(b, k);
        Victim         v(static_cast<std::size_t>(std::max(s.n, 1)));
        const unsigned n = mc::choose(8, "first");
        const unsigned m = mc::choose(8, "second");
        for (const unsigned c: {n, m}) {
            auto d = s.data;
            if (c < 4) {
                d = d.substr(0, d.size() * (c + 1) / 5);
            } else {
                d[d.size() * (c - 3) / 5] ^= b ? 0x04 : 0x11;
            }
            readAs(v, s.isState, d, b, "repeated damage");
        }
        // the undamaged data are read and give the right object
        std::istringstream is(s.data);
        auto               q = std::make_unique<Pkg<Mid>>(3);
        if (s.isState) {
            const auto e = state(*q, k);
            expect(vec(v.p->deserialize<dd::vNode>(is, b), s.n), vec(e, s.n), "undamaged data after damaged ones");
        } else {
            const auto e = matrix(*q, k - NV);
            expect(mat(v.p->deserialize<dd::mNode>(is, b), s.n), mat(e, s.n), "undamaged data after damaged ones");
        }
        v.usable(true);
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C25", argc, argv,
                   {{"every-truncation", 3, false, truncation},
                    {"every-text-token", 2, false, textTokens},
                    {"text-lines", 3, false, textLines},
                    {"wrong-references", 3, false, mustReject},
                    {"every-binary-field", 2, false, binaryFields},
                    {"wrong-kind-and-files", 2, false, kinds},
                    {"repeated-damage", 3, false, repeated}},
                   {"11 diagrams (states and matrices of 0 to 3 qubits), text and binary: every truncation point in fitting, larger and too small packages; every token of the text replaced by 27 others (two thirds of them in the quick check), doubled, exchanged; lines deleted, doubled, exchanged, rotated; every field of the binary form replaced by 9 to 256 values and every bit of the version; chains with undefined, negative, self and wrong-level references and qubits outside the package, which must be rejected; the other kind, the other format, missing, empty and unreadable files; all pairs of damages; after each the package reads good data, its other diagrams are intact and everything left behind can be collected",
                    {"weights are only replaced by finite numbers", "damage is one change (or two reads with one change each)"}});
}
