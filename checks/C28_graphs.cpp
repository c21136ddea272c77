// C28: the graph export lists exactly the nodes and edges of the diagram.
#include "ddx.hpp"
#include "numtext.hpp"
//
#include "dd/Export.hpp"

#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace ddx;
namespace {
    struct Style {
        bool colored, labels, classic, memory, polar;
    };
    Style       style(unsigned s) { return {(s & 1U) != 0, (s & 2U) != 0, (s & 4U) != 0, (s & 8U) != 0, (s & 16U) != 0}; }
    std::string str(const Style& s) {
        return std::string(s.memory ? "memory" : (s.colored ? "colored" : "black and white")) + (s.classic ? " classic" : "") + (s.labels ? " with labels" : "") + (s.polar ? " polar" : " rectangular");
    }
    std::string between(const std::string& s, const std::string& a, const std::string& b, std::size_t from = 0) {
        const auto i = s.find(a, from);
        if (i == std::string::npos) {
            mc::fail("'" + a + "' missing in: " + s);
        }
        const auto j = s.find(b, i + a.size());
        if (j == std::string::npos) {
            mc::fail("'" + b + "' missing in: " + s);
        }
        return s.substr(i + a.size(), j - i - a.size());
    }
    void weight(const std::string& t, const C& w, const Style& st, const char* what) {
        if (st.memory) {
            numtext::plain(t, w, 4, what);
        } else if (st.polar) {
            numtext::polar(t, w, what);
        } else {
            numtext::rectangular(t, w, 6, what);
        }
    }
    std::string entry(const dd::CTEntry* e) {
        const double v = val(e);
        if (v == 0) {
            return "0";
        }
        if (e == &dd::ComplexTable<>::one) {
            return "1";
        }
        if (e == &dd::ComplexTable<>::sqrt2_2) {
            return "√½";
        }
        std::ostringstream os;
        os << std::hex << reinterpret_cast<std::uintptr_t>(e);
        return os.str();
    }
    // the attributes of an edge
    template<class Edge>
    void attributes(const std::string& l, const Edge& e, const Style& st) {
        const C w = val(e.w);
        weight(between(l, "tooltip=\"", "\""), w, st, "tooltip of an edge");
        const double pen = 3 * std::max(std::abs(w), 0.1), got = strtod(between(l, "penwidth=\"", "\"").c_str(), nullptr);
        MC_CHECK(std::abs(pen - got) <= 1e-5 * pen, "line width " << got << " for weight " << ref::str(w));
        const bool dashed = l.find("style=dashed") != std::string::npos;
        if (st.memory || st.colored) {
            MC_CHECK(!dashed, "dashed colored edge: " << l);
            std::istringstream is(between(l, "color=\"", "\""));
            double             h = -1, s = -1, v = -1;
            is >> h >> s >> v;
            const double phase = std::arg(w) / (2 * M_PI), d = std::abs(h - phase);
            MC_CHECK(h >= 0 && h <= 1 && s == 0.667 && v == 0.75 && std::abs(d - std::round(d)) < 6e-4, "color " << h << " for weight " << ref::str(w));
        } else {
            const double off = std::abs(w - C{1, 0});
            MC_CHECK(dashed ? off > 1e-13 : off < 1e-9, "edge with weight " << ref::str(w) << (dashed ? " is dashed" : " is not dashed"));
            MC_CHECK(l.find("color") == std::string::npos, "colored edge in a black and white graph");
        }
        const auto lab = l.find("label=<<font point-size=\"8\">&nbsp;");
        MC_CHECK((lab != std::string::npos) == st.labels, "edge labels " << (st.labels ? "missing: " : "not asked for: ") << l);
        if (st.labels) {
            const auto t = between(l, "label=<<font point-size=\"8\">&nbsp;", "</font>>");
            if (!st.memory) {
                weight(t, w, st, "label of an edge");
            } else {
                const std::string both = "[" + entry(e.w.r) + " " + entry(e.w.i) + "]";
                MC_CHECK(t == both || (w == C{1, 0} && t == "[1]") || (w == C{0, 0} && t == "[0]"), "memory label " << t << ", expected " << both);
            }
        }
    }
    template<class Edge>
    struct Graph {
        using Node = std::remove_pointer_t<decltype(Edge::p)>;
        Style                                                    st{};
        std::map<std::string, std::string>                       nodes;
        std::map<std::pair<std::string, unsigned>, std::string>  edges; // (node, port) -> line after ->
        std::map<const Node*, std::string>                       name;
        std::map<std::string, const Node*>                       node;
        std::size_t                                              used = 0;

        void visit(const Edge& e, const std::string& line) {
            attributes(line, e, st);
            const auto label = line.substr(0, line.find('['));
            if (e.isTerminal()) {
                MC_CHECK(label == "t", "edge to the terminal leads to " << label);
                return;
            }
            const auto& [it, fresh] = name.emplace(e.p, label);
            MC_CHECK(it->second == label, "node reached under two labels, " << label << " and " << it->second);
            MC_CHECK(node.emplace(label, e.p).first->second == e.p, "two nodes with the label " << label);
            if (!fresh) {
                return;
            }
            const auto def = nodes.find(label);
            MC_CHECK(def != nodes.end(), "node " << label << " is not listed");
            const auto& l = def->second;
            if (st.memory) {
                std::ostringstream os;
                os << std::hex << reinterpret_cast<std::uintptr_t>(e.p) << std::dec << " ref: " << e.p->ref << "<";
                MC_CHECK(l.find(">" + os.str()) != std::string::npos, "node listed as " << l << ", expected " << os.str());
            } else {
                const auto q = std::to_string(static_cast<int>(e.p->v));
                MC_CHECK(between(l, "q<sub><font", "/font>").find(">" + q + "<") != std::string::npos && l.find("tooltip=\"q" + q + "\"]") != std::string::npos, "node of qubit " << q << " listed as " << l);
                MC_CHECK((l.find("shape=circle") != std::string::npos) == st.classic, "wrong kind of node: " << l);
            }
            for (unsigned i = 0; i < e.p->e.size(); ++i) {
                const auto& c    = e.p->e[i];
                const bool  zero = val(c.w) == C{0, 0};
                const auto  cell = between(l, "port=\"" + std::to_string(i) + "\"", "</td>");
                weight(between(cell, "tooltip=\"", "\""), val(c.w), st, "tooltip of a cell");
                MC_CHECK(cell.find("&nbsp;0 ") != std::string::npos && (cell.find("color=\"white\"") == std::string::npos) == zero, "cell " << i << " with weight " << ref::str(val(c.w)) << ": " << cell);
                const auto out = edges.find({label, i});
                MC_CHECK((out != edges.end()) == !zero, "edge " << i << " with weight " << ref::str(val(c.w)) << (zero ? " is listed" : " is not listed"));
                if (!zero) {
                    ++used;
                    visit(c, out->second);
                }
            }
        }
        Graph(const std::string& text, const Edge& e, const Style& s):
            st(s) {
            std::istringstream is(text);
            std::string        l, root;
            std::size_t        roots = 0, lines = 0;
            bool               end = false, t = false, r = false;
            while (std::getline(is, l)) {
                ++lines;
                MC_CHECK(!end, "text after the end: " << l);
                if (lines == 1) {
                    MC_CHECK(l.compare(0, 9, "digraph \"") == 0 && l.find('{') != std::string::npos, "starts with " << l);
                } else if (l == "}") {
                    end = true;
                } else if (l.compare(0, 6, "root->") == 0) {
                    root = l.substr(6);
                    ++roots;
                } else if (l.compare(0, 6, "root [") == 0) {
                    MC_CHECK(!r, "root listed twice");
                    r = true;
                } else if (l.compare(0, 3, "t [") == 0) {
                    MC_CHECK(!t, "terminal listed twice");
                    t = true;
                } else if (const auto k = l.find("->"), b = l.find('['); k < b) {
                    const auto  c1 = l.find(':'), c2 = l.find(':', c1 + 1);
                    MC_CHECK(c1 < k && c2 < k && c2 == c1 + 2, "edge listed as " << l);
                    const auto i = static_cast<unsigned>(l[c1 + 1] - '0');
                    MC_CHECK(edges.emplace(std::pair{l.substr(0, c1), i}, l.substr(k + 2)).second, "edge listed twice: " << l);
                } else {
                    MC_CHECK(b != std::string::npos && nodes.emplace(l.substr(0, b), l).second, "node listed twice: " << l);
                }
                MC_CHECK(lines == 1 || l == "}" || l.back() == ']', "line without an end: " << l);
            }
            MC_CHECK(end && t && r && roots == 1, "root, terminal or end missing: " << text);
            visit(e, root);
            MC_CHECK(name.size() == nodes.size(), nodes.size() << " nodes listed, the diagram has " << name.size());
            MC_CHECK(used == edges.size(), edges.size() << " edges listed, the diagram has " << used);
        }
    };
    // the weights listed for every edge, as a multiset
    template<class Edge>
    void weights(const Edge& e, unsigned digits) {
        std::ostringstream os;
        os.precision(digits);
        dd::exportEdgeWeights(e, os);
        std::vector<C>          want{val(e.w)};
        std::set<const void*>   seen;
        std::vector<const Edge*> todo{&e};
        while (!todo.empty()) {
            const auto* x = todo.back();
            todo.pop_back();
            if (x->isTerminal() || !seen.insert(x->p).second) {
                continue;
            }
            for (const auto& c: x->p->e) {
                if (val(c.w) != C{0, 0}) {
                    want.push_back(val(c.w));
                    todo.push_back(&c);
                }
            }
        }
        std::vector<C>     got;
        std::istringstream is(os.str());
        for (std::string l; std::getline(is, l);) {
            char*        end = nullptr;
            const double re = strtod(l.c_str(), &end), im = strtod(end, &end);
            MC_CHECK((l[0] == '+' || l[0] == '-') && std::string(end) == "i", "weight listed as " << l);
            got.emplace_back(re, im);
        }
        MC_CHECK(got.size() == want.size(), got.size() << " weights listed, the diagram has " << want.size());
        std::vector<char> taken(got.size(), 0);
        for (const auto& w: want) {
            bool         found = false;
            const double tol   = 6 * std::pow(10., -static_cast<double>(digits)) * std::max(1e-12, std::max(std::abs(w.real()), std::abs(w.imag())));
            for (std::size_t i = 0; i < got.size() && !found; ++i) {
                if (taken[i] == 0 && std::abs(got[i] - w) <= tol) {
                    taken[i] = 1;
                    found    = true;
                }
            }
            MC_CHECK(found, "weight " << ref::str(w) << " is not listed: " << os.str());
        }
        os << 1.5;
        MC_CHECK(os.str().compare(os.str().size() - 4, 4, "\n1.5") == 0, "the format of the stream was changed");
    }
    template<class P, class Edge>
    void graph(P& p, const Edge& e, unsigned s) {
        const auto st   = style(s);
        const auto copy = e;
        const auto v = p.vUniqueTable.getNodeCount(), m = p.mUniqueTable.getNodeCount(), c = p.cn.complexTable.getCount(), k = p.cn.cacheCount();
        std::ostringstream os;
        dd::toDot(e, os, st.colored, st.labels, st.classic, st.memory, st.polar);
        mc::op();
        try {
            Graph<Edge> g(os.str(), e, st);
        } catch (const mc::Violation& f) {
            mc::failKey(f.key, "graph export, " + str(st) + ": " + f.msg);
        }
        weights(e, s % 2 == 0 ? 6 : 17);
        MC_CHECK(e == copy && v == p.vUniqueTable.getNodeCount() && m == p.mUniqueTable.getNodeCount() && c == p.cn.complexTable.getCount() && k == p.cn.cacheCount(), "exporting changed the package");
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, -1}, {0.5, 0}, {3, -4}, {0, 0}, {S2, S2}, {1e-5, 0}};
    void    states() {
        const unsigned n   = 1 + mc::choose(3, "qubits-1");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned hi  = mc::choose(27, "part");
        withCfg(cfg, [&](auto t) {
            using P           = Pkg<typename decltype(t)::type>;
            const auto& alpha = n == 1 ? L9 : (n == 2 ? L9 : (mc::thorough() ? L4 : L3));
            const auto  total = ipow(alpha.size(), 1ULL << n);
            const auto  ni    = static_cast<int>(n);
            auto        p     = std::make_unique<P>(n);
            warm(*p, ni, cfg + 1);
            unsigned k = hi;
            for (std::size_t x = hi; x < total; x += 27, ++k) {
                const auto a = vecFrom(x, ni, alpha);
                const auto e = scaled(*p, p->makeStateFromVector(cvec(a)), F[k % 8]);
                mc::state(ref::hash(a));
                for (unsigned s = n == 1 ? 0 : k % 32; s < 32; s += n == 1 ? 1 : 32) {
                    graph(*p, e, s);
                }
                if (k % 64 == 63) {
                    mc::alive();
                    p->garbageCollect(true);
                }
            }
        });
    }
    void matrices() {
        const unsigned n   = 1 + mc::choose(2, "qubits-1");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned hi  = mc::choose(27, "part");
        withCfg(cfg, [&](auto t) {
            using P          = Pkg<typename decltype(t)::type>;
            const auto ni    = static_cast<int>(n);
            const auto total = n == 1 ? ipow(L9.size(), 4) : ipow(8, 4);
            auto       p     = std::make_unique<P>(n);
            warm(*p, ni, cfg + 1);
            unsigned k = hi;
            for (std::size_t x = hi; x < total; x += 27, ++k) {
                const auto a = n == 1 ? matFrom(x, L9) : mat4(x, 8);
                const auto e = scaled(*p, p->makeDDFromMatrix(cmat(a)), F[k % 8]);
                mc::state(ref::hash(a));
                graph(*p, e, k % 32);
                graph(*p, e, (k * 5 + 16) % 32);
                if (k % 64 == 63) {
                    mc::alive();
                    p->garbageCollect(true);
                }
            }
        });
    }
    struct Scratch {
        std::string d, file;
        Scratch() {
            const char* t = getenv("TMPDIR");
            d             = std::string(t != nullptr ? t : "/tmp") + "/c28." + std::to_string(getpid());
            file          = d + "/a.dot";
            mkdir(d.c_str(), 0700);
        }
        ~Scratch() {
            unlink(file.c_str());
            rmdir(d.c_str());
        }
    };
    void structured() {
        const unsigned kind = mc::choose(2, "kind");
        const unsigned n    = mc::choose((kind == 0 ? 6U : 4U) + (mc::thorough() ? 1U : 0U), "qubits");
        const unsigned pa   = mc::choose(kind == 0 ? NVP : NMP, "pattern");
        const unsigned cfg  = mc::choose(2, "tables");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(std::max(n, 1U) + 1);
            Scratch    scratch;
            const auto full = [&](const auto& e) {
                for (unsigned s = 0; s < 32; ++s) {
                    graph(*p, e, s);
                    const auto         st = style(s);
                    std::ostringstream os;
                    dd::toDot(e, os, st.colored, st.labels, st.classic, st.memory, st.polar);
                    dd::export2Dot(e, scratch.file, st.colored, st.labels, st.classic, st.memory, false, st.polar);
                    std::ifstream     is(scratch.file);
                    std::stringstream ss;
                    ss << is.rdbuf();
                    MC_CHECK(ss.str() == os.str(), "the exported file is not the exported text");
                }
            };
            for (unsigned w = 0; w < 3; ++w) {
                warm(*p, std::min(ni, 3), w);
                if (n == 0) {
                    for (const auto& c: L9) {
                        const auto l = p->cn.lookup(c.real(), c.imag());
                        if (kind == 0) {
                            full(dd::vEdge::terminal(l));
                        } else {
                            full(dd::mEdge::terminal(l));
                        }
                    }
                } else if (kind == 0) {
                    const auto e = p->makeStateFromVector(cvec(vecPat(ni, pa)));
                    full(e);
                    p->incRef(e);
                    p->garbageCollect(true);
                    full(scaled(*p, e, F[(pa + w) % 8]));
                } else {
                    const auto e = p->makeDDFromMatrix(cmat(matPat(ni, pa)));
                    full(e);
                    p->incRef(e);
                    p->garbageCollect(true);
                    full(scaled(*p, e, F[(pa + w) % 8]));
                    full(p->makeIdent(static_cast<dd::QubitCount>(n)));
                    full(p->makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(n - 1)));
                }
                mc::state(mc::mix(n * 64 + pa, kind * 4 + w));
                mc::alive();
            }
        });
    }
    // parts of a diagram: every node as the root
    void subdiagrams() {
        const unsigned s = mc::choose(32, "style");
        auto           p = std::make_unique<Pkg<Mid>>(5);
        const auto     e = p->makeStateFromVector(cvec(vecPat(5, 7)));
        const auto     m = p->makeDDFromMatrix(cmat(matPat(3, 8)));
        std::function<void(const dd::vEdge&)> fv = [&](const dd::vEdge& x) {
            graph(*p, x, s);
            if (!x.isTerminal()) {
                fv(x.p->e[0]);
                fv(x.p->e[1]);
            }
        };
        std::function<void(const dd::mEdge&)> fm = [&](const dd::mEdge& x) {
            graph(*p, x, s);
            if (!x.isTerminal()) {
                for (const auto& c: x.p->e) {
                    fm(c);
                }
            }
        };
        fv(e);
        fm(m);
        mc::state(s);
    }
    struct Chunk: Mid { // nodes lie in one chunk of several megabytes
        static constexpr std::size_t UT_VEC_NBUCKET                 = 16384U;
        static constexpr std::size_t UT_VEC_INITIAL_ALLOCATION_SIZE = 65536U;
    };
    // diagrams whose nodes lie anywhere in memory: every distance up to 4 MB
    void distances() {
        const unsigned            kind = mc::choose(2, "package"), part = mc::choose(8, "part");
        constexpr std::size_t     N = 50000;
        const auto                run = [&](auto p) {
            std::vector<dd::vEdge> nodes;
            for (std::size_t k = 0; k < N; ++k) {
                nodes.push_back(p->makeDDNode(0, std::array{dd::vEdge::one, dd::vEdge::terminal(p->cn.lookup(0.01 + 1e-5 * static_cast<double>(k), 0))}));
                p->incRef(nodes.back());
            }
            for (std::size_t k = 1 + part; k < N; k += 8) {
                const auto e = p->makeDDNode(1, std::array{nodes[0], nodes[k]});
                const auto f = p->makeDDNode(2, std::array{e, nodes[k].p->v == 0 ? dd::vEdge::zero : e});
                graph(*p, f, static_cast<unsigned>(k / 8) % 32);
                if (k % 1024 < 8) {
                    mc::alive();
                }
            }
        };
        if (kind == 0) {
            run(std::make_unique<Pkg<Chunk>>(3));
        } else {
            run(std::make_unique<dd::Package<>>(3));
        }
        mc::state(part);
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C28", argc, argv,
                   {{"all-small-states", 3, false, states},
                    {"all-small-matrices", 3, false, matrices},
                    {"structured", 4, false, structured},
                    {"subdiagrams", 1, false, subdiagrams},
                    {"distances", 2, false, distances}},
                   {"all states over the alphabets (81 of 1 qubit, 6561 of 2 and 6561 (65536) of 3 qubits), 6561 matrices of 1 and 4096 of 2 qubits, 8 root factors, 14 state and 16 matrix patterns on up to 5 (6) and 3 (4) qubits, scalars, in all 32 styles (small ones in one or two styles each), every sub-diagram, every distance of two nodes up to 2.4 MB; the text is read back and compared node by node and edge by edge; weight lists with 6 and 17 digits",
                    {"amplitudes are taken from finite alphabets", "files are written in a scratch directory and not rendered"}});
}
