#include "common.h"
#include <algorithm>
#include <rofl/common/grid.h>
#include <memory>
#include <deque>

template <typename V> V mkv(const std::string& s);
template <> std::string mkv<std::string>(const std::string& s) { return s == "0" ? std::string() : s + "-a string long enough to live on the heap"; }
template <> int mkv<int>(const std::string& s) { return std::stoi(s); }
template <> double mkv<double>(const std::string& s) { return std::stoi(s); }
std::string unv(const std::string& s) { auto p = s.find('-', 1); return s.empty() ? "0" : p == std::string::npos ? "bad" : s.substr(0, p); }
std::string unv(int s) { return std::to_string(s); }
std::string unv(double s) { return s == (int) s ? std::to_string((int) s) : "bad"; }

template <size_t D, typename V, typename I = int, template <class, class> class C = std::vector> struct Run {
    using Gr = rofl::Grid<D, V, I, rofl::detail::RasterIndexer<D, I>, C>;
    using Idx = typename Gr::Indices;
    static Idx arr(const json& j) { Idx r; for (size_t d = 0; d < D; ++d) r[d] = (I) j[d].get<int>(); return r; }
    static json js(const Idx& a) { json r = json::array(); for (size_t d = 0; d < D; ++d) r.push_back((int) a[d]); return r; }
    static V& ref(Gr& g, const Idx& t, const std::string& form, json* e) {
        if (form == "arr") return g.value(t);
        if (form == "ptr") return g.value(t.data());
        I p = g.getPos(t);
        if (e) (*e)["pos"] = (int) p;
        return g.value(p);
    }
    static const V& cref(const Gr& g, const Idx& t, const std::string& form) {
        if (form == "arr") return g.value(t);
        if (form == "ptr") return g.value(t.data());
        return g.value(g.getPos(t));
    }
    static json run(const json& c) {
        json evs = json::array();
        std::unique_ptr<Gr> g(new Gr());
        std::vector<Idx> all;
        for (auto& op : c["ops"]) {
            json e = op;
            std::string o = op["op"], form = op.value("form", "arr");
            if (o == "dom" || o == "big") {
                Idx p, q = arr(op["q"]), mn, dm;
                if (op.contains("p")) p = arr(op["p"]);
                if (form == "ctor") g.reset(new Gr(p, q));
                else if (form == "ctor1") g.reset(new Gr(q));
                else if (form == "bounds") g->initBounds(p, q);
                else if (form == "bounds1") g->initBounds(q);
                else if (form == "minmax") g->initMinMax(p, q);
                else g->initCenter(p, q);
                if (o == "big") {
                    e["size"] = (long) g->size(); e["dims"] = js(g->dimensions());
                    json m = json::array(), inv = json::array(), in = json::array(), got = json::array();
                    int k = 0;
                    for (auto& t : op["ts"]) {
                        Idx x = arr(t);
                        I ps = g->getPos(x);
                        m.push_back((int) ps); inv.push_back(js(g->getIndices(ps))); 
                        V v = mkv<V>(std::to_string(k + 1));
                        ref(*g, x, op["wf"][k++], nullptr) = v;
                    }
                    k = 0;
                    for (auto& t : op["ts"]) got.push_back(unv(cref(*g, arr(t), op["rf"][k++])));
                    for (auto& x : op["pts"]) in.push_back((bool) g->inside(arr(x)));
                    e["map"] = m; e["inv"] = inv; e["inside"] = in; e["got"] = got;
                    evs.push_back(e);
                    continue;
                }
                // the tuples of the domain in raster order, from the case itself
                mn = arr(op["min"]); dm = arr(op["dim"]);
                all.clear();
                bool emp = false;
                for (size_t d = 0; d < D; ++d) emp = emp || dm[d] <= 0;
                Idx t = mn;
                while (!emp) {
                    all.push_back(t);
                    size_t d = 0;
                    while (d < D && ++t[d] == mn[d] + dm[d]) { t[d] = mn[d]; ++d; }
                    if (d == D) break;
                }
                e["size"] = (long) g->size(); e["dims"] = js(g->dimensions());
                json m = json::array(), inv = json::array(), in = json::array();
                for (auto& x : all) { I ps = g->getPos(x); m.push_back((int) ps); inv.push_back(js(g->getIndices(ps))); }
                for (auto& x : op["pts"]) in.push_back((bool) g->inside(arr(x)));
                e["map"] = m; e["inv"] = inv; e["inside"] = in; e["dflt"] = "0";
            } else if (o == "w") { V v = mkv<V>(op["v"]); ref(*g, arr(op["t"]), form, &e) = v; }
            else if (o == "r") e["v"] = op["cst"].get<bool>() ? unv(cref(*g, arr(op["t"]), form)) : unv(ref(*g, arr(op["t"]), form, nullptr));
            else if (o == "copy") {      // continue with a copy, then spoil the original
                std::unique_ptr<Gr> h(op["how"] == "ctor" ? new Gr(*g) : new Gr());
                if (op["how"] != "ctor") *h = *g;
                g->fill(mkv<V>("98765"));
                std::swap(g, h);
            }
            else if (o == "fill") g->fill(mkv<V>(op["v"]));
            else if (o == "dump") {
                json vs = json::array();
                if (form == "pos") for (int i = 0; i < (int) all.size(); ++i) vs.push_back(unv(((const Gr&) *g).value((I) i)));
                else for (auto& x : all) vs.push_back(unv(cref(*g, x, form)));
                e["vals"] = vs;
            }
            evs.push_back(e);
        }
        return json{{"cfg", c["cfg"]}, {"ev", evs}};
    }
};
json runCase(const json& c) {
    size_t n = c["D"];
    std::string t = c["type"];
    if (t == "string") switch (n) {
        case 1: return Run<1, std::string>::run(c);
        case 2: return Run<2, std::string, long>::run(c);
        case 3: return Run<3, std::string>::run(c);
        default: return Run<4, std::string, int, std::deque>::run(c);
    }
    if (t == "other") switch (n) {
        case 1: return Run<1, double, short>::run(c);
        case 2: return Run<2, int, int, std::deque>::run(c);
        case 3: return Run<3, int, short>::run(c);
        default: return Run<4, double, long>::run(c);
    }
    switch (n) {
        case 1: return Run<1, int>::run(c);
        case 2: return Run<2, int>::run(c);
        case 3: return Run<3, double>::run(c);
        default: return Run<4, int>::run(c);
    }
}
