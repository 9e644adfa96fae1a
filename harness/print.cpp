// Texts written by the containers and by the message macros (C35).
#include "common.h"
#include <array>
#include <functional>
#include <sstream>
#include <rofl/common/interval_indices.h>
#include <rofl/common/label_set.h>
#include <rofl/common/macros.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/morton_tree.h>

// what a function writes on std::cout (text) and std::cerr (other), or the other way round
struct Capture {
    std::ostringstream o, e;
    std::streambuf *so, *se;
    Capture() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(so); std::cerr.rdbuf(se); }
};
// the stream state at the time of the call must not matter to the library, which never changes it
static std::string shown(const std::function<void(std::ostream&)>& f) { std::ostringstream s; f(s); return s.str(); }

template <size_t D, typename I> std::string interval(const json& e) {
    typename rofl::IntervalIndices<D, I>::Indices p, q;
    for (size_t d = 0; d < D; ++d) { p[d] = e["p"][d].get<int>(); q[d] = e["q"][d].get<int>(); }
    rofl::IntervalIndices<D, I> iv; iv.initBounds(p, q);
    return shown([&](std::ostream& s) { if (e["via"] == 0) iv.print(s); else s << iv; });
}
template <size_t D, typename I> std::string index(const json& e) {
    std::array<I, D> a;
    for (size_t d = 0; d < D; ++d) a[d] = e["v"][d].get<int>();
    return rofl::outIdx(a);
}
template <size_t D, typename T> std::string item(const json& e) {
    typename rofl::MortonTree<T, D>::Item it;
    for (size_t d = 0; d < D; ++d) it.values[d] = e["v"][d].get<int>();
    it.id = e["id"];
    if (e["via"] == 0) return it.toString();
    return shown([&](std::ostream& s) { it.print(s); });
}
#define BY_DIM(F, T, n, e) (n == 1 ? F<1, T>(e) : n == 2 ? F<2, T>(e) : n == 3 ? F<3, T>(e) : F<4, T>(e))
#define BY_TYPE(F, T1, T2, T3, e) (e["ty"] == 0 ? BY_DIM(F, T1, n, e) : e["ty"] == 1 ? BY_DIM(F, T2, n, e) : BY_DIM(F, T3, n, e))

json runCase(const json& c) {
    rofl::LabelSet ls;
    rofl::MinMaxHeap<int, std::less<int>> hp{std::less<int>()};
    json evs = json::array();
    std::string file = ROFL_FILENAME(__FILE__);
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "insert") ls.insert(op["x"].get<int>());
        else if (o == "remove") ls.remove(op["x"].get<int>());
        else if (o == "push") hp.push(op["x"].get<int>());
        else if (o == "popTop") hp.popTop();
        else if (o == "popBottom") hp.popBottom();
        else if (o == "labels") e["text"] = shown([&](std::ostream& s) { if (op["via"] == 0) ls.print(s); else s << ls; });
        else if (o == "rows") {
            std::istringstream in(shown([&](std::ostream& s) { hp.print(s); }));
            json rows = json::array();
            bool clean = true;
            int level = -1;
            std::string w;
            while (in >> w) {
                char k = 0;
                if (w == "level") { clean = clean && (in >> level >> k) && k == ':'; continue; }
                int v = 0, p = 0; char a = 0, b = 0, d = 0; size_t used = 0;
                try { v = std::stoi(w, &used); } catch (...) { clean = false; break; }
                clean = clean && used == w.size() && (in >> a >> p >> b >> d) && a == '[' && b == ']' && d == ',';
                if (!clean) break;
                rows.push_back({level, p, v});
            }
            e["rows"] = rows; e["clean"] = clean;
        } else if (o == "interval") { int n = op["p"].size(); e["text"] = BY_TYPE(interval, int, long, short, op); }
        else if (o == "index") { int n = op["v"].size(); e["text"] = BY_TYPE(index, int, long, short, op); }
        else if (o == "item") { int n = op["v"].size(); e["text"] = BY_TYPE(item, int, long, double, op); }
        else if (o == "var" || o == "msg") {
            int n = op["vals"].size(), line = 0;
            int a = op["vals"][0], b = n > 1 ? op["vals"][1].get<int>() : 0, cc = n > 2 ? op["vals"][2].get<int>() : 0, d = n > 3 ? op["vals"][3].get<int>() : 0,
                f = n > 4 ? op["vals"][4].get<int>() : 0, g = n > 5 ? op["vals"][5].get<int>() : 0, h = n > 6 ? op["vals"][6].get<int>() : 0;
            Capture cap;
            if (o == "msg" && op["via"] == 0) { line = __LINE__; ROFL_MSG(a << " " << b); }
            else if (o == "msg") { line = __LINE__; ROFL_ERR(a << " " << b); }
            else if (n == 1) { line = __LINE__; ROFL_VAR1(a); }
            else if (n == 2) { line = __LINE__; ROFL_VAR2(a, b); }
            else if (n == 3) { line = __LINE__; ROFL_VAR3(a, b, cc); }
            else if (n == 4) { line = __LINE__; ROFL_VAR4(a, b, cc, d); }
            else if (n == 5) { line = __LINE__; ROFL_VAR5(a, b, cc, d, f); }
            else if (n == 6) { line = __LINE__; ROFL_VAR6(a, b, cc, d, f, g); }
            else { line = __LINE__; ROFL_VAR7(a, b, cc, d, f, g, h); }
            bool err = o == "msg" && op["via"] == 1;
            e["text"] = err ? cap.e.str() : cap.o.str();
            e["other"] = err ? cap.o.str() : cap.e.str();
            e["file"] = file; e["line"] = line;
            e["names"] = {"a", "b", "cc", "d", "f", "g", "h"};
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
