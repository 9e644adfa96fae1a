#include "common.h"
#include <limits>
#include <rofl/common/interval_indices.h>

template <size_t D, typename I> struct Run {
    using Iv = rofl::IntervalIndices<D, I>;
    using Idx = typename Iv::Indices;
    static Idx arr(const json& j) { Idx r; for (size_t d = 0; d < D; ++d) r[d] = (I) j[d].get<long>(); return r; }
    // a probe: the far values stand for the ends of the index type
    static Idx probe(const json& j) {
        Idx r;
        for (size_t d = 0; d < D; ++d) { long v = j[d].get<long>(); r[d] = v >= 2147483647L ? std::numeric_limits<I>::max() : v <= -2147483647L ? std::numeric_limits<I>::min() : (I) v; }
        return r;
    }
    static json js(const Idx& a) { json r = json::array(); for (size_t d = 0; d < D; ++d) r.push_back((long) a[d]); return r; }
    static json obs(const Iv& x, const json& pts) {
        json o;
        o["empty"] = (bool) x.empty();
        size_t s = x.size();
        json dg = json::array();
        for (; s > 0; s /= 10000) dg.push_back((int) (s % 10000));
        o["size"] = dg;
        o["min"] = js(x.min()); o["max"] = js(x.max()); o["first"] = js(x.first()); o["last"] = js(x.last()); o["dims"] = js(x.dimensions());
        json d1 = json::array(); for (size_t d = 0; d < D; ++d) d1.push_back((long) x.dimension(d));
        o["dim1"] = d1;
        json in = json::array();
        for (auto& p : pts) in.push_back((bool) x.inside(probe(p)));
        o["inside"] = in; o["pts"] = pts;
        return o;
    }
    static json algebra(const json& c) {
        json evs = json::array();
        Iv x;
        for (auto& op : c["ops"]) {
            json e = op; e.erase("pts");
            const json& pts = op["pts"];
            std::string o = op["op"];
            if (o == "ctor") { Iv y(arr(op["p"]), arr(op["q"])); x = y; }
            else if (o == "bounds") x.initBounds(arr(op["p"]), arr(op["q"]));
            else if (o == "minmax") x.initMinMax(arr(op["p"]), arr(op["q"]));
            else if (o == "centered") x.initCentered(arr(op["p"]), arr(op["q"]));
            else if (o == "translate") x.translate(arr(op["p"]));
            else if (o == "translate1") x.translate(op["d"].get<size_t>(), (I) op["k"].get<long>());
            else if (o == "clone") e["res"] = obs(x.clone(), pts);
            else if (o == "intersect") { Iv b(arr(op["p"]), arr(op["q"])); e["self"] = obs(x.intersect(x), pts); e["res"] = obs(x.intersect(b), pts); e["rev"] = obs(b.intersect(x), pts); }
            else if (o == "stacked") e["res"] = obs(x.stacked(op["d"].get<size_t>(), (I) op["k"].get<long>()), pts);
            e["obs"] = obs(x, pts);
            evs.push_back(e);
        }
        return evs;
    }
    template <typename It, typename F> static void sweep(json& evs, const char* ord, It beg, It end, size_t lim, F mk) {
        json s = json::array();
        size_t n = 0;
        for (auto it = beg; it != end && n <= lim; ++it, ++n) s.push_back(js(*it));
        evs.push_back({{"op", "sweep"}, {"ord", ord}, {"seq", s}});
        s = json::array(); n = 0;
        for (auto it = end; !(it == beg) && n <= lim; ++n) { --it; s.push_back(js(*it)); }
        evs.push_back({{"op", "back"}, {"ord", ord}, {"seq", s}});
    }
    template <typename It> static void walk(json& evs, const char* ord, It beg, It end, const json& ops) {
        It it = beg;
        // assignment of iterators is not part of the interface: keep a heap copy to restart
        std::vector<It> cur; cur.push_back(beg);
        for (auto& opj : ops) {
            std::string o = opj;
            json e; e["op"] = o; e["ord"] = ord;
            if (o == "start") { cur.clear(); cur.push_back(beg); }
            else if (o == "fromend") { cur.clear(); cur.push_back(end); }
            It& c = cur.back();
            if (o == "preinc") ++c;
            else if (o == "predec") --c;
            else if (o == "postinc") { auto old = c++; e["old"] = js(*old); }
            else if (o == "postdec") { auto old = c--; e["old"] = js(*old); }
            e["at"] = js(*c); 
            Idx ar = *(c.operator->()); e["arrow"] = js(ar);
            It cp(c); e["copy"] = js(*cp);
            e["eqbegin"] = (bool) (c == beg); e["eqend"] = (bool) (c == end);
            e["nebegin"] = (bool) (c != beg); e["neend"] = (bool) (c != end);
            evs.push_back(e);
        }
    }
    static json traversal(const json& c) {
        json evs = json::array();
        Iv x(arr(c["cfg"]["min"]), arr(c["cfg"]["dim"]));
        size_t lim = c["cfg"]["n"].get<size_t>();
        auto none = [](int) {};
        sweep(evs, "raster", x.beginRaster(), x.endRaster(), lim, none);
        sweep(evs, "boust", x.beginBoustrophedon(), x.endBoustrophedon(), lim, none);
        if (c.contains("walk")) {
            if (c["ord"] == "raster") walk(evs, "raster", x.beginRaster(), x.endRaster(), c["walk"]);
            else walk(evs, "boust", x.beginBoustrophedon(), x.endBoustrophedon(), c["walk"]);
        }
        return evs;
    }
    static json run(const json& c) {
        return json{{"cfg", c["cfg"]}, {"ev", c["mode"] == "algebra" ? algebra(c) : traversal(c)}};
    }
};
template <typename I> json byDim(const json& c, size_t n) {
    switch (n) {
        case 1: return Run<1, I>::run(c);
        case 2: return Run<2, I>::run(c);
        case 3: return Run<3, I>::run(c);
        case 4: return Run<4, I>::run(c);
        default: return Run<5, I>::run(c);
    }
}
json runCase(const json& c) {
    size_t n = c["D"];
    if (c["type"] == "long" && n == 2) return Run<2, long>::run(c);
    if (c["type"] == "long" && n == 3) return Run<3, long>::run(c);
    if (c["type"] == "short" && n == 2) return Run<2, short>::run(c);
    if (c["type"] == "short" && n == 3) return Run<3, short>::run(c);
    if (c["type"] == "short" && n == 1) return Run<1, short>::run(c);
    return byDim<int>(c, n);
}
