#include "common.h"
#include <cmath>
#include <list>
#include <memory>
#include <limits>
#include <rofl/common/morton_tree.h>
template <typename T, size_t D> struct Play {
    using Tree = rofl::MortonTree<T, D>;
    using Item = typename Tree::Item;
    int sc; T off;
    T num(const json& j) { return (T) (off + base(j)); }
    int back(T v) { return unbase((T) (v - off)); }
    T base(const json& j) { if constexpr (std::is_floating_point_v<T>) return (T) std::ldexp((double) j.get<int>(), -sc); else return (T) (j.get<int>() * (T) ((T) 1 << sc)); }
    int unbase(T v) { if constexpr (std::is_floating_point_v<T>) return (int) std::ldexp((double) v, sc); else return v % (T) ((T) 1 << sc) ? 987654321 : (int) (v / (T) ((T) 1 << sc)); }
    Item item(const json& j, int id) {
        if (id % 2 == 0) {                          // both ways to make an item
            if constexpr (D == 1) return Item({num(j[0])}, id);
            if constexpr (D == 2) return Item({num(j[0]), num(j[1])}, id);
            if constexpr (D == 3) return Item({num(j[0]), num(j[1]), num(j[2])}, id);
        }
        Item it; for (size_t d = 0; d < D; ++d) it.values[d] = num(j[d]); it.id = id; return it; }
    json content(const Tree& t) {
        json r = json::array();
        for (auto& i : t.getItems()) { json v = json::array(); for (T x : i.values) v.push_back(back(x)); r.push_back({{"v", v}, {"id", i.id}}); }
        return r;
    }
    json run(const json& c) {
        sc = c["cfg"]["sc"];
        int oe = c["cfg"].value("off", 0);          // all coordinates are shifted by 2^off, above their highest bit
        if constexpr (std::is_floating_point_v<T>) off = oe ? (T) std::ldexp(1.0, oe) : (T) 0; else off = oe ? (T) ((T) 1 << oe) : (T) 0;
        auto t = std::make_unique<Tree>();
        json evs = json::array();
        for (auto& op : c["ops"]) {
            json e = op;
            std::string o = op["op"];
            if (o == "insert") {
                bool reset = op["reset"];
                std::vector<Item> its;
                for (auto& i : op["items"]) its.push_back(item(i["v"], i["id"]));
                if (op["via"] == "one") { for (auto& i : its) { if (reset && its.size() % 2) t->insert(i); else t->insert(i, reset); } }
                else if (op["via"] == "range") { std::list<Item> ls(its.begin(), its.end()); if (reset) t->insert(ls.begin(), ls.end()); else t->insert(ls.begin(), ls.end(), false); }
                else {
                    struct Conv { std::vector<Item>* v; Item operator()(const int& k) { return (*v)[k]; } } conv{&its};
                    std::vector<int> ks; for (size_t k = 0; k < its.size(); ++k) ks.push_back((int) k);
                    if (reset) t->insert(ks.begin(), ks.end(), conv); else t->insert(ks.begin(), ks.end(), conv, false);
                }
            } else if (o == "copy") {
                auto u = std::make_unique<Tree>(*t);
                t = std::move(u);
            } else if (o == "sort") t->sort();
            else if (o == "find") e["pos"] = (int) (t->findItem(item(op["q"], 3)) - t->begin());
            else if (o == "level") {
                if (t->size() == 0) continue;
                // computeLevel sorts on demand, which moves items but keeps iterators valid
                int n = (int) t->size(), i = op["x"].get<int>() % n, j = i + op["y"].get<int>() % (n - i);
                e["level"] = t->computeLevel(t->begin() + i, t->begin() + j + 1); e["i"] = i + 1; e["j"] = j + 1;
            } else {
                std::vector<typename Tree::ConstIterator> res;
                size_t pre = op["pre"].get<int>();
                for (size_t k = 0; k < pre; ++k) res.push_back(t->end());       // results are appended
                if (o == "box") t->searchInBox(item(op["lo"], 0), item(op["hi"], 0), res);
                else t->searchInBox(item(op["c"], 0), base(op["r"]), res);
                bool before = res.size() >= pre;
                for (size_t k = 0; k < pre && before; ++k) before = res[k] == t->end();
                json rs = json::array();
                for (size_t k = pre; k < res.size(); ++k) rs.push_back((int) (res[k] - t->begin()) + 1);
                e["res"] = rs; e["before"] = before;
            }
            e["after"] = content(*t);
            e["size"] = (int) t->size();
            bool same = (size_t) (t->end() - t->begin()) == t->getItems().size();
            size_t k = 0;
            for (auto it = t->begin(); it != t->end() && same; ++it, ++k) same = &*it == &t->getItems()[k];
            e["same"] = same;
            evs.push_back(e);
        }
        return {{"cfg", c["cfg"]}, {"ev", evs}};
    }
};
template <typename T> json dim(const json& c) {
    switch (c["cfg"]["d"].get<int>()) {
        case 1: return Play<T, 1>().run(c);
        case 2: return Play<T, 2>().run(c);
        case 3: return Play<T, 3>().run(c);
        default: return Play<T, 5>().run(c);
    }
}
json runCase(const json& c) {
    int w = c["cfg"]["w"]; bool f = c["cfg"]["f"], u = c["cfg"].value("u", false);
    if (f) return w == 32 ? dim<float>(c) : dim<double>(c);
    if (u) return w == 16 ? dim<uint16_t>(c) : w == 32 ? dim<uint32_t>(c) : dim<uint64_t>(c);
    return w == 16 ? dim<int16_t>(c) : w == 32 ? dim<int32_t>(c) : dim<int64_t>(c);
}
