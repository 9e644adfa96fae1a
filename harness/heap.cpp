#include "common.h"
#include <rofl/common/min_max_heap.h>
#include <deque>
#include <map>
#include <algorithm>

struct Item {
    int id; long v;
    std::vector<int> payload;   // makes lost or duplicated copies visible to the sanitizer
    Item(int i = -1, long x = 0) : id(i), v(x), payload(3, i) {}
};
struct Less { bool operator()(const Item& a, const Item& b) const { return a.v < b.v; } };
struct Greater { bool operator()(const Item& a, const Item& b) const { return a.v > b.v; } };
struct Mod5 { bool operator()(const Item& a, const Item& b) const { return ((a.v % 5) + 5) % 5 < ((b.v % 5) + 5) % 5; } };
struct AbsC { bool operator()(const Item& a, const Item& b) const { return std::labs(a.v) < std::labs(b.v); } };
struct Flat { bool operator()(const Item&, const Item&) const { return false; } };
struct ByName {   // stateful comparator passed to the constructor
    std::string n;
    ByName(const std::string& s = "less") : n(s) {}
    bool operator()(const Item& a, const Item& b) const {
        if (n == "less") return Less()(a, b);
        if (n == "greater") return Greater()(a, b);
        if (n == "mod5") return Mod5()(a, b);
        if (n == "abs") return AbsC()(a, b);
        return false;
    }
};

template <typename Heap> json play(Heap& hp, const json& c) {
    json evs = json::array();
    std::vector<int> cur, now;
    int next = 0;
    for (auto& op : c["ops"]) {
        std::string o = op[0];
        json e; e["op"] = o;
        if (o == "copy") { Heap other(hp); if (!other.empty()) hp.popTop(); hp.push(Item(-9, 0)); hp = other; continue; }
        if (o == "alias") continue;
        if (o == "push") { long v = op[1]; int id = ++next; e["id"] = id; e["v"] = v; hp.push(Item(id, v)); }
        else if (hp.empty()) continue;
        else if (o == "popTop") hp.popTop();
        else hp.popBottom();
        now.assign(next + 2, 0);
        int odd = 0;
        for (auto it = hp.begin(); it != hp.end(); ++it) {
            const Item& x = *it;
            if (x.payload.size() != 3 || x.payload[1] != x.id || x.id < 0 || x.id > next) odd++;
            else now[x.id]++;
        }
        cur.resize(next + 2, 0);
        json add = json::array(), rem = json::array();
        for (int i = 0; i <= next; ++i) {
            for (int k = cur[i]; k < now[i]; ++k) add.push_back(i);
            for (int k = now[i]; k < cur[i]; ++k) rem.push_back(i);
        }
        if (odd) add.push_back(-7);
        cur = now;
        e["add"] = add; e["rem"] = rem;
        json ob; ob["size"] = (long) hp.size(); ob["empty"] = (bool) hp.empty();
        if (!hp.empty()) {
            ob["top"] = hp.top().id; ob["bottom"] = hp.bottom().id;
            ob["ntop"] = hp.nextTop().id; ob["nbottom"] = hp.nextBottom().id;
        }
        e["obs"] = ob;
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}

// heap of plain numbers; equal numbers are interchangeable, so the identifiers are those of the
// specification handed out by value.  "alias" pushes a reference to an item of the heap itself.
template <typename V, template <typename, typename> class C> json playScalar(const json& c) {
    rofl::MinMaxHeap<V, std::less<V>, C> hp;
    json evs = json::array();
    std::map<long, std::vector<int>> live;
    int next = 0;
    auto idOf = [&](const V& v) { auto f = live.find((long) v); return f == live.end() || f->second.empty() ? -7 : f->second.back(); };
    for (auto& op : c["ops"]) {
        std::string o = op[0];
        json e; e["op"] = o;
        int id = 0; long v = 0;
        if (o == "copy") { auto other = hp; if (!other.empty()) hp.popTop(); hp.push(0); hp = other; continue; }
        if (o == "push" || o == "alias") {
            if (o == "alias" && hp.empty()) continue;
            id = ++next;
            if (o == "push") { v = op[1]; hp.push((V) v); }
            else {
                int k = op[1];
                const V& x = k == 0 ? hp.top() : k == 1 ? hp.bottom() : k == 2 ? hp.nextTop() : *(hp.begin() + (k % hp.size()));
                v = (long) x;
                hp.push(x);
            }
            e["op"] = "push"; e["id"] = id; e["v"] = v;
        }
        else if (hp.empty()) continue;
        else if (o == "popTop") hp.popTop();
        else hp.popBottom();
        std::map<long, int> now;
        for (auto it = hp.begin(); it != hp.end(); ++it) now[(long) *it]++;
        json add = json::array(), rem = json::array();
        for (auto& p : now) {
            auto& l = live[p.first];
            while ((int) l.size() < p.second) {
                bool mine = id && p.first == v;
                add.push_back(mine ? id : -7); l.push_back(mine ? id : -7); if (mine) id = 0;
            }
        }
        for (auto& p : live) { int n = now.count(p.first) ? now[p.first] : 0; while ((int) p.second.size() > n) { rem.push_back(p.second.back()); p.second.pop_back(); } }
        e["add"] = add; e["rem"] = rem;
        json ob; ob["size"] = (long) hp.size(); ob["empty"] = (bool) hp.empty();
        if (!hp.empty()) { ob["top"] = idOf(hp.top()); ob["bottom"] = idOf(hp.bottom()); 
            ob["ntop"] = idOf(hp.nextTop()); ob["nbottom"] = idOf(hp.nextBottom()); }
        e["obs"] = ob;
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}

json runCase(const json& c) {
    std::string o = c["cfg"]["order"], k = c["cfg"]["kind"];
    if (k == "scalar") return c["cfg"]["t"] == "int" ? playScalar<int, std::vector>(c) : c["cfg"]["t"] == "double" ? playScalar<double, std::vector>(c) : playScalar<long, std::deque>(c);
    if (k == "deque") { rofl::MinMaxHeap<Item, ByName, std::deque> hp{ByName(o)}; return play(hp, c); }
    if (k == "named") { rofl::MinMaxHeap<Item, ByName> hp{ByName(o)}; return play(hp, c); }
    if (o == "less") { rofl::MinMaxHeap<Item, Less> hp; return play(hp, c); }
    if (o == "greater") { rofl::MinMaxHeap<Item, Greater> hp; return play(hp, c); }
    if (o == "mod5") { rofl::MinMaxHeap<Item, Mod5> hp; return play(hp, c); }
    if (o == "abs") { rofl::MinMaxHeap<Item, AbsC> hp; return play(hp, c); }
    rofl::MinMaxHeap<Item, Flat> hp; return play(hp, c);
}
