#include "common.h"
#include <cmath>
#include <iterator>
#include <list>
#include <rofl/common/param_map.h>
#include <sys/stat.h>
using rofl::ParamMap;

static json dbl(double d) { double t = std::round(d * 1000); if (std::fabs(t) > 2e9 || std::fabs(t - d * 1000) > 1e-6) return "odd"; return (long) t; }
static std::string scratchFile() {
    const char* d = getenv("ROFL_SCRATCH");
    return std::string(d ? d : ".") + "/pm_" + std::to_string(getpid()) + ".txt";
}
static std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> r; size_t i = 0;
    while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; }
    return r;
}
static void listing(json& e, const std::string& text, size_t skip) {
    json ls = json::array(), ns = json::array();
    for (auto& x : lines(text)) {
        ls.push_back(x);
        std::string y = x.size() >= skip ? x.substr(skip) : "";
        ns.push_back(y.substr(0, y.find(' ')));
    }
    e["lines"] = ls; e["names"] = ns;
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

template <typename V> V lit(const std::string& s);
template <> int lit<int>(const std::string& s) { return std::stoi(s); }
template <> double lit<double>(const std::string& s) { return std::stod(s); }
template <> float lit<float>(const std::string& s) { return std::stof(s); }
template <> bool lit<bool>(const std::string& s) { return s == "1"; }
template <> std::string lit<std::string>(const std::string& s) { return s; }
static json out(int v) { return v; }
static json out(double v) { return dbl(v); }
static json out(float v) { double t = std::round((double) v * 1000); return std::fabs(t) > 2e9 || std::fabs(t - (double) v * 1000) > 1e-3 + std::fabs(t) * 1e-6 ? json("odd") : json((long) t); }
static json out(bool v) { return v; }
static json out(const std::string& v) { return v; }

template <typename V> struct T {
    static void get(ParamMap& pm, const json& op, json& e) {
        V v = lit<V>(op["prev"]);
        e["ret"] = (bool) pm.getParam(op["name"].get<std::string>(), v, lit<V>(op["dflt"]));
        e["val"] = out(v);
    }
    static void set(ParamMap& pm, const json& op) { pm.setParam(op["name"].get<std::string>(), lit<V>(op["text"])); }
    template <typename Cont> static void range(ParamMap& pm, const json& op, json& e) {
        int n = op["n"];
        V guard = lit<V>(op["gv"]);
        Cont c(n + 4, guard);
        auto b = c.begin(); std::advance(b, 2);
        auto f = b; std::advance(f, n);
        std::string k = op["name"], dt = op["dtext"], dl = op["delim"];
        V d = lit<V>(op["dflt"]);
        e["ret"] = (bool) (op["dd"].get<bool>() ? pm.getParamContainer(k, b, f, dt, d) : pm.getParamContainer(k, b, f, dt, d, dl));
        json vs = json::array(); int i = 0; bool ok = true;
        for (const V& x : c) { if (i >= 2 && i < n + 2) vs.push_back(out(x)); else ok = ok && x == guard; ++i; }
        e["vals"] = vs; e["guard"] = ok;
    }
    static void ins(ParamMap& pm, const json& op, json& e) {
        std::vector<V> c; std::string k = op["name"], dl = op["delim"];
        V d = lit<V>(op["dflt"]);
        e["ret"] = (bool) (op["dd"].get<bool>() ? pm.getParamContainerInserter<V>(k, std::back_inserter(c), d) : pm.getParamContainerInserter<V>(k, std::back_inserter(c), d, dl));
        json vs = json::array(); for (const V& x : c) vs.push_back(out(x));
        e["vals"] = vs;
    }
};

json runCase(const json& c) {
    json evs = json::array();
    ParamMap pm;
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"], kind = op.value("kind", "");
        if (o == "read") {
            std::string t; size_t n = op["lines"].size(), i = 0;
            for (auto& x : op["lines"]) { t += x.get<std::string>(); if (++i < n || op["nl"].get<bool>()) t += "\n"; }
            if (op["via"] == "file") { std::string f = scratchFile(); { std::ofstream of(f); of << t; } e["ret"] = (bool) pm.read(f); std::remove(f.c_str()); }
            else { std::istringstream is(t); e["ret"] = (bool) pm.read(is); }
        } else if (o == "argv") {
            std::vector<std::string> a; for (auto& x : op["args"]) a.push_back(x);
            std::vector<char*> p; for (auto& x : a) p.push_back(&x[0]);
            int argc = (int) p.size();
            char** av = (char**) std::malloc(sizeof (char*) * argc);     // exact allocation: reads past the end are seen
            for (int i = 0; i < argc; ++i) av[i] = p[i];
            e["ret"] = (bool) pm.read(argc, av);
            std::free(av);
        } else if (o == "set") {
            if (kind == "int") T<int>::set(pm, op); else if (kind == "double") T<double>::set(pm, op); else if (kind == "float") T<float>::set(pm, op); else if (kind == "bool") T<bool>::set(pm, op);
            else if (kind == "string") T<std::string>::set(pm, op); else pm.setParamString(op["name"], op["text"]);
        } else if (o == "clear") pm.clear();
        else if (o == "get") {
            if (kind == "int") T<int>::get(pm, op, e); else if (kind == "double") T<double>::get(pm, op, e); else if (kind == "float") T<float>::get(pm, op, e);
            else if (kind == "bool") T<bool>::get(pm, op, e); else T<std::string>::get(pm, op, e);
        } else if (o == "range") {
            if (kind == "int") T<int>::range<std::vector<int>>(pm, op, e);
            else if (kind == "double") T<double>::range<std::list<double>>(pm, op, e);
            else T<std::string>::range<std::vector<std::string>>(pm, op, e);
        } else if (o == "ins") {
            if (kind == "int") T<int>::ins(pm, op, e); else if (kind == "double") T<double>::ins(pm, op, e); else T<std::string>::ins(pm, op, e);
        } else if (o == "tilde") { setenv("HOME", op["home"].get<std::string>().c_str(), 1); pm.adaptTildeInPaths(); }
        else if (o == "write") {
            std::string via = op["via"], pre = op["prefix"];
            if (via == "file") { std::string f = scratchFile(); e["ret"] = (bool) ((const ParamMap&) pm).write(f); listing(e, slurp(f), 0); std::remove(f.c_str()); }
            else { std::ostringstream os; e["ret"] = (bool) (via == "prefix" ? ((const ParamMap&) pm).write(os, pre) : ((const ParamMap&) pm).write(os)); listing(e, os.str(), pre.size()); }
        } else if (o == "trip") {
            ParamMap q; bool r;
            if (op["via"] == "file") { std::string f = scratchFile(); r = pm.write(f); r = q.read(f) && r; std::remove(f.c_str()); }
            else { std::stringstream ss; r = pm.write(ss); r = q.read(ss) && r; }
            std::ostringstream os; q.write(os);
            e["ret"] = r; listing(e, os.str(), 0);
        } else if (o == "badread") { std::string f = scratchFile() + ".absent/x"; e["ret"] = (bool) pm.read(f); }
        else if (o == "badwrite") { std::string f = scratchFile() + ".absent/x"; e["ret"] = (bool) pm.write(f); }
        ParamMap copy(pm);
        json seen = json::array();
        for (auto& nj : c["names"]) {
            std::string v = "?";
            std::string n = nj;
            bool has = copy.getParam(n, v, std::string("dflt"));
            seen.push_back({{"name", n}, {"has", has}, {"val", v}});
        }
        e["seen"] = seen;
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
