#include "common.h"
#include <cmath>
#include <functional>
#include <chrono>
#include <sstream>
#include <rofl/common/profiler.h>

struct Row { std::string a; double v[4]; long n; };
static long th(double x) { double y = x * 1000; return std::isfinite(y) && std::fabs(y) < 1e9 ? std::lround(y) : 999999999; }
// rows of printStats whose label starts with pre (the singleton lives as long as the process)
static std::vector<Row> rows(const std::string& pre) {
    std::ostringstream os;
    os.precision(15);
    rofl::Profiler::getProfiler().printStats(os);
    std::istringstream is(os.str());
    std::string ln;
    std::vector<Row> out;
    while (std::getline(is, ln)) {
        std::istringstream f(ln);
        Row w;
        if (!(f >> w.a >> w.v[0] >> w.v[1] >> w.v[2] >> w.v[3] >> w.n)) { w.a = ln; w.n = -1; for (double& d : w.v) d = -1; }
        if (w.a.compare(0, pre.size(), pre) == 0) { w.a = w.a.substr(pre.size()); out.push_back(w); }
    }
    return out;
}
json runCase(const json& c) {
    static long id = 0;
    std::string pre = "c" + std::to_string(++id) + "_";
    double s = c["cfg"]["s"], off = c["cfg"].value("off", 0.0);
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "stat") rofl::Profiler::getProfiler().updateStat(pre + op["a"].get<std::string>(), (op["t"].get<int>() + off) * s);
        else if (o == "print") {
            json rs = json::array();
            for (auto& w : rows(pre)) rs.push_back({{"a", w.a}, {"avg", th(w.v[0] / s - off)}, {"var", th(w.v[1] / (s * s))}, {"min", th(w.v[2] / s - off)}, {"max", th(w.v[3] / s - off)}, {"n", w.n}});
            e["rows"] = rs;
        } else if (o == "nest") {   // k nested scopes under one label, one more label around them all
            std::string lab = "n" + pre + std::to_string(evs.size()), outer = "o" + lab;
            int k = op["k"];
            {
                rofl::ScopedTimer a(outer);
                std::function<void(int)> rec = [&](int d) {
                    rofl::ScopedTimer t(lab);
                    auto t1 = std::chrono::steady_clock::now();
                    while (std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t1).count() < 0.1) { }
                    if (d > 1) rec(d - 1);
                };
                rec(k);
            }
            auto rs = rows(lab), os = rows(outer);
            e["count"] = rs.size() == 1 ? rs[0].n : -1;
            e["around"] = os.size() == 1 ? os[0].n : -1;
            // the innermost scope lasts at least one pause, the outermost at least k, and the one around as long as that
            e["stored"] = rs.size() == 1 && os.size() == 1 && rs[0].v[2] >= 0.1 - 1e-9 && rs[0].v[3] >= 0.1 * k - 1e-9 && os[0].v[3] >= rs[0].v[3] - 1e-9
                          && rs[0].v[0] >= 0.1 * (k + 1) / 2 - 1e-9;
        } else {   // timer: k nested or successive scopes under one label
            using C = std::chrono::steady_clock;
            std::string lab = "t" + pre + std::to_string(evs.size());
            bool mono = true, inside = true;
            double least = 1e18, last = 0;
            for (int i = 0; i < op["k"].get<int>(); ++i) {
                auto t0 = C::now();
                {
                    rofl::ScopedTimer t(lab);
                    auto t1 = C::now();
                    double a = t.elapsedTimeMs();
                    while (std::chrono::duration<double, std::milli>(C::now() - t1).count() < 0.2) { }
                    auto t2 = C::now();
                    double b = t.elapsedTimeMs();
                    mono = mono && a >= 0 && a <= b;
                    // between the inner and the outer measured time, in milliseconds
                    double outer = std::chrono::duration<double, std::milli>(C::now() - t0).count();
                    double inner = std::chrono::duration<double, std::milli>(t2 - t1).count();
                    inside = inside && b >= inner && b <= outer;
                    last = b;
                    if (b < least) least = b;
                }
            }
            auto rs = rows(lab);
            e["mono"] = mono; e["inside"] = inside;
            e["count"] = rs.size() == 1 ? rs[0].n : -1;
            e["stored"] = rs.size() == 1 && rs[0].v[2] >= least - 1e-9 && rs[0].v[3] >= rs[0].v[2] && rs[0].v[3] >= last - 1e-9;
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
