#include "common.h"
#include <algorithm>
#include <cmath>
#include <rofl/common/tls_scalar_consensus.h>

template <typename T> json play(const json& c) {
    json evs = json::array();
    std::vector<bool> inl(7, true);      // results of earlier calls are handed to the next one
    T est = T(123);
    for (auto& op : c["ops"]) {
        json e = op;
        double off = op["off"], q = op["u"]["n"].get<double>() / op["u"]["d"].get<double>();
        std::vector<T> x, r;
        for (auto& v : op["x"]) x.push_back((T)((v.get<int>() + off) * q));
        for (auto& v : op["r"]) r.push_back((T)(v.get<int>() * q));
        rofl::estimateTranslationTls<T>(x, r, est, inl);
        double y = ((double) est / q - off) * 1000;
        e["est"] = std::isfinite(y) && std::fabs(y) < 1e6 ? std::lround(y) : 9999999;
        json f = json::array();
        for (bool b : inl) f.push_back(b);
        e["inl"] = f;
        e.erase("off");
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
json runCase(const json& c) { return c["cfg"]["f"].get<bool>() ? play<float>(c) : play<double>(c); }
