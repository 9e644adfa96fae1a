#include "common.h"
#include <cmath>
#include <cstddef>
#include <rofl/common/vector_array.h>

static double K = 1;
template <typename T> static long val(T x) { double d = (double) x * K; return d == std::floor(d) && std::fabs(d) < 1e8 ? (long) d : 99999999; }

template <typename T, size_t D> json run(const json& c) {
    using V = rofl::VectorArray<T, D>;
    std::vector<V> reg(c["cfg"]["regs"].get<int>());
    json evs = json::array();
    K = c["cfg"]["k"].get<int>();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        V& d = reg[op["d"].get<int>() - 1];
        auto a = [&]() -> const V& { return reg[op["a"].get<int>() - 1]; };
        auto b = [&]() -> const V& { return reg[op["b"].get<int>() - 1]; };
        V ret;
        if (o == "add") ret = d = a() + b();
        else if (o == "sub") ret = d = a() - b();
        else if (o == "mul") ret = d = a() * b();
        else if (o == "div") {
            ret = d = a() / b();
            json f = json::array();
            for (size_t i = 0; i < D; ++i) f.push_back((long) std::lround((double) d[i] * 1000));
            e["fine"] = f;
            if (K == 1)
            for (size_t i = 0; i < D; ++i) { d[i] = (T) std::trunc((double) d[i]); ret[i] = d[i]; }   // floating-point types: compare quotients
        }
        else if (o == "scale") ret = d = a() * (T) (op["s"].get<int>() / K);
        else if (o == "addeq") ret = (d += b());
        else if (o == "muleq") ret = (d *= b());
        else if (o == "scaleeq") ret = (d *= (T) (op["s"].get<int>() / K));
        else if (o == "scaleown") ret = (d *= d[op["i"].get<int>() - 1]);
        else if (o == "put") { if (op["how"] == 0) d(op["i"].get<int>() - 1) = (T) (op["s"].get<int>() / K); else d[op["i"].get<int>() - 1] = (T) (op["s"].get<int>() / K); ret = d; }
        else if (o == "copy") { V t(a()); d = t; ret = t; }
        else { d = V(); ret = V(); }
        json r1 = json::array(), r2 = json::array(), rt = json::array();
        for (const V& v : reg) {
            json x = json::array(), y = json::array();
            for (size_t i = 0; i < D; ++i) { x.push_back(val(v(i))); y.push_back(val(v[i])); }
            r1.push_back(x); r2.push_back(y);
        }
        for (size_t i = 0; i < D; ++i) rt.push_back(val(ret(i)));
        e["reg"] = r1; e["reg2"] = r2; e["ret"] = rt;
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}

template <typename T> json dims(const json& c) {
    switch (c["cfg"]["dim"].get<int>()) {
        case 1: return run<T, 1>(c);
        case 2: return run<T, 2>(c);
        case 3: return run<T, 3>(c);
        case 16: return run<T, 16>(c);
        default: return run<T, 5>(c);
    }
}
json runCase(const json& c) {
    std::string t = c["cfg"]["type"];
    return t == "int" ? dims<int>(c) : t == "long" ? dims<long>(c) : t == "float" ? dims<float>(c) : dims<double>(c);
}
