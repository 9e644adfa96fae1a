#include "bits.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <rofl/common/macros.h>
#include <rofl/common/morton_sort.h>
using namespace rofl;
template <typename T> const char* cls(T f) {
    switch (std::fpclassify(f)) { case FP_NAN: return "nan"; case FP_INFINITE: return "inf"; case FP_ZERO: return "zero"; case FP_NORMAL: return "normal"; default: return "sub"; }
}
template <typename F> json flt(const json& op) {
    using T = FloatTraits<F>;
    using I = typename T::IntegerType;
    json rs = json::array();
    for (auto& b : op["xs"]) {
        F f = fromBits<F>(b);
        I m, e; bool s;
        T::decompose(f, m, e, s);
        F back = T::compose(m, e, s);
        // (-1)^s (1 + m 2^-lm) 2^e, computed exactly by long double arithmetic
        long double v = std::ldexp(1.0L + std::ldexp((long double) m, -T::MANTISSA_BITS), (int) e);
        rs.push_back({{"x", b}, {"m", toBits<I>(m)}, {"e", (int) e}, {"s", s}, {"back", toBits<F>(back)}, {"int", toBits(T::toInt(f))}, {"formula", (s ? -v : v) == (long double) f}, {"class", cls(f)}});
    }
    return {{"op", "float"}, {"w", op["w"]}, {"rs", rs}};
}
template <typename F> json consts(const json& op) {
    using T = FloatTraits<F>;
    using I = typename T::IntegerType;
    I sg = T::SIGN_MASK, ex = T::EXPONENT_MASK, mn = T::MANTISSA_MASK, im = T::MANTISSA_IMPLICIT_BIT, lo = T::EXPONENT_MIN, hi = T::EXPONENT_MAX;
    int bn = T::BIT_NUM, mb = T::MANTISSA_BITS, eb = T::EXPONENT_BITS, bi = T::EXPONENT_BIAS;
    return {{"op", "consts"}, {"w", op["w"]}, {"c", {{"bits", bn}, {"mb", mb}, {"eb", eb}, {"bias", bi}, {"emin", (int) lo}, {"emax", (int) hi}, {"sign", toBits<I>(sg)}, {"exp", toBits<I>(ex)}, {"man", toBits<I>(mn)}, {"impl", toBits<I>(im)}}}};
}
template <typename T> std::vector<T> vec(const json& j) { std::vector<T> v; for (auto& b : j) v.push_back(fromBits<T>(b)); return v; }
template <typename T> json jvec(const T* v, int n) { json r = json::array(); for (int i = 0; i < n; ++i) r.push_back(toBits<T>(v[i])); return r; }

template <typename T, size_t D> json cmp(const json& op) {
    json rs = json::array();
    for (auto& x : op["xs"]) {
        auto a = vec<T>(x["a"]), b = vec<T>(x["b"]);
        json r = x;
        r["lt"] = MortonTraits<T, D>::compare(a.data(), b.data());
        r["gt"] = MortonTraits<T, D>::compare(b.data(), a.data());
        r["dist"] = MortonTraits<T, D>::distance(a.data(), b.data());
        if constexpr (std::is_integral_v<T>) {
            using U = typename IntegerTraits<T>::UnsignedType;
            json ms = json::array();
            for (size_t d = 0; d < D; ++d) ms.push_back(msb<U>((U) a[d], (U) b[d]));
            r["msb"] = ms;
        }
        rs.push_back(r);
    }
    return {{"op", op["op"]}, {"w", op["w"]}, {"sg", op["sg"]}, {"rs", rs}};
}
template <typename T, size_t D> json split(const json& op) {
    json rs = json::array();
    for (auto& x : op["xs"]) {
        auto a = vec<T>(x["a"]), b = vec<T>(x["b"]);
        json r = x, iv = json::array();
        for (size_t d = 0; d < D; ++d) {
            T lo = 0, mi = 0, up = 0; int lev;
            if constexpr (std::is_integral_v<T>) lev = intervalPow2Int<T>(a[d], b[d], lo, mi, up);
            else lev = intervalPow2Float<T>(a[d], b[d], lo, mi, up);
            iv.push_back({{"low", toBits<T>(lo)}, {"mid", toBits<T>(mi)}, {"upp", toBits<T>(up)}, {"level", lev}});
        }
        r["iv"] = iv;
        T lo[D], mi[D], up[D];
        MortonTraits<T, D>::split(a.data(), b.data(), lo, mi, up);
        r["low"] = jvec(lo, D); r["mid"] = jvec(mi, D); r["upp"] = jvec(up, D);
        rs.push_back(r);
    }
    return {{"op", op["op"]}, {"w", op["w"]}, {"sg", op["sg"]}, {"rs", rs}};
}
template <typename T> json vecs(const json& op) {
    std::string o = op["op"];
    bool c = o == "cmp" || o == "fcmp";
    switch (op["d"].get<int>()) {
        case 1: return c ? cmp<T, 1>(op) : split<T, 1>(op);
        case 2: return c ? cmp<T, 2>(op) : split<T, 2>(op);
        case 3: return c ? cmp<T, 3>(op) : split<T, 3>(op);
        case 7: return c ? cmp<T, 7>(op) : split<T, 7>(op);
        default: return c ? cmp<T, 4>(op) : split<T, 4>(op);
    }
}
json runCase(const json& c) {
    json evs = json::array();
    for (auto& op : c["ops"]) {
        std::string o = op["op"];
        int w = op["w"]; bool sg = op["sg"];
        if (o == "float") evs.push_back(w == 32 ? flt<float>(op) : flt<double>(op));
        else if (o == "consts") evs.push_back(w == 32 ? consts<float>(op) : consts<double>(op));
        else if (o[0] == 'f') evs.push_back(w == 32 ? vecs<float>(op) : vecs<double>(op));
        else if (sg) evs.push_back(w == 8 ? vecs<int8_t>(op) : w == 16 ? vecs<int16_t>(op) : w == 32 ? vecs<int32_t>(op) : vecs<int64_t>(op));
        else evs.push_back(w == 8 ? vecs<uint8_t>(op) : w == 16 ? vecs<uint16_t>(op) : w == 32 ? vecs<uint32_t>(op) : vecs<uint64_t>(op));
    }
    return {{"cfg", json::object()}, {"ev", evs}};
}
