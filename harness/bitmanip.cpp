#include "bits.h"
#include <rofl/common/numeric_traits.h>
using namespace rofl;
template <typename I> json typed(const json& op) {
    json rs = json::array();
    for (auto& b : op["xs"]) {
        I x = fromBits<I>(b);
        rs.push_back({{"x", b}, {"nlz", (int) nlz<I>(x)}, {"log", (int) log2Mod<I>(x)}, {"fl", toBits<I>(floorPow2<I>(x))}, {"ce", toBits<I>(ceilPow2<I>(x))}});
    }
    return {{"op", "typed"}, {"w", op["w"]}, {"sg", op["sg"]}, {"rs", rs}};
}
template <typename U, typename N, typename F, typename C> json raw(const json& op, N n, F f, C c) {
    json rs = json::array();
    for (auto& b : op["xs"]) {
        U x = fromBits<U>(b);
        rs.push_back({{"x", b}, {"nlz", (int) n(x)}, {"fl", toBits<U>(f(x))}, {"ce", toBits<U>(c(x))}});
    }
    return {{"op", "raw"}, {"w", op["w"]}, {"rs", rs}};
}
json runCase(const json& c) {
    json evs = json::array();
    for (auto& op : c["ops"]) {
        int w = op["w"]; bool sg = op["sg"];
        if (op["op"] == "raw") evs.push_back(w == 8 ? raw<uint8_t>(op, nlz8, flp2u8, clp2u8) : w == 16 ? raw<uint16_t>(op, nlz16, flp2u16, clp2u16) : w == 32 ? raw<uint32_t>(op, nlz32, flp2u32, clp2u32) : raw<uint64_t>(op, nlz64, flp2u64, clp2u64));
        else if (sg) evs.push_back(w == 8 ? typed<int8_t>(op) : w == 16 ? typed<int16_t>(op) : w == 32 ? typed<int32_t>(op) : typed<int64_t>(op));
        else evs.push_back(w == 8 ? typed<uint8_t>(op) : w == 16 ? typed<uint16_t>(op) : w == 32 ? typed<uint32_t>(op) : typed<uint64_t>(op));
    }
    return {{"cfg", json::object()}, {"ev", evs}};
}
