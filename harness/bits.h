// machine words as arrays of bits, most significant first
#pragma once
#include "common.h"
#include <cstdint>
#include <cstring>
#include <type_traits>
template <typename T> T fromBits(const json& b) {
    uint64_t u = 0;
    for (auto& x : b) u = (u << 1) | (uint64_t) x.get<int>();
    if constexpr (std::is_floating_point_v<T>) {
        T f; if constexpr (sizeof(T) == 4) { uint32_t v = (uint32_t) u; std::memcpy(&f, &v, 4); } else std::memcpy(&f, &u, 8);
        return f;
    } else return (T) u;
}
template <typename T> json toBits(T t) {
    uint64_t u = 0;
    if constexpr (std::is_floating_point_v<T>) {
        if constexpr (sizeof(T) == 4) { uint32_t v; std::memcpy(&v, &t, 4); u = v; } else std::memcpy(&u, &t, 8);
    } else u = (uint64_t) t;
    json r = json::array();
    for (int i = (int) sizeof(T) * 8 - 1; i >= 0; --i) r.push_back((int) ((u >> i) & 1));
    return r;
}
