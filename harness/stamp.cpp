// The wall clock is replaced by a settable one, in every form the library can read it.
#include "common.h"
#include <rofl/common/io.h>
#include <ctime>
#include <sys/syscall.h>

static long fakeNow = 0;
static bool faking = false;
static void realClock(clockid_t id, struct timespec* ts) { syscall(SYS_clock_gettime, id, ts); }
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    realClock(id, ts);
    if (faking && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = fakeNow; ts->tv_nsec = 999000000; }
    return 0;
}
time_t time(time_t* t) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
int timespec_get(struct timespec* ts, int base) noexcept { clock_gettime(CLOCK_REALTIME, ts); return base; }
}

json runCase(const json& c) {
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        const json& z = op["zone"];         // local = UTC + off (+ dst in summer) seconds
        auto hms = [](long v) { char b[32]; std::snprintf(b, sizeof b, "%s%02ld:%02ld:%02ld", v < 0 ? "-" : "", std::labs(v) / 3600, std::labs(v) / 60 % 60, std::labs(v) % 60); return std::string(b); };
        auto rule = [&](const json& r) { return ",M" + std::to_string(r[0].get<int>()) + "." + std::to_string(r[1].get<int>()) + "." + std::to_string(r[2].get<int>()) + "/" + hms(r[3].get<long>()); };
        long off = z["off"], dst = z["dst"];
        std::string tz = "STD" + hms(-off);
        if (dst != 0) tz += "DST" + hms(-(off + dst)) + rule(z["start"]) + rule(z["end"]);
        setenv("TZ", tz.c_str(), 1); tzset();
        auto str = [](const json& v) { std::string s; for (auto& x : v) s += x.get<std::string>(); return s; };
        std::string pre = str(op["prefix"]), post = str(op["postfix"]), s;
        struct timespec lo, hi;
        realClock(CLOCK_REALTIME, &lo);
        fakeNow = op["t"][0].get<long>() * 86400L + op["t"][1].get<long>(); faking = true;
        s = pre.empty() && post.empty() ? rofl::generateStampedString() : post.empty() ? rofl::generateStampedString(pre) : rofl::generateStampedString(pre, post);
        faking = false;
        realClock(CLOCK_REALTIME, &hi);
        json r = json::array();
        for (char ch : s) r.push_back(std::string(1, ch));
        e["res"] = r;
        e["real"] = json::array({lo.tv_sec / 86400, lo.tv_sec % 86400}); e["span"] = hi.tv_sec - lo.tv_sec;
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
