// Shared driver of all conformance harnesses.
//   harness CASES.ndjson OUT.ndjson START CPU_LIMIT_S
// Interprets one case (JSON object) per line against the real rofl code through its
// public API and writes one recorded behaviour per line.  If the code under test crashes,
// aborts, exits or loops, the process dies; the runner records that as a "crash" event.
#pragma once
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

using json = nlohmann::json;

json runCase(const json& c);

extern "C" __attribute__((used)) inline const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:detect_odr_violation=0";
}

static void onTimeout(int) { _exit(98); }

int main(int argc, char** argv) {
    if (argc < 5) return 97;
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "a");
    long start = std::atol(argv[3]);
    long lim = std::atol(argv[4]);
    if (!in || !out) return 97;
    std::fputs("", out);
    std::fprintf(stderr, "HARNESS-STARTED\n");
    std::fflush(stderr);
    // silence the library's own chatter
    if (!std::freopen("/dev/null", "w", stdout)) return 97;
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
    std::clog.rdbuf(nullptr);
    signal(SIGPROF, onTimeout);
    std::string line;
    long i = 0;
    while (std::getline(in, line)) {
        if (i++ < start) continue;
        struct itimerval tv = {{0, 0}, {lim, 0}};
        setitimer(ITIMER_PROF, &tv, nullptr);
        json r = runCase(json::parse(line));
        std::string s = r.dump();
        s += "\n";
        std::fwrite(s.data(), 1, s.size(), out);
        std::fflush(out);
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    std::fclose(out);
    _exit(0);
}
