#include "common.h"
#include <rofl/common/io.h>
#include <filesystem>
#include <map>
#include <sys/stat.h>
namespace fs = std::filesystem;

json runCase(const json& c) {
    static int serial = 0;
    const char* base = getenv("ROFL_SCRATCH");
    fs::path root = fs::path(base ? base : "/tmp") / ("dir_" + std::to_string(getpid()) + "_" + std::to_string(serial++));
    fs::create_directory(root);
    fs::path back = fs::current_path();
    fs::current_path(root);
    fs::create_directory("t");
    std::ofstream("t/target") << "x";
    fs::create_directory("d1");
    fs::create_directory("d2");
    const json& cfg = c["cfg"];
    std::map<std::string, int> rank;
    for (size_t i = 0; i < cfg["strings"].size(); ++i) rank[cfg["strings"][i].get<std::string>()] = (int) i + 1;
    json evs = json::array();
    std::vector<std::string> list;
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "mk" || o == "rm") {
            std::string p = "d" + std::to_string(op["d"].get<int>()) + "/" + cfg["names"][op["n"].get<int>() - 1].get<std::string>();
            if (o == "rm") fs::remove_all(p);
            else {
                std::string k = op["k"];
                if (k == "file") std::ofstream(p) << "content";
                else if (k == "empty") std::ofstream(p).close();
                else if (k == "exec") { std::ofstream(p) << "#!"; fs::permissions(p, fs::perms::owner_all); }
                else if (k == "link") fs::create_symlink("../t/target", p);
                else if (k == "dir") fs::create_directory(p);
                else if (k == "fulldir") { fs::create_directory(p); std::ofstream(p + "/inner") << "x"; std::ofstream(p + "/a") << "x"; }
                else if (k == "linkdir") fs::create_symlink("../t", p);
                else if (k == "dangling") fs::create_symlink("../nowhere", p);
                else if (k == "fifo") mkfifo(p.c_str(), 0600);
            }
        } else {
            if (o == "set") { list.clear(); for (auto& s : op["v"]) list.push_back(cfg["strings"][s.get<int>() - 1].get<std::string>()); }
            else rofl::getDirectoryFiles(cfg["spell"][op["b"].get<int>() - 1].get<std::string>(), list);
            json r = json::array();
            for (auto& s : list) r.push_back(rank.count(s) ? rank[s] : 0);
            e["res"] = r;
        }
        evs.push_back(e);
    }
    fs::current_path(back);
    fs::remove_all(root);
    return json{{"cfg", cfg}, {"ev", evs}};
}
