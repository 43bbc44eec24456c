// Shared by the drivers: script reading, one child process per history, ndjson output.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

namespace drv {
inline FILE*& out() { static FILE* f = nullptr; return f; }
inline std::string jl(const std::vector<int>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
inline std::string jll(const std::vector<std::vector<int>>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + jl(v[i]);
    return s + "]";
}
inline void emit(const std::string& body) { fputs(("{" + body + "}\n").c_str(), out()); fflush(out()); }
inline std::string kv(const char* k, const std::string& v) { return std::string("\"") + k + "\":" + v; }
inline std::string ks(const char* k, const std::string& v) { return std::string("\"") + k + "\":\"" + v + "\""; }
inline std::string kb(const char* k, bool v) { return std::string("\"") + k + "\":" + (v ? "true" : "false"); }
inline std::string ki(const char* k, long v) { return std::string("\"") + k + "\":" + std::to_string(v); }
inline std::vector<int> ints(std::istream& is) { std::vector<int> c; int l; while (is >> l) c.push_back(l); return c; }
inline std::vector<std::vector<int>> clauses(std::istream& is) {
    std::vector<std::vector<int>> cs; std::vector<int> c; int l;
    while (is >> l) { if (l) c.push_back(l); else { cs.push_back(c); c.clear(); } }
    return cs;
}
// run(lines) is called in a child process for each history
inline int main_(int argc, char** argv, std::function<void(const std::vector<std::string>&)> run) {
    std::ifstream in(argv[1]); out() = fopen(argv[2], "w");
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    std::string ln, name; std::vector<std::string> cur; int limit = 30, hung = 0;
    while (std::getline(in, ln)) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "begin") { is >> name; cur.clear(); limit = 30; continue; }
        if (op == "limit") { is >> limit; continue; }
        if (op != "end") { cur.push_back(ln); continue; }
        emit(ks("e", "begin") + "," + ks("id", name));
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl = { (rlim_t)limit, (rlim_t)limit + 1 }; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit as = { 2560ull << 20, 2560ull << 20 };
            if (!getenv("VERIF_SAN")) setrlimit(RLIMIT_AS, &as);
            struct rlimit co = { 0, 0 }; setrlimit(RLIMIT_CORE, &co);
            run(cur); fflush(out()); _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        fseek(out(), 0, SEEK_END);
        if (WIFSIGNALED(st)) emit(ks("e", "crash") + "," + ki("sig", WTERMSIG(st)));
        else if (WEXITSTATUS(st) != 0) emit(ks("e", "crash") + "," + ki("sig", 1000 + WEXITSTATUS(st)));
        // the rest is not recorded: each of the histories could use up its time
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) && ++hung == 2) break;
    }
    fclose(out());
    return 0;
}
}
