#include "vp.h"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vp {
std::vector<Case>& registry() { static std::vector<Case> r; return r; }
std::vector<void(*)()>& units() { static std::vector<void(*)()> u; return u; }
long long counter[16];
static FILE* trace_file = nullptr;
void trace_line(const std::string& s) { if (trace_file) { fputs(s.c_str(), trace_file); fputc('\n', trace_file); } }
bool tracing() { return trace_file != nullptr; }
std::string show(const std::vector<int>& v, std::size_t lim) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size() && i < lim; ++i) s += (i ? "," : "") + std::to_string(v[i]);
    if (v.size() > lim) s += ",...(" + std::to_string(v.size()) + ")";
    return s + "]";
}
static std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
std::string J::dump() const {
    if (k == INT) return std::to_string(i);
    if (k == STR) return quote(s);
    std::string r = "[";
    for (std::size_t n = 0; n < a.size(); ++n) r += (n ? "," : "") + a[n].dump();
    return r + "]";
}
J parse_json(const char*& p) {
    J j;
    while (*p == ' ' || *p == ',' ) ++p;
    if (*p == '[' ) {
        j.k = J::ARR; ++p;
        for (;;) {
            while (*p == ' ' || *p == ',') ++p;
            if (*p == ']') { ++p; break; }
            if (!*p) throw std::runtime_error("bad json");
            j.a.push_back(parse_json(p));
        }
    } else if (*p == '"') {
        j.k = J::STR; ++p;
        while (*p && *p != '"') {
            if (*p == '\\') {
                ++p;
                if (*p == 'u') { j.s += char(strtol(std::string(p + 1, 4).c_str(), nullptr, 16)); p += 5; continue; }
                if (*p == 'n') { j.s += '\n'; ++p; continue; }
                if (*p == 't') { j.s += '\t'; ++p; continue; }
            }
            j.s += *p++;
        }
        ++p;
    } else if (*p == 't') { j.i = 1; p += 4; }
    else if (*p == 'f') { j.i = 0; p += 5; }
    else if (*p == '{') throw std::runtime_error("objects are not used in vectors");
    else { char* e; j.i = strtoll(p, &e, 10); if (e == p) throw std::runtime_error(std::string("bad json at ") + std::string(p, 10)); p = e; }
    return j;
}
static Vec to_vec(const std::string& line) {
    Vec v; const char* p = line.c_str();
    v.raw = parse_json(p);
    if (v.raw.k == J::ARR && v.raw.size() >= 2 && v.raw[1].k == J::ARR) {
        v.tag = v.raw[0].k == J::STR ? v.raw[0].s : std::to_string(v.raw[0].i);
        v.keys = v.raw[1].ints();
        if (v.raw.size() >= 3 && v.raw[2].k == J::ARR) { v.perm = v.raw[2].ints(); for (auto& x : v.perm) --x; }
    }
    return v;
}
struct Shared { volatile long vec, cse, evals, skipped, start; long long counter[16]; };
static Shared* mine = nullptr;
static volatile long last_evals = -1; static volatile int stuck = 0;
static int hang_limit = 15;
static void on_tick(int) {
    if (!mine) return;
    if (mine->evals == last_evals) { if (++stuck >= hang_limit) _exit(77); }
    else { stuck = 0; last_evals = mine->evals; }
}
} // namespace vp
using namespace vp;
int main(int argc, char** argv) {
    std::vector<std::string> files; int nproc = 8; std::string out = "result.json", only, tracedir;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--nproc") nproc = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--trace") tracedir = argv[++i];
        else if (a == "--hang") hang_limit = atoi(argv[++i]);
        else files.push_back(a);
    }
    for (auto u : units()) u();
    auto& reg = registry();
    if (!only.empty()) {                    // parts separated by '|'
        std::vector<std::string> parts; std::size_t b = 0;
        for (std::size_t e; (e = only.find('|', b)) != std::string::npos; b = e + 1) parts.push_back(only.substr(b, e - b));
        parts.push_back(only.substr(b));
        reg.erase(std::remove_if(reg.begin(), reg.end(), [&](const Case& c){
            for (auto& x : parts) if (c.name.find(x) != std::string::npos) return false;
            return true; }), reg.end());
    }
    std::sort(reg.begin(), reg.end(), [](const Case& a, const Case& b){ return a.name < b.name; });
    for (std::size_t i = 1; i < reg.size(); ++i)
        if (reg[i].name == reg[i-1].name) { fprintf(stderr, "duplicate case %s\n", reg[i].name.c_str()); return 3; }
    std::vector<Vec> vecs;
    for (auto& f : files) {
        std::ifstream in(f); std::string line;
        if (!in) { fprintf(stderr, "cannot read %s\n", f.c_str()); return 3; }
        while (std::getline(in, line)) if (!line.empty()) vecs.push_back(to_vec(line));
    }
    if (vecs.empty() || reg.empty()) { fprintf(stderr, "no vectors or no cases\n"); return 3; }
    // longest first, so that the shards are balanced
    std::vector<std::size_t> order(vecs.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](std::size_t a, std::size_t b){ return vecs[a].n() < vecs[b].n(); });
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * nproc, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    struct Fail { std::string c, v, m; };
    std::vector<Fail> fails;
    std::map<pid_t, int> kids;
    auto spawn = [&](int w) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            mine = &sh[w];
            std::map<std::string, int> seen; int total = 0;
            FILE* fo = fopen((out + "." + std::to_string(w)).c_str(), "a");
            if (!tracedir.empty()) trace_file = fopen((tracedir + "/t" + std::to_string(w) + ".ndjson").c_str(), "a");
            struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            struct rlimit ra{4ull << 30, 4ull << 30}; if (getenv("VP_NO_AS") == nullptr) setrlimit(RLIMIT_AS, &ra);
            signal(SIGVTALRM, on_tick);
            struct itimerval tv; tv.it_interval.tv_sec = tv.it_value.tv_sec = 1; tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
            setitimer(ITIMER_VIRTUAL, &tv, nullptr);
            for (std::size_t k = std::size_t(mine->start); k < order.size(); k += std::size_t(nproc)) {
                const Vec& v = vecs[order[k]];
                mine->vec = long(k);
                for (std::size_t c = 0; c < reg.size(); ++c) {
                    if (v.n() > reg[c].max_n) { mine->skipped = mine->skipped + 1; continue; }
                    mine->cse = long(c);
                    std::string m;
                    try { m = reg[c].run(v); }
                    catch (const std::exception& e) { m = std::string("exception escaped: ") + e.what(); }
                    catch (...) { m = "unknown exception escaped"; }
                    mine->evals = mine->evals + 1;
                    if (m == "skip") { mine->skipped = mine->skipped + 1; mine->evals = mine->evals - 1; continue; }
                    if (!m.empty() && seen[reg[c].name]++ < 3 && total++ < 200) {
                        fprintf(fo, "%s\t%s\t%s\n", reg[c].name.c_str(), v.raw.dump().c_str(), m.c_str());
                        fflush(fo);
                    }
                }
            }
            for (int i = 0; i < 16; ++i) mine->counter[i] += counter[i];
            fclose(fo); if (trace_file) fclose(trace_file);
            _exit(0);
        }
        kids[p] = w;
    };
    for (int w = 0; w < nproc; ++w) {
        remove((out + "." + std::to_string(w)).c_str());
        memset(&sh[w], 0, sizeof(Shared)); sh[w].start = w;
    }
    for (int w = 0; w < nproc; ++w) spawn(w);
    std::map<int, int> respawns;
    while (!kids.empty()) {
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        int w = kids[p]; kids.erase(p);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        std::string why = WIFSIGNALED(st) ? std::string("process died: signal ") + std::to_string(WTERMSIG(st))
                        : WEXITSTATUS(st) == 77 ? std::string("no progress: call does not return")
                        : std::string("process exited with ") + std::to_string(WEXITSTATUS(st));
        fails.push_back({reg[std::size_t(sh[w].cse)].name, vecs[order[std::size_t(sh[w].vec)]].raw.dump(), why});
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed\n"); return 4; }
        if (++respawns[w] < 2) { sh[w].start = sh[w].vec + nproc; spawn(w); }
    }
    long evals = 0, skipped = 0; long long ctr[16] = {};
    for (int w = 0; w < nproc; ++w) {
        evals += sh[w].evals; skipped += sh[w].skipped;
        for (int i = 0; i < 16; ++i) ctr[i] += sh[w].counter[i];
        std::ifstream in(out + "." + std::to_string(w)); std::string l;
        while (std::getline(in, l)) {
            auto a = l.find('\t'), b = l.find('\t', a + 1);
            if (a == std::string::npos || b == std::string::npos) continue;
            fails.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
        }
        in.close(); remove((out + "." + std::to_string(w)).c_str());
    }
    std::ofstream o(out);
    o << "{\"cases\":" << reg.size() << ",\"vectors\":" << vecs.size() << ",\"evaluations\":" << evals << ",\"skipped\":" << skipped << ",\"counters\":[";
    for (int i = 0; i < 16; ++i) o << (i ? "," : "") << ctr[i];
    o << "],\"failures\":[";
    for (std::size_t i = 0; i < fails.size(); ++i)
        o << (i ? ",\n" : "\n") << "{\"case\":" << quote(fails[i].c) << ",\"vector\":" << quote(fails[i].v) << ",\"what\":" << quote(fails[i].m) << "}";
    o << "],\"case_names\":[";
    for (std::size_t i = 0; i < reg.size(); ++i) o << (i ? "," : "") << quote(reg[i].name);
    o << "]}\n";
    return 0;
}
