// worker: run seeds; replay: judge one plan; see check.py
#include "run.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static void arm(int cpu_s) {
    itimerval v{};
    v.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_VIRTUAL, &v, nullptr);
    alarm(static_cast<unsigned>(cpu_s) * 15);
}
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static void with_trace(Plan& p, const std::vector<int>& trace) {
    if (p.prop != "C13" || p.tasks.size() < 2) return;
    p.sched = trace;
    p.sched.push_back(1000000000); // the default choice from here on
    p.sched.push_back(-1);
}
static std::string json(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        r += c;
    }
    return r + "\"";
}

static int worker(int argc, char** argv) {
    // prop base start stride runs seconds out
    if (argc < 9) return 2;
    const Property* P = find_property(argv[2]);
    if (!P) return 2;
    uint64_t base = std::strtoull(argv[3], nullptr, 10);
    uint64_t start = std::strtoull(argv[4], nullptr, 10), stride = std::strtoull(argv[5], nullptr, 10);
    uint64_t runs = std::strtoull(argv[6], nullptr, 10);
    double secs = std::atof(argv[7]);
    std::string out = argv[8];
    bool hashes = argc > 9 && std::strcmp(argv[9], "hashes") == 0;
    int fd = open((out + ".seed").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 16) != 0) return 2;
    auto* cur = static_cast<volatile uint64_t*>(mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    double t0 = now();
    std::unordered_set<uint64_t> seen;
    std::vector<uint64_t> all;
    std::vector<std::string> samples;
    int rc = 0;
    uint64_t k = 0, checked = 0, rescheduled = 0;
    for (; k < runs; ++k) {
        if (k % 64 == 0) {
            arm(20);
            if (now() - t0 > secs) break;
        }
        uint64_t seed = base * 1000000007ull + start + k * stride;
        cur[0] = seed;
        cur[1] = 1;
        Plan p = P->gen(seed);
        p.prop = P->id;
        p.seed = seed;
        bool nt = false;
        uint64_t h = 0;
        std::vector<int> trace;
        std::string v = P->check(p, nt, h, &trace);
        ++g_stats.runs;
        if (v.empty() && k % 97 == 0) { // one seed is one execution
            bool nt2 = false;
            uint64_t h2 = 0, sched = g_stats.schedule;
            std::string v2 = P->check(p, nt2, h2, nullptr);
            ++checked;
            if (g_stats.schedule != sched) ++rescheduled; // steps of the code that depend on addresses
            if (h2 != h || v2 != v) {
                std::printf("NONDETERMINISM seed %llu\n", static_cast<unsigned long long>(seed));
                std::ofstream(out + ".plan") << plan_to_text(p);
                return 3;
            }
        }
        if (hashes) all.push_back(h);
        if (nt) {
            ++g_stats.nontrivial;
            if (seen.size() < 400000) seen.insert(h ^ g_stats.schedule);
            if (samples.size() < 1 && k > 20) samples.push_back(plan_to_text(p));
        }
        if (!v.empty()) {
            with_trace(p, trace);
            std::ofstream(out + ".plan") << plan_to_text(p);
            std::ofstream(out + ".msg") << v;
            rc = 1;
            break;
        }
    }
    cur[1] = 0;
    std::ofstream o(out + ".json");
    auto& s = g_stats;
    o << "{\"runs\":" << s.runs << ",\"executions\":" << s.executions << ",\"ops\":" << s.ops << ",\"nontrivial\":" << s.nontrivial
      << ",\"sim_ms\":" << s.sim_ms << ",\"yield_points\":" << s.yields << ",\"switches\":" << s.switches << ",\"preemptions\":" << s.edges << ",\"reads\":" << s.reads
      << ",\"events_ok\":" << s.rows_ok << ",\"events_error\":" << s.rows_bad << ",\"events_oom\":" << s.oom_seen << ",\"events_user\":" << s.user_seen
      << ",\"max_work\":" << s.max_work << ",\"rechecked\":" << checked << ",\"rescheduled\":" << rescheduled << ",\"last\":" << k << ",\"faults\":{";
    bool first = true;
    for (auto& [n, c] : s.faults) {
        o << (first ? "" : ",") << json(n) << ":" << c;
        first = false;
    }
    o << "},\"reached\":{";
    static const char* const pn[] = {"use_fields_ok", "use_fields_failed", "multiline_row", "row_over_15_lines", "row_after_line_100", "row_after_8K",
                                     "row_after_bad_row", "request_at_end", "moved_before_end"};
    for (size_t i = 0; i < s.probes.size(); ++i) {
        std::string n = i < P_CHAIN ? "row_types_" + std::to_string(i) : i < P_ITER ? "chain_" + std::to_string(i - P_CHAIN)
                        : i < P_USE_OK ? "iteration_" + std::to_string(i - P_ITER) : pn[i - P_USE_OK];
        o << (i ? "," : "") << json(n) << ":" << s.probes[i];
    }
    o << "}}\n";
    std::ofstream hs(out + ".hashes", std::ios::binary);
    if (hashes) hs.write(reinterpret_cast<const char*>(all.data()), static_cast<long>(all.size() * 8));
    else
        for (uint64_t h : seen) hs.write(reinterpret_cast<const char*>(&h), 8);
    if (!samples.empty()) std::ofstream(out + ".sample") << samples[0];
    return rc;
}

// a replay file holds one plan, or several which are run one after another in one process
static int replay(const char* file, bool verbose, bool hash_only) {
    std::ifstream in(file);
    std::vector<std::string> texts;
    std::string line;
    while (std::getline(in, line)) {
        if (line.rfind("simplan", 0) == 0) texts.emplace_back();
        if (!texts.empty()) texts.back() += line + "\n";
    }
    if (texts.empty()) return 2;
    arm(20);
    for (size_t i = 0; i < texts.size(); ++i) {
        Plan p;
        if (!plan_from_text(texts[i], p)) return 2;
        const Property* P = find_property(p.prop);
        if (!P) return 2;
        bool show_it = verbose && i + 1 == texts.size();
        if (show_it) {
            std::printf("%s", plan_to_text(p).c_str());
            std::fflush(stdout);
        }
        bool nt = false;
        uint64_t h = 0;
        std::string v = P->check(p, nt, h, nullptr);
        if (hash_only) std::printf("HASH %016llx\n", static_cast<unsigned long long>(h));
        if (show_it) {
            Exec x;
            execute(p, x);
            for (auto& r : x.runs) std::printf("--- task %d\n%s", r->c.id, history_text(r->h, *r->t).c_str());
        }
        if (!v.empty()) {
            std::printf("BROKEN %s\n", v.c_str());
            return 1;
        }
    }
    std::printf("HOLDS\n");
    return 0;
}

int main(int argc, char** argv) {
    if (argc >= 3 && std::strcmp(argv[1], "--worker") == 0) return worker(argc, argv);
    if (argc >= 3 && std::strcmp(argv[1], "--replay") == 0) return replay(argv[2], argc > 3 && std::strcmp(argv[3], "-v") == 0, argc > 3 && std::strcmp(argv[3], "-h") == 0);
    if (argc >= 4 && std::strcmp(argv[1], "--plan") == 0) {
        const Property* P = find_property(argv[2]);
        if (!P) return 2;
        uint64_t seed = std::strtoull(argv[3], nullptr, 10);
        uint64_t n = argc > 4 ? std::strtoull(argv[4], nullptr, 10) : 1, stride = argc > 5 ? std::strtoull(argv[5], nullptr, 10) : 1;
        for (uint64_t i = 0; i < n; ++i, seed += stride) {
            Plan p = P->gen(seed);
            p.prop = P->id;
            p.seed = seed;
            std::cout << plan_to_text(p);
        }
        return 0;
    }
    return 2;
}
