// Executing a plan, generating plans, judging executions.
#pragma once
#include "core.hpp"
#include "model.hpp"
#include <map>

namespace sim {

struct TaskRun {
    const Task* t = nullptr;
    History h;
    TaskCtx c;
    std::shared_ptr<Source> main, aux0, aux2;
    bool is_conv = false;
};

enum Probe { P_CHAIN = SIGS, P_ITER = P_CHAIN + CHAINS, P_USE_OK = P_ITER + ITERS, P_USE_BAD, P_MULTI, P_TALL, P_ROW_100, P_8K, P_AFTER_BAD,
             P_PAST_END, P_MOVED, PROBES };

struct Stats {
    uint64_t runs = 0;       // plans judged
    uint64_t executions = 0; // real executions of the library
    uint64_t ops = 0;
    uint64_t nontrivial = 0;
    uint64_t sim_ms = 0;
    uint64_t max_work = 0;   // steps per byte
    uint64_t schedule = 0;   // hash of the last interleaving
    uint64_t yields = 0, switches = 0, edges = 0, reads = 0;
    uint64_t rows_ok = 0, rows_bad = 0, eof_seen = 0, oom_seen = 0, user_seen = 0;
    std::map<std::string, uint64_t> faults; // fired
    std::vector<uint64_t> probes; // how often situations were reached
};
extern Stats g_stats;

struct Exec {
    std::vector<std::unique_ptr<TaskRun>> runs;
    SchedStats sched;
    size_t leaked = 0;
    std::string leak_desc;
    std::string violation; // broken by any execution, whatever the property
};

// run all tasks of the plan one after another (or interleaved by the scheduler)
void execute(const Plan&, Exec&, bool interleave = false, const std::vector<int>* script = nullptr);
void execute_task(const Task&, TaskRun&);

enum Mask { M_ROWS = 1, M_ERR = 2, M_LOG = 4, M_EOF = 8, M_LOC = 16, M_HDR = 32 };
// compare one execution with the model; "" if it conforms
std::string judge(const Task&, const TaskRun&, unsigned mask);
// memory, handles, unexpected exceptions, views
std::string accounting(const Exec&, bool leaks = true);

struct Property {
    const char* id;
    Plan (*gen)(uint64_t seed);
    std::string (*check)(const Plan&, bool& nontrivial, uint64_t& hash, std::vector<int>* trace);
};
const Property* find_property(const std::string&);

std::string history_text(const History&, const Task&);
uint64_t history_hash(const History&);

} // namespace sim
