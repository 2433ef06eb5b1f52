// Shared vocabulary of the simulator: PRNG, plans, events, the seam interface.
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace sim {

////////////////
// PRNG: the only source of randomness (splitmix64 stream)
////////////////
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(int num, int den) { return static_cast<int>(below(den)) < num; }
};

////////////////
// configurations (compile time options of the parser, mirrored at run time)
////////////////
struct Cfg {
    const char* name;
    std::string quote;   // characters
    std::string escape;
    std::string trim_l;
    std::string trim_r;
    bool multi;
    int limit; // 0: unlimited
    bool ignore_empty;
    bool ignore_header;
};
const std::vector<Cfg>& configs();

enum Mode { BOOL = 0, STRING = 1, THROW = 2 };

////////////////
// plan
////////////////
enum OpKind {
    OP_ROW,    // a = sig
    OP_CHAIN,  // a = chain, b = callback results (bits)
    OP_ITER,   // a = style, b = max rows
    OP_IGNORE, // ignore_next
    OP_HEADER,
    OP_RAW,
    OP_EXISTS, // s = name
    OP_USE,    // s = names, each followed by \x1f ; a = 1: pass one name as const char*
    OP_MOVEC,  // move construct
    OP_MOVEA,  // move assign onto a live parser: a = kind of target, b = rows read on it first
    OP_SWAP,   // std::swap with a second parser and back after an operation: a = kind of the other
    OP_RESUME, // destroy, start again at position()
    OP_DESTROY,
    OP_CONV,   // converter: a = sig, s = line, d = delimiter
    OP_SPLIT,  // splitter: s = line, d = delimiter
    OP_CONVSPLIT, // converter: split then convert the split line several times, as a and as b
    OP_KINDS
};
extern const char* const op_names[OP_KINDS];

struct Op {
    int k = 0, a = 0, b = 0;
    std::string s, d;
    bool operator==(const Op& o) const { return k == o.k && a == o.a && b == o.b && s == o.s && d == o.d; }
};

enum FaultKind {
    F_READ_ERR,   // at = byte offset, err = errno; n = how many reads fail (0: for ever)
    F_OPEN_ERR,   // err
    F_CLOSE_ERR,  // err
    F_STALL,      // at = read index, n = simulated milliseconds
    F_ALLOC,      // at = op index (-1 constructor), nth allocation, n = how many fail (0: until the op ends)
    F_USER,       // at = op index, nth user code invocation throws; err = kind of exception
    F_NEST,       // at = op index, nth user code invocation runs a nested parser
    F_ERRNO,      // at = op index: errno is left at err by earlier code
    F_KINDS
};
extern const char* const fault_names[F_KINDS];

struct Fault {
    int k = 0;
    int at = 0, nth = 0, n = 0, err = 0;
};

struct Task {
    int cfg = 0;
    int mode = 0;
    bool file = true; // else buffer
    bool null_buffer = false;
    std::string data;
    std::string delim = ",";
    std::vector<int> chunks; // sizes of successive reads, cycled; empty: as asked
    int vbuf = 0;            // stdio buffer size, 0: default
    bool seek = false;       // a regular file, else a pipe
    int name = 0;            // of the file
    std::vector<Fault> faults;
    std::vector<Op> ops;
    int home = -1;           // usual request (while a plan is made)
};

const std::string& source_name(const Task&);

struct Plan {
    std::string prop;
    uint64_t seed = 0; // informative
    std::vector<Task> tasks;
    std::vector<int> sched; // C13: choice at each yield point
    std::string note;
};

std::string plan_to_text(const Plan&);
bool plan_from_text(const std::string&, Plan&);
std::string hex(const std::string&);
std::string show(const std::string&, size_t max = 60); // printable form

////////////////
// events: the observable history
////////////////
enum Status { ST_OK, ST_ERR, ST_OOM, ST_USER, ST_OTHER, ST_NONE };

struct Event {
    int op = 0;        // index in the plan, -1: construction
    int st = ST_OK;
    std::vector<std::string> vals; // values, canonical
    std::string err;               // text, if the mode has one
    bool eof = false;
    size_t line = 0, pos = 0;
    std::vector<std::string> log;  // callbacks
    std::string bad;               // an invariant broken inside the operation
    // bookkeeping, not part of the observable history
    size_t served = 0;             // bytes taken from the source so far
    size_t live = 0, peak = 0;     // bytes allocated by the library
    uint64_t work = 0;             // steps of the library, if they are counted
    int alloc_faults = 0, user_faults = 0, read_faults = 0;
    // filled by the model
    std::vector<std::string> must; // tokens the error text must contain
};
std::string ev_text(const Event&, bool with_err = true);
using History = std::vector<Event>;

////////////////
// seam
////////////////
struct Source { // one simulated file
    std::string data;
    std::vector<int> chunks;
    int vbuf = 0;
    bool seek = false;
    std::vector<Fault> faults;
    // state
    size_t off = 0, high = 0; // offset of the next read, end of what has been read
    int reads = 0;
    int opens = 0, closes = 0;
    int read_faults = 0, open_faults = 0, close_faults = 0, stalls = 0;
    uint64_t stalled_ms = 0;
    std::vector<char> buf; // stdio buffer
};

struct TaskCtx { // per simulated task (thread)
    int id = 0;
    std::vector<std::pair<std::string, std::shared_ptr<Source>>> fs;
    const std::vector<Fault>* faults = nullptr;
    int op = -1;
    int allocs = 0, users = 0;
    int alloc_fired = 0, user_fired = 0, nest_fired = 0, errno_fired = 0;
    int op_alloc_fired = 0, op_user_fired = 0;
    uint64_t work = 0; // steps executed by the library (instrumented builds only)
    size_t live = 0, peak = 0;
    long total_allocs = 0;
    std::string violation;     // mismatched free and the like
    bool (*nest)(TaskCtx&) = nullptr;
    std::vector<std::string> cb_log;
};

TaskCtx*& ctx();         // of the running thread
bool& in_lib();          // the running thread executes library code on behalf of the task
void op_begin(TaskCtx&, int op);

struct LibScope {
    bool old;
    LibScope() : old{in_lib()} { in_lib() = true; }
    ~LibScope() { in_lib() = old; }
};
struct UserScope {
    bool old;
    UserScope() : old{in_lib()} { in_lib() = false; }
    ~UserScope() { in_lib() = old; }
};

void seam_reset();          // between runs
size_t lib_live_count();    // allocations made by the library and not freed
std::string lib_live_desc();
extern void (*g_throw_ss)(); // throws ss::exception, which this part does not know
void user_point(const char* what); // called from user code run by the library; may throw, yield, nest

struct UserBoom { int id; };

// scheduling (baton passing between real threads)
enum YieldKind { Y_READ, Y_ALLOC, Y_USER, Y_OP, Y_EDGE };
void yield_point(int kind, uint64_t ms = 0);
extern bool g_sched_on;
struct SchedStats { uint64_t points = 0, switches = 0, edges = 0; uint64_t sim_ms = 0; uint64_t hash = 0; std::vector<int> trace; };
SchedStats run_tasks(const std::vector<void (*)(void*)>& fns, const std::vector<void*>& args, uint64_t seed,
                     const std::vector<int>* script);
extern uint64_t g_sim_ms; // simulated clock

uint64_t fnv(const std::string&, uint64_t h = 1469598103934665603ull);

////////////////
// subjects
////////////////
struct IDriver {
    virtual ~IDriver() = default;
    virtual void exec(const Task&, const Op&, Event&) = 0;
    virtual bool alive() const = 0;
    virtual bool held_ok() const = 0; // views into the current row are intact
    virtual void drop_held() = 0;
    virtual void observe(Event&) = 0;
};
using Factory = std::unique_ptr<IDriver> (*)(const Task&, Event&);
void register_driver(int cfg, int mode, Factory);
Factory find_driver(int cfg, int mode);
using ConvFactory = std::unique_ptr<IDriver> (*)();
void register_conv(int cfg, int mode, ConvFactory);
ConvFactory find_conv(int cfg, int mode);

constexpr int SIGS = 32; // from 24 on only in some option sets, see rich()
constexpr int CHAINS = 8;
constexpr int CONV_TURNS = 6; // how often a split line is converted
constexpr int ITERS = 8;
extern const int iter_sig[ITERS]; // what one step of the iteration asks for
inline bool rich(int cfg) { return cfg % 4 == 1; }
extern const int sig_arity[SIGS];
extern const char* const sig_cols[SIGS]; // kinds of the columns
extern const char* const aux_data[4];
std::vector<std::string> split_names(const std::string&);
std::vector<int> available_configs();

} // namespace sim
