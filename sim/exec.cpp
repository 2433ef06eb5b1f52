#include "run.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>

namespace sim {
Stats g_stats;

Plan gen_nested(uint64_t seed);

static std::shared_ptr<Source> source(const char* data) {
    auto s = std::make_shared<Source>();
    s->data = data;
    return s;
}

static bool run_nested(TaskCtx& outer, int seed);

static bool nest_hook(TaskCtx& c) {
    int seed = 1;
    for (auto& f : *c.faults)
        if (f.k == F_NEST && f.at == c.op && f.nth == c.users) seed = f.err;
    return run_nested(c, seed);
}

static void count_faults(const TaskRun& r) {
    auto& f = g_stats.faults;
    auto add = [&](int k, uint64_t n) {
        if (n) f[fault_names[k]] += n;
    };
    add(F_READ_ERR, r.main->read_faults);
    add(F_OPEN_ERR, r.main->open_faults);
    add(F_CLOSE_ERR, r.main->close_faults);
    add(F_STALL, r.main->stalls);
    add(F_ALLOC, r.c.alloc_fired);
    add(F_USER, r.c.user_fired);
    add(F_NEST, r.c.nest_fired);
    add(F_ERRNO, r.c.errno_fired);
    bool shortened = false;
    for (int x : r.t->chunks) shortened |= x < 4096;
    if (shortened && r.t->file && r.main->reads) f["short_read"] += r.main->reads;
    g_stats.reads += r.main->reads;
}

void execute_task(const Task& t, TaskRun& r) {
    r.t = &t;
    r.main = std::make_shared<Source>();
    r.main->data = t.data;
    r.main->chunks = t.chunks;
    r.main->vbuf = t.vbuf;
    r.main->seek = t.seek;
    for (auto& f : t.faults)
        if (f.k <= F_STALL) r.main->faults.push_back(f);
    for (auto& f : r.main->faults)
        if (f.k == F_READ_ERR) f.nth = 0;
    r.aux0 = source(aux_data[0]);
    r.aux2 = source(aux_data[2]);
    r.c.fs = {{source_name(t), r.main}, {"aux0.csv", r.aux0}, {"aux2.csv", r.aux2}};
    r.c.faults = &t.faults;
    r.c.nest = &nest_hook;
    r.h.clear();
    r.h.reserve(t.ops.size() + 1);
    TaskCtx* old = ctx();
    bool old_lib = in_lib();
    in_lib() = false;
    ctx() = &r.c;

    r.is_conv = !t.ops.empty();
    for (auto& o : t.ops)
        if (o.k < OP_CONV) r.is_conv = false;

    std::unique_ptr<IDriver> d;
    uint64_t work = 0;
    auto finish = [&](Event& e, int ops) {
        e.op = ops;
        if (d && d->alive()) d->observe(e);
        e.served = r.main->high;
        e.live = r.c.live;
        e.peak = r.c.peak;
        e.work = r.c.work - work;
        work = r.c.work;
        e.alloc_faults = r.c.op_alloc_fired;
        e.user_faults = r.c.op_user_fired;
        e.read_faults = r.main->read_faults;
        if (d && !d->held_ok() && e.bad.empty()) e.bad = "view: a view into the current row changed";
        r.h.push_back(std::move(e));
    };
    if (r.is_conv) {
        if (auto f = find_conv(t.cfg, t.mode)) d = f();
    } else if (auto f = find_driver(t.cfg, t.mode)) {
        Event e;
        op_begin(r.c, -1);
        d = f(t, e);
        finish(e, -1);
    }
    if (d) {
        for (size_t i = 0; i < t.ops.size(); ++i) {
            Event e;
            op_begin(r.c, static_cast<int>(i));
            if (g_sched_on) yield_point(Y_OP);
            d->exec(t, t.ops[i], e);
            finish(e, static_cast<int>(i));
        }
        op_begin(r.c, static_cast<int>(t.ops.size()));
        d->drop_held();
        {
            LibScope s;
            d.reset();
        }
    }
    ctx() = old;
    in_lib() = old_lib;
    ++g_stats.executions;
    g_stats.ops += t.ops.size();
    if (!g_sched_on) count_faults(r);
}

static bool run_nested(TaskCtx& outer, int seed) {
    Plan p = gen_nested(static_cast<uint64_t>(seed));
    TaskRun r;
    execute_task(p.tasks[0], r);
    std::string v = judge(p.tasks[0], r, M_ROWS | M_EOF | M_LOC | M_ERR);
    if (!v.empty() && outer.violation.empty()) outer.violation = "nested: the nested parser is disturbed: " + v;
    return true;
}

// which situations were reached
static void probe(const TaskRun& r) {
    auto& t = *r.t;
    auto& n = g_stats.probes;
    if (n.empty()) n.resize(PROBES);
    auto& c = configs()[t.cfg];
    size_t line = 0;
    bool bad = false;
    for (auto& e : r.h) {
        if (e.op < 0) continue;
        auto& op = t.ops[e.op];
        bool ok = e.st == ST_OK && !e.vals.empty();
        bool rows = op.k <= OP_ITER;
        if (op.k == OP_ROW && ok) ++n[op.a % SIGS];
        if (op.k == OP_CHAIN && ok) ++n[P_CHAIN + op.a % CHAINS];
        if (op.k == OP_ITER && ok) ++n[P_ITER + op.a % ITERS];
        if (op.k == OP_USE) ++n[e.st == ST_OK ? P_USE_OK : P_USE_BAD];
        if (rows && ok && e.line > line + 1 && c.multi) ++n[P_MULTI];
        if (rows && ok && e.line > line + 15 && c.multi && op.k != OP_ITER) ++n[P_TALL];
        if (rows && ok && e.line > 100) ++n[P_ROW_100];
        if (rows && ok && e.pos > 8192) ++n[P_8K];
        if (rows && ok && bad) ++n[P_AFTER_BAD];
        if (rows && e.st == ST_ERR && e.eof) ++n[P_PAST_END];
        if ((op.k >= OP_MOVEC && op.k <= OP_SWAP) && e.st == ST_OK && !e.eof) ++n[P_MOVED];
        if (rows) bad = e.st == ST_ERR;
        line = e.line;
    }
}

void execute(const Plan& p, Exec& x, bool interleave, const std::vector<int>* script) {
    seam_reset();
    for (auto& t : p.tasks) {
        (void)t;
        x.runs.push_back(std::make_unique<TaskRun>());
    }
    struct Arg { const Task* t; TaskRun* r; };
    std::vector<Arg> args;
    for (size_t i = 0; i < p.tasks.size(); ++i) {
        x.runs[i]->c.id = static_cast<int>(i);
        args.push_back({&p.tasks[i], x.runs[i].get()});
    }
    if (interleave) {
        std::vector<void (*)(void*)> fns;
        std::vector<void*> as;
        for (auto& a : args) {
            fns.push_back([](void* v) {
                auto* q = static_cast<Arg*>(v);
                execute_task(*q->t, *q->r);
            });
            as.push_back(&a);
        }
        x.sched = run_tasks(fns, as, p.seed * 7919 + 13, script);
        for (auto& r : x.runs) count_faults(*r);
        g_stats.yields += x.sched.points;
        g_stats.switches += x.sched.switches;
        g_stats.edges += x.sched.edges;
        g_stats.sim_ms += x.sched.sim_ms;
    } else {
        for (auto& a : args) execute_task(*a.t, *a.r);
        g_stats.sim_ms += g_sim_ms;
    }
    x.leaked = lib_live_count();
    if (x.leaked) x.leak_desc = lib_live_desc();
    for (auto& r : x.runs)
        for (auto& e : r->h) {
            if (e.st == ST_OK && e.op >= 0) ++g_stats.rows_ok;
            if (e.st == ST_ERR) ++g_stats.rows_bad;
            if (e.st == ST_OOM) ++g_stats.oom_seen;
            if (e.st == ST_USER) ++g_stats.user_seen;
            if (e.eof) ++g_stats.eof_seen;
        }
    for (auto& r : x.runs) probe(*r);
}

std::string accounting(const Exec& x, bool leaks) {
    for (auto& r : x.runs) {
        if (!r->c.violation.empty()) return "memory: " + r->c.violation;
        for (auto& e : r->h) {
            std::string where = " at operation " + std::to_string(e.op) + (e.op >= 0 ? std::string(" (") + op_names[r->t->ops[e.op].k] + ")" : " (construction)");
            if (e.st == ST_OTHER) return "unexpected-exception: " + e.err + where;
            if (!e.bad.empty()) return "invariant: " + e.bad + where;
            if (e.st == ST_OOM && e.alloc_faults == 0) return "spurious-oom: std::bad_alloc although no allocation failed" + where;
            if (e.st == ST_USER && e.user_faults == 0) return "spurious-user-exception: " + e.err + where;
        }
        if (leaks) {
            int o = 0, c = 0;
            for (auto& s : {r->main, r->aux0, r->aux2}) {
                if (s->opens != s->closes) return "handles: a file was opened " + std::to_string(s->opens) + " times and closed " + std::to_string(s->closes) + " times";
                o += s->opens;
                c += s->closes;
            }
        }
    }
    if (leaks && x.leaked) return "leak: not released: " + x.leak_desc;
    return "";
}

std::string history_text(const History& h, const Task& t) {
    std::string r;
    for (auto& e : h) {
        r += e.op < 0 ? std::string("construct") : std::string(op_names[t.ops[e.op].k]) + " #" + std::to_string(e.op);
        r += ": " + ev_text(e) + "\n";
    }
    return r;
}
uint64_t history_hash(const History& h) {
    uint64_t x = 1469598103934665603ull;
    for (auto& e : h) x = fnv(ev_text(e), x);
    return x;
}

////////////////
// judging against the model
////////////////
static std::string explain(const char* tag, const Task& t, const Event& got, const Event& exp, const std::string& more = "") {
    std::string op = got.op < 0 ? "construction" : std::string(op_names[t.ops[got.op].k]) + " (operation " + std::to_string(got.op) + ")";
    std::string must;
    for (auto& m : exp.must) must += " '" + show(m) + "'";
    return std::string(tag) + ": " + op + ": got " + ev_text(got) + "; expected " + ev_text(exp) + (must.empty() ? "" : " naming" + must) + more;
}

static std::string compare(const Task& t, const Event& got, const Event& exp, unsigned mask, const Model& m) {
    bool row_op = got.op >= 0 && (t.ops[got.op].k <= OP_IGNORE);
    bool hdr_op = got.op >= 0 && t.ops[got.op].k >= OP_HEADER && t.ops[got.op].k <= OP_USE;
    bool values = (row_op && (mask & M_ROWS)) || (hdr_op && (mask & M_HDR)) || (!row_op && !hdr_op && (mask & (M_ROWS | M_HDR)));
    if (!m.wild) {
        if (values) {
            if (got.st != exp.st) return explain("outcome", t, got, exp);
            if (got.vals != exp.vals && !(exp.st == ST_USER && t.ops[got.op].k != OP_ITER)) return explain("values", t, got, exp);
        }
        if ((mask & M_ERR) && t.mode != BOOL && got.st == ST_ERR && exp.st == ST_ERR) {
            size_t from = 0;
            for (auto& x : exp.must) {
                size_t at = got.err.find(x, from);
                if (at == std::string::npos) return explain("error-text", t, got, exp);
            }
        }
        if ((mask & M_LOG) && got.log != exp.log) return explain("callbacks", t, got, exp);
    }
    if (m.dead && got.op < 0) return ""; // construction threw: there is no parser to look at
    if (exp.st == ST_NONE || (got.st == ST_NONE && exp.st != ST_NONE && m.dead)) return "";
    if ((mask & M_EOF) && got.eof != exp.eof) return explain("eof", t, got, exp);
    if (mask & M_LOC) {
        bool ok = got.line >= m.low_line() && got.line <= exp.line;
        if (ok) ok = got.pos == (got.line < m.lines() ? m.line_start(got.line) : exp.pos);
        if (exp.eof && (got.line != exp.line || got.pos != exp.pos)) ok = false;
        if (!ok) return explain("location", t, got, exp);
    }
    return "";
}

// what the driver has found wrong on the spot
static std::string judge_bad(const Event& e, const Task& t, unsigned mask) {
    static const struct { const char* text; unsigned mask; } kinds[] = {
        {"empty error text", M_ERR}, {"valid() is false", M_ERR}, {"on_error is handed", M_LOG | M_ERR},
        {"fields returned", M_HDR},  {"field exists", M_HDR},     {"position() beyond", M_LOC},
    };
    for (auto& k : kinds)
        if ((mask & k.mask) && e.bad.rfind(k.text, 0) == 0)
            return "invariant: " + e.bad + (e.op >= 0 ? " at operation " + std::to_string(e.op) + " (" + op_names[t.ops[e.op].k] + ")" : std::string(" at construction"));
    return "";
}

std::string judge(const Task& t, const TaskRun& r, unsigned mask) {
    if (r.h.empty()) return "";
    for (auto& e : r.h)
        if (auto v = judge_bad(e, t, mask); !v.empty()) return v;
    Model m{t};
    bool certain = true; // no operation has run out of memory yet
    Event e0 = m.construct();
    size_t i = 0;
    const Event& g0 = r.h[0];
    if (g0.st == ST_OOM) {
        if (!g0.alloc_faults) return explain("spurious-oom", t, g0, e0);
        return ""; // no parser
    }
    if (t.ops.empty() || g0.op == -1) {
        auto v = compare(t, g0, e0, mask | (mask & M_ROWS), m);
        if (!v.empty()) return v;
        i = 1;
    }
    if (m.dead) return "";
    // skip rows until this one; false if there is none
    auto find_row = [&](const Op& op, const Event& got) {
        while (true) {
            Model probe = m;
            if (probe.state == Model::HAVE) {
                Event e = probe.step(op, got);
                if (e.st == got.st && e.vals == got.vals) {
                    m = probe;
                    return true;
                }
                m.take();
            } else return false;
        }
    };
    for (; i < r.h.size(); ++i) {
        const Event& got = r.h[i];
        const Op& op = t.ops[got.op];
        if (op.k == OP_DESTROY) return "";
        if (certain && got.st == ST_OOM && got.alloc_faults) certain = false;
        if (certain) {
            Event exp = m.step(op, got);
            auto v = compare(t, got, exp, mask, m);
            if (!v.empty()) return v;
            continue;
        }
        // after a failed allocation: whatever is still returned must be genuine, in order, and not repeated
        if (got.st == ST_OOM && !got.alloc_faults) return explain("spurious-oom", t, got, Event{});
        if ((op.k == OP_HEADER || op.k == OP_RAW || op.k == OP_EXISTS) && got.st != ST_OOM && (mask & M_HDR)) {
            Event exp = m.step(op, got);
            if (!m.wild && (exp.st != got.st || exp.vals != got.vals)) return explain("header-after-oom", t, got, exp);
        }
        if (op.k == OP_USE && got.st == ST_OK) m.step(op, got);
        if (op.k == OP_ITER) {
            Op one;
            one.k = OP_ROW;
            one.a = iter_sig[op.a % ITERS];
            Event e;
            for (auto& v : got.vals) {
                if (v == "!") continue;
                if (v != "/") {
                    e.vals.push_back(v);
                    continue;
                }
                e.op = got.op;
                if (!find_row(one, e)) return explain("row-after-oom", t, got, Event{}, " (no such row is left)");
                e.vals.clear();
            }
        }
        if ((op.k == OP_ROW || op.k == OP_CHAIN) && got.st == ST_OK) {
            if (!find_row(op, got)) return explain("row-after-oom", t, got, Event{}, " (no such row is left)");
        }
        if (got.pos > t.data.size()) return explain("location", t, got, Event{}, " (beyond the data)");
    }
    return "";
}

} // namespace sim
