// One generator and one check per property.
#include "gen.hpp"
#include "run.hpp"
#include <algorithm>
#include <cerrno>

namespace sim {

static bool any_cfg(const Cfg&) { return true; }
static bool header_cfg(const Cfg& c) { return !c.ignore_header; }
static bool multi_cfg(const Cfg& c) { return c.multi; }

static Task base_task(Rng& r, const DataOpt& o, bool (*pred)(const Cfg&) = any_cfg) {
    Task t;
    t.cfg = pick_cfg(r, pred);
    t.mode = static_cast<int>(r.below(3));
    auto& c = configs()[t.cfg];
    t.delim = gen_delim(r, c);
    DataOpt o2 = o;
    if (r.below(1000) < static_cast<uint64_t>(o.big)) {
        o2.rows_lo = 30;
        o2.rows_hi = r.chance(1, 3) ? 250 : 80;
        o2.huge = 0;
        o2.longs = std::min(o.longs, 6);
    }
    if (o.big && r.chance(1, 4000)) { // more lines than 16 bits can count
        o2.rows_lo = o2.rows_hi = 65560;
        o2.huge = o2.longs = o2.tall = o2.wide = 0;
        o2.bad = o2.raw = 0; // an open quote would take all the rest
        o2.nul = false;
        t.mode = std::min<int>(t.mode, STRING); // thousands of exceptions are slow with ASan
    } else if (o.cols == 2 && o.home >= 0 && (o.home < 24 || rich(t.cfg))) {
        t.home = o.home;
        o2.cols = sig_arity[t.home];
        o2.kinds = sig_cols[t.home];
    } else if (o.cols == 2 && r.chance(1, 3)) { // rows made for one kind of request
        do t.home = static_cast<int>(r.below(SIGS));
        while (t.home >= 24 && !rich(t.cfg));
        o2.cols = sig_arity[t.home];
        o2.kinds = sig_cols[t.home];
    }
    if (c.ignore_header && !o2.header) o2.header = r.chance(1, 2) ? 2 : 0;
    t.data = gen_data(r, c, t.delim, o2);
    gen_delivery(r, t);
    return t;
}
static int op_count(Rng& r, const Task& t) { return count_lines(t.data) * 7 / 8 + r.range(1, 3); }

static void add(Task& t, int k, int at, int nth, int n, int err) { t.faults.push_back({k, at, nth, n, err}); }

static void read_fault(Rng& r, Task& t) {
    static const int errs[] = {EIO, EINTR, EAGAIN, ENXIO, EISDIR, ETIMEDOUT, EBADF};
    t.file = true;
    if (r.chance(1, 12)) {
        static const int e[] = {ENOENT, EACCES, EMFILE, ENOMEM, EISDIR};
        add(t, F_OPEN_ERR, 0, 0, 0, e[r.below(5)]);
        return;
    }
    int at = static_cast<int>(r.below(t.data.size() + 1));
    if (r.chance(1, 3)) { // on a line boundary
        auto p = t.data.find('\n', at);
        if (p != std::string::npos) at = static_cast<int>(p + 1);
    }
    add(t, F_READ_ERR, at, 0, r.chance(1, 3) ? 1 : r.chance(1, 3) ? 2 : 0, errs[r.below(6)]);
}
static void alloc_faults(Rng& r, Task& t, int n) {
    for (int i = 0; i < n; ++i) {
        int at = r.range(-1, static_cast<int>(t.ops.size()) - 1);
        add(t, F_ALLOC, at, r.chance(2, 3) ? r.range(1, 4) : r.range(1, 14), r.chance(2, 3) ? 1 : 0, 0);
    }
}
static void user_faults(Rng& r, Task& t, int n) {
    for (int i = 0; i < n; ++i) add(t, F_USER, r.range(0, std::max(0, static_cast<int>(t.ops.size()) - 1)), r.range(1, 3), 0, static_cast<int>(r.below(5)));
}
static void errno_noise(Rng& r, Task& t, int n) {
    static const int e[] = {ENOMEM, EIO, EINTR, ENOENT, ERANGE};
    for (int i = 0; i < n; ++i) add(t, F_ERRNO, r.range(-1, static_cast<int>(t.ops.size()) - 1), 0, 0, e[r.below(5)]);
}

static const std::vector<OpW> W_ROWS = {{OP_ROW, 60}, {OP_ITER, 8}, {OP_IGNORE, 10}, {OP_CHAIN, 14}};
static const std::vector<OpW> W_ALL = {{OP_ROW, 50}, {OP_ITER, 7}, {OP_IGNORE, 8}, {OP_CHAIN, 14}, {OP_USE, 7}, {OP_HEADER, 3}, {OP_RAW, 2}, {OP_EXISTS, 4}};
static const std::vector<OpW> W_ALLM = {{OP_ROW, 50}, {OP_ITER, 7}, {OP_IGNORE, 8}, {OP_CHAIN, 14}, {OP_USE, 7}, {OP_HEADER, 3}, {OP_RAW, 2}, {OP_EXISTS, 4}, {OP_MOVEC, 5}, {OP_MOVEA, 5}, {OP_SWAP, 4}};

static bool has_ok_row(const History& h, const Task& t) {
    for (auto& e : h)
        if (e.op >= 0 && e.st == ST_OK && t.ops[e.op].k <= OP_ITER && !e.vals.empty()) return true;
    return false;
}
static bool has_bad_row(const History& h, const Task& t) {
    for (auto& e : h)
        if (e.op >= 0 && e.st == ST_ERR && !e.eof && t.ops[e.op].k <= OP_ITER) return true;
    return false;
}

////////////////
// C01
////////////////
static Plan gen_c01(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.big = 12;
    if (r.chance(1, 4)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t), r.chance(1, 3) ? W_ALL : W_ROWS);
    if (r.chance(1, 8)) errno_noise(r, t, 2);
    p.tasks.push_back(t);
    return p;
}
static std::string model_check(const Plan& p, bool& nt, uint64_t& hash, unsigned mask, bool leaks) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = has_ok_row(r.h, *r.t);
    auto v = judge(*r.t, r, mask);
    if (v.empty()) v = accounting(x, leaks);
    return v;
}
static std::string check_c01(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    return model_check(p, nt, hash, M_ROWS | M_EOF | M_LOG, false);
}

////////////////
// C02: differential over deliveries
////////////////
static Plan gen_c02(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.big = 12;
    o.nul = r.chance(1, 2);
    o.bad = r.chance(1, 3) ? 30 : 12;
    o.longs = 14;
    o.huge = 3;
    if (r.chance(1, 4)) o.header = 2;
    Task t = base_task(r, o);
    t.faults.clear();
    t.file = false;
    t.chunks.clear();
    t.vbuf = 0;
    gen_ops(r, t, op_count(r, t), W_ALL);
    p.tasks.push_back(t);
    Task f = t;
    f.file = true;
    p.tasks.push_back(f);
    for (int i = 0; i < 3; ++i) {
        Task g = t;
        do gen_delivery(r, g);
        while (!g.file);
        p.tasks.push_back(g);
    }
    return p;
}
static std::string subst(std::string s, const std::string& a, const std::string& b) {
    for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b);
    return s;
}
// the name of the source a text begins with is that of the delivery
static std::string plain_source(const Task& t, std::string s) {
    if (s.rfind(source_name(t), 0) == 0) s.replace(0, source_name(t).size(), "main.csv");
    return subst(s, "CSV data buffer", "main.csv");
}
static std::string diff_histories(const TaskRun& a, const TaskRun& b, bool with_err, const char* what) {
    for (size_t i = 0; i < std::max(a.h.size(), b.h.size()); ++i) {
        auto text = [&](const TaskRun& r) -> std::string {
            const History& h = r.h;
            if (i >= h.size()) return "(missing)";
            Event e = h[i];
            e.err = plain_source(*r.t, e.err);
            return ev_text(e, with_err);
        };
        std::string ta = text(a), tb = text(b);
        if (ta != tb)
            return std::string(what) + ": operation " + std::to_string(static_cast<int>(i) - 1) + ": " + ta + " against " + tb;
    }
    return "";
}
static std::string check_c02(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = has_ok_row(r.h, *r.t);
    for (size_t i = 1; i < x.runs.size(); ++i) {
        auto v = diff_histories(r, *x.runs[i], true, "delivery");
        if (!v.empty()) return v + " (delivery 0 against delivery " + std::to_string(i) + ")";
    }
    return "";
}

////////////////
// C03
////////////////
static Plan gen_c03(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.unique = r.chance(1, 2);
    o.rows_hi = 7;
    if (r.chance(1, 4)) o.header = 1;
    Task t = base_task(r, o);
    if (r.chance(1, 30)) {
        t.null_buffer = true;
        t.file = false;
    } else {
        read_fault(r, t);
    }
    if (r.chance(1, 10)) add(t, F_CLOSE_ERR, 0, 0, 0, EIO);
    gen_ops(r, t, op_count(r, t) + 1, r.chance(1, 4) ? W_ALLM : r.chance(1, 2) ? W_ALL : W_ROWS);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c03(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = r.main->read_faults + r.main->open_faults > 0 || r.t->null_buffer;
    auto v = judge(*r.t, r, M_ROWS | M_EOF | M_LOG);
    if (v.empty() && r.t->mode != BOOL) v = judge(*r.t, r, M_ERR);
    if (v.empty()) v = accounting(x);
    return v;
}

////////////////
// C04
////////////////
static Plan gen_conv_plan(Rng& r, int nops);
static Plan gen_c04(uint64_t seed) {
    Rng r{seed};
    Plan p;
    if (r.chance(1, 6)) {
        p = gen_conv_plan(r, r.range(2, 6));
        alloc_faults(r, p.tasks[0], r.range(1, 4));
        return p;
    }
    DataOpt o;
    o.unique = true;
    o.longs = 18;
    o.rows_hi = 7;
    if (r.chance(1, 3)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t), W_ALLM);
    alloc_faults(r, t, r.range(0, 5));
    if (r.chance(1, 6)) errno_noise(r, t, 2);
    if (r.chance(1, 12)) read_fault(r, t);
    if (r.chance(1, 12)) user_faults(r, t, 1);
    p.tasks.push_back(t);
    return p;
}
static std::string conv_fresh(const Plan& p, const Exec& x);
static std::string check_c04(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = r.c.alloc_fired > 0;
    std::string v;
    if (r.is_conv) v = conv_fresh(p, x);
    else v = judge(*r.t, r, M_ROWS | M_EOF | M_LOG | M_HDR);
    if (v.empty()) v = accounting(x);
    return v;
}

////////////////
// C05
////////////////
static Plan gen_c05(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.big = 12;
    o.bad = 30;
    o.raw = 10;
    o.two = 75;
    o.unique = r.chance(1, 3);
    o.rows_lo = 3;
    if (r.chance(1, 5)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t), {{OP_ROW, 70}, {OP_CHAIN, 14}, {OP_ITER, 5}, {OP_IGNORE, 5}, {OP_USE, 3}});
    p.tasks.push_back(t);
    return p;
}
static std::string check_c05(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = has_ok_row(r.h, *r.t) && has_bad_row(r.h, *r.t);
    return judge(*r.t, r, M_ROWS | M_ERR | M_LOG | M_EOF);
}

////////////////
// C06
////////////////
static Plan gen_c06(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.bad = 20;
    if (r.chance(1, 3)) o.header = 2;
    Task t = base_task(r, o);
    std::vector<OpW> w = r.chance(1, 2) ? W_ALL : W_ALLM;
    if (r.chance(2, 3))
        w.erase(std::remove_if(w.begin(), w.end(), [](const OpW& x) { return x.kind == OP_CHAIN; }), w.end());
    gen_ops(r, t, op_count(r, t), w);
    if (r.chance(1, 8)) read_fault(r, t);
    for (int m = 0; m < 3; ++m) {
        t.mode = m;
        p.tasks.push_back(t);
    }
    return p;
}
static std::string check_c06(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    hash = history_hash(x.runs[1]->h);
    nt = has_ok_row(x.runs[0]->h, *x.runs[0]->t) && has_bad_row(x.runs[0]->h, *x.runs[0]->t);
    bool chains = false;
    for (auto& o : p.tasks[0].ops) chains |= o.k == OP_CHAIN;
    const TaskRun *b = nullptr, *s = nullptr, *t = nullptr;
    for (auto& r : x.runs) {
        if (r->t->mode == BOOL) b = r.get();
        if (r->t->mode == STRING) s = r.get();
        if (r->t->mode == THROW) t = r.get();
    }
    auto at = [](size_t i) { return "operation " + std::to_string(static_cast<int>(i) - 1) + ": "; };
    if (b && s) {
        auto v = diff_histories(*b, *s, false, "modes");
        if (!v.empty()) return v + " (default against string_error)";
    }
    if (s && t && !chains) {
        for (size_t i = 0; i < std::min(s->h.size(), t->h.size()); ++i) {
            auto &e = s->h[i], &f = t->h[i];
            if (i == 0 && e.st == ST_ERR && f.st == ST_ERR) {
                if (e.err != f.err) return "error-text: " + at(i) + "'" + e.err + "' against '" + f.err + "'";
                break; // no parser with throw_on_error
            }
            if (e.st != f.st || e.vals != f.vals || e.eof != f.eof || e.line != f.line || e.pos != f.pos)
                return "modes: " + at(i) + ev_text(e) + " against " + ev_text(f) + " (string_error against throw_on_error)";
            if (e.err != f.err) return "error-text: " + at(i) + "'" + e.err + "' against '" + f.err + "'";
            if (e.st == ST_ERR && e.err.empty()) return "error-text: " + at(i) + "empty";
        }
    }
    for (auto& r : x.runs) {
        auto v = judge(*r->t, *r, M_ERR);
        if (!v.empty()) return v;
        for (auto& e : r->h)
            if (!e.bad.empty()) return "invariant: " + e.bad;
    }
    return "";
}

////////////////
// C07
////////////////
static Plan gen_c07(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.big = 12;
    o.empty = 14;
    if (r.chance(1, 4)) o.header = 1;
    Task t = base_task(r, o);
    bool resume = r.chance(2, 3);
    std::vector<OpW> w = W_ROWS;
    if (resume) w.push_back({OP_RESUME, 14});
    else w = W_ALLM;
    gen_ops(r, t, op_count(r, t), w);
    if (!resume && r.chance(1, 5)) read_fault(r, t);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c07(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = has_ok_row(r.h, *r.t);
    auto v = judge(*r.t, r, M_LOC | M_ROWS | M_EOF);
    if (!v.empty()) return v;
    size_t line = 0, pos = 0;
    for (auto& e : r.h) {
        if (e.st == ST_NONE && e.line == 0 && e.pos == 0) continue;
        if (e.op == -1 && e.st != ST_OK) continue;
        if (e.line < line || e.pos < pos) return "location: goes back at operation " + std::to_string(e.op) + ": " + ev_text(e);
        line = e.line;
        pos = e.pos;
    }
    return "";
}

////////////////
// C08
////////////////
static Plan gen_c08(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.header = r.chance(2, 3) ? 1 : 2;
    o.bad = 5;
    o.rows_hi = 8;
    if (r.chance(1, 8)) { // many columns
        static const int n[] = {5, 8, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
        o.cols = n[r.below(21)];
        o.two = 90;
        o.rows_hi = 5;
    }
    Task t = base_task(r, o, header_cfg);
    gen_ops(r, t, op_count(r, t) + 4, {{OP_ROW, 45}, {OP_USE, 28}, {OP_HEADER, 7}, {OP_RAW, 5}, {OP_EXISTS, 9}, {OP_ITER, 3}, {OP_CHAIN, 3}, {OP_IGNORE, 3}, {OP_MOVEC, 2}, {OP_MOVEA, 2}});
    if (r.chance(1, 4))
        for (size_t i = 0; i < t.ops.size(); ++i)
            if (t.ops[i].k >= OP_HEADER && t.ops[i].k <= OP_USE && r.chance(1, 3)) add(t, F_ALLOC, static_cast<int>(i), r.range(1, 16), r.chance(1, 2) ? 1 : 0, 0);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c08(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    for (auto& e : r.h)
        if (e.op >= 0 && r.t->ops[e.op].k == OP_USE && (e.st == ST_OK || e.st == ST_OOM)) nt = true;
    nt = nt && has_ok_row(r.h, *r.t);
    return judge(*r.t, r, M_HDR | M_ROWS | M_ERR | M_LOG);
}

////////////////
// C09
////////////////
static Plan gen_c09(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.bad = 14;
    o.two = 45;
    if (r.chance(1, 8)) o.header = 1;
    Task t = base_task(r, o);
    t.mode = static_cast<int>(r.below(2));
    gen_ops(r, t, op_count(r, t), {{OP_CHAIN, 70}, {OP_ROW, 15}, {OP_IGNORE, 5}, {OP_USE, 4}, {OP_MOVEC, 2}});
    if (r.chance(1, 8)) read_fault(r, t);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c09(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    for (auto& e : r.h)
        if (e.op >= 0 && r.t->ops[e.op].k == OP_CHAIN && e.st == ST_OK) nt = true;
    return judge(*r.t, r, M_ROWS | M_LOG | M_EOF);
}

////////////////
// C10
////////////////
static Plan gen_c10(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.unique = r.chance(1, 3);
    if (r.chance(1, 6)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t), {{OP_ROW, 40}, {OP_CHAIN, 30}, {OP_ITER, 12}, {OP_IGNORE, 4}, {OP_USE, 3}, {OP_MOVEC, 3}});
    // mostly requests that run user code
    static const int us[] = {11, 14, 19, 11, 19};
    for (auto& op : t.ops)
        if (op.k == OP_ROW && r.chance(2, 3)) op.a = us[r.below(5)];
    for (auto& op : t.ops)
        if (op.k == OP_ITER && r.chance(2, 3)) op.a = r.chance(1, 2) ? 1 : 6;
    user_faults(r, t, r.range(1, 2 + static_cast<int>(t.ops.size() / 2)));
    p.tasks.push_back(t);
    return p;
}
static std::string check_c10(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = r.c.user_fired > 0;
    auto v = judge(*r.t, r, M_ROWS | M_LOG | M_EOF | M_LOC);
    if (v.empty()) v = accounting(x);
    return v;
}

////////////////
// C11
////////////////
static Plan gen_c11(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.big = 12;
    if (r.chance(1, 3)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t), r.chance(1, 2) ? W_ALL : W_ROWS);
    Task q = t; // with moves in between
    q.ops.clear();
    for (auto& op : t.ops) {
        while (r.chance(2, 5)) {
            Op m;
            m.k = r.chance(1, 3) ? OP_MOVEC : r.chance(1, 2) ? OP_MOVEA : OP_SWAP;
            m.a = static_cast<int>(r.below(4));
            m.b = static_cast<int>(r.below(4));
            q.ops.push_back(m);
        }
        q.ops.push_back(op);
    }
    if (r.chance(1, 6)) {
        read_fault(r, q);
        t.file = q.file;
        t.faults = q.faults;
    }
    if (r.chance(1, 12)) {
        Op d;
        d.k = OP_DESTROY;
        d.a = 1;
        q.ops.push_back(d);
        t.ops.push_back(d);
    }
    p.tasks.push_back(q);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c11(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    auto moving = [](int k) { return k == OP_MOVEC || k == OP_MOVEA || k == OP_SWAP; };
    for (auto& op : r.t->ops) nt |= moving(op.k);
    nt = nt && has_ok_row(r.h, *r.t);
    auto v = accounting(x);
    if (!v.empty()) return v;
    if (x.runs.size() > 1) { // the same history without the moves
        History h;
        const Event* last = nullptr;
        for (auto& e : r.h) {
            if (e.op >= 0 && moving(r.t->ops[e.op].k)) {
                if (last && (e.eof != last->eof || e.line != last->line || e.pos != last->pos)) return "location: changed by a move, operation " + std::to_string(e.op) + ": " + ev_text(e);
                if (e.st != ST_OK && e.st != ST_NONE) return "move: operation " + std::to_string(e.op) + " fails: " + ev_text(e);
                continue;
            }
            h.push_back(e);
            last = &e;
        }
        auto& g = x.runs[1]->h;
        if (h.size() == g.size()) // (not so for a plan that has been cut down)
            for (size_t i = 0; i < h.size(); ++i)
                if (ev_text(h[i]) != ev_text(g[i])) return "moved: operation " + std::to_string(h[i].op) + ": " + ev_text(h[i]) + " against " + ev_text(g[i]) + " without the moves";
    }
    return judge(*r.t, r, M_ROWS | M_EOF | M_LOG | M_LOC | M_HDR | M_ERR);
}

////////////////
// C12
////////////////
static Plan gen_c12(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.big = 12;
    o.longs = 25;
    o.huge = 4;
    o.bad = 4;
    if (r.chance(1, 3)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t) + 4, {{OP_ROW, 40}, {OP_CHAIN, 15}, {OP_ITER, 10}, {OP_USE, 12}, {OP_HEADER, 8}, {OP_RAW, 5}, {OP_EXISTS, 8}, {OP_MOVEC, 2}, {OP_MOVEA, 2}, {OP_SWAP, 2}});
    static const int vs[] = {9, 10, 17};
    for (auto& op : t.ops) {
        if (op.k == OP_ROW) op.a = r.chance(4, 5) ? 9 : vs[r.below(3)];
        if (op.k == OP_CHAIN) op.a = 4;
        if (op.k == OP_ITER) op.a = 3;
    }
    if (r.chance(1, 8)) alloc_faults(r, t, 2);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c12(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = has_ok_row(r.h, *r.t);
    for (auto& e : r.h)
        if (!e.bad.empty()) return "view: " + e.bad + " at operation " + std::to_string(e.op) + (e.op >= 0 ? std::string(" (") + op_names[r.t->ops[e.op].k] + ")" : "");
    return judge(*r.t, r, M_ROWS | M_LOG);
}

////////////////
// C13
////////////////
static Plan gen_c13(uint64_t seed) {
    Rng r{seed};
    Plan p;
    int n = r.range(2, 4);
    int shared_cfg = r.chance(3, 4) ? pick_cfg(r) : -1;
    const bool select = r.chance(1, 5); // headers and selections in all of them
    while (select && shared_cfg >= 0 && !header_cfg(configs()[shared_cfg])) shared_cfg = pick_cfg(r);
    // one kind of request in all of them, mostly conversions that could share something
    static const int homes[] = {4, 6, 7, 8, 11, 13, 14, 16, 18, 19, 20, 21, 24, 25, 26, 27, 28, 29, 16, 16, 16, 25};
    const int home = r.chance(1, 3) ? homes[r.below(22)] : -1;
    for (int i = 0; i < n; ++i) {
        if (!select && r.chance(1, 6)) {
            Plan q = gen_conv_plan(r, r.range(2, 5));
            if (r.chance(1, 4)) alloc_faults(r, q.tasks[0], 1);
            p.tasks.push_back(q.tasks[0]);
            continue;
        }
        DataOpt o;
        o.rows_hi = 6;
        o.longs = 12;
        o.home = home;
        if (r.chance(1, 4)) o.header = 1;
        if (select) o.header = 2;
        Task t = select ? base_task(r, o, header_cfg) : base_task(r, o);
        if (shared_cfg >= 0) { // the same instantiation in several threads
            t.cfg = shared_cfg;
            auto& c = configs()[t.cfg];
            t.delim = gen_delim(r, c);
            if (t.home >= 24 && !rich(t.cfg)) t.home = -1;
            if (t.home >= 0) {
                o.cols = sig_arity[t.home];
                o.kinds = sig_cols[t.home];
            }
            t.data = gen_data(r, c, t.delim, o);
            t.mode = r.chance(3, 4) ? p.tasks.empty() ? t.mode : p.tasks[0].mode : t.mode;
        }
        if (select) gen_ops(r, t, std::min(op_count(r, t) + 2, 9), {{OP_USE, 40}, {OP_ROW, 40}, {OP_EXISTS, 10}, {OP_HEADER, 5}, {OP_MOVEC, 4}});
        else gen_ops(r, t, std::min(op_count(r, t), 9), W_ALLM);
        if (r.chance(1, 4)) alloc_faults(r, t, 2);
        if (r.chance(1, 6)) read_fault(r, t);
        if (r.chance(1, 5)) user_faults(r, t, 2);
        if (r.chance(1, 6)) errno_noise(r, t, 2);
        if (r.chance(1, 3))
            for (int k = r.range(1, 3); k > 0; --k) add(t, F_NEST, r.range(0, static_cast<int>(t.ops.size()) - 1), r.range(1, 2), 0, r.range(1, 100000));
        p.tasks.push_back(t);
    }
    return p;
}
static std::string check_c13(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>* trace) {
    // alone, without nested parsers
    Plan solo = p;
    for (auto& t : solo.tasks)
        t.faults.erase(std::remove_if(t.faults.begin(), t.faults.end(), [](const Fault& f) { return f.k == F_NEST; }), t.faults.end());
    Exec a;
    execute(solo, a);
    Exec x;
    execute(p, x, true, p.sched.empty() ? nullptr : &p.sched);
    if (trace) *trace = x.sched.trace;
    hash = 0;
    for (auto& r : x.runs) hash = hash * 31 + history_hash(r->h);
    g_stats.schedule = x.sched.hash;
    nt = x.sched.switches > 2;
    for (size_t i = 0; i < x.runs.size(); ++i) {
        auto v = diff_histories(*a.runs[i], *x.runs[i], true, "isolation");
        if (!v.empty()) return v + " (task " + std::to_string(i) + ", alone against together)";
        if (!x.runs[i]->c.violation.empty()) return "isolation: task " + std::to_string(i) + ": " + x.runs[i]->c.violation;
    }
    for (auto& r : x.runs)
        for (auto& s : {r->main, r->aux0, r->aux2})
            if (s->opens != s->closes) return "isolation: a file was opened " + std::to_string(s->opens) + " times and closed " + std::to_string(s->closes) + " times";
    // nothing stays behind, alone once more, in the opposite order in half of the plans
    const bool back = p.seed % 2 == 0;
    Plan again = solo;
    if (back) std::reverse(again.tasks.begin(), again.tasks.end());
    Exec b;
    execute(again, b);
    for (size_t i = 0; i < b.runs.size(); ++i) {
        auto v = diff_histories(*a.runs[i], *b.runs[back ? b.runs.size() - 1 - i : i], true, "isolation");
        if (!v.empty()) return v + " (task " + std::to_string(i) + ", alone, before and after others were run)";
    }
    if (x.leaked && !a.leaked) return "isolation: not released when run together: " + x.leak_desc;
    return "";
}

////////////////
// C14
////////////////
static Plan gen_c14(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.bad = 20;
    o.nul = r.chance(1, 4);
    o.huge = 4;
    o.tall = 20;
    o.tower = 3;
    o.rows_hi = 7;
    o.empty = 15;
    if (r.chance(1, 4)) o.header = 2;
    Task t = base_task(r, o, r.chance(1, 2) ? multi_cfg : any_cfg);
    std::vector<OpW> w = r.chance(1, 2) ? W_ROWS : W_ALLM;
    gen_ops(r, t, op_count(r, t) + 3, w);
    // past the end, and some more
    for (int i = r.range(0, 4); i > 0; --i) gen_ops(r, t, 1, w);
    if (r.chance(1, 5)) read_fault(r, t);
    if (r.chance(1, 8)) alloc_faults(r, t, 2);
    if (r.chance(1, 8)) user_faults(r, t, 2);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c14(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    auto& t = *r.t;
    auto& c = configs()[t.cfg];
    hash = history_hash(r.h);
    if (r.h.empty()) return "";
    size_t total = static_cast<size_t>(count_lines(t.data));
    for (size_t i = 1; i < r.h.size(); ++i) {
        auto &b = r.h[i - 1], &e = r.h[i];
        auto& op = t.ops[e.op];
        if (e.st == ST_NONE || b.st == ST_NONE) continue;
        if (i == 1 && b.st != ST_OK && t.mode == THROW) break; // no parser
        if (i == 1 && b.st == ST_OOM) break;
        std::string where = " at operation " + std::to_string(e.op) + " (" + op_names[op.k] + "): before " + ev_text(b) + ", after " + ev_text(e);
        bool reads = op.k == OP_ROW || op.k == OP_CHAIN || op.k == OP_IGNORE;
        if (b.eof) {
            nt = true;
            if (!e.eof) return "ended: end of file is not final" + where;
            if (e.line != b.line || e.pos != b.pos) return "ended: location changes after the end" + where;
            if ((op.k == OP_ROW || op.k == OP_CHAIN) && e.st == ST_OK) return "ended: a row after the end" + where;
            if (op.k == OP_IGNORE && e.st == ST_OK && e.vals != std::vector<std::string>{"0"}) return "ended: a row skipped after the end" + where;
            if (op.k == OP_ITER && !e.vals.empty()) return "ended: a row after the end" + where;
        } else if (reads) {
            if (!e.eof && e.line <= b.line) return "progress: no line consumed" + where;
            if (e.line > total) return "progress: more lines than there are" + where;
            if (c.multi && c.limit > 0 && !c.ignore_empty && e.line - b.line > static_cast<size_t>(c.limit) + 1) return "progress: more lines than the limit allows" + where;
            if (!c.multi && !c.ignore_empty && e.line - b.line > 1) return "progress: more than one line" + where;
        } else if (op.k == OP_ITER && op.b > 0 && !e.eof && e.line <= b.line) {
            return "progress: no line consumed" + where;
        }
        if (op.k == OP_IGNORE && e.st == ST_OK && !e.eof && e.vals == std::vector<std::string>{"0"}) return "ended: false before the end" + where;
    }
    // work of a call, where it is counted
    for (size_t i = 1; i < r.h.size(); ++i) {
        auto &b = r.h[i - 1], &e = r.h[i];
        if (!e.work || e.pos < b.pos || t.ops[e.op].k > OP_USE) continue;
        size_t next = t.data.find('\n', e.pos);
        next = next == std::string::npos ? t.data.size() : next + 1;
        size_t bytes = next - b.pos;
        auto& op = t.ops[e.op];
        if (op.k >= OP_HEADER && op.k <= OP_USE) {
            size_t from = t.data.find_first_not_of("\r\n");
            if (from != std::string::npos) bytes += 2 * (std::min(t.data.find('\n', from), t.data.size()) - from);
        }
        g_stats.max_work = std::max<uint64_t>(g_stats.max_work, e.work / (bytes + 64));
        if (e.work / (bytes + 64) > 1000) return "work: " + std::to_string(e.work) + " steps for " + std::to_string(bytes) + " bytes at operation " + std::to_string(e.op) + " (" + op_names[op.k] + "): " + ev_text(e);
    }
    return "";
}

// rows of a plain decimal number of any length and a word, read as such
static void numeric(Rng& r, Task& t, bool wild) {
    const Cfg& c = configs()[t.cfg];
    auto digits = [&](int n) {
        std::string s;
        while (n-- > 0) s += static_cast<char>('0' + r.below(10));
        return s;
    };
    auto number = [&] {
        static const int sz[] = {1, 2, 3, 5, 17, 30, 61, 62, 63, 64, 65, 66, 90, 127, 128, 129, 140};
        std::string s;
        int n = sz[r.below(17)];
        if (r.chance(1, 3)) s += "-", --n;
        if (n >= 3 && r.chance(1, 2)) {
            int k = r.range(1, n - 2);
            s += digits(k) + "." + digits(n - k - 1);
        } else s += digits(std::max(1, n));
        if (r.chance(1, 4)) s += (r.chance(1, 2) ? "e" : "E") + std::string(r.chance(1, 2) ? "-" : "") + digits(2);
        if (r.chance(1, 6)) s = r.chance(1, 2) ? s + "a" : r.chance(1, 2) ? "" : "-";
        return s;
    };
    static const char* w[] = {"a", "q", "foo", ""};
    t.data.clear();
    int n = r.range(1, 7);
    if (c.ignore_header) t.data += "h" + t.delim + "i\n";
    for (int i = 0; i < n; ++i) {
        std::string x = number();
        if (!c.quote.empty() && r.chance(1, 3)) x = c.quote.substr(0, 1) + x + c.quote.substr(0, 1);
        t.data += x + t.delim + w[r.below(4)] + (i + 1 < n || r.chance(1, 2) ? "\n" : "");
        t.ops.push_back({});
        t.ops.back().k = OP_ROW;
        t.ops.back().a = 16;
    }
    if (wild) {
        Op o;
        o.k = OP_ROW;
        o.a = 1;
        t.ops[r.below(t.ops.size())] = o;
    }
}

////////////////
// C15
////////////////
static Plan gen_c15(uint64_t seed) {
    Rng r{seed};
    Plan p;
    if (r.chance(1, 7)) {
        p = gen_conv_plan(r, r.range(2, 8));
        if (r.chance(1, 2)) alloc_faults(r, p.tasks[0], 2);
        if (r.chance(1, 3)) user_faults(r, p.tasks[0], 2);
        return p;
    }
    if (r.chance(1, 12)) {
        Task t = base_task(r, DataOpt{});
        numeric(r, t, true);
        if (r.chance(1, 4)) alloc_faults(r, t, 2);
        p.tasks.push_back(t);
        return p;
    }
    DataOpt o;
    o.big = 12;
    o.nul = r.chance(2, 3);
    o.bad = r.chance(1, 2) ? 40 : 15;
    o.raw = 15;
    o.longs = 14;
    o.huge = 4;
    if (r.chance(1, 3)) o.header = 2;
    Task t = base_task(r, o);
    std::vector<OpW> w = W_ALLM;
    w.push_back({OP_RESUME, 2});
    gen_ops(r, t, op_count(r, t) + 2, w);
    if (r.chance(1, 6)) {
        Op d;
        d.k = OP_DESTROY;
        d.a = r.chance(1, 3) ? 1 : 0;
        t.ops.insert(t.ops.begin() + static_cast<long>(r.below(t.ops.size() + 1)), d);
    }
    if (r.chance(1, 3)) alloc_faults(r, t, r.range(1, 3));
    if (r.chance(1, 4)) read_fault(r, t);
    if (r.chance(1, 4)) user_faults(r, t, 2);
    if (r.chance(1, 6)) errno_noise(r, t, 2);
    if (r.chance(1, 12)) add(t, F_CLOSE_ERR, 0, 0, 0, EIO);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c15(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    nt = !r.t->faults.empty() || has_bad_row(r.h, *r.t) || r.t->data.find('\0') != std::string::npos;
    return accounting(x);
}

////////////////
// C16: the histories of three programs are compared by the caller
////////////////
static Plan gen_c16(uint64_t seed) {
    Rng r{seed};
    if (r.chance(1, 8)) {
        Plan p = gen_conv_plan(r, r.range(2, 6));
        return p;
    }
    Plan p;
    DataOpt o;
    o.bad = 18;
    o.nul = r.chance(1, 6);
    if (r.chance(1, 3)) o.header = 2;
    Task t = base_task(r, o);
    if (r.chance(1, 10)) {
        numeric(r, t, true);
        p.tasks.push_back(t);
        return p;
    }
    gen_ops(r, t, op_count(r, t), W_ALLM);
    for (auto& x : t.ops) // other spellings of floating point numbers are not promised to be the same
        if (x.k == OP_ROW && (x.a == 16 || x.a == 25 || x.a == 27)) x.a = 4;
    if (r.chance(1, 6)) read_fault(r, t);
    if (r.chance(1, 6)) user_faults(r, t, 2);
    if (r.chance(1, 8)) errno_noise(r, t, 2);
    p.tasks.push_back(t);
    return p;
}
static std::string check_c16(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    for (auto& s : {r.main, r.aux0, r.aux2}) hash = hash * 31 + static_cast<uint64_t>(s->opens * 16 + s->closes);
    nt = r.is_conv || has_ok_row(r.h, *r.t);
    return "";
}

////////////////
// C17
////////////////
static Plan gen_c17(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.bad = 8;
    o.two = r.chance(1, 2) ? 85 : 40;
    o.rows_lo = 1;
    bool wide = r.chance(1, 4);
    if (wide) o.two = 20;
    if (r.chance(1, 6)) o.header = 1;
    Task t = base_task(r, o);
    gen_ops(r, t, op_count(r, t), {{OP_ITER, 45}, {OP_ROW, 45}, {OP_IGNORE, 5}, {OP_USE, 4}});
    static const int s2[] = {1, 9, 12, 13, 14}, s3[] = {2, 10, 15};
    for (auto& op : t.ops) {
        if (op.k != OP_ROW) continue;
        op.a = wide ? s3[r.below(3)] : s2[r.below(5)];
    }
    if (r.chance(1, 8)) read_fault(r, t);
    if (r.chance(1, 6)) user_faults(r, t, 2);
    p.tasks.push_back(t);
    // the same history, every row asked for in the plainest way, iterations unrolled by the check
    return p;
}
static std::string check_c17(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    auto& t = *r.t;
    hash = history_hash(r.h);
    for (auto& e : r.h)
        if (e.op >= 0 && t.ops[e.op].k == OP_ITER && !e.vals.empty()) nt = true;
    for (auto& e : r.h)
        if (!e.bad.empty() && e.bad.find("view") == std::string::npos) return "iterator: " + e.bad;
    auto v = judge(t, r, M_ROWS | M_EOF | M_ERR);
    if (!v.empty()) return v;
    bool user = false;
    for (auto& f : t.faults) user |= f.k == F_USER;
    if (user) return "";
    // the same rows asked for in the plainest way: one get_next per row
    Plan q = p;
    auto& ops = q.tasks[0].ops;
    ops.clear();
    struct Span { size_t from, n; };
    std::vector<Span> span;
    for (auto& e : r.h) {
        if (e.op < 0) continue;
        Op op = t.ops[e.op];
        size_t from = ops.size();
        if (op.k == OP_ITER) {
            size_t rows = static_cast<size_t>(std::count(e.vals.begin(), e.vals.end(), "/") + std::count(e.vals.begin(), e.vals.end(), "!"));
            if (e.st == ST_ERR) ++rows;
            op.k = OP_ROW;
            op.a = iter_sig[op.a % ITERS];
            if (op.a == 12 || op.a == 9) op.a = 1;
            for (size_t k = 0; k < rows; ++k) ops.push_back(op);
        } else {
            if (op.k == OP_ROW) op.a = sig_arity[op.a] == 3 ? 2 : 1;
            ops.push_back(op);
        }
        span.push_back({from, ops.size() - from});
    }
    Exec y;
    execute(q, y);
    auto& g = y.runs[0]->h;
    if (r.h.empty() || g.empty()) return "";
    if (ev_text(r.h[0]) != ev_text(g[0])) return "";
    for (size_t i = 1; i < r.h.size(); ++i) {
        auto& e = r.h[i];
        auto s = span[i - 1];
        const bool on = t.ops[e.op].k == OP_ITER && t.ops[e.op].b >= 1000;
        Event sum = e;
        sum.vals.clear();
        sum.st = ST_OK;
        sum.err.clear();
        for (size_t k = s.from; k < s.from + s.n; ++k) {
            auto& f = g[k + 1];
            for (auto& v2 : f.vals) sum.vals.push_back(v2);
            if (t.ops[e.op].k == OP_ITER && f.st == ST_OK) sum.vals.push_back("/");
            if (f.st != ST_OK && on) sum.vals.push_back("!");
            else if (f.st != ST_OK) {
                sum.st = f.st;
                sum.err = f.err;
            }
            sum.eof = f.eof;
            sum.line = f.line;
            sum.pos = f.pos;
        }
        if (t.ops[e.op].k == OP_ITER && e.st == ST_NONE) continue;
        if (ev_text(e) != ev_text(sum)) return "request-style: operation " + std::to_string(e.op) + ": " + ev_text(e) + " against " + ev_text(sum) + " with get_next";
    }
    return "";
}

////////////////
// C18
////////////////
static Plan gen_conv_plan(Rng& r, int nops) {
    Plan p;
    Task t;
    t.cfg = pick_cfg(r);
    t.mode = static_cast<int>(r.below(3));
    t.file = false;
    auto& c = configs()[t.cfg];
    DataOpt o;
    o.bad = 22;
    o.empty = 12;
    o.longs = 8;
    o.huge = 0;
    std::string delim = gen_delim(r, c);
    static const int sigs[] = {0, 1, 1, 14, 2, 2, 4, 6, 7, 11, 13, 19};
    for (int i = 0; i < nops; ++i) {
        Op op;
        op.k = r.chance(1, 2) ? OP_CONV : r.chance(1, 2) ? OP_SPLIT : OP_CONVSPLIT;
        op.a = sigs[r.below(12)];
        if (op.k == OP_CONVSPLIT) op.b = sigs[r.below(12)];
        if (r.chance(1, 6)) delim = gen_delim(r, c);
        op.d = r.chance(1, 30) ? "" : delim;
        op.s = gen_line(r, c, op.d.empty() ? "," : op.d, o, i);
        t.ops.push_back(op);
    }
    p.tasks.push_back(t);
    return p;
}
static Plan gen_c18(uint64_t seed) {
    Rng r{seed};
    Plan p = gen_conv_plan(r, r.range(2, 10));
    if (r.chance(1, 4)) alloc_faults(r, p.tasks[0], 2);
    if (r.chance(1, 4)) user_faults(r, p.tasks[0], 2);
    return p;
}
// every operation again on a fresh object
static std::string conv_fresh(const Plan& p, const Exec& x) {
    auto& r = *x.runs[0];
    auto& t = *r.t;
    (void)p;
    for (auto& e : r.h) {
        if (e.op < 0) continue;
        if (e.st == ST_OOM && e.alloc_faults) continue;
        if (e.st == ST_USER && e.user_faults) continue;
        Task f = t;
        f.faults.clear();
        f.ops = {t.ops[e.op]};
        TaskRun q;
        execute_task(f, q);
        if (q.h.empty()) continue;
        auto& g = q.h[0];
        std::string where = " at operation " + std::to_string(e.op) + " (" + op_names[t.ops[e.op].k] + " '" + show(t.ops[e.op].s) + "'): ";
        if (e.st != g.st || e.vals != g.vals || e.err != g.err || e.log != g.log)
            return "history-free:" + where + ev_text(e) + " against " + ev_text(g) + " from a fresh object";
        if (t.ops[e.op].k == OP_CONVSPLIT && g.st != ST_ERR) { // the same in one call
            static const int turns[CONV_TURNS] = {0, 1, 0, 1, 0, 0};
            std::vector<std::string> outs[2], all;
            for (int n = 0; n < 2; ++n) {
                Task one = f;
                one.ops[0].k = OP_CONV;
                if (n) one.ops[0].a = one.ops[0].b;
                TaskRun w;
                execute_task(one, w);
                auto& h = w.h[0];
                if (h.st == ST_OK) outs[n] = h.vals;
                else outs[n] = {"!" + h.err};
            }
            for (int n : turns) all.insert(all.end(), outs[n].begin(), outs[n].end());
            if (all != g.vals) {
                Event h = g;
                h.vals = all;
                return "split-convert:" + where + ev_text(g) + " against " + ev_text(h) + " in one call each";
            }
        }
        // and what the format says, where a line is a row
        auto& c = configs()[t.cfg];
        auto& op = t.ops[e.op];
        if (!c.multi && op.k != OP_CONVSPLIT && op.s.find('\n') == std::string::npos) {
            MSplit s;
            if (op.k == OP_SPLIT || !op.s.empty()) s = model_split(c, op.s, op.d, false);
            Event m;
            if (!s.bad.empty()) m.st = ST_ERR;
            else if (op.k == OP_SPLIT) for (auto& v : s.f) m.vals.push_back("s:" + v);
            else {
                MConv k = model_convert(op.a, s.f, nullptr, 0);
                if (!k.ok) m.st = ST_ERR;
                else {
                    for (auto& v : k.vals) m.vals.push_back(v);
                    m.vals.push_back("/");
                }
            }
            if (m.st != e.st || (e.st == ST_OK && m.vals != e.vals)) return "format:" + where + ev_text(e) + " against " + ev_text(m) + " by the format";
        }
    }
    return "";
}
static std::string check_c18(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    hash = history_hash(r.h);
    bool good = false, bad = false;
    for (auto& e : r.h) {
        good |= e.st == ST_OK;
        bad |= e.st == ST_ERR;
    }
    nt = good && bad;
    return conv_fresh(p, x);
}

////////////////
// C19
////////////////
static Plan gen_c19(uint64_t seed) {
    Rng r{seed};
    Plan p;
    DataOpt o;
    o.longs = 2;
    o.huge = o.wide = 0;
    if (r.chance(1, 5)) { // the same few rows and requests over and over
        o.rows_lo = 1;
        o.rows_hi = 4;
        o.bad = r.chance(1, 2) ? 4 : 25;
        o.longs = r.chance(1, 2) ? 0 : 10;
        if (r.chance(1, 6)) o.cols = r.range(5, 9);
        Task t = base_task(r, o, r.chance(2, 3) ? multi_cfg : any_cfg);
        if (t.data.empty() || t.data.back() != '\n') t.data += '\n';
        std::string block = t.data;
        std::vector<Op> ops;
        gen_ops(r, t, r.range(1, 4), {{OP_ROW, 60}, {OP_ITER, 8}, {OP_CHAIN, 20}, {OP_IGNORE, 8}, {OP_HEADER, 3}, {OP_EXISTS, 3}, {OP_USE, 2}, {OP_MOVEC, 4}, {OP_MOVEA, 3}, {OP_SWAP, 3}});
        ops.swap(t.ops);
        t.data.clear();
        int lines = 0, want = r.chance(1, 5) ? r.range(1000, 2500) : r.range(200, 500), per = count_lines(block);
        for (int i = 0; i < 30 || lines < want; ++i, lines += per) t.data += block;
        while (static_cast<int>(t.ops.size()) < lines) t.ops.insert(t.ops.end(), ops.begin(), ops.end());
        if (r.chance(1, 4)) user_faults(r, t, 40);
        p.tasks.push_back(t);
        return p;
    }
    if (r.chance(1, 5)) {
        o.rows_lo = 200;
        o.rows_hi = r.chance(1, 8) ? 3000 : 500;
        o.bad = r.chance(1, 2) ? 0 : 8;
        o.longs = 0;
    } else o.rows_hi = 12;
    Task t = base_task(r, o);
    if (r.chance(4, 5)) {
        while (!t.file) gen_delivery(r, t);
        if (t.chunks.empty() && t.vbuf == 0) t.chunks = {r.range(1, 30)};
    }
    int lines = count_lines(t.data);
    gen_ops(r, t, std::min(lines + 2, 400), {{OP_ROW, 60}, {OP_ITER, 10}, {OP_CHAIN, 8}, {OP_IGNORE, 8}, {OP_USE, 1}});
    for (auto& op : t.ops)
        if (op.k == OP_ITER && lines > 100) op.b = r.range(10, 400);
    if (r.chance(1, 3)) t.ops.resize(r.below(t.ops.size() + 1)); // closed early
    if (r.chance(1, 3)) t.ops.resize(r.below(t.ops.size() + 1)); // closed early
    p.tasks.push_back(t);
    return p;
}
// length of the block the data repeats, 0 if it is not repeated often
static size_t period(const std::string& s) {
    if (s.size() < 64) return 0;
    std::vector<size_t> f(s.size() + 1, 0);
    for (size_t i = 1, k = 0; i < s.size(); ++i) {
        while (k && s[i] != s[k]) k = f[k];
        if (s[i] == s[k]) ++k;
        f[i + 1] = k;
    }
    size_t l = s.size() - f[s.size()];
    return s.size() / l >= 24 ? l : 0;
}
static std::string check_c19(const Plan& p, bool& nt, uint64_t& hash, std::vector<int>*) {
    Exec x;
    execute(p, x);
    auto& r = *x.runs[0];
    auto& t = *r.t;
    hash = history_hash(r.h);
    if (r.h.empty()) return "";
    nt = t.file && has_ok_row(r.h, t);
    Model m{t};
    size_t buf = t.vbuf > 0 ? t.vbuf : 8192;
    size_t chunk = buf;
    if (!t.chunks.empty()) {
        size_t mx = 1;
        for (int c : t.chunks) mx = std::max<size_t>(mx, static_cast<size_t>(std::max(1, c)));
        chunk = std::min(chunk, mx);
    }
    size_t longest = 0, start = 0;
    size_t repeats = period(t.data), early = 0;
    for (size_t i = 0; i < r.h.size(); ++i) {
        auto& e = r.h[i];
        std::string where = " at operation " + std::to_string(e.op) + ": " + ev_text(e);
        if (e.op < 0) m.construct();
        else m.step(t.ops[e.op], e);
        if (m.dead) break;
        if (m.wild) continue;
        // the next line is read, nothing after it
        size_t need = m.state == Model::HAVE ? m.line_end(m.line()) : t.data.size();
        if (t.file && e.served > need + chunk - 1) return "look-ahead: " + std::to_string(e.served) + " bytes taken from the source, " + std::to_string(need) + " needed, buffer " + std::to_string(chunk) + where;
        size_t at = m.pos();
        // longest stretch of text one operation had to hold
        size_t span = 0;
        if (e.op >= 0 && t.ops[e.op].k == OP_ITER) {
            // row by row, at least as long as the longest line
            size_t a = start;
            while (a < at) {
                size_t nl = t.data.find('\n', a);
                size_t b = nl == std::string::npos ? t.data.size() : nl + 1;
                span = std::max(span, b - a);
                a = b;
            }
            if (configs()[t.cfg].multi) span = at - start;
        } else span = at - start;
        longest = std::max({longest, span, need - std::min(need, at)});
        start = at;
        size_t bound = 96 * longest + 20000;
        if (e.live > bound) return "memory: " + std::to_string(e.live) + " bytes held, longest row " + std::to_string(longest) + where;
        if (repeats) { // what the first rows needed is enough for those after them
            if (at < t.data.size() / 3) early = std::max(early, e.live);
            else if (early && e.live > early + 6 * longest + 2048) return "memory: grows from " + std::to_string(early) + " to " + std::to_string(e.live) + " bytes while the same rows are repeated" + where;
        }
        if (e.peak > bound + 96 * longest) return "memory: " + std::to_string(e.peak) + " bytes used at a time, longest row " + std::to_string(longest) + where;
    }
    if (r.main->high > r.h.back().served) return "closing: " + std::to_string(r.main->high) + " bytes taken from the source, " + std::to_string(r.h.back().served) + " before it was closed";
    return "";
}

////////////////
static const Property props[] = {
    {"C01", gen_c01, check_c01}, {"C02", gen_c02, check_c02}, {"C03", gen_c03, check_c03}, {"C04", gen_c04, check_c04},
    {"C05", gen_c05, check_c05}, {"C06", gen_c06, check_c06}, {"C07", gen_c07, check_c07}, {"C08", gen_c08, check_c08},
    {"C09", gen_c09, check_c09}, {"C10", gen_c10, check_c10}, {"C11", gen_c11, check_c11}, {"C12", gen_c12, check_c12},
    {"C13", gen_c13, check_c13}, {"C14", gen_c14, check_c14}, {"C15", gen_c15, check_c15}, {"C16", gen_c16, check_c16},
    {"C17", gen_c17, check_c17}, {"C18", gen_c18, check_c18}, {"C19", gen_c19, check_c19},
};
const Property* find_property(const std::string& id) {
    for (auto& p : props)
        if (id == p.id) return &p;
    return nullptr;
}

} // namespace sim
