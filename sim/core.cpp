#include "core.hpp"
#include <cstdio>
#include <cstring>
#include <map>
#include <sstream>

namespace sim {

const char* const op_names[OP_KINDS] = {"row", "chain", "iter", "ignore", "header", "raw_header", "field_exists",
                                        "use_fields", "move_construct", "move_assign", "swap", "resume", "destroy",
                                        "convert", "split", "convert_split"};
const char* const fault_names[F_KINDS] = {"read_error", "open_error", "close_error", "stall",
                                          "alloc_failure", "user_exception", "nested_parser", "stale_errno"};
const int sig_arity[SIGS] = {1, 2, 3, 4, 2, 3, 2, 2, 2, 2, 3, 2, 2, 2, 2, 3, 2, 1, 2, 2, 3, 3, 10, 2, 2, 2, 2, 2, 3, 2, 2, 12};
const int iter_sig[ITERS] = {1, 1, 1, 9, 1, 23, 19, 12};
const char* const aux_data[4] = {"h1,h2\n\"x1,x2\ny1,y2\nz1,z2\nlonger than the other lines by far,w2\nu1,u2\n\nu3,u4\nu5,u6\nu7,u8\nu9,u10\nu11\nu12,u13\n", "k1,k2\nq1,q2\nq3,q4\nq5,q6\n\nq7,\"q8\"\nq9,q10\nq11,q12\nq13\nq14,q15\nq16,q17\nq18,q19\nq20,q21\nq22,q23\n",
                                 "m1,m2", ""};

const std::vector<Cfg>& configs() {
    static const std::vector<Cfg> v = {
#define X(id, name, q, e, tl, tr, m, lim, ie, ih, ...) {name, q, e, tl, tr, m, lim, ie, ih},
#include "configs.def"
#undef X
    };
    return v;
}

std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}
static std::string unhex(const std::string& s) {
    std::string r;
    if (s == "-") return r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
std::string show(const std::string& s, size_t max) {
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > max) {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else r += static_cast<char>(c);
    }
    return r;
}

const std::string& source_name(const Task& t) {
    static const std::string names[] = {"main.csv", "q.tsv", "fifteen-chars.c", "sixteen-chars.cs", "/data/2024/quarterly, \"final\" (2).csv", std::string(200, 'd') + "/long.csv"};
    return names[static_cast<unsigned>(t.name) % 6];
}

std::string plan_to_text(const Plan& p) {
    std::ostringstream o;
    o << "simplan 1\nprop " << p.prop << "\nseed " << p.seed << "\n";
    for (auto& t : p.tasks) {
        o << "task\n# configuration: " << configs()[t.cfg].name << ", mode: " << (t.mode == 0 ? "bool" : t.mode == 1 ? "string_error" : "throw_on_error") << "\n";
        o << "cfg " << t.cfg << "\nmode " << t.mode << "\nfile " << t.file << "\nnullbuf " << t.null_buffer << "\n";
        o << "# data: " << show(t.data, 400) << "\n";
        o << "data " << hex(t.data) << "\ndelim " << hex(t.delim) << "\nchunks";
        for (int c : t.chunks) o << ' ' << c;
        o << "\nvbuf " << t.vbuf << "\nseek " << t.seek << "\nname " << t.name << "\n";
        for (auto& f : t.faults) {
            o << "fault " << f.k << ' ' << f.at << ' ' << f.nth << ' ' << f.n << ' ' << f.err << "   # " << fault_names[f.k] << "\n";
        }
        for (auto& x : t.ops) {
            o << "op " << x.k << ' ' << x.a << ' ' << x.b << ' ' << hex(x.s) << ' ' << hex(x.d) << "   # " << op_names[x.k];
            if (!x.s.empty()) o << " " << show(x.s);
            o << "\n";
        }
        o << "endtask\n";
    }
    o << "sched";
    for (int s : p.sched) o << ' ' << s;
    o << "\n";
    return o.str();
}

bool plan_from_text(const std::string& text, Plan& p) {
    std::istringstream in(text);
    std::string line;
    bool ok = false;
    Task* t = nullptr;
    while (std::getline(in, line)) {
        auto h = line.find("   # ");
        if (h != std::string::npos) line.resize(h);
        std::istringstream l(line);
        std::string k, s, d;
        if (!(l >> k) || k[0] == '#') continue;
        if (k == "simplan") ok = true;
        else if (k == "prop") l >> p.prop;
        else if (k == "seed") l >> p.seed;
        else if (k == "task") {
            p.tasks.emplace_back();
            t = &p.tasks.back();
        } else if (k == "sched") {
            int x;
            while (l >> x) p.sched.push_back(x);
        } else if (!t) continue;
        else if (k == "cfg") l >> t->cfg;
        else if (k == "mode") l >> t->mode;
        else if (k == "file") l >> t->file;
        else if (k == "nullbuf") l >> t->null_buffer;
        else if (k == "data") { l >> s; t->data = unhex(s); }
        else if (k == "delim") { l >> s; t->delim = unhex(s); }
        else if (k == "chunks") { int x; while (l >> x) t->chunks.push_back(x); }
        else if (k == "vbuf") l >> t->vbuf;
        else if (k == "seek") l >> t->seek;
        else if (k == "name") l >> t->name;
        else if (k == "fault") {
            Fault f;
            l >> f.k >> f.at >> f.nth >> f.n >> f.err;
            t->faults.push_back(f);
        } else if (k == "op") {
            Op o;
            l >> o.k >> o.a >> o.b >> s >> d;
            o.s = unhex(s);
            o.d = unhex(d);
            t->ops.push_back(o);
        }
    }
    for (auto& x : p.tasks)
        if (x.cfg < 0 || x.cfg >= static_cast<int>(configs().size()) || x.mode < 0 || x.mode > 2) return false;
    return ok && !p.tasks.empty();
}

std::string ev_text(const Event& e, bool with_err) {
    static const char* sn[] = {"ok", "error", "out of memory", "user exception", "unexpected exception", "none"};
    std::string r = sn[e.st];
    r += " [";
    for (size_t i = 0; i < e.vals.size(); ++i) {
        if (i) r += ", ";
        r += show(e.vals[i]);
    }
    r += "]";
    if (with_err && !e.err.empty()) r += " '" + show(e.err, 160) + "'";
    if (!e.log.empty()) {
        r += " callbacks:";
        for (auto& l : e.log) r += " " + show(l);
    }
    r += " eof=" + std::to_string(e.eof) + " line=" + std::to_string(e.line) + " pos=" + std::to_string(e.pos);
    if (!e.bad.empty()) r += " BAD: " + e.bad;
    return r;
}

uint64_t fnv(const std::string& s, uint64_t h) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return (h ^ 0xff) * 1099511628211ull;
}

std::vector<std::string> split_names(const std::string& s) {
    // "" : no names; every name is followed by \x1f
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) {
        if (c == '\x1f') {
            r.push_back(cur);
            cur.clear();
        } else cur += c;
    }
    if (r.size() > 6) r.resize(r.size() < 12 ? 6 : 12); // numbers of names the driver can pass
    return r;
}

static std::map<std::pair<int, int>, Factory>& drivers() {
    static std::map<std::pair<int, int>, Factory> m;
    return m;
}
static std::map<std::pair<int, int>, ConvFactory>& convs() {
    static std::map<std::pair<int, int>, ConvFactory> m;
    return m;
}
void register_driver(int c, int m, Factory f) { drivers()[{c, m}] = f; }
Factory find_driver(int c, int m) {
    auto it = drivers().find({c, m});
    return it == drivers().end() ? nullptr : it->second;
}
void register_conv(int c, int m, ConvFactory f) { convs()[{c, m}] = f; }
ConvFactory find_conv(int c, int m) {
    auto it = convs().find({c, m});
    return it == convs().end() ? nullptr : it->second;
}
std::vector<int> available_configs() {
    std::vector<int> r;
    for (auto& [k, f] : drivers())
        if (k.second == 0) r.push_back(k.first);
    return r;
}

} // namespace sim
