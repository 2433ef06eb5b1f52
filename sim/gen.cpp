#include "gen.hpp"
#include <algorithm>
#include <cerrno>

namespace sim {

int count_lines(const std::string& s) {
    int n = static_cast<int>(std::count(s.begin(), s.end(), '\n'));
    if (!s.empty() && s.back() != '\n') ++n;
    return n;
}

int pick_cfg(Rng& r, bool (*pred)(const Cfg&)) {
    static const std::vector<int> av = available_configs();
    static thread_local std::vector<int> v;
    v.clear();
    for (int i : av)
        if (!pred || pred(configs()[i])) v.push_back(i);
    if (v.empty()) return av.empty() ? 0 : av[0];
    return v[r.below(v.size())];
}

std::string gen_delim(Rng& r, const Cfg& c) {
    static const char* d[] = {",", ",", ",", ",", ",", ",", ";", "::", "->", "\t", "|~|", "xx", ", ", "ab", "--end of field--", "<=separator=>", "/0123456789/0123456789/0123456789/0123456789/"};
    while (true) {
        std::string x = d[r.chance(1, 12) ? r.below(sizeof d / sizeof *d) : r.below(15)];
        bool clash = false;
        for (char ch : x)
            if ((c.quote + c.escape + c.trim_l + c.trim_r).find(ch) != std::string::npos) clash = true;
        if (!clash) return x;
    }
}

static std::string word(Rng& r, const DataOpt& o) {
    static const char* w[] = {"a", "b", "x", "q", "ab", "bc", "foo", "lorem", "z", "zz1", "x y", "a b  c", "", "", "1a", "caf\xc3\xa9"};
    static const char* n[] = {"0", "1", "2", "3", "4", "5", "7", "42", "99", "100", "-3", "255", "256", "2147483647", "2147483648", "-2147483648",
                              "-2147483649", "007", "+5", "1.5", "-0.25", "1e3", "1e", ".5", "5.", "true", "false", "tru", "10", "12", "123456789012", "-", "1 ", "1e39", "-1e-400", "1e400", "inf",
                              "NaN", "nan(1)", "0.1000000000000000055511151231257827021181583404541015625", "0000000000000000000000000000000000000000000000000000000000000012",
                              "31415926535897932384626433832795028841971693993751058209749445923078164"};
    if (o.typed && r.chance(45, 100)) return n[r.below(sizeof n / sizeof *n)];
    return w[r.below(sizeof w / sizeof *w)];
}

static std::string long_word(Rng& r, const DataOpt& o) {
    static const int sz[] = {60, 100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 200, 250, 255, 256, 257, 300, 500};
    static const int hz[] = {1000, 4094, 4096, 5000, 8190, 8192, 8193, 12000};
    static const int gz[] = {65534, 65535, 65536, 65537, 70000};
    int n = r.below(1000) < static_cast<uint64_t>(o.huge) * 20 ? (r.chance(1, 8) ? gz[r.below(5)] : hz[r.below(8)]) : sz[r.below(sizeof sz / sizeof *sz)];
    std::string s;
    int base = r.range(0, 25);
    for (int i = 0; i < n; ++i) s += static_cast<char>('a' + (base + i) % 26);
    return s;
}

// the beginning of a delimiter, or all of it with one character changed
static std::string part_of(Rng& r, std::string delim) {
    if (delim.size() < 2) return delim == "," ? ";" : "";
    if (r.chance(3, 4)) return delim.substr(0, r.range(1, static_cast<int>(delim.size()) - 1));
    delim[r.below(delim.size())] = 'y';
    return delim;
}

static char noise_char(Rng& r, const Cfg& c, const std::string& delim, const DataOpt& o) {
    if (o.nul && r.chance(1, 12)) return static_cast<char>(r.below(4) == 0 ? r.below(256) : 0);
    std::string set = "ab1 z";
    for (int i = 0; i < 2; ++i) set += c.quote + c.escape + c.trim_l + c.trim_r + delim;
    set += "\r\n\t";
    return set[r.below(set.size())];
}

// text of a field inside quotes
static std::string quoted(Rng& r, const Cfg& c, const std::string& delim, const DataOpt& o, char q) {
    std::string s;
    int n = r.range(0, 4);
    for (int i = 0; i < n; ++i) {
        switch (r.below(9)) {
        case 0: s += std::string(2, q); break;
        case 1: s += delim; break;
        case 2:
            if (!c.escape.empty()) {
                s += c.escape[r.below(c.escape.size())];
                s += r.chance(1, 2) ? q : r.chance(1, 2) ? c.escape[0] : r.chance(1, 3) && c.multi ? '\n' : 'n';
            } else s += word(r, o);
            break;
        case 3:
            if (c.multi && r.chance(2, 3)) s += r.chance(1, 3) ? "\r\n" : "\n";
            else s += " ";
            break;
        case 4: s += r.chance(1, 2) ? part_of(r, delim) : " "; break;
        case 5:
            if (r.below(100) < static_cast<uint64_t>(o.longs) * 2) s += long_word(r, o);
            else s += word(r, o);
            break;
        default: s += word(r, o); break;
        }
    }
    return s;
}

// a text for a column of this kind, one that fits mostly
static std::string kind_word(Rng& r, char k, const DataOpt& o) {
    auto n = [&](int lo, int hi) { return std::to_string(r.range(lo, hi)); };
    static const char* big[] = {"0", "18446744073709551615", "18446744073709551616", "9999999999999999999", "00000000000000000000012", "4294967296"};
    switch (k) {
    case 'I': return r.chance(1, 4) ? (r.chance(1, 2) ? "-" : "") + std::to_string(r.below(2147483650)) : n(-20, 200);
    case 'E': return n(-20, 20);
    case 'O':
    case 'A': return r.chance(1, 2) ? n(0, 999) : word(r, o);
    case 'R': return n(-2, 101);
    case 'D':
    case 'F': return n(-99, 99) + (r.chance(2, 3) ? "." + n(0, 99999) : "") + (r.chance(1, 4) ? "e" + n(-30, 30) : "");
    case 'h': return std::string(1, "abz 19"[r.below(6)]);
    case 'b': return r.chance(1, 2) ? (r.chance(1, 2) ? "true" : "false") : n(0, 1);
    case 'u': return n(0, 260);
    case 'j': return n(-130, 130);
    case 'H': return n(-32770, 32770);
    case 'U': return r.chance(1, 3) ? "4294967295" : n(0, 99999);
    case 'Q': return r.chance(1, 2) ? big[r.below(6)] : n(0, 99999);
    case 'B': return r.chance(1, 3) ? n(-5, 5) : r.chance(1, 2) ? n(0, 9) + "." + n(0, 9) : r.chance(3, 4) ? "true" : "x";
    case 'X': return n(0, 4);
    case 'x': return n(0, 9);
    case 'o': return n(1, 8);
    case 'g': return n(-2, 9);
    case 'G': return n(1, 9);
    case 'L': return n(30, 50);
    case 'T': return n(-3, 9);
    default: return word(r, o);
    }
}

static std::string field(Rng& r, const Cfg& c, const std::string& delim, const DataOpt& o) {
    std::string f;
    uint64_t k = r.below(100);
    if (k < static_cast<uint64_t>(o.bad)) {
        int n = r.range(1, 6);
        for (int i = 0; i < n; ++i) f += noise_char(r, c, delim, o);
        return f;
    }
    auto sp = [&](const std::string& set) {
        std::string s;
        if (!set.empty() && r.chance(1, 3))
            for (int i = r.range(1, 3); i > 0; --i) s += set[r.below(set.size())];
        return s;
    };
    f += sp(c.trim_l);
    k = r.below(100);
    if (!c.quote.empty() && k < 40) {
        char q = c.quote[r.below(c.quote.size())];
        f += q + quoted(r, c, delim, o, q) + q;
    } else if (!c.escape.empty() && k < 65) {
        f += word(r, o);
        char e = c.escape[r.below(c.escape.size())];
        f += e;
        if (r.chance(1, 8)) f += std::string(r.chance(1, 8) ? r.range(10, 140) : r.range(1, 9), e);
        switch (r.below(5)) {
        case 0: f += delim; break;
        case 1: f += e; break;
        case 2: f += c.quote.empty() ? 'x' : c.quote[0]; break;
        case 3: f += c.multi ? (r.chance(1, 4) ? "\r\n" : "\n") : "x"; break;
        default: f += 'n'; break;
        }
        f += word(r, o);
    } else {
        f += r.below(100) < static_cast<uint64_t>(o.longs) ? long_word(r, o) : word(r, o);
        if (r.chance(1, 40)) f += "\rx";
        if (delim.size() > 1 && r.chance(1, 8)) f += part_of(r, delim) + (r.chance(1, 2) ? word(r, o) : "");
    }
    f += sp(c.trim_r);
    return f;
}

std::string gen_line(Rng& r, const Cfg& c, const std::string& delim, const DataOpt& o, int row) {
    if (r.below(100) < static_cast<uint64_t>(o.empty)) return "";
    std::string s;
    if (c.multi && c.limit == 0 && r.below(2000) < static_cast<uint64_t>(o.tower)) {
        std::string in, nl = (c.quote.empty() ? c.escape.substr(0, 1) : "") + (r.chance(1, 3) ? "\r\n" : "\n");
        for (int i = r.range(3000, 6000); i > 0; --i) in += nl;
        return c.quote.empty() ? in : c.quote[0] + in + c.quote[0];
    }
    if (c.multi && r.below(1000) < static_cast<uint64_t>(o.tall)) { // a row over many lines
        int n = r.chance(1, 3) ? r.range(3, 8) : r.range(20, 120);
        std::string in;
        for (int i = 0; i < n; ++i) in += word(r, o) + (c.quote.empty() ? c.escape.substr(0, 1) : "") + (r.chance(1, 6) ? "\r\n" : "\n");
        if (!c.quote.empty()) in = c.quote[0] + in + c.quote[0];
        return (o.unique ? "r" + std::to_string(row) : word(r, o)) + delim + in;
    }
    if (r.below(100) < static_cast<uint64_t>(o.raw)) {
        int n = r.range(1, 14);
        for (int i = 0; i < n; ++i) s += noise_char(r, c, delim, o);
        if (o.unique) s += "#" + std::to_string(row);
        return s;
    }
    if (delim.size() == 1 && r.below(2000) < static_cast<uint64_t>(o.wide)) { // as many columns as are asked for, in 8 or 16 bits
        size_t n = (r.chance(1, 12) ? 65536 : 256 * r.range(1, 2)) + r.range(1, 4);
        for (size_t i = 1; i < n; ++i) s += delim;
        return s + "w";
    }
    int n = o.cols;
    if (r.below(100) >= static_cast<uint64_t>(o.two)) {
        static const int k[] = {1, 1, 1, 3, 3, 3, 4, 5};
        n = k[r.below(8)];
        if (o.cols > 4) n = std::max(1, o.cols + r.range(-1, 1));
    }
    for (int i = 0; i < n; ++i) {
        if (i) s += delim;
        std::string f;
        if (n > 12 && r.chance(9, 10)) f = std::to_string(i);
        else if (static_cast<size_t>(i) < o.kinds.size() && o.kinds[i] != 'S' && o.kinds[i] != 'V' && r.chance(9, 10)) {
            f = kind_word(r, o.kinds[i], o);
            if (!c.quote.empty() && r.chance(1, 5)) f = c.quote[0] + f + c.quote[0];
        } else f = field(r, c, delim, o);
        if (o.unique && i == 0) f = "r" + std::to_string(row) + (r.chance(1, 2) ? "" : f);
        s += f;
    }
    if (r.chance(1, 25)) s += delim;
    return s;
}

std::string gen_data(Rng& r, const Cfg& c, const std::string& delim, const DataOpt& o) {
    std::string s;
    int rows = r.range(o.rows_lo, o.rows_hi);
    int style = static_cast<int>(r.below(4)); // LF, LF, CRLF, mixed
    auto eol = [&] { return style <= 1 ? "\n" : style == 2 ? "\r\n" : r.chance(1, 2) ? "\n" : "\r\n"; };
    if (o.header) {
        static const char* names[] = {"id", "a", "b", "c", "x y", "d"};
        if (c.ignore_empty && r.chance(1, 3))
            for (int i = r.range(1, 2); i > 0; --i) s += eol();
        if (o.header == 2 && r.chance(1, 8)) {
            s += gen_line(r, c, delim, o, 0);
        } else if (o.cols > 4) {
            for (int i = 0; i < o.cols; ++i) s += (i ? delim : "") + "f" + std::to_string(o.header == 2 && r.chance(1, 300) ? 0 : i);
        } else {
            int n = r.range(1, 4);
            if (r.chance(2, 3)) n = r.range(2, 3);
            int at = static_cast<int>(r.below(6));
            for (int i = 0; i < n; ++i) {
                if (i) s += delim;
                std::string f = names[(at + i) % 6];
                if (o.header == 2 && r.chance(1, 14)) f = names[r.below(6)];
                if (o.header == 2 && r.chance(1, 40)) f = field(r, c, delim, o);
                if (!c.quote.empty() && r.chance(1, 5)) f = c.quote[0] + f + c.quote[0];
                s += f;
            }
        }
        s += eol();
    }
    for (int i = 0; i < rows; ++i) {
        s += gen_line(r, c, delim, o, i);
        s += eol();
    }
    if (!s.empty() && r.chance(2, 5)) {
        s.pop_back();
        if (!s.empty() && s.back() == '\r' && r.chance(2, 3)) s.pop_back();
    }
    return s;
}

void gen_delivery(Rng& r, Task& t) {
    t.file = r.chance(2, 3);
    t.chunks.clear();
    t.vbuf = 0;
    t.seek = false;
    if (!t.file) return;
    t.seek = r.chance(1, 2);
    t.name = r.chance(1, 3) ? r.range(1, 5) : 0;
    switch (r.below(6)) {
    case 0: break;
    case 1: t.chunks = {1}; break;
    case 2: t.chunks = {r.range(2, 9)}; break;
    case 3:
        for (int i = r.range(1, 5); i > 0; --i) t.chunks.push_back(r.range(1, 40));
        break;
    case 4:
        for (int i = r.range(1, 6); i > 0; --i) t.chunks.push_back(r.chance(1, 2) ? r.range(1, 4) : r.range(100, 5000));
        break;
    default: t.chunks = {r.range(1, 3)}; break;
    }
    if (r.chance(1, 2)) {
        static const int v[] = {1, 2, 3, 7, 16, 64, 119, 120, 121, 128, 4096};
        t.vbuf = v[r.below(11)];
    }
    if (r.chance(1, 5)) {
        for (int i = r.range(1, 3); i > 0; --i) {
            Fault f;
            f.k = F_STALL;
            f.at = static_cast<int>(r.below(12));
            f.n = r.range(1, 5000);
            t.faults.push_back(f);
        }
    }
}

// names to select: of the header of the data, mostly
static std::string names(Rng& r, const Task& t) {
    if (r.chance(3, 4)) {
        const Cfg& c = configs()[t.cfg];
        size_t i = 0;
        while (c.ignore_empty && i < t.data.size() && (t.data[i] == '\n' || t.data[i] == '\r')) ++i;
        std::string line = t.data.substr(i, t.data.find('\n', i) - i);
        std::vector<std::string> all;
        while (!line.empty()) {
            size_t d = line.find(t.delim);
            std::string f = line.substr(0, d);
            while (!f.empty() && (f.back() == '\r' || c.quote.find(f.back()) != std::string::npos)) f.pop_back();
            if (!f.empty() && c.quote.find(f[0]) != std::string::npos) f.erase(0, 1);
            all.push_back(f);
            if (d == std::string::npos) break;
            line.erase(0, d + t.delim.size());
        }
        if (!all.empty()) {
            int k = std::min<int>(static_cast<int>(all.size()), r.chance(3, 5) ? 2 : r.range(1, 6));
            if (all.size() >= 12 && r.chance(1, 3)) k = 12;
            size_t at = r.below(all.size()), step = 1 + r.below(all.size());
            if (r.chance(1, 4)) at = all.size() - 1;
            std::string s;
            std::vector<size_t> used;
            for (int n = 0; n < k; ++n) {
                size_t x = (at + static_cast<size_t>(n) * step) % all.size();
                while (std::count(used.begin(), used.end(), x)) x = (x + 1) % all.size();
                used.push_back(x);
                s += all[x] + '\x1f';
            }
            return s;
        }
    }
    static const char* n[] = {"id", "a", "b", "c", "x y", "d", "nope", ""};
    std::string s;
    int k = r.chance(1, 14) ? 0 : r.chance(1, 2) ? 2 : r.chance(2, 3) ? 1 : r.range(3, 4);
    int at = static_cast<int>(r.below(6)), step = r.range(1, 5);
    for (int i = 0; i < k; ++i) {
        s += r.chance(1, 16) ? n[r.below(8)] : n[(at + i * step) % 6];
        s += '\x1f';
    }
    return s;
}

void gen_ops(Rng& r, Task& t, int n, const std::vector<OpW>& w) {
    int total = 0;
    for (auto& x : w) total += x.weight;
    static const int sigs2[] = {1, 1, 1, 1, 9, 9, 12, 13, 14, 4, 6, 7, 8, 11, 16, 18, 19};
    static const int sigs3[] = {2, 2, 10, 15, 5, 20, 21};
    static const int sigs1[] = {0, 17};
    size_t lines = 0, delims = 0;
    for (size_t i = 0; i < t.data.size() && i < 600; ++i) {
        lines += t.data[i] == '\n';
        delims += t.data.compare(i, t.delim.size(), t.delim) == 0;
    }
    if (t.data.size() > 200000 && t.data.find('\n') < 100) { // most of it in one go
        Op o;
        o.k = OP_ITER;
        static const int plain[] = {0, 1, 2, 3, 4};
        o.a = plain[r.below(5)];
        o.b = 1000 + (r.chance(1, 2) ? 65500 : 65536) + r.range(-3, 3);
        t.ops.push_back(o);
        n = std::min(n, 9);
    }
    bool ten = lines && delims / lines >= 5 && delims / lines <= 12;
    int home = ten ? 10 : r.chance(4, 5) ? 2 : static_cast<int>(r.range(1, 3)); // usual number of columns
    for (int i = 0; i < n; ++i) {
        int x = static_cast<int>(r.below(total));
        Op o;
        for (auto& p : w) {
            if (x < p.weight) {
                o.k = p.kind;
                break;
            }
            x -= p.weight;
        }
        switch (o.k) {
        case OP_ROW: {
            int cols = r.chance(5, 6) ? home : static_cast<int>(r.range(1, 4));
            o.a = cols == 1 ? sigs1[r.below(2)] : cols == 2 ? sigs2[r.below(17)] : cols == 3 ? sigs3[r.below(7)] : cols == 10 ? 22 : 3;
            if (t.home >= 0 && r.chance(3, 5)) {
                o.a = t.home;
                break;
            }
            if (cols == 2 && r.chance(1, 14)) o.a = 23;
            if (rich(t.cfg) && r.chance(1, 8)) o.a = r.range(24, SIGS - 1);
            break;
        }
        case OP_CHAIN:
            o.a = static_cast<int>(r.below(CHAINS));
            o.b = static_cast<int>(r.below(8));
            break;
        case OP_ITER:
            o.a = static_cast<int>(r.below(ITERS));
            if (t.home == 19 && r.chance(1, 2)) o.a = 6;
            o.b = r.range(1, 5);
            if (r.chance(1, 3)) o.b += 1000;
            break;
        case OP_USE:
            o.s = names(r, t);
            o.a = static_cast<int>(r.below(2));
            break;
        case OP_EXISTS: {
            static const char* f[] = {"id", "a", "b", "nope", ""};
            o.s = f[r.below(5)];
            break;
        }
        case OP_MOVEA:
        case OP_SWAP:
            o.a = static_cast<int>(r.below(4));
            o.b = static_cast<int>(r.chance(1, 4) ? r.range(4, 14) : r.below(4));
            break;
        default: break;
        }
        t.ops.push_back(o);
    }
}

Plan gen_nested(uint64_t seed) {
    Rng r{seed + 77};
    Plan p;
    p.tasks.emplace_back();
    Task& t = p.tasks[0];
    t.cfg = pick_cfg(r);
    t.mode = static_cast<int>(r.below(3));
    auto& c = configs()[t.cfg];
    t.delim = gen_delim(r, c);
    DataOpt o;
    o.rows_hi = 4;
    t.data = gen_data(r, c, t.delim, o);
    gen_delivery(r, t);
    gen_ops(r, t, r.range(1, 5), {{OP_ROW, 6}, {OP_ITER, 1}, {OP_IGNORE, 1}});
    return p;
}

} // namespace sim
