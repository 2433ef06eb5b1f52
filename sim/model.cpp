#include "model.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace sim {

////////////////
// splitting
////////////////
static bool in(char c, const std::string& set) { return set.find(c) != std::string::npos; }

MSplit model_split(const Cfg& c, const std::string& s, const std::string& delim, bool multi) {
    MSplit r;
    const size_t n = s.size();
    if (delim.empty()) {
        r.bad = "empty delimiter";
        return r;
    }
    auto skip = [&](size_t i, const std::string& set) {
        while (i < n && in(s[i], set)) ++i;
        return i;
    };
    auto delim_at = [&](size_t i) { return s.compare(i, delim.size(), delim) == 0; };
    size_t i = skip(0, c.trim_l);
    while (true) {
        std::string f;
        bool more = false; // another field follows
        if (i < n && in(s[i], c.quote)) {
            size_t j = i + 1;
            while (true) {
                if (j >= n) {
                    r.unterminated = true;
                    if (!multi) r.bad = "unterminated quote";
                    return r;
                }
                if (in(s[j], c.quote)) {
                    size_t m = skip(j + 1, c.trim_r);
                    if (m == n) break;
                    if (delim_at(m)) {
                        more = true;
                        i = m;
                        break;
                    }
                    if (in(s[j + 1], c.quote)) {
                        f += s[j + 1];
                        j += 2;
                        continue;
                    }
                    r.bad = "mismatched quote at position";
                    return r;
                }
                if (in(s[j], c.escape)) {
                    if (j + 1 >= n) {
                        r.bad = "unterminated escape at the end of the line";
                        return r;
                    }
                    f += s[j + 1];
                    j += 2;
                    continue;
                }
                f += s[j++];
            }
        } else {
            size_t j = i;
            while (true) {
                size_t m = skip(j, c.trim_r);
                if (m >= n) break;
                if (delim_at(m)) {
                    more = true;
                    i = m;
                    break;
                }
                f.append(s, j, m - j); // spacing inside the field
                j = m;
                if (in(s[j], c.escape)) {
                    if (j + 1 >= n) {
                        r.bad = "unterminated escape at the end of the line";
                        return r;
                    }
                    ++j;
                }
                f += s[j++];
            }
        }
        r.f.push_back(f);
        if (!more) return r;
        i = skip(i + delim.size(), c.trim_l);
    }
}

////////////////
// conversion
////////////////
static bool num(const std::string& s, long lo, long hi, long& v) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') {
        if (lo >= 0) return false;
        neg = true;
        ++i;
    }
    if (i >= s.size()) return false;
    long r = 0;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return false;
        r = r * 10 + (s[i] - '0');
        if (r > 1000000000000L) return false;
    }
    if (neg) r = -r;
    if (r < lo || r > hi) return false;
    v = r;
    return true;
}
static bool to_int(const std::string& s, long& v) { return num(s, -2147483648L, 2147483647L, v); }

// decimal floating point: [-]digits[.digits][e[+-]digits]; at least one digit
// or inf, infinity, nan in any case
bool without_fast_float = false;
static bool to_double(const std::string& s, double& v) {
    if (without_fast_float) { // what strtod reads: also a sign, space in front, hexadecimal numbers
        char* end = nullptr;
        v = std::strtod(s.c_str(), &end);
        return !s.empty() && end == s.c_str() + s.size();
    }
    std::string name = s.substr(!s.empty() && s[0] == '-');
    for (char& c : name) c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
    if (name.rfind("nan(", 0) == 0 && name.back() == ')' && name.find_first_not_of("0123456789_abcdefghijklmnopqrstuvwxyz", 4) == name.size() - 1) name = "nan";
    if (name == "inf" || name == "infinity" || name == "nan") {
        v = std::strtod(s.c_str(), nullptr);
        return true;
    }
    size_t i = 0, d = 0;
    if (i < s.size() && s[i] == '-') ++i;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i, ++d;
    if (i < s.size() && s[i] == '.') {
        ++i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i, ++d;
    }
    if (d == 0) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
        size_t e = 0;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i, ++e;
        if (e == 0) return false;
    }
    if (i != s.size()) return false;
    v = std::strtod(s.c_str(), nullptr);
    return true;
}

// column kinds, see exec_row
const char* const sig_cols[SIGS] = {"S", "SS", "SSS", "SSSS", "IS", "SVS", "OS", "AN", "RS", "SS", "SSS",
                                    "CS", "SS", "SS", "SS", "SSS", "DS", "S", "hb", "ES", "VuX", "xog", "SSSSSSSSSS",
                                    "SV", "QH", "FS", "jU", "PB", "GLT", "PA", "SS", "SISSSSVSSISI"};

static bool one(char k, const std::string& s, std::vector<std::string>& out, std::string& err) {
    long v = 0;
    auto S = [](const std::string& x) { return "s:" + x; };
    auto I = [](long x) { return "i:" + std::to_string(x); };
    err = "invalid conversion for parameter";
    switch (k) {
    case 'S': out.push_back(S(s)); return true;
    case 'I':
        if (!to_int(s, v)) return false;
        out.push_back(I(v));
        return true;
    case 'O': out.push_back(to_int(s, v) ? I(v) : "none"); return true;
    case 'A': out.push_back(to_int(s, v) ? I(v) : S(s)); return true;
    case 'N':
        if (s.empty()) {
            err = "empty field";
            return false;
        }
        out.push_back(S(s));
        return true;
    case 'R':
        if (!to_int(s, v)) return false;
        if (v < 0 || v > 99) {
            err = "validation error";
            return false;
        }
        out.push_back(I(v));
        return true;
    case 'C':
        if (s.empty() || s.find('z') != std::string::npos) return false;
        out.push_back("C:" + s);
        return true;
    case 'D': {
        double d;
        if (!to_double(s, d)) return false;
        char b[64];
        std::snprintf(b, sizeof b, "d:%a", d);
        out.push_back(b);
        return true;
    }
    case 'h':
        if (s.size() != 1) return false;
        out.push_back("c:" + s);
        return true;
    case 'b':
        if (s == "1" || s == "true") out.push_back("b:1");
        else if (s == "0" || s == "false") out.push_back("b:0");
        else return false;
        return true;
    case 'E':
        if (!to_int(s, v)) return false;
        if (v % 2 != 0) {
            err = "number not even";
            return false;
        }
        out.push_back(I(v));
        return true;
    case 'u':
        if (!num(s, 0, 255, v)) return false;
        out.push_back("u:" + std::to_string(v));
        return true;
    case 'j':
        if (!num(s, -128, 127, v)) return false;
        out.push_back("j:" + std::to_string(v));
        return true;
    case 'H':
        if (!num(s, -32768, 32767, v)) return false;
        out.push_back(I(v));
        return true;
    case 'U':
        if (!num(s, 0, 4294967295L, v)) return false;
        out.push_back(I(v));
        return true;
    case 'Q': { // any number of digits that fits
        if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) return false;
        size_t z = std::min(s.find_first_not_of('0'), s.size() - 1);
        std::string d = s.substr(z);
        if (d.size() > 20 || (d.size() == 20 && d > "18446744073709551615")) return false;
        out.push_back("i:" + d);
        return true;
    }
    case 'F': {
        double d;
        if (!to_double(s, d)) return false;
        float f = std::strtof(s.c_str(), nullptr);
        char b[64];
        std::snprintf(b, sizeof b, "f:%a", static_cast<double>(f));
        out.push_back(b);
        return true;
    }
    case 'P': out.push_back(S(s)); return true;
    case 'B': {
        double d;
        if (to_int(s, v)) out.push_back(I(v));
        else if (to_double(s, d)) {
            char b[64];
            std::snprintf(b, sizeof b, "d:%a", d);
            out.push_back(b);
        } else if (s == "true" || s == "false") out.push_back(s == "true" ? "b:1" : "b:0");
        else return false;
        return true;
    }
    case 'X':
    case 'x':
    case 'o':
    case 'G':
    case 'L':
    case 'T':
    case 'g': {
        if (!to_int(s, v)) return false;
        bool good = k == 'G' ? v >= 3 : k == 'L' ? v <= 42 : k == 'T' ? v < 7 : k == 'X' ? v >= 1 && v <= 3 : k == 'x' ? v != 1 && v != 2 : k == 'o' ? v < 3 || v > 5 : v > 0;
        if (!good) {
            err = k == 'X' || k == 'x' ? "value excluded" : "validation error";
            return false;
        }
        out.push_back(I(v));
        return true;
    }
    default: return false;
    }
}

static MConv convert_cols(const std::string& cols, const std::vector<std::string>& f, const std::vector<size_t>* map,
                          size_t columns) {
    MConv r;
    if (!map || map->empty()) {
        if (f.size() != cols.size()) {
            r.err = "invalid number of columns, expected: " + std::to_string(cols.size()) + ", got: " + std::to_string(f.size());
            return r;
        }
    } else {
        if (cols.size() != map->size()) {
            r.err = "number of arguments does not match mapping, expected: " + std::to_string(map->size()) + ", got: " + std::to_string(cols.size());
            return r;
        }
        if (f.size() != columns) {
            r.err = "invalid number of columns, expected: " + std::to_string(columns) + ", got: " + std::to_string(f.size());
            return r;
        }
    }
    for (size_t i = 0; i < cols.size(); ++i) {
        if (cols[i] == 'V') continue;
        const std::string& s = f[map && !map->empty() ? (*map)[i] : i];
        std::string err;
        if (!one(cols[i], s, r.vals, err)) {
            r.vals.clear();
            r.err = err + " at column " + std::to_string(i + 1) + ": '" + s + "'";
            return r;
        }
    }
    r.ok = true;
    return r;
}

MConv model_convert(int sig, const std::vector<std::string>& fields, const std::vector<size_t>* mapping, size_t columns) {
    return convert_cols(sig_cols[sig], fields, mapping, columns);
}

////////////////
// the stream
////////////////
Model::Model(const Task& t) : tp_{&t}, cp_{&configs()[t.cfg]} {
    avail_ = t.data.size();
    if (t.null_buffer) {
        open_fails_ = true;
    } else if (t.file) {
        for (auto& f : t.faults) {
            if (f.k == F_OPEN_ERR) open_fails_ = true;
            if (f.k == F_READ_ERR) {
                fails_ = true;
                avail_ = std::min<size_t>(avail_, static_cast<size_t>(std::max(0, f.at)));
            }
        }
    }
    size_t i = 0;
    while (i < avail_) {
        size_t nl = t.data.find('\n', i);
        if (nl == std::string::npos || nl >= avail_) {
            if (fails_) {
                avail_ = i; // cut short: it was never received completely
            } else {
                lines_.push_back({i, avail_, avail_});
                i = avail_;
            }
            break;
        }
        size_t text = nl > i && t.data[nl - 1] == '\r' ? nl - 1 : nl;
        lines_.push_back({i, text, nl + 1});
        i = nl + 1;
    }
    if (fails_) avail_ = lines_.empty() ? 0 : lines_.back().end;
}

void Model::prefetch() {
    if (cp_->ignore_empty)
        while (cur_ < lines_.size() && lines_[cur_].text == lines_[cur_].off) ++cur_;
    if (cur_ < lines_.size()) state = HAVE;
    else state = fails_ ? FAILED : END;
}

void Model::observe(Event& e) const {
    e.eof = state == END;
    e.line = line();
    e.pos = pos();
}

void Model::fail_event(Event& e, std::vector<std::string> must) const {
    e.st = ST_ERR;
    e.vals.clear();
    e.must = std::move(must);
}

Event Model::construct() {
    Event e;
    e.op = -1;
    if (open_fails_) {
        state = END;
        lines_.clear();
        avail_ = 0;
        fail_event(e, {name()});
        dead = tp_->mode == THROW;
        if (!dead) observe(e);
        return e;
    }
    prefetch();
    if (state == FAILED) { // nothing at all could be read
        state = END;
        fail_event(e, {name()});
        dead = tp_->mode == THROW;
        if (!dead) observe(e);
        return e;
    }
    if (cp_->ignore_header) {
        if (state == HAVE) {
            take();
            if (state == FAILED) { // nothing but the header could be read
                state = END;
                fail_event(e, {name()});
                dead = tp_->mode == THROW;
            }
        }
    } else if (state == HAVE) {
        raw_ = text(cur_);
    }
    if (!dead) observe(e);
    return e;
}

MRow Model::take() {
    MRow r;
    header_pending_ = false;
    r.first = r.last = cur_;
    std::string s = text(cur_);
    size_t extra = 0;
    auto join = [&](const char* unterminated) { // add the next line; false if the row ends here
        if (cp_->limit > 0 && extra++ >= static_cast<size_t>(cp_->limit)) {
            r.bad = "multiline limit reached";
            return false;
        }
        if (r.last + 1 >= lines_.size()) {
            r.bad = unterminated;
            return false;
        }
        s += eol(r.last);
        ++r.last;
        s += text(r.last);
        return true;
    };
    auto escaped_end = [&] {
        size_t n = 0;
        while (n < s.size() && in(s[s.size() - 1 - n], cp_->escape)) ++n;
        return n % 2 == 1;
    };
    auto escapes = [&] {
        if (cp_->multi && !cp_->escape.empty())
            while (escaped_end())
                if (!join("unterminated escape at the end of the line")) return false;
        return true;
    };
    bool ok = escapes();
    while (ok) {
        if (s.empty()) break; // an empty line has no columns
        MSplit p = model_split(*cp_, s, tp_->delim, cp_->multi);
        if (p.unterminated && cp_->multi) {
            ok = join("unterminated quote") && escapes();
            continue;
        }
        r.bad = p.bad;
        r.f = p.f;
        break;
    }
    cur_ = r.last + 1;
    after_ = cur_;
    prefetch();
    return r;
}

void Model::eof_event(Event& e) {
    if (state == FAILED) {
        state = END;
        fail_event(e, {name()});
    } else {
        fail_event(e, {name(), "read on end of file"});
    }
}

Event Model::request_event(int sig, const MRow& r) {
    Event e;
    if (!r.bad.empty()) {
        fail_event(e, {at(r.last), r.bad});
        return e;
    }
    MConv c = convert_cols(sig_cols[sig], r.f, &map_, map_cols_);
    if (!c.ok) fail_event(e, {at(r.last), c.err});
    else e.vals = c.vals;
    return e;
}

bool Model::header(std::vector<std::string>& names, Event& e) const {
    MSplit p = model_split(*cp_, raw_, tp_->delim, false);
    if (!p.bad.empty()) {
        fail_event(e, {name(), "failed header parsing: ", p.bad});
        return false;
    }
    names = p.f;
    return true;
}

////////////////
// chains
////////////////
namespace {
struct Alt {
    const char* cols;
    const char* cb;  // name of the callback, or null
    int how;         // 0: no arguments, 1: with the values
    int bit;         // which bit decides, -1: returns nothing
    const char* err; // on_error that follows
    bool object;
};
const std::vector<Alt>& chain_def(int c) {
    static const std::vector<Alt> d[CHAINS] = {
        {{"IS", nullptr, 0, -1, nullptr, false}, {"SS", nullptr, 0, -1, nullptr, false}, {"SSS", nullptr, 0, -1, nullptr, false}},
        {{"I", "c0", 0, 0, nullptr, false}, {"II", "c1", 1, 1, nullptr, false}, {"SS", "c2", 1, -1, "E", true}},
        {{"SS", "c0", 1, 0, nullptr, true}, {"SS", "c1", 1, 1, nullptr, false}, {"S", "c2", 1, 2, nullptr, false}},
        {{"SS", "c0", 1, 0, "E0", false}, {"SSS", "c1", 1, 1, "E1", false}, {"S", "c2", 1, -1, "E2", false}},
        {{"SS", "c0", 1, 0, nullptr, false}, {"SSS", "c1", 1, 1, nullptr, false}, {"S", nullptr, 0, -1, nullptr, false}},
        {{"CS", nullptr, 0, -1, nullptr, false}, {"ES", "c1", 1, 1, nullptr, false}, {"SS", "c2", 1, 2, nullptr, false}},
        {{"NR", nullptr, 0, -1, nullptr, false}, {"SV", "c1", 1, -1, "E", false}, {"S", "c2", 0, 2, nullptr, false}},
        {{"III", "c0", 1, 0, nullptr, false}, {"ISS", "c1", 1, 1, "E1", false}, {"SSS", "c2", 1, 2, nullptr, false}, {"II", "c3", 1, 2, nullptr, false}, {"SS", "c4", 1, 1, nullptr, true}, {"S", "c5", 1, 0, "E5", false}},
    };
    return d[c];
}
std::string joined(const std::vector<std::string>& v) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) r += '|';
        r += v[i];
    }
    return r;
}
} // namespace

void Model::chain(const Op& op, const Event& obs, Event& e) {
    bool have = state == HAVE;
    bool failed_read = state == FAILED;
    MRow r;
    if (have) r = take();
    else state = END;
    (void)obs;
    bool valid = false;
    std::vector<std::string> must;
    std::vector<std::string> vals;
    for (auto& a : chain_def(op.a)) {
        std::string v = "-";
        if (!valid) {
            if (!have) {
                must = failed_read ? std::vector<std::string>{name()} : std::vector<std::string>{name(), "read on end of file"};
            } else if (!r.bad.empty()) {
                must = {at(r.last), r.bad};
            } else {
                MConv c = convert_cols(a.cols, r.f, &map_, map_cols_);
                if (!c.ok) {
                    must = {at(r.last), c.err};
                } else {
                    valid = true;
                    if (a.cb) {
                        e.log.push_back(std::string(a.cb) + "(" + (a.how ? joined(c.vals) : "") + ")");
                        if (a.bit >= 0 && !(op.b >> a.bit & 1)) {
                            valid = false;
                            must = {name(), "failed check"};
                        }
                    }
                    if (valid) v = "(" + joined(c.vals) + ")";
                }
            }
        }
        vals.push_back(v);
        if (a.err && !valid) e.log.push_back(std::string(a.err) + "()");
    }
    if (!valid) {
        fail_event(e, must);
    }
    e.vals = vals;
}

////////////////
// operations
////////////////
Event Model::step(const Op& op, const Event& obs) {
    Event e;
    e.op = obs.op;
    wild = false;
    if (dead) {
        e.st = ST_NONE;
        return e;
    }
    switch (op.k) {
    case OP_ROW:
        if (state != HAVE) eof_event(e);
        else e = request_event(op.a, take());
        if (obs.user_faults) {
            e = Event{};
            e.st = ST_USER;
        }
        break;
    case OP_CHAIN:
        if (tp_->mode == THROW) {
            e.st = ST_NONE;
            break;
        }
        chain(op, obs, e);
        if (obs.user_faults) {
            auto log = e.log;
            e = Event{};
            e.st = ST_USER;
            e.log = log;
            // what had been called before
            if (obs.log.size() <= log.size()) e.log.resize(obs.log.size());
        }
        break;
    case OP_ITER: {
        int n = 0, bad = 0;
        const bool on = op.b >= 1000; // goes on after rejected rows
        const int most = on ? op.b - 1000 : op.b;
        size_t seen = static_cast<size_t>(std::count(obs.vals.begin(), obs.vals.end(), "/") + std::count(obs.vals.begin(), obs.vals.end(), "!"));
        bool go = state != END; // an exhausted source has nothing to iterate over
        while (go) {
            if (obs.user_faults && static_cast<size_t>(n + bad) == seen) {
                // user code threw for this row
                Event ignored;
                if (state == HAVE) take();
                else eof_event(ignored);
                e.st = ST_USER;
                break;
            }
            Event r;
            if (state != HAVE) {
                eof_event(r);
            } else {
                r = request_event(iter_sig[op.a % ITERS], take());
            }
            if (r.st != ST_OK && on) {
                e.vals.push_back("!");
                ++bad;
                if (state == END) break;
                continue;
            }
            if (r.st != ST_OK) {
                e.st = r.st;
                e.must = r.must;
                break;
            }
            for (auto& v : r.vals) e.vals.push_back(v);
            e.vals.push_back("/");
            ++n;
            if (n >= most) break;
            if (state == END) break;
        }
        break;
    }
    case OP_IGNORE:
        if (state == FAILED) {
            eof_event(e);
        } else {
            if (state == HAVE) take();
            e.vals.push_back(state != END ? "1" : "0");
        }
        break;
    case OP_HEADER:
        if (cp_->ignore_header) break;
        {
            std::vector<std::string> n;
            if (header(n, e))
                for (auto& x : n) e.vals.push_back("s:" + x);
        }
        break;
    case OP_RAW:
        if (cp_->ignore_header) break;
        e.vals.push_back("s:" + raw_);
        break;
    case OP_EXISTS:
    case OP_USE: {
        if (cp_->ignore_header) break;
        if (op.k == OP_USE && state == END && !header_used_) {
            wild = true; // nothing left to select from: no promise
            header_used_ = false;
            break;
        }
        std::vector<std::string> h;
        if (!header(h, e)) break;
        bool dup = false;
        for (size_t i = 0; i < h.size() && !dup; ++i)
            for (size_t j = 0; j < i && !dup; ++j)
                if (h[i] == h[j]) {
                    dup = true;
                    fail_event(e, {name(), "header contains duplicate: " + h[i]});
                }
        if (dup) break;
        header_used_ = true;
        if (op.k == OP_EXISTS) {
            e.vals.push_back(std::count(h.begin(), h.end(), op.s) ? "1" : "0");
            break;
        }
        auto names = split_names(op.s);
        if (names.empty()) {
            fail_event(e, {"invalid argument"});
            break;
        }
        std::vector<size_t> map;
        bool bad = false;
        for (auto& n : names) {
            if (std::count(names.begin(), names.end(), n) != 1) {
                fail_event(e, {name(), "given field used multiple times: " + n});
                bad = true;
                break;
            }
            auto it = std::find(h.begin(), h.end(), n);
            if (it == h.end()) {
                fail_event(e, {name(), "header does not contain given field: " + n});
                bad = true;
                break;
            }
            map.push_back(static_cast<size_t>(it - h.begin()));
        }
        if (bad) break;
        map_ = map;
        map_cols_ = h.size();
        if (header_pending_ && state == HAVE) { // the header itself is not a row
            header_pending_ = false;
            ++cur_;
            after_ = cur_;
            prefetch();
        }
        break;
    }
    case OP_MOVEC:
    case OP_MOVEA:
    case OP_SWAP:
    case OP_RESUME: break;
    case OP_DESTROY:
        dead = true;
        return e;
    default: break;
    }
    observe(e);
    return e;
}

} // namespace sim
