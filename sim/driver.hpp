// The real library, driven by plan operations. One translation unit per configuration instantiates this for the
// three error modes. Everything that runs inside LibScope is library code (plus the user code it calls).
#pragma once
#include "core.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <variant>
#ifdef SIM_PORTABLE // the line reading used on systems which are not __unix__
#include <array>
#include <atomic>
#include <charconv>
#include <cstdint>
#include <limits>
#include <string>
#include <thread>
#include <vector>
#undef __unix__
#endif
#ifdef SIM_SINGLE_HEADER
#include SIM_SINGLE_HEADER
#else
#include <ss/parser.hpp>
#endif

// groups of operations to compile
#ifndef SIM_OPS
#define SIM_OPS 0xff
#endif
#define SIM_TYPED ((SIM_OPS)&1)
#define SIM_CHAIN ((SIM_OPS)&2)
#define SIM_ITER ((SIM_OPS)&4)
#define SIM_HDR ((SIM_OPS)&8)
#define SIM_CONV ((SIM_OPS)&16)
#define SIM_MOVE ((SIM_OPS)&32)

namespace ss { struct none_list {}; }

namespace sim {

////////////////
// user code
////////////////
struct Cust { // custom conversion: accepts non empty fields without 'z'
    std::string v;
};
template <typename T>
struct even {
    bool ss_valid(const T& x) const {
        user_point("valid");
        return x % 2 == 0;
    }
    const char* error() const { return "number not even"; }
};
struct Obj {
    std::string a, b;
    Obj() = default;
    Obj(std::string x, std::string y) : a{std::move(x)}, b{std::move(y)} { user_point("ctor"); }
};
struct Views {
    std::string_view a, b;
    Views() = default;
    Views(std::string_view x, std::string_view y) : a{x}, b{y} { user_point("ctor"); }
};
struct Tied {
    std::string a, b;
    auto tied() { return std::tie(a, b); }
};
} // namespace sim

namespace ss {
template <>
inline bool extract(const char* begin, const char* end, sim::Cust& dst) {
    sim::user_point("extract");
    if (begin == end || std::find(begin, end, 'z') != end) return false;
    dst.v.assign(begin, end);
    return true;
}
} // namespace ss

namespace sim {

////////////////
// canonical values
////////////////
using Out = std::vector<std::string>;
inline void put(Out& o, const std::string& v) { o.push_back("s:" + v); }
inline void put(Out& o, const std::string_view& v) { o.push_back("s:" + std::string{v}); }
inline void put(Out& o, int v) { o.push_back("i:" + std::to_string(v)); }
inline void put(Out& o, short v) { o.push_back("i:" + std::to_string(v)); }
inline void put(Out& o, unsigned v) { o.push_back("i:" + std::to_string(v)); }
inline void put(Out& o, unsigned long long v) { o.push_back("i:" + std::to_string(v)); }
inline void put(Out& o, float v) {
    char b[64];
    std::snprintf(b, sizeof b, "f:%a", static_cast<double>(v));
    o.push_back(b);
}
inline void put(Out& o, const ss::int8& v) { o.push_back("j:" + std::to_string(static_cast<int>(static_cast<int8_t>(v)))); }
inline void put(Out& o, char v) { o.push_back(std::string("c:") + v); }
inline void put(Out& o, bool v) { o.push_back(v ? "b:1" : "b:0"); }
inline void put(Out& o, double v) {
    char b[64];
    std::snprintf(b, sizeof b, "d:%a", v);
    o.push_back(b);
}
inline void put(Out& o, const ss::uint8& v) { o.push_back("u:" + std::to_string(static_cast<int>(static_cast<uint8_t>(v)))); }
inline void put(Out& o, const Cust& v) { o.push_back("C:" + v.v); }
inline void put(Out& o, const Obj& v) { put(o, v.a); put(o, v.b); }
inline void put(Out& o, const Views& v) { put(o, v.a); put(o, v.b); }
inline void put(Out& o, const std::optional<std::string_view>& v) { if (v) put(o, *v); else o.push_back("none"); }
inline void put(Out& o, const std::variant<int, std::string_view>& v) { if (v.index() == 0) put(o, std::get<0>(v)); else put(o, std::get<1>(v)); }
inline void put(Out& o, const Tied& v) { put(o, v.a); put(o, v.b); }
inline void put(Out& o, const std::vector<std::string>& v) { for (auto& x : v) put(o, x); }
inline void put(Out& o, const std::optional<int>& v) { if (v) put(o, *v); else o.push_back("none"); }
inline void put(Out& o, const std::optional<std::string>& v) { if (v) put(o, *v); else o.push_back("none"); }
inline void put(Out& o, const std::variant<int, double, bool>& v) { if (v.index() == 0) put(o, std::get<0>(v)); else if (v.index() == 1) put(o, std::get<1>(v)); else put(o, std::get<2>(v)); }
inline void put(Out& o, const std::variant<int, std::string>& v) { if (v.index() == 0) put(o, std::get<0>(v)); else put(o, std::get<1>(v)); }
template <typename... Ts>
void put(Out& o, const std::tuple<Ts...>& t) {
    std::apply([&](const auto&... x) { (put(o, x), ...); }, t);
}
inline std::string join(const Out& o) {
    std::string r;
    for (size_t i = 0; i < o.size(); ++i) {
        if (i) r += '|';
        r += o[i];
    }
    return r;
}

////////////////
// views held across operations
////////////////
struct Held {
    std::vector<std::string_view> v;
    std::vector<std::string> copy;
    void clear() { v.clear(); copy.clear(); }
    void add(std::string_view x) { v.push_back(x); copy.emplace_back(x); }
    bool ok() const {
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i] != copy[i]) return false;
        return true;
    }
};
template <typename T> void hold(Held&, const T&) {}
inline void hold(Held& h, const std::string_view& v) { h.add(v); }
inline void hold(Held& h, const Views& v) { h.add(v.a); h.add(v.b); }
inline void hold(Held& h, const std::optional<std::string_view>& v) { if (v) h.add(*v); }
inline void hold(Held& h, const std::variant<int, std::string_view>& v) { if (v.index() == 1) h.add(std::get<1>(v)); }
template <typename... Ts>
void hold(Held& h, const std::tuple<Ts...>& t) {
    std::apply([&](const auto&... x) { (hold(h, x), ...); }, t);
}

template <typename F>
void guarded(Event& e, F&& f) {
    try {
        LibScope s;
        f();
    } catch (const ss::exception& x) {
        e.st = ST_ERR;
        e.err = x.what();
        if (e.err.empty()) e.bad = "empty error text";
        if (e.err.find("user says no") != std::string::npos) { // thrown by user code; the library may add the place
            e.st = ST_USER;
            e.err = "user says no";
        }
    } catch (const std::bad_alloc&) {
        e.st = ST_OOM;
    } catch (const UserBoom&) {
        e.st = ST_USER;
        e.err = "boom";
    } catch (int x) {
        e.st = ST_USER;
        e.err = "int " + std::to_string(x);
    } catch (const std::out_of_range& x) {
        e.st = std::strcmp(x.what(), "user range") == 0 ? ST_USER : ST_OTHER;
        e.err = x.what();
    } catch (const std::runtime_error& x) {
        e.st = std::strcmp(x.what(), "user boom") == 0 ? ST_USER : ST_OTHER;
        e.err = x.what();
    } catch (const std::exception& x) {
        e.st = ST_OTHER;
        e.err = x.what();
    } catch (...) {
        e.st = ST_OTHER;
        e.err = "unknown exception";
    }
}

template <typename... Opts>
struct Driver : IDriver {
    using P = ss::parser<Opts...>;
    using Setup = ss::setup<Opts...>;
    static constexpr bool throws = Setup::throw_on_error;
    static constexpr bool strings = Setup::string_error;
    static constexpr bool with_header = !Setup::ignore_header;

    std::unique_ptr<P> p;
    Held held;
    size_t base_line = 0, base_pos = 0;
    std::string bufcopy; // keeps the memory of a resumed buffer

    static std::unique_ptr<P> open(const Task& t, const std::string& data, bool file, const char* name) {
        if (t.null_buffer) return std::make_unique<P>(nullptr, 10, t.delim);
        if (file) return std::make_unique<P>(name, t.delim);
        return std::make_unique<P>(data.data(), data.size(), t.delim);
    }

    static std::unique_ptr<IDriver> create(const Task& t, Event& e) {
        auto d = std::make_unique<Driver>();
        guarded(e, [&] { d->p = open(t, t.data, t.file, source_name(t).c_str()); });
        if (d->p && e.st == ST_OK) d->check_valid(e);
        return d;
    }

    bool alive() const override { return p != nullptr; }
    static bool read_failed() {
        return !ctx()->fs.empty() && ctx()->fs[0].second->read_faults > 0;
    }
    bool held_ok() const override { return held.ok(); }
    void drop_held() override { held.clear(); }

    void observe(Event& e) override {
        if (!p) return;
        LibScope s;
        e.eof = p->eof();
        e.line = p->line() + base_line;
        e.pos = p->position() + base_pos;
    }

    // translate valid()/error_msg() into the event
    void check_valid(Event& e) {
        if constexpr (!throws) {
            if (!p->valid()) {
                UserScope u;
                e.st = ST_ERR;
                if constexpr (strings) {
                    e.err = p->error_msg();
                    if (e.err.empty()) e.bad = "empty error text";
                }
            }
        } else {
            if (!p->valid()) {
                UserScope u;
                e.bad = "valid() is false with throw_on_error";
            }
        }
    }

    template <typename F>
    void row(Event& e, F&& get) {
        held.clear();
        guarded(e, [&] {
            auto v = get();
            check_valid(e);
            if (e.st == ST_OK) {
                UserScope u;
                put(e.vals, v);
                hold(held, v);
            }
        });
    }

    void exec_row(int sig, Event& e) {
        using std::optional;
        using std::string;
        using std::string_view;
        using std::variant;
#define R(N, ...) case N: row(e, [&] { return p->template get_next<__VA_ARGS__>(); }); break;
        switch (sig) {
            R(0, string)
            R(1, string, string)
            R(2, string, string, string)
            R(3, string, string, string, string)
            R(9, string_view, string_view)
            R(10, string_view, string_view, string_view)
            R(17, string_view)
#if SIM_TYPED
            R(4, int, string)
            R(5, string, void, string)
            R(6, optional<int>, string)
            R(7, variant<int, string>, ss::ne<string>)
            R(8, ss::ir<int, 0, 99>, string)
            R(11, Cust, string)
            R(12, std::tuple<string, string>)
            R(13, Tied)
            case 14: row(e, [&] { return p->template get_object<Obj, string, string>(); }); break;
            case 15: row(e, [&] { return p->template get_object<std::vector<string>, string, string, string>(); }); break;
            R(16, double, string)
            R(18, char, bool)
            R(19, even<int>, string)
            R(20, void, ss::uint8, ss::nx<int, 1, 2, 3>)
            R(21, ss::ax<int, 1, 2>, ss::oor<int, 3, 5>, ss::gt<int, 0>)
            R(22, string, string, string, string, string, string, string, string, string, string)
            R(23, string, void)
#if CFG_ID % 4 == 1
            R(24, unsigned long long, short)
            R(25, float, string)
            R(26, ss::int8, unsigned)
            case 27: row(e, [&] { return p->template get_next<std::tuple<optional<string>, variant<int, double, bool>>>(); }); break;
            R(28, ss::gte<int, 3>, ss::lte<int, 42>, ss::lt<int, 7>)
            R(29, optional<string_view>, variant<int, string_view>)
            case 30: row(e, [&] { return p->template get_object<Views, string_view, string_view>(); }); break;
            R(31, string, int, string, string, string, string, void, string, string, int, string, int)
#endif
#endif
        default: e.st = ST_NONE; break;
        }
#undef R
    }

    ////////////////
    // chains
    ////////////////
    template <typename T> void alt(Event& e, const std::optional<T>& o) {
        if (!o) {
            e.vals.push_back("-");
            return;
        }
        Out x;
        put(x, *o);
        e.vals.push_back("(" + join(x) + ")");
        hold(held, *o);
    }
    template <typename T>
    void chain_done(Event& e, const T& values) {
        check_valid(e);
        UserScope u;
        std::apply([&](const auto&... o) { (alt(e, o), ...); }, values);
    }
    template <typename... Ts> void cb(Event& e, const char* n, const Ts&... xs) {
        user_point("callback");
        UserScope u;
        Out o;
        (put(o, xs), ...);
        e.log.push_back(std::string(n) + "(" + join(o) + ")");
    }

    void exec_chain(int chain, int bits, Event& e) {
#if SIM_CHAIN
        if constexpr (!throws) {
            using std::string;
            using std::string_view;
            held.clear();
            auto b = [&](int i) { return (bits >> i & 1) != 0; };
            auto err = [&](const char* n) {
                auto plain = [&e, n, this] { cb(e, n); };
                if constexpr (strings) {
                    return [&e, n, this](const string& text) {
                        cb(e, n);
                        UserScope u;
                        if (text != p->error_msg() || text.empty()) e.bad = "on_error is handed '" + text + "' instead of '" + p->error_msg() + "'";
                    };
                } else {
                    return plain;
                }
            };
            guarded(e, [&] {
                switch (chain) {
                case 0: {
                    auto v = p->template try_next<int, string>().template or_else<string, string>().template or_else<string, string, string>().values();
                    chain_done(e, v);
                    break;
                }
                case 1: {
                    auto v = p->template try_next<int>([&] { cb(e, "c0"); return b(0); })
                                 .template or_else<int, int>([&](int x, int y) { cb(e, "c1", x, y); return b(1); })
                                 .template or_object<Obj, string, string>([&](const Obj& o) { cb(e, "c2", o); })
                                 .on_error(err("E"))
                                 .values();
                    chain_done(e, v);
                    break;
                }
                case 2: {
                    auto v = p->template try_object<Obj, string, string>([&](const Obj& o) { cb(e, "c0", o); return b(0); })
                                 .template or_else<string, string>([&](const std::tuple<string, string>& t) { cb(e, "c1", t); return static_cast<int>(b(1)); })
                                 .template or_else<string>([&](const string& s) { cb(e, "c2", s); return b(2); })
                                 .values();
                    chain_done(e, v);
                    break;
                }
                case 3: {
                    auto v = p->template try_next<string, string>([&](const string& x, const string& y) { cb(e, "c0", x, y); return b(0); })
                                 .on_error(err("E0"))
                                 .template or_else<string, string, string>([&](std::tuple<string, string, string>& t) { cb(e, "c1", t); return b(1); })
                                 .on_error(err("E1"))
                                 .template or_else<string>([&](string& s) { cb(e, "c2", s); })
                                 .on_error(err("E2"))
                                 .values();
                    chain_done(e, v);
                    break;
                }
                case 4: {
                    auto v = p->template try_next<string_view, string_view>([&](string_view x, string_view y) { cb(e, "c0", x, y); UserScope u; held.add(x); held.add(y); return b(0); })
                                 .template or_else<string_view, string_view, string_view>([&](string_view x, string_view y, string_view z) { cb(e, "c1", x, y, z); return b(1); })
                                 .template or_else<string_view>()
                                 .values();
                    chain_done(e, v);
                    break;
                }
                case 5: {
                    auto v = p->template try_next<Cust, string>()
                                 .template or_else<even<int>, string>([&](int x, const string& s) { cb(e, "c1", x, s); return std::optional<int>{b(1) ? std::optional<int>{1} : std::nullopt}.has_value(); })
                                 .template or_else<Tied>([&](Tied& t) { cb(e, "c2", t); return b(2); })
                                 .values();
                    chain_done(e, v);
                    break;
                }
                case 6: {
                    auto v = p->template try_next<ss::ne<string>, ss::ir<int, 0, 99>>()
                                 .template or_else<string, void>([&](const string& s) { cb(e, "c1", s); })
                                 .on_error(err("E"))
                                 .template or_else<string>([&] { cb(e, "c2"); return b(2); })
                                 .values();
                    chain_done(e, v);
                    break;
                }
                case 7: {
                    auto v = p->template try_next<int, int, int>([&](int x, int y, int z) { cb(e, "c0", x, y, z); return b(0); })
                                 .template or_else<int, string, string>([&](int x, const string& y, const string& z) { cb(e, "c1", x, y, z); return b(1); })
                                 .on_error(err("E1"))
                                 .template or_else<string, string, string>([&](const string& x, const string& y, const string& z) { cb(e, "c2", x, y, z); return b(2); })
                                 .template or_else<int, int>([&](int x, int y) { cb(e, "c3", x, y); return b(2); })
                                 .template or_object<Obj, string, string>([&](const Obj& o) { cb(e, "c4", o); return b(1); })
                                 .template or_else<string>([&](const string& x) { cb(e, "c5", x); return b(0); })
                                 .on_error(err("E5"))
                                 .values();
                    chain_done(e, v);
                    break;
                }
                default: break;
                }
            });
            return;
        }
#endif
        e.st = ST_NONE;
    }

    ////////////////
    // iteration: stops after b rows or at the first rejected one; with 1000 added to b it goes on after rejected ones
    ////////////////
    void exec_iter(int style, int b, Event& e) {
#if SIM_ITER
        using std::string;
        using std::string_view;
        held.clear();
        int n = 0;
        const bool on = b >= 1000;
        if (on) b -= 1000;
        auto body = [&](const auto& v) { // false: stop
            check_valid(e);
            if (e.st != ST_OK && on) {
                UserScope u;
                e.st = ST_OK;
                e.err.clear();
                e.vals.push_back("!");
                return true;
            }
            if (e.st != ST_OK) return false;
            UserScope u;
            put(e.vals, v);
            e.vals.push_back("/");
            if (++n < b) return true;
            hold(held, v); // nothing is read after the last one
            return false;
        };
        auto rejected = [&](const ss::exception& x) {
            UserScope u;
            if (!on || std::string{x.what()}.find("user says no") != std::string::npos) return false;
            e.vals.push_back("!");
            return true;
        };
        // the same iterator goes on after an exception
        auto advance = [&](auto& it) {
            while (true) {
                try {
                    ++it;
                    return;
                } catch (const ss::exception& x) {
                    if (!rejected(x)) throw;
                }
            }
        };
        auto all = [&] {
            switch (style) {
            case 0:
                for (const auto& v : p->template iterate<string, string>())
                    if (!body(v)) break;
                break;
            case 1: {
                auto range = p->template iterate_object<Obj, string, string>();
                for (auto it = range.begin(); it != range.end(); advance(it))
                    if (!body(*it)) break;
                break;
            }
            case 2: {
                auto range = p->template iterate<std::tuple<string, string>>();
                auto it = range.begin();
                while (it != range.end()) {
                    if (!body(*it)) break;
                    Out was, got;
                    {
                        UserScope u;
                        put(was, *it);
                    }
                    auto old = it++;
                    UserScope u;
                    put(got, *old);
                    if (got != was) e.bad = "post-increment does not return the previous row";
                }
                break;
            }
            case 3:
                for (auto& [x, y] : p->template iterate<string_view, string_view>()) {
                    if (!body(std::make_tuple(x, y))) break;
                }
                break;
            case 4: { // copies of the iterator, ->
                auto range = p->template iterate<Tied>();
                auto it = range.begin();
                const auto end = range.end();
                while (it != end) {
                    auto copy = it;
                    if (copy->a != (*it).a || it->b != (*copy).b) e.bad = "a copied iterator shows another row";
                    if (!body(*copy)) break;
                    auto moved = std::move(copy);
                    advance(it);
                    if (moved == end && it != end) e.bad = "an iterator ends before its copy";
                }
                break;
            }
            case 5: {
                auto range = p->template iterate<string, void>();
                for (auto it = range.begin(); !(it == range.end()); it++)
                    if (!body(*it)) break;
                break;
            }
            case 6:
                for (auto&& [x, y] : p->template iterate<even<int>, string>())
                    if (!body(std::make_tuple(x, y))) break;
                break;
            case 7: // begun again after every row
                while (true) {
                    auto range = p->template iterate<std::tuple<string, string>>();
                    auto it = range.begin();
                    if (it == range.end() || !body(*it)) break;
                }
                break;
            default: break;
            }
        };
        guarded(e, [&] {
            while (true) {
                try {
                    all();
                    return;
                } catch (const ss::exception& x) {
                    if (!rejected(x)) throw;
                }
            }
        });
#else
        (void)style; (void)b;
        e.st = ST_NONE;
#endif
    }

    static std::string error_state(const P& x) {
        UserScope u;
        std::string r = x.valid() ? "valid" : "invalid";
        if constexpr (strings) r += ": " + x.error_msg();
        return r;
    }
    // all that is left to read
    static void rest(P& q, std::vector<std::string>& out) {
        for (int i = 0; i < 12; ++i) {
            std::string s;
            bool end = q.eof();
            try {
                auto v = q.template get_next<std::string, std::string>();
                UserScope u;
                if (q.valid()) s = std::get<0>(v) + "," + std::get<1>(v);
                else s = error_state(q);
            } catch (const ss::exception& x) {
                UserScope u;
                s = x.what();
            }
            UserScope u;
            out.push_back(s + " " + std::to_string(q.line()) + " " + std::to_string(q.position()));
            if (end) break;
        }
    }

    // a second parser to move onto or swap with
    std::unique_ptr<P> target(const Task& t, int kind, int rows) {
        std::unique_ptr<P> q;
        const char* data = aux_data[kind & 3];
        try {
            if (kind == 3) q = std::make_unique<P>("missing.csv", t.delim);
            else if (kind & 1) q = std::make_unique<P>(data, std::strlen(data), t.delim);
            else q = std::make_unique<P>(kind == 0 ? "aux0.csv" : "aux2.csv", t.delim);
        } catch (const ss::exception&) {
            return nullptr;
        }
        for (int i = 0; i < rows; ++i) {
            try {
                std::ignore = q->template get_next<std::string, std::string>();
            } catch (const ss::exception&) {
            }
        }
#if SIM_HDR
        if constexpr (with_header) {
            if (rows > 1) {
                try {
                    q->use_fields("h1");
                } catch (const ss::exception&) {
                }
            }
        }
#endif
        return q;
    }

    void exec(const Task& t, const Op& op, Event& e) override {
        if (op.k == OP_DESTROY) {
            held.clear();
            if (op.a == 1 && p) { // moved onto itself: what it reads then is not promised, but it stays a parser
                guarded(e, [&] {
                    auto& same = *p;
                    *p = std::move(same);
                    std::vector<std::string> some;
                    rest(*p, some);
                });
                Event none;
                none.op = e.op;
                e = none;
            }
            LibScope s;
            p.reset();
            return;
        }
        if (!p) {
            e.st = ST_NONE;
            return;
        }
        switch (op.k) {
        case OP_ROW: exec_row(op.a, e); break;
        case OP_CHAIN: exec_chain(op.a, op.b, e); break;
        case OP_ITER: exec_iter(op.a, op.b, e); break;
        case OP_IGNORE:
            held.clear();
            guarded(e, [&] {
                bool was = p->eof();
                bool r = p->ignore_next();
                // a skip that runs into a failed read has to say so; otherwise the error state is that of the last row
                if (!r && !was && read_failed()) check_valid(e);
                UserScope u;
                if (e.st == ST_OK) e.vals.push_back(r ? "1" : "0");
            });
            break;
#if SIM_HDR
        case OP_HEADER:
            if constexpr (with_header) {
                guarded(e, [&] {
                    auto h = p->header();
                    check_valid(e);
                    UserScope u;
                    if (e.st == ST_OK) put(e.vals, h);
                    else if (!h.empty()) e.bad = "fields returned with an error";
                });
            }
            break;
        case OP_RAW:
            if constexpr (with_header) {
                guarded(e, [&] {
                    auto h = p->raw_header();
                    UserScope u;
                    put(e.vals, h);
                });
            }
            break;
        case OP_EXISTS:
            if constexpr (with_header) {
                guarded(e, [&] {
                    bool r = p->field_exists(op.s);
                    check_valid(e);
                    UserScope u;
                    e.vals.push_back(r ? "1" : "0");
                    if (e.st != ST_OK && r) e.bad = "field exists with an error";
                    if (e.st != ST_OK) e.vals.clear();
                });
            }
            break;
        case OP_USE:
            if constexpr (with_header) {
                auto names = split_names(op.s);
                guarded(e, [&] {
                    if (op.a == 1 && names.size() == 1) p->use_fields(names[0].c_str());
                    else if (names.size() == 0) p->use_fields();
                    else if (names.size() == 1) p->use_fields(names[0]);
                    else if (names.size() == 2) p->use_fields(names[0], names[1]);
                    else if (names.size() == 3) p->use_fields(names[0], names[1], names[2]);
                    else if (names.size() == 4) p->use_fields(names[0], names[1], names[2], names[3]);
                    else if (names.size() == 5) p->use_fields(names[0], names[1], names[2], names[3], names[4]);
                    else if (names.size() == 6) p->use_fields(names[0], names[1], names[2], names[3], names[4], names[5]);
                    else p->use_fields(names[0], names[1], names[2], names[3], names[4], names[5], names[6], names[7], names[8], names[9], names[10], names[11]);
                    check_valid(e);
                });
            }
            break;
#endif
#if SIM_MOVE
        case OP_MOVEC: {
            auto was = error_state(*p);
            guarded(e, [&] {
                auto q = std::make_unique<P>(std::move(*p));
                p = std::move(q);
            });
            if (error_state(*p) != was) e.bad = "the error state is '" + error_state(*p) + "' after the move, it was '" + was + "'";
            break;
        }
        case OP_MOVEA:
            guarded(e, [&] {
                auto q = target(t, op.a, op.b);
                if (!q) return;
                auto was = error_state(*p);
                *q = std::move(*p);
                p = std::move(q);
                if (error_state(*p) != was) e.bad = "the error state is '" + error_state(*p) + "' after the move, it was '" + was + "'";
            });
            break;
        case OP_SWAP: {
            bool faults = false;
            for (auto& f : t.faults) faults |= f.k == F_ALLOC || f.k == F_USER;
            std::vector<std::string> swapped, plain;
            guarded(e, [&] {
                auto q = target(t, op.a, op.b);
                if (!q) return;
                auto was = error_state(*p), other = error_state(*q);
                using std::swap;
                swap(*p, *q);
                swap(p, q);
                if (error_state(*p) != was) e.bad = "the error state is '" + error_state(*p) + "' after the swap, it was '" + was + "'";
                if (error_state(*q) != other) e.bad = "the error state of the other parser is '" + error_state(*q) + "' after the swap, it was '" + other + "'";
                if (!faults) { // the other one goes on as well
                    rest(*q, swapped);
                    q = nullptr;
                    q = target(t, op.a, op.b);
                    rest(*q, plain);
                    if (swapped != plain) e.bad = "the other parser reads '" + join(swapped) + "' after the swap, alone it reads '" + join(plain) + "'";
                }
            });
            break;
        }
#endif
        case OP_RESUME: {
            held.clear();
            size_t line = p->line() + base_line, pos = p->position() + base_pos;
            size_t hl = 0;
            if (pos > t.data.size()) {
                e.bad = "position() beyond the data: " + std::to_string(pos);
                break;
            }
            std::string rest = t.data.substr(pos);
            if (!with_header) {
                rest = "h\n" + rest;
                hl = 2;
            }
            {
                LibScope s;
                p.reset();
            }
            bufcopy = rest;
            for (auto& [n, s] : ctx()->fs)
                if (n == source_name(t)) {
                    s->data = rest;
                    for (auto& f : s->faults) f.at -= static_cast<int>(pos);
                }
            guarded(e, [&] { p = open(t, bufcopy, t.file, source_name(t).c_str()); });
            bool opened = e.st == ST_OK && p && p->position() >= hl;
            base_line = line - (hl && opened ? 1 : 0);
            base_pos = pos - (opened ? hl : 0);
            if (p && e.st == ST_OK) check_valid(e);
            break;
        }
        default: e.st = ST_NONE; break;
        }
    }
};

////////////////
// converter and splitter
////////////////
template <typename... Opts>
struct ConvDriver : IDriver {
    using C = ss::converter<Opts...>;
    using Sp = ss::splitter<Opts...>;
    using Setup = ss::setup<Opts...>;
    static constexpr bool throws = Setup::throw_on_error;
    static constexpr bool strings = Setup::string_error;
    C c;
    Sp s;
    static std::unique_ptr<IDriver> create() { return std::make_unique<ConvDriver>(); }
    bool alive() const override { return true; }
    bool held_ok() const override { return true; }
    void drop_held() override {}
    void observe(Event&) override {}

    template <typename X>
    void check_valid(X& x, Event& e) {
        if constexpr (!throws) {
            if (!x.valid()) {
                UserScope u;
                e.st = ST_ERR;
                if constexpr (strings) {
                    e.err = x.error_msg();
                    if (e.err.empty()) e.bad = "empty error text";
                }
            }
        } else if (!x.valid()) {
            UserScope u;
            e.bad = "valid() is false with throw_on_error";
        }
    }
    template <typename F>
    void run(Event& e, F&& f) {
        guarded(e, [&] {
            auto v = f();
            check_valid(c, e);
            if (e.st == ST_OK) {
                UserScope u;
                put(e.vals, v);
                e.vals.push_back("/");
            }
        });
    }
    using Parts = ss::split_data;
    // how: 0 the line, 1 the split line, 2 the split line kept inside
    template <typename... Ts>
    void conv(int how, char* line, const std::string& d, const Parts* parts, Event& e) {
        if (how == 0) run(e, [&] { return c.template convert<Ts...>(line, d); });
        else if (how == 1) run(e, [&] { return c.template convert<Ts...>(*parts); });
        else run(e, [&] { return c.template convert<Ts...>(); });
    }
    void conv_object(int how, char* line, const std::string& d, const Parts* parts, Event& e) {
        using std::string;
        if (how == 0) run(e, [&] { return c.template convert_object<Obj, string, string>(line, d); });
        else if (how == 1) run(e, [&] { return c.template convert_object<Obj, string, string>(*parts); });
        else run(e, [&] { return c.template convert_object<Obj, string, string>(); });
    }
    void convert_as(int sig, int how, char* l, const std::string& d, const Parts* parts, Event& e) {
        using std::optional;
        using std::string;
        using std::variant;
#define K(N, ...) case N: conv<__VA_ARGS__>(how, l, d, parts, e); break;
        switch (sig) {
            K(0, string)
            K(1, string, string)
            K(2, string, string, string)
            K(4, int, string)
            K(6, optional<int>, string)
            K(7, variant<int, string>, ss::ne<string>)
            K(11, Cust, string)
            K(13, Tied)
            K(19, even<int>, string)
            case 14: conv_object(how, l, d, parts, e); break;
        default: e.st = ST_NONE; break;
        }
#undef K
    }
    void exec(const Task&, const Op& op, Event& e) override {
        // an exact copy, so that overruns are seen
        std::unique_ptr<char[]> line{new char[op.s.size() + 1]};
        std::memcpy(line.get(), op.s.c_str(), op.s.size() + 1);
        char* l = line.get();
        if (op.k == OP_SPLIT) {
            guarded(e, [&] {
                const auto& parts = s.split(l, op.d);
                check_valid(s, e);
                UserScope u;
                if (s.unterminated_quote()) e.log.push_back("unterminated");
                if (e.st == ST_OK)
                    for (auto& [b, x] : parts) e.vals.push_back("s:" + std::string(b, x));
            });
            return;
        }
        if (op.k == OP_CONV) {
            convert_as(op.a, 0, l, op.d, nullptr, e);
            return;
        }
        // split once, convert the split line several times, as one and as another
        const Parts* parts = nullptr;
        guarded(e, [&] { parts = &c.split(l, op.d); });
        static const int turns[CONV_TURNS][2] = {{0, 1}, {1, 2}, {0, 2}, {1, 1}, {0, 2}, {0, 2}};
        for (auto& turn : turns) {
            if (e.st != ST_OK) return;
            Event one;
            convert_as(turn[0] ? op.b : op.a, turn[1], nullptr, op.d, parts, one);
            if (!one.bad.empty()) e.bad = one.bad;
            for (auto& x : one.log) e.log.push_back(x);
            if (one.st == ST_OK) e.vals.insert(e.vals.end(), one.vals.begin(), one.vals.end());
            else if (one.st == ST_ERR) e.vals.push_back("!" + one.err);
            else e.st = one.st, e.err = one.err;
        }
    }
};

template <int Cfg, typename... Opts>
struct Reg {
    template <typename... E>
    static void all3() {}
    static void add() {
        g_throw_ss = +[] { throw ss::exception{"user says no"}; };
        register_driver(Cfg, BOOL, &Driver<Opts...>::create);
        register_driver(Cfg, STRING, &Driver<Opts..., ss::string_error>::create);
        register_driver(Cfg, THROW, &Driver<Opts..., ss::throw_on_error>::create);
#if SIM_CONV
        register_conv(Cfg, BOOL, &ConvDriver<Opts...>::create);
        register_conv(Cfg, STRING, &ConvDriver<Opts..., ss::string_error>::create);
        register_conv(Cfg, THROW, &ConvDriver<Opts..., ss::throw_on_error>::create);
#endif
    }
};
template <int Cfg>
struct Reg<Cfg, ss::none_list> : Reg<Cfg> {};

} // namespace sim
