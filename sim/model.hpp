// The reference model: a small, direct statement of what the documentation promises. It shares no code with the
// library; it works on whole byte strings and knows nothing of buffers, look-ahead or in-place shifting.
#pragma once
#include "core.hpp"

namespace sim {

struct MRow {            // one row, as the format describes it
    std::string bad;     // malformed: what is wrong with it
    std::vector<std::string> f;
    size_t first = 0, last = 0; // physical lines
};

// split one complete text
struct MSplit {
    std::string bad;
    bool unterminated = false; // quote (multiline configurations leave it to the reader)
    std::vector<std::string> f;
};
MSplit model_split(const Cfg& c, const std::string& text, const std::string& delim, bool multi);

extern bool without_fast_float; // set by the build under test

// result of converting a row
struct MConv {
    bool ok = false;
    std::vector<std::string> vals;
    std::string err; // without the prefix
};
MConv model_convert(int sig, const std::vector<std::string>& fields, const std::vector<size_t>* mapping, size_t columns);

class Model {
public:
    struct L { size_t off, text, end; }; // offset, end of text, end including the line break
    enum State { HAVE, FAILED, END };

    explicit Model(const Task&);
    Event construct();
    // what the operation should give; obs tells which faults really hit it
    Event step(const Op&, const Event& obs);

    bool dead = false;    // construction failed with an exception
    State state = HAVE;
    size_t line() const { return cur_; }
    size_t pos() const { return cur_ < lines_.size() ? lines_[cur_].off : avail_; }
    size_t low_pos() const { return after_ < lines_.size() ? lines_[after_].off : avail_; }
    size_t low_line() const { return after_; }
    size_t lines() const { return lines_.size(); }
    size_t line_start(size_t i) const { return i < lines_.size() ? lines_[i].off : avail_; }
    size_t line_end(size_t i) const { return i < lines_.size() ? lines_[i].end : avail_; }

    // the row that starts at the line to be read next; consumes it
    MRow take();
    Event request_event(int sig, const MRow&);
    const std::string& raw_header() const { return raw_; }
    bool wild = false; // the last step has no defined outcome

private:
    void prefetch();
    void observe(Event&) const;
    std::string text(size_t i) const { return tp_->data.substr(lines_[i].off, lines_[i].text - lines_[i].off); }
    std::string eol(size_t i) const { return tp_->data.substr(lines_[i].text, lines_[i].end - lines_[i].text); }
    void fail_event(Event&, std::vector<std::string> must) const;
    bool header(std::vector<std::string>& names, Event& e) const;
    void eof_event(Event&);
    void chain(const Op&, const Event& obs, Event&);
    std::string name() const { return tp_->file ? source_name(*tp_) : "CSV data buffer"; }
    std::string at(size_t line) const { return name() + " " + std::to_string(line + 1) + ": "; }

    const Task* tp_;
    const Cfg* cp_;
    std::vector<L> lines_;
    size_t avail_ = 0;   // bytes that can be read
    bool fails_ = false; // reading fails after them
    bool open_fails_ = false;
    size_t cur_ = 0;     // next line
    size_t after_ = 0;   // line after the last row taken
    std::string raw_;
    bool header_pending_ = true;
    bool header_used_ = false;
    std::vector<size_t> map_;
    size_t map_cols_ = 0;
};

} // namespace sim
