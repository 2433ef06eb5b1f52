#pragma once
#include "run.hpp"

namespace sim {

// what kind of byte strings to make
struct DataOpt {
    int rows_lo = 0, rows_hi = 9;
    int bad = 12;      // percent of fields that are noise
    int raw = 4;       // percent of rows that are random characters
    int empty = 8;     // percent of empty lines
    int tower = 0;     // per 2000: rows of thousands of lines
    int wide = 7;      // per 2000: rows of about 256 or 65536 columns
    int longs = 6;     // percent of long fields
    int huge = 1;      // permille of very long fields
    int two = 62;      // percent of rows with two columns
    bool nul = false;  // arbitrary bytes
    bool unique = false; // rows start with a row number
    int header = 0;    // 0: none, 1: good, 2: any
    bool typed = true; // numbers and the like
    int cols = 2;      // usual number of columns
    int home = -1; // usual request, -1: any
    std::string kinds; // what they hold
    int big = 0;       // permille of data sets with many rows
    int tall = 8;      // permille of rows over many lines
};

struct OpW { int kind, weight; };

std::string gen_delim(Rng&, const Cfg&);
std::string gen_data(Rng&, const Cfg&, const std::string& delim, const DataOpt&);
std::string gen_line(Rng&, const Cfg&, const std::string& delim, const DataOpt&, int row);
void gen_delivery(Rng&, Task&);
void gen_ops(Rng&, Task&, int n, const std::vector<OpW>&);
int count_lines(const std::string&);
int pick_cfg(Rng&, bool (*pred)(const Cfg&) = nullptr);

} // namespace sim
