// Shared by all harnesses: script reader and trace writer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <exception>
#include <unistd.h>

namespace vh {

struct Op { std::string o; std::vector<long> a;
    long at(size_t i) const { if(i >= a.size()) { std::fprintf(stderr, "script: op %s lacks argument %zu\n", o.c_str(), i); std::exit(3);} return a[i]; } };

using Ints = std::vector<long>;

inline std::string js(const Ints & v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); ++i) { if(i) s += ","; s += std::to_string(v[i]); }
    return s + "]";
}
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(const std::vector<Ints> & v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); ++i) { if(i) s += ","; s += js(v[i]); }
    return s + "]";
}
inline std::string js(const std::string & v) { return "\"" + v + "\""; }

// State record under construction
struct St {
    std::string s;
    template<class T> St & add(const char * k, const T & v) {
        if(!s.empty()) s += ",";
        s += "\""; s += k; s += "\":";
        if constexpr(std::is_integral_v<T>) s += js(static_cast<long>(v)); else s += js(v);
        return *this;
    }
};

// one trace line: {"o":..,"a":[..],"k":"ok"|"exc","v":[..],"s":{..}}
// the trace goes to the original stdout; whatever the library prints is discarded
inline FILE * & out() { static FILE * f = nullptr; return f; }
inline void open_out();
inline void emit(const Op & op, const char * k, const Ints & v, const St & st = St()) {
    std::string line = "{\"o\":\"" + op.o + "\",\"a\":" + js(op.a) + ",\"k\":\"" + k + "\",\"v\":" + js(v) +
        ",\"s\":{" + st.s + "}}\n";
    std::fwrite(line.data(), 1, line.size(), out());
    std::fflush(out());
}

struct Case { Ints params; std::vector<Op> ops; };

inline void open_out() {
    if(out()) return;
    out() = fdopen(dup(1), "w");
    if(!freopen("/dev/null", "w", stdout)) std::exit(3);
}

inline std::vector<Case> read_cases() {
    open_out();
    std::vector<Case> cases;
    std::string line;
    while(std::getline(std::cin, line)) {
        if(line.empty() || line[0] == '#') continue;
        std::istringstream ss(line);
        Op op; ss >> op.o; long x; while(ss >> x) op.a.push_back(x);
        if(op.o == "case") { cases.push_back(Case{op.a, {}}); }
        else { if(cases.empty()) { std::fprintf(stderr, "script: op before case\n"); std::exit(3); } cases.back().ops.push_back(op); }
    }
    return cases;
}

inline void emit_case(const Ints & params) {
    Op op{"case", params};
    emit(op, "ok", {});
}

[[noreturn]] inline void bad_op(const Op & op) { std::fprintf(stderr, "script: unknown op %s\n", op.o.c_str()); std::exit(3); }

// Calls f() which returns the result values; an exception becomes "exc".
template<class F>
inline std::pair<std::string, Ints> guarded(F && f) {
    try { return {"ok", f()}; }
    catch(const std::exception & e) { if(std::getenv("VH_VERBOSE")) std::fprintf(stderr, "exc: %s\n", e.what()); return {"exc", {}}; }
}

} // namespace vh
