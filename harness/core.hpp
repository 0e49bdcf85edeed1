// Shared plumbing of the conformance harness: a line interpreter that calls the
// public API of distributions and writes one JSON event per call.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace h {

typedef std::vector<std::string> Tok;

inline std::string num(double x) {
    uint64_t b;
    memcpy(&b, &x, 8);
    if (((b >> 52) & 0x7ff) == 0x7ff) {
        if (b & 0xfffffffffffffULL) return "nan";
        return (b >> 63) ? "-inf" : "inf";
    }
    char s[64];
    snprintf(s, sizeof s, "%.17g", x);
    return s;
}
inline std::string num(float x) {
    uint32_t b;
    memcpy(&b, &x, 4);
    if (((b >> 23) & 0xff) == 0xff) {
        if (b & 0x7fffffu) return "nan";
        return (b >> 31) ? "-inf" : "inf";
    }
    char s[64];
    snprintf(s, sizeof s, "%.9g", static_cast<double>(x));
    return s;
}
inline std::string num(int x) { return std::to_string(x); }
inline std::string num(unsigned x) { return std::to_string(x); }
inline std::string num(long x) { return std::to_string(x); }
inline std::string num(unsigned long x) { return std::to_string(x); }
inline std::string num(bool x) { return x ? "1" : "0"; }

struct Out {  // one JSON object under construction
    std::string s;
    std::string tail;    // whole lines that follow
    bool first;
    Out() : s("{"), first(true) {}
    void key(const char * k) {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":";
    }
    void str(const char * k, const std::string & v) { key(k); s += quote(v); }
    void raw(const char * k, const std::string & v) { key(k); s += v; }
    void i(const char * k, long v) { key(k); s += std::to_string(v); }
    // the values of single precision numbers, not just enough digits to tell them apart
    template<class C> void xs(const char * k, const C & v) { ns(k, std::vector<double>(v.begin(), v.end())); }
    template<class T> void n(const char * k, T v) { str(k, num(v)); }
    template<class V> void ns(const char * k, const V & v) { raw(k, nums(v)); }
    static std::string quote(const std::string & v) {
        std::string r = "\"";
        for (size_t i = 0; i < v.size(); ++i) {
            unsigned char c = v[i];
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 0x20 || c > 0x7e) { r += '?'; }
            else r += c;
        }
        return r + "\"";
    }
    template<class V> static std::string nums(const V & v) {
        std::string r = "[";
        for (size_t i = 0; i < (size_t)v.size(); ++i) {
            if (i) r += ",";
            r += quote(num(v[i]));
        }
        return r + "]";
    }
    void e_(const char * name) {  // renames the event
        s = "{\"e\":" + quote(name);
        first = false;
    }
    std::string done() const { return s + "}"; }
};

inline std::vector<std::string> split(const std::string & s, char c) {
    std::vector<std::string> r;
    if (s.empty()) return r;
    size_t p = 0;
    while (true) {
        size_t q = s.find(c, p);
        r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) return r;
        p = q + 1;
    }
}
inline float f32(const std::string & s) { return strtof(s.c_str(), NULL); }
inline long i64(const std::string & s) { return strtol(s.c_str(), NULL, 10); }
inline uint32_t u32(const std::string & s) { return strtoul(s.c_str(), NULL, 10); }
inline std::vector<float> floats(const std::string & s) {
    std::vector<float> r;
    for (auto & x : split(s, ',')) r.push_back(f32(x));
    return r;
}
struct KV : std::map<std::string, std::string> {
    KV(const Tok & t, size_t from) {
        for (size_t i = from; i < t.size(); ++i) {
            size_t p = t[i].find('=');
            if (p != std::string::npos) (*this)[t[i].substr(0, p)] = t[i].substr(p + 1);
        }
    }
    std::string get(const char * k) const {
        auto i = find(k);
        if (i == end()) throw std::logic_error(std::string("harness: no key ") + k);
        return i->second;
    }
};

inline std::string toks(const Tok & t) {
    std::string r = "[";
    for (size_t i = 1; i < t.size(); ++i) { if (i > 1) r += ","; r += Out::quote(t[i]); }
    return r + "]";
}

// a usage error of the script itself, never an observation
struct ScriptError : std::runtime_error {
    explicit ScriptError(const std::string & s) : std::runtime_error(s) {}
};

struct Runner {
    virtual ~Runner() {}
    // returns false if the command is unknown
    virtual bool cmd(const Tok & t, Out & o) = 0;
    // the state of its random source
    virtual std::string random_state() const { return ""; }
};
typedef Runner * (*Factory)();
std::map<std::string, Factory> & factories();
struct Register {
    Register(const char * name, Factory f) { factories()[name] = f; }
};

}  // namespace h
