// Shared by all conformance drivers: a minimal JSON reader/writer, the float <-> fixed-point
// projection and the fork-per-scenario main loop.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

struct J {
    enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    bool has(const std::string& k) const { return o.count(k) != 0; }
    const J& operator[](const std::string& k) const {
        auto it = o.find(k);
        if (it == o.end()) { fprintf(stderr, "driver: missing field %s\n", k.c_str()); _Exit(97); }
        return it->second;
    }
    const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
    const J& operator[](size_t k) const { return a.at(k); }
    const J& operator[](int k) const { return a.at((size_t)k); }
    long long num() const { return i; }
    long long num(const std::string& k, long long d) const { return has(k) ? (*this)[k].i : d; }
    bool flag(const std::string& k, bool d = false) const { return has(k) ? (*this)[k].i != 0 : d; }
    std::string str(const std::string& k, const std::string& d) const { return has(k) ? (*this)[k].s : d; }
    std::vector<int> ints() const { std::vector<int> r; for (auto& x : a) r.push_back((int)x.i); return r; }
};

struct JParser {
    const char* p;
    void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
    [[noreturn]] void bad() { fprintf(stderr, "driver: bad json near %.40s\n", p); _Exit(97); }
    J parse() {
        ws();
        J j;
        if (*p == '{') {
            j.t = J::OBJ; ++p; ws();
            if (*p == '}') { ++p; return j; }
            for (;;) {
                ws(); J k = parse(); ws();
                if (*p++ != ':') bad();
                j.o[k.s] = parse(); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return j; }
                bad();
            }
        }
        if (*p == '[') {
            j.t = J::ARR; ++p; ws();
            if (*p == ']') { ++p; return j; }
            for (;;) {
                j.a.push_back(parse()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return j; }
                bad();
            }
        }
        if (*p == '"') {
            j.t = J::STR; ++p;
            while (*p && *p != '"') {
                if (*p == '\\') {
                    ++p;
                    if (*p == 'n') j.s += '\n';
                    else if (*p == 't') j.s += '\t';
                    else if (*p == 'u') { j.s += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16); p += 4; }
                    else j.s += *p;
                    ++p;
                } else j.s += *p++;
            }
            if (*p++ != '"') bad();
            return j;
        }
        if (!strncmp(p, "true", 4))  { p += 4; j.t = J::BOOL; j.i = 1; return j; }
        if (!strncmp(p, "false", 5)) { p += 5; j.t = J::BOOL; j.i = 0; return j; }
        if (!strncmp(p, "null", 4))  { p += 4; return j; }
        char* e = nullptr;
        j.t = J::INT; j.i = strtoll(p, &e, 10);
        if (e == p) bad();
        p = e;
        return j;
    }
};

// ---- output ---------------------------------------------------------------
struct Out {               // one JSON object under construction
    std::string s = "{";
    void key(const std::string& k) { if (s.size() > 1) s += ","; s += "\"" + k + "\":"; }
    Out& n(const std::string& k, long long v) { key(k); s += std::to_string(v); return *this; }
    Out& b(const std::string& k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Out& str(const std::string& k, const std::string& v) {
        key(k); s += "\"";
        for (char c : v) { if (c == '"' || c == '\\') s += '\\'; if ((unsigned char)c < 32) s += ' '; else s += c; }
        s += "\""; return *this;
    }
    Out& raw(const std::string& k, const std::string& v) { key(k); s += v; return *this; }
    template <class V> Out& arr(const std::string& k, const V& v) {
        key(k); s += "[";
        bool f = true;
        for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string((long long)x); }
        s += "]"; return *this;
    }
    std::string end() const { return s + "}"; }
};
inline std::string jarr(const std::vector<std::string>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; }
    return s + "]";
}
template <class V> std::string jints(const V& v) {
    std::string s = "[";
    bool f = true;
    for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string((long long)x); }
    return s + "]";
}

// ---- numbers --------------------------------------------------------------
constexpr long long C_NAN = 2000000001, C_PINF = 2000000002, C_NINF = 2000000003, C_INEXACT = 2000000004,
                    C_BIG = 2000000005;
// value -> value * 2^S * num; exact: must be an integer, else rounded to the nearest
inline long long fx(double v, int S, bool exact) {
    if (std::isnan(v)) return C_NAN;
    if (std::isinf(v)) return v > 0 ? C_PINF : C_NINF;
    double w = std::ldexp(v, S);
    if (std::fabs(w) > 1.0e9) return C_BIG;
    double r = std::nearbyint(w);
    if (exact && r != w) return C_INEXACT;
    return (long long)r;
}
// script integer -> float: v / 2^S, optionally in units of ln 2
inline float unfx(long long v, int S, bool ln2) {
    if (v == C_NAN) return std::numeric_limits<float>::quiet_NaN();
    if (v == C_PINF) return std::numeric_limits<float>::infinity();
    if (v == C_NINF) return -std::numeric_limits<float>::infinity();
    double d = std::ldexp((double)v, -S);
    return (float)(ln2 ? d * 0.69314718055994530942 : d);
}

// several histories run at once: what belongs to the whole process is not judged
extern bool g_concurrent;

// ---- scenario loop (common.cpp) -------------------------------------------
using Emit = std::function<void(const std::string&)>;           // one result object per operation
using Machine = std::function<void(const J& scenario, const Emit& emit)>;
int driver_main(int argc, char** argv, const std::map<std::string, Machine>& machines);

// run f, classify how it ended: 0 returned, 1 threw std::exception, 2 threw anything else
template <class F> int guarded(F&& f) {
    try { f(); return 0; }
    catch (const std::exception&) { return 1; }
    catch (...) { return 2; }
}
