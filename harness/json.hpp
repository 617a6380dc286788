// Minimal JSON reader/writer for the replay driver.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    double n = 0;
    std::string s;  // string value, or source text of a number
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    bool has(const std::string& k) const { for (auto& e : o) if (e.first == k) return true; return false; }
    const J& operator[](const std::string& k) const {
        for (auto& e : o) if (e.first == k) return e.second;
        throw std::logic_error("driver: missing field " + k);
    }
    const J& operator[](size_t i) const { if (i >= a.size()) throw std::logic_error("driver: index"); return a[i]; }
    double num() const { if (t != NUM) throw std::logic_error("driver: not a number"); return n; }
    long i() const { return (long)num(); }
    double num(const std::string& k, double d) const { return has(k) ? (*this)[k].num() : d; }
    std::string str(const std::string& k, const std::string& d) const { return has(k) ? (*this)[k].s : d; }
    bool boolean(const std::string& k, bool d) const { return has(k) ? (*this)[k].b : d; }
    size_t size() const { return a.size(); }
};

struct JParse {
    const char* p;
    J parse(const std::string& s) { p = s.c_str(); return val(); }
    void ws() { while (*p && (unsigned char)*p <= ' ') p++; }
    std::string str() {
        std::string r; p++;
        while (*p && *p != '"') { if (*p == '\\') { p++; r += *p == 'n' ? '\n' : *p == 't' ? '\t' : *p; p++; } else r += *p++; }
        p++; return r;
    }
    J val() {
        ws(); J j;
        if (*p == '{') {
            j.t = J::OBJ; p++; ws();
            if (*p == '}') { p++; return j; }
            while (true) { ws(); std::string k = str(); ws(); p++; J v = val(); j.o.emplace_back(k, v); ws(); if (*p == ',') { p++; continue; } p++; break; }
        } else if (*p == '[') {
            j.t = J::ARR; p++; ws();
            if (*p == ']') { p++; return j; }
            while (true) { j.a.push_back(val()); ws(); if (*p == ',') { p++; continue; } p++; break; }
        } else if (*p == '"') { j.t = J::STR; j.s = str(); }
        else if (*p == 't') { j.t = J::BOOL; j.b = true; p += 4; }
        else if (*p == 'f') { j.t = J::BOOL; p += 5; }
        else if (*p == 'n') { p += 4; }
        else {
            const char* q = p; while (*p && *p != ',' && *p != ']' && *p != '}' && (unsigned char)*p > ' ') p++;
            j.t = J::NUM; j.s = std::string(q, p);
            if (j.s == "NaN") j.n = NAN; else if (j.s == "Infinity") j.n = INFINITY; else if (j.s == "-Infinity") j.n = -INFINITY;
            else j.n = strtod(j.s.c_str(), nullptr);
        }
        return j;
    }
};

inline std::string esc(const std::string& s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < ' ') r += ' '; else r += c; }
    return r + "\"";
}
// doubles are always written with a point or an exponent, integers never
inline std::string D(double d) {
    if (std::isnan(d)) return "NaN";
    if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
    char buf[40]; snprintf(buf, sizeof buf, "%.17g", d);
    std::string s = buf;
    if (s.find_first_of(".e") == std::string::npos) s += ".0";
    return s;
}
inline std::string I(long long i) { return std::to_string(i); }
inline std::string Bo(bool b) { return b ? "true" : "false"; }
inline std::string dump(const J& j) {
    std::string r;
    switch (j.t) {
        case J::NUL: return "null";
        case J::BOOL: return Bo(j.b);
        case J::NUM: return j.s;
        case J::STR: return esc(j.s);
        case J::ARR: r = "["; for (size_t i = 0; i < j.a.size(); i++) { if (i) r += ","; r += dump(j.a[i]); } return r + "]";
        case J::OBJ: r = "{"; for (size_t i = 0; i < j.o.size(); i++) { if (i) r += ","; r += esc(j.o[i].first) + ":" + dump(j.o[i].second); } return r + "}";
    }
    return r;
}
struct O {  // object writer
    std::string r = "{";
    O& k(const std::string& key, const std::string& v) { if (r.size() > 1) r += ","; r += esc(key) + ":" + v; return *this; }
    std::string end() const { return r + "}"; }
};
template <typename C, typename F> std::string arr(const C& c, F f) {
    std::string r = "["; bool first = true;
    for (auto& x : c) { if (!first) r += ","; first = false; r += f(x); }
    return r + "]";
}
inline std::string arrd(const std::vector<double>& v) { return arr(v, [](double d) { return D(d); }); }
