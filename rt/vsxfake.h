// Stand-ins for the parts of the C++ library that reach the operating system or the locale machinery.
// Used only when the sources are compiled for the symbolic executor (see DESIGN.md, "stubs").
#pragma once
#ifdef __cplusplus
#include <string>
#include <vector>
#include <sstream>
#include <locale>
#include <regex>
#include <filesystem>
#include <system_error>
#include <chrono>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <deque>
#include <queue>
#include <memory>
#include <functional>
#include <numeric>
#include <variant>
#include <optional>
#include <atomic>
#include <limits>
#include <cmath>
#include <iterator>
#include <array>
#include <bitset>
#include <tuple>
#include <string_view>
#include <format>
#include <random>
extern "C" {
int vsx_fmt(char *buf, size_t n, unsigned long kind, unsigned long bits) noexcept;
long vsx_parse_num(const char *s, int kind, void *out) noexcept;
}
namespace std {
struct vsx_locale { static vsx_locale &classic() { static vsx_locale l; return l; } };
class vsx_ostringstream {
    std::string s;
public:
    vsx_ostringstream &operator<<(const char *p) { s += p; return *this; }
    vsx_ostringstream &operator<<(const std::string &p) { s += p; return *this; }
    vsx_ostringstream &operator<<(char c) { s += c; return *this; }
    vsx_ostringstream &num(unsigned long kind, unsigned long bits) { char b[128]; vsx_fmt(b, sizeof b, kind, bits); s += b; return *this; }
    vsx_ostringstream &operator<<(int v) { return num(0, (unsigned long)(long)v); }
    vsx_ostringstream &operator<<(long v) { return num(0, (unsigned long)v); }
    vsx_ostringstream &operator<<(long long v) { return num(0, (unsigned long)v); }
    vsx_ostringstream &operator<<(unsigned v) { return num(1, v); }
    vsx_ostringstream &operator<<(unsigned long v) { return num(1, v); }
    vsx_ostringstream &operator<<(unsigned long long v) { return num(1, v); }
    vsx_ostringstream &operator<<(bool v) { return num(0, v); }
    vsx_ostringstream &operator<<(double v) { unsigned long u; __builtin_memcpy(&u, &v, 8); return num(2, u); }
    vsx_ostringstream &operator<<(float v) { return *this << (double)v; }
    template <class T> void imbue(const T &) {}
    std::string str() const { return s; }
};
class vsx_istringstream {
    std::string s; size_t p = 0; bool bad = false;
    void ws() { while (p < s.size() && (s[p] == ' ' || (s[p] >= 9 && s[p] <= 13))) p++; }
public:
    explicit vsx_istringstream(const std::string &x) : s(x) {}
    template <class T> void imbue(const T &) {}
    // characters that the library's numeric extraction accepts for a float in the classic locale
    vsx_istringstream &operator>>(float &f) {
        ws(); size_t b = p, q = p; if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++;
        bool dig = false, pt = false, ex = false;
        for (; q < s.size(); q++) { char c = s[q]; if (c >= '0' && c <= '9') dig = true; else if (c == '.' && !pt && !ex) pt = true; else if ((c == 'e' || c == 'E') && !ex && dig) { ex = true; if (q + 1 < s.size() && (s[q + 1] == '+' || s[q + 1] == '-')) q++; } else break; }
        std::string t = s.substr(b, q - b); p = q; f = 0;
        if (t.empty()) { bad = true; return *this; }
        long used = vsx_parse_num(t.c_str(), 0, &f); if (used != (long)t.size()) { bad = true; f = 0; }
        else if (f == __builtin_inff()) { bad = true; f = __FLT_MAX__; } else if (f == -__builtin_inff()) { bad = true; f = -__FLT_MAX__; }
        return *this;
    }
    vsx_istringstream &operator>>(long &v) {
        ws(); size_t b = p, q = p; if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++; while (q < s.size() && s[q] >= '0' && s[q] <= '9') q++;
        std::string t = s.substr(b, q - b); p = q; v = 0; if (t.empty() || vsx_parse_num(t.c_str(), 2, &v) != (long)t.size()) bad = true; return *this;
    }
    vsx_istringstream &operator>>(std::string &o) { ws(); o.clear(); if (p >= s.size()) { bad = true; return *this; } while (p < s.size() && !(s[p] == ' ' || (s[p] >= 9 && s[p] <= 13))) o += s[p++]; return *this; }
    bool operator!() const { return bad; }
    explicit operator bool() const { return !bad; }
    bool eof() const { return p >= s.size(); }
};
// the subset of ECMAScript patterns the sources build: ^ $ . .* (.*) and escaped or plain characters
class vsx_regex {
public:
    struct Tok { int kind; char c; };  // 0 literal, 1 any, 2 any*
    std::vector<Tok> t; 
    enum flag { ECMAScript = 1 };
    vsx_regex() {}
    explicit vsx_regex(const std::string &r, int = ECMAScript) {
        for (size_t i = 0; i < r.size(); i++) {
            char c = r[i];
            if (c == '^' || c == '$' || c == '(' || c == ')') continue;
            if (c == '\\' && i + 1 < r.size()) { t.push_back({ 0, r[++i] }); continue; }
            if (c == '.') { if (i + 1 < r.size() && r[i + 1] == '*') { i++; t.push_back({ 2, 0 }); } else t.push_back({ 1, 0 }); continue; }
            t.push_back({ 0, c });
        }
    }
    bool match(const char *s, size_t ti) const {
        if (ti == t.size()) return *s == 0;
        if (t[ti].kind == 2) { for (;; s++) { if (match(s, ti + 1)) return true; if (!*s || *s == '\n' || *s == '\r') return false; } }
        if (!*s) return false;
        if (t[ti].kind == 1) return *s != '\n' && *s != '\r' && match(s + 1, ti + 1);
        return *s == t[ti].c && match(s + 1, ti + 1);
    }
};
inline bool vsx_regex_match(const char *s, const vsx_regex &r) { return r.match(s, 0); }
inline bool vsx_regex_match(const std::string &s, const vsx_regex &r) { return r.match(s.c_str(), 0); }
namespace vsx_filesystem {
struct path {
    std::string s;
    path() {}
    path(const char *p) : s(p) {}
    path(const std::string &p) : s(p) {}
    path(std::string &&p) : s(p) {}
    bool empty() const { return s.empty(); }
    size_t namePos() const { size_t x = s.rfind('/'); return x == std::string::npos ? 0 : x + 1; }
    path filename() const { return path(s.substr(namePos())); }
    path extension() const { std::string f = s.substr(namePos()); size_t d = f.rfind('.'); if (d == std::string::npos || d == 0) return path(); return path(f.substr(d)); }
    path stem() const { std::string f = s.substr(namePos()); size_t d = f.rfind('.'); if (d == std::string::npos || d == 0) return path(f); return path(f.substr(0, d)); }
    path &replace_extension(const path &e = path()) { path x = extension(); s.resize(s.size() - x.s.size()); if (!e.s.empty()) { if (e.s[0] != '.') s += '.'; s += e.s; } return *this; }
    path parent_path() const { size_t x = s.rfind('/'); return x == std::string::npos ? path() : path(s.substr(0, x)); }
    path &operator/=(const path &o) { if (!o.s.empty() && o.s[0] == '/') s = o.s; else { if (!s.empty() && s.back() != '/') s += '/'; s += o.s; } return *this; }
    path &operator+=(const path &o) { s += o.s; return *this; }
    friend path operator/(const path &a, const path &b) { path r = a; r /= b; return r; }
    friend bool operator==(const path &a, const path &b) { return a.s == b.s; }
    friend bool operator!=(const path &a, const path &b) { return a.s != b.s; }
    const char *c_str() const { return s.c_str(); }
    std::string string() const { return s; }
    std::string u8string() const { return s; }
    std::string generic_u8string() const { return s; }
    std::string generic_string() const { return s; }
};
inline path u8path(const std::string &s) { return path(s); }
inline path u8path(const char *s) { return path(s); }
inline path u8path(std::string_view s) { return path(std::string(s)); }
inline path absolute(const path &p) { return p; }
inline bool exists(const path &) { return false; }
struct filesystem_error : public std::runtime_error { using std::runtime_error::runtime_error; };
struct directory_entry { path p; bool is_regular_file(std::error_code &) const { return false; } bool is_directory(std::error_code &) const { return false; } const vsx_filesystem::path &path() const { return p; } };
struct directory_iterator { directory_iterator() {} explicit directory_iterator(const path &) {} directory_entry e; const directory_entry &operator*() const { return e; } directory_iterator &operator++() { return *this; } friend bool operator!=(const directory_iterator &, const directory_iterator &) { return false; } };
inline directory_iterator begin(directory_iterator d) { return d; }
inline directory_iterator end(const directory_iterator &) { return directory_iterator(); }
}
}
#define ostringstream vsx_ostringstream
#define istringstream vsx_istringstream
#define regex vsx_regex
#define regex_match vsx_regex_match
#define filesystem vsx_filesystem
#define locale vsx_locale
#endif
