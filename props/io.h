// In-memory streams for the serialization harnesses.
#pragma once
#include <sx.h>
#include <module/io/stream.h>
#include <cstring>
struct Buf : public ts::StreamWriter { std::string s; size_t write(const void *b, size_t n) override { s.append((const char *) b, n); return n; } };
struct Src : public ts::StreamReaderV2 { const std::string &s; size_t pos; size_t cut; explicit Src(const std::string &s_) : s(s_), pos(0), cut(s_.size()) {}
    size_t read(void *b, size_t n) override { size_t m = cut - pos < n ? cut - pos : n; if (m) memcpy(b, s.data() + pos, m); pos += m; return m; } void rewind() override { pos = 0; } };
template <typename F> bool throws_any(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
