#pragma once
#include <iosfwd>
namespace std {
    template<typename C, typename T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n) { return o.padw(s, (size_t) n); }
}
