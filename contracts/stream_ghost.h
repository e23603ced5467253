// A stream seen through its formatted string operations.  For the verifier the
// stream object is opaque and models_stream.cpp gives the library's formatted
// insertion/extraction of a character sequence a meaning; concrete runs use
// real string streams.
#ifndef VERIF_STREAM_GHOST_H
#define VERIF_STREAM_GHOST_H
#include "spec.h"
#include <istream>
#include <ostream>
#include <string>
#include <string_view>
#ifdef SPEC_NATIVE
#include <sstream>
#endif
namespace ghost {
constexpr size_t OUT_MAX = 4096;
struct Out {
  char buf[OUT_MAX];
  size_t n;
};
struct In {
  const char *p;
  size_t n;
};
extern Out g_out;
extern In g_in;
#ifdef SPEC_NATIVE
struct OStream {
  std::ostringstream s;
  std::string t;
  std::ostream &os() { return s; }
  std::string_view written() {
    t = s.str();
    return t;
  }
};
struct IStream {
  std::string w;
  std::istringstream s;
  IStream() {
    auto c = spec::cstr("word");
    w.assign(c.p, c.len);
    for (auto &x : w)
      if (isspace((unsigned char)x) || (unsigned char)x >= 0x80)
        x = 'x';
    if (w.empty())
      w = "x";
    s.str(w);
  }
  std::istream &is() { return s; }
  std::string_view word() { return w; }
};
#else
struct OStream {
  alignas(16) char opaque[512];
  OStream() { g_out.n = 0; }
  std::ostream &os() { return *reinterpret_cast<std::ostream *>(opaque); }
  std::string_view written() { return {g_out.buf, g_out.n}; }
};
struct IStream {
  alignas(16) char opaque[512];
  IStream() {
    size_t n = spec::nondet<size_t>("n");
    REQUIRES(n < (size_t(1) << 40));
    g_in.p = spec::bytes(n, "word");
    g_in.n = n;
  }
  std::istream &is() { return *reinterpret_cast<std::istream *>(opaque); }
  std::string_view word() { return {g_in.p, g_in.n}; }
};
#endif
} // namespace ghost
#endif
