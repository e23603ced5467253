// cstring owns a private NUL-terminated copy of the text it was given.
// @sources: src/Xsmp/cstring.cpp
#include "string_common.h"
#include <Xsmp/cstring.h>
#include <utility>
using Xsmp::cstring;
using sv = std::string_view;

namespace {
// the observable value of x is the text of `v` (a view that may contain NULs)
struct Text {
  sv v;
  size_t len; // length of the text
};
Text any_text(const char *name) {
  sv v = any_view(name);
  return {v, text_len(v, v.size())};
}
bool same_text(const cstring &x, const Text &t) {
  const char *p = x.c_str();
  return p && p[t.len] == 0 && spec::all(0, t.len, [&](size_t i) {
           return p[i] == t.v.data()[i];
         });
}
// x holds t in storage of its own
void owns(const cstring &x, const Text &t) {
  ENSURES(x.c_str() != nullptr);
  ENSURES(!__spec_same_object(x.c_str(), t.v.data()));
  ENSURES(__spec_valid(x.c_str(), t.len + 1));
  ENSURES(x.c_str()[t.len] == '\0');
  ENSURES(same_text(x, t));
}
} // namespace

CONTRACT(C05, from_pointer_and_size) {
  sv v = any_view("v");
  size_t live = __spec_live();
  {
    cstring x{v.data(), v.size()};
    ENSURES(__spec_live() == live + 1);
    ENSURES(!__spec_same_object(x.c_str(), v.data()));
    // every byte is kept, and a NUL follows
    ENSURES(x.c_str()[v.size()] == '\0');
    ENSURES(spec::all(0, v.size(), [&](size_t i) {
      return x.c_str()[i] == v.data()[i];
    }));
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, from_view) {
  sv v = any_view("v");
  size_t live = __spec_live();
  {
    cstring x{v};
    ENSURES(__spec_live() == live + 1);
    ENSURES(!__spec_same_object(x.c_str(), v.data()));
    ENSURES(x.c_str()[v.size()] == '\0');
    ENSURES(spec::all(0, v.size(), [&](size_t i) {
      return x.c_str()[i] == v.data()[i];
    }));
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, from_cstr) {
  auto c = spec::cstr("c");
  size_t live = __spec_live();
  {
    cstring x{c.p};
    owns(x, Text{{c.p, c.len + 1}, c.len});
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, from_string) {
  Xsmp::String<12> s;
  size_t l = any_string(s, "s");
  size_t live = __spec_live();
  {
    cstring x{s.c_str()};
    owns(x, Text{{s.c_str(), l + 1}, l});
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, independent_of_source) {
  size_t n = spec::nondet<size_t>("n");
  if (__spec_native())
    n %= 100;
  REQUIRES(n < 1000);
  char *b = spec::rwbytes(n + 1, "b");
  size_t k = spec::nondet<size_t>("k");
  if (__spec_native())
    k %= n + 1;
  REQUIRES(k < n);
  char old = b[k];
  cstring x{b, n};
  b[k] = spec::nondet<char>("new");
  ENSURES(x.c_str()[k] == old);
}
CONTRACT(C05, copy) {
  Text t = any_text("v");
  size_t live = __spec_live();
  {
    cstring x{t.v};
    {
      cstring y{x};
      owns(y, t);
      ENSURES(!__spec_same_object(y.c_str(), x.c_str()));
    }
    owns(x, t); // the copy's end does not touch the original
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, move) {
  Text t = any_text("v");
  size_t live = __spec_live();
  {
    cstring x{t.v};
    {
      cstring y{std::move(x)};
      owns(y, t);
      ENSURES(x.c_str() == nullptr);
      ENSURES(__spec_live() == live + 1);
      cstring z{x}; // a moved-from value can be copied, moved and assigned
      ENSURES(z.c_str() == nullptr);
      cstring w{std::move(x)};
      ENSURES(w.c_str() == nullptr);
    }
    ENSURES(__spec_live() == live);
    x = "again";
    ENSURES(sv{x.c_str()} == "again");
  }
  ENSURES(__spec_live() == live);
}
namespace {
// an arbitrary cstring: holding any text, or moved-from
struct Any {
  Text t;
  cstring x;
  bool null;
  explicit Any(const char *name)
      : t(any_text(name)), x(t.v), null(__spec_choose("moved_from")) {
    if (null)
      cstring gone{std::move(x)};
  }
  void unchanged() const {
    if (null)
      ENSURES(x.c_str() == nullptr);
    else
      owns(x, t);
  }
};
} // namespace
CONTRACT(C05, assign_cstr) {
  auto c = spec::cstr("c");
  size_t live = __spec_live();
  {
    Any a("v");
    cstring &r = (a.x = c.p);
    ENSURES(&r == &a.x);
    owns(a.x, Text{{c.p, c.len + 1}, c.len});
    ENSURES(__spec_live() == live + 1);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, assign_null) {
  size_t live = __spec_live();
  {
    Any a("v");
    a.x = static_cast<const char *>(nullptr);
    ENSURES(a.x.c_str() == nullptr);
    ENSURES(__spec_live() == live);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, assign_own_tail) {
  Text t = any_text("v");
  size_t live = __spec_live();
  {
    cstring x{t.v};
    size_t k = spec::nondet<size_t>("k");
    if (__spec_native())
      k %= t.len + 1;
    REQUIRES(k <= t.len);
    x = x.c_str() + k;
    owns(x, Text{{t.v.data() + k, t.v.size() - k}, t.len - k});
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, copy_assign) {
  size_t live = __spec_live();
  {
    Any a("v"), b("w");
    cstring &r = (a.x = b.x);
    ENSURES(&r == &a.x);
    b.unchanged();
    if (b.null)
      ENSURES(a.x.c_str() == nullptr);
    else {
      owns(a.x, b.t);
      ENSURES(!__spec_same_object(a.x.c_str(), b.x.c_str()));
    }
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, copy_assign_self) {
  size_t live = __spec_live();
  {
    Any a("v");
    const cstring &self = a.x;
    a.x = self;
    a.unchanged();
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, move_assign) {
  size_t live = __spec_live();
  {
    Any a("v"), b("w");
    cstring &r = (a.x = std::move(b.x));
    ENSURES(&r == &a.x);
    if (b.null)
      ENSURES(a.x.c_str() == nullptr);
    else
      owns(a.x, b.t);
    b.x = "again";
    ENSURES(sv{b.x.c_str()} == "again");
    if (!b.null)
      owns(a.x, b.t);
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, move_assign_self) {
  size_t live = __spec_live();
  {
    Any a("v");
    cstring &self = a.x;
    a.x = std::move(self);
    a.unchanged();
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, swap) {
  size_t live = __spec_live();
  {
    Any a("v"), b("w");
    std::swap(a.x, b.x);
    if (b.null)
      ENSURES(a.x.c_str() == nullptr);
    else
      owns(a.x, b.t);
    if (a.null)
      ENSURES(b.x.c_str() == nullptr);
    else
      owns(b.x, a.t);
  }
  ENSURES(__spec_live() == live);
}
// running out of memory leaves the old value in place and leaks nothing
CONTRACT(C05, assign_out_of_memory) {
  auto c = spec::cstr("c");
  size_t live = __spec_live();
  {
    Any a("v");
    __spec_bad_alloc(1);
    bool failed = false;
    try {
      a.x = c.p;
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    __spec_bad_alloc(0);
    if (failed)
      a.unchanged();
    else
      owns(a.x, Text{{c.p, c.len + 1}, c.len});
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, copy_assign_out_of_memory) {
  size_t live = __spec_live();
  {
    Any a("v"), b("w");
    __spec_bad_alloc(1);
    bool failed = false;
    try {
      a.x = b.x;
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    __spec_bad_alloc(0);
    b.unchanged();
    if (failed)
      a.unchanged();
  }
  ENSURES(__spec_live() == live);
}
CONTRACT(C05, construct_out_of_memory) {
  Text t = any_text("v");
  auto c = spec::cstr("c");
  cstring y{t.v};
  size_t live = __spec_live();
  __spec_bad_alloc(1);
  try {
    cstring x{t.v};
    cstring z{y};
    cstring w{c.p};
  } catch (const std::bad_alloc &) {
  }
  __spec_bad_alloc(0);
  owns(y, t);
  ENSURES(__spec_live() == live);
}
