// Assumed contracts of the library's paths and binary file streams: one file
// below one directory; bytes reach it when its stream is flushed or closed.
#include "file_ghost.h"
#include <filesystem>
#include <fstream>
#include <string.h>
#include <system_error>
#define MODEL(sym) __asm__("__model_" sym)
#define USED __attribute__((used))
namespace fs = std::filesystem;
using ghost::Disk;
namespace {
Disk *disk;
// one stream of each kind at a time
struct Stream {
  void *at = nullptr; // its std::ios
  int state = 0;
  bool open = false;
  size_t pos = 0;
} reader, writer;
unsigned char pending[Disk::MAX];
size_t npending;
long out_table[4] = {long(sizeof(std::ofstream) - sizeof(std::ios)), 0, 0, 0};
long in_table[4] = {long(sizeof(std::ifstream) - sizeof(std::ios)), 0, 0, 0};
Stream &stream(const void *ios) {
  if (ios == writer.at)
    return writer;
  if (ios != reader.at)
    __spec_fail("an unknown stream");
  return reader;
}
bool same(const char *a, const char *b) {
  for (; *a && *a == *b; ++a)
    ++b;
  return *a == *b;
}
// is the path one of a file in the directory?
const char *file(const char *p) {
  const char *d = disk->path();
  while (*d && *p == *d) {
    ++p;
    ++d;
  }
  return *d == 0 && *p == '/' && p[1] ? p + 1 : nullptr;
}
void flush() {
  if (!writer.open)
    return;
  if (disk->condition == ghost::FULL) {
    if (npending)
      writer.state |= std::ios::badbit;
    npending = 0;
    return;
  }
  if (disk->n + npending > Disk::MAX)
    __spec_fail("the disk of the model is too small");
  memcpy(disk->bytes + disk->n, pending, npending);
  disk->n += npending;
  npending = 0;
}
} // namespace
ghost::Disk::Disk(Condition c) : condition(c), directory(c == READY || c == FULL) { disk = this; }
ghost::Disk::~Disk() { disk = nullptr; }
extern "C" {
// std::filesystem::path: its text is all there is
USED void m_path_split(fs::path *) MODEL("_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv");
void m_path_split(fs::path *) {}
USED void m_path_list(void **p) MODEL("_ZNSt10filesystem7__cxx114path5_ListC1Ev");
void m_path_list(void **p) { *p = nullptr; }
USED void m_path_copy(void **p, void **) MODEL("_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_");
void m_path_copy(void **p, void **) { *p = nullptr; }
USED void m_path_gone(void *, void *) MODEL("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE");
void m_path_gone(void *, void *) {}
USED fs::path *m_path_append(fs::path *p, const fs::path *q) MODEL("_ZNSt10filesystem7__cxx114pathdVERKS1_");
fs::path *m_path_append(fs::path *p, const fs::path *q) {
  auto &a = const_cast<std::string &>(p->native());
  auto &b = q->native();
  if (!b.empty() && b[0] == '/')
    a.clear();
  else if (!a.empty() && a.back() != '/')
    a += '/';
  a += b;
  return p;
}
USED void *m_category() MODEL("_ZNSt3_V215system_categoryEv");
USED void *m_generic() MODEL("_ZNSt3_V216generic_categoryEv");
long category[2];
void *m_category() { return category; }
void *m_generic() { return category + 1; }
USED void m_status_code(fs::file_status *s, const fs::path *p, std::error_code *) MODEL("_ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code");
// directories
USED bool m_make(const fs::path *p, std::error_code *e) MODEL("_ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathERSt10error_code");
bool m_make(const fs::path *p, std::error_code *e) {
  if (!same(p->c_str(), disk->path()))
    __spec_fail("another directory");
  long *raw = reinterpret_cast<long *>(e);
  if (disk->condition == ghost::BLOCKED) {
    *reinterpret_cast<int *>(raw) = 20; // ENOTDIR
    return false;
  }
  *reinterpret_cast<int *>(raw) = 0;
  bool made = !disk->directory;
  disk->directory = true;
  return made;
}
USED bool m_make_throws(const fs::path *p) MODEL("_ZNSt10filesystem18create_directoriesERKNS_7__cxx114pathE");
bool m_make_throws(const fs::path *p) {
  char e[sizeof(std::error_code)];
  bool made = m_make(p, reinterpret_cast<std::error_code *>(e));
  if (*reinterpret_cast<int *>(e))
    throw 20; // not an exception of the standard
  return made;
}
USED void m_status(fs::file_status *s, const fs::path *p) MODEL("_ZNSt10filesystem6statusERKNS_7__cxx114pathE");
void m_status(fs::file_status *s, const fs::path *p) {
  bool d = same(p->c_str(), disk->path()) && disk->directory;
  new (s) fs::file_status(d ? fs::file_type::directory : fs::file_type::not_found);
}
void m_status_code(fs::file_status *s, const fs::path *p, std::error_code *) { m_status(s, p); }
// writing
USED void m_ofstream(std::ofstream *s, const char *p, std::ios::openmode mode) MODEL("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void m_ofstream(std::ofstream *s, const char *p, std::ios::openmode mode) {
  *reinterpret_cast<void **>(s) = out_table + 3;
  if (writer.at)
    __spec_fail("two output streams");
  writer.at = reinterpret_cast<char *>(s) + out_table[0];
  writer.state = 0;
  writer.open = false;
  auto *f = file(p);
  size_t n = f ? strlen(f) : 0;
  if (!f || !disk->directory || n >= sizeof(disk->name)) {
    writer.state = std::ios::failbit;
    return;
  }
  memcpy(disk->name, f, n + 1);
  disk->exists = true;
  writer.open = true;
  npending = 0;
  if (!(mode & std::ios::app))
    disk->n = 0;
}
USED std::ostream *m_write(std::ostream *s, const char *p, long n) MODEL("_ZNSo5writeEPKcl");
std::ostream *m_write(std::ostream *s, const char *p, long n) {
  if (writer.state) {
    writer.state |= std::ios::failbit;
    return s;
  }
  if (n <= 0)
    return s;
  if (!__spec_valid(p, size_t(n)))
    __spec_fail("bytes to write");
  if (n >= 8192 && disk->condition == ghost::FULL) { // not buffered
    writer.state |= std::ios::badbit;
    return s;
  }
  if (npending + size_t(n) > Disk::MAX)
    __spec_fail("the disk of the model is too small");
  memcpy(pending + npending, p, size_t(n));
  npending += size_t(n);
  return s;
}
USED std::ostream *m_flush(std::ostream *s) MODEL("_ZNSo5flushEv");
std::ostream *m_flush(std::ostream *s) {
  flush();
  return s;
}
USED void m_oclose(std::ofstream *) MODEL("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv");
void m_oclose(std::ofstream *) {
  int before = writer.state;
  flush();
  if (!writer.open || writer.state != before)
    writer.state = before | std::ios::failbit;
  writer.open = false;
}
USED void m_ogone(std::ofstream *) MODEL("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev");
void m_ogone(std::ofstream *) {
  flush();
  writer.at = nullptr;
  writer.open = false;
}
// reading
USED void m_ifstream(std::ifstream *s, const char *p, std::ios::openmode) MODEL("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void m_ifstream(std::ifstream *s, const char *p, std::ios::openmode) {
  *reinterpret_cast<void **>(s) = in_table + 3;
  if (reader.at)
    __spec_fail("two input streams");
  reader.at = reinterpret_cast<char *>(s) + in_table[0];
  reader.pos = 0;
  auto *f = file(p);
  reader.open = f && disk->exists && same(f, disk->name);
  reader.state = reader.open ? 0 : std::ios::failbit;
}
USED std::istream *m_read(std::istream *s, char *p, long n) MODEL("_ZNSi4readEPcl");
std::istream *m_read(std::istream *s, char *p, long n) {
  if (reader.state) {
    reader.state |= std::ios::failbit;
    return s;
  }
  size_t rest = disk->n - reader.pos, m = size_t(n);
  if (m > rest) {
    reader.state = std::ios::eofbit | std::ios::failbit;
    m = rest;
  }
  if (m && !__spec_valid(p, m))
    __spec_fail("room to read");
  memcpy(p, disk->bytes + reader.pos, m);
  reader.pos += m;
  return s;
}
USED void m_igone(std::ifstream *) MODEL("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev");
void m_igone(std::ifstream *) { reader.at = nullptr; }
// states
USED bool m_good(const std::ios *s) MODEL("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool m_good(const std::ios *s) { return stream(s).state == 0; }
USED bool m_bad(const std::ios *s) MODEL("_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv");
bool m_bad(const std::ios *s) { return (stream(s).state & std::ios::badbit) != 0; }
USED bool m_fail(const std::ios *s) MODEL("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool m_fail(const std::ios *s) { return (stream(s).state & (std::ios::badbit | std::ios::failbit)) != 0; }
USED bool m_eof(const std::ios *s) MODEL("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool m_eof(const std::ios *s) { return (stream(s).state & std::ios::eofbit) != 0; }
USED bool m_not(const std::ios *s) MODEL("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool m_not(const std::ios *s) { return m_fail(s); }
USED bool m_bool(const std::ios *s) MODEL("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool m_bool(const std::ios *s) { return !m_fail(s); }
}
