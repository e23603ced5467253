// A disk with one state vector file.  For the verifier the streams are opaque
// and models_file.cpp gives the library's file operations a meaning; concrete
// runs use real files below a scratch directory.
#ifndef VERIF_FILE_GHOST_H
#define VERIF_FILE_GHOST_H
#include "spec.h"
#ifdef SPEC_NATIVE
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <string>
#include <unistd.h>
#endif
namespace ghost {
enum Condition : int {
  READY,   // the directory exists
  MISSING, // it does not, but can be made
  BLOCKED, // it cannot be made
  FULL,    // it exists, and the device is full
};
struct Disk {
  static constexpr size_t MAX = 1024;
  Condition condition;
#ifdef SPEC_NATIVE
  std::string root, dir;
  explicit Disk(Condition c) : condition(c) {
    const char *scratch = getenv("VERIF_SCRATCH");
    root = std::string(scratch ? scratch : "/tmp") + "/disk-XXXXXX";
    if (!mkdtemp(root.data()))
      abort();
    dir = root + "/a/b";
    namespace fs = std::filesystem;
    if (c == READY || c == FULL)
      fs::create_directories(dir);
    if (c == BLOCKED)
      std::ofstream(root + "/a") << "x";
    if (c == FULL)
      fs::create_symlink("/dev/full", dir + "/f.bin"), fs::create_symlink("/dev/full", dir + "/simulator.bin");
  }
  ~Disk() { std::filesystem::remove_all(root); }
  const char *path() const { return dir.c_str(); }
  bool made() const { return std::filesystem::is_directory(dir); }
  // the bytes of the file
  size_t size(const char *name) const {
    std::error_code e;
    auto n = std::filesystem::file_size(dir + "/" + name, e);
    return e ? 0 : n;
  }
  // only the first bytes are left
  void truncate(const char *name, size_t n) { std::filesystem::resize_file(dir + "/" + name, n); }
#else
  bool directory, exists = false;
  char name[24];
  unsigned char bytes[MAX];
  size_t n = 0;
  explicit Disk(Condition c);
  ~Disk();
  const char *path() const { return "a/b"; }
  bool made() const { return directory; }
  size_t size(const char *) const { return n; }
  void truncate(const char *, size_t to) { n = to; }
#endif
};
} // namespace ghost
#endif
