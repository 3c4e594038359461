// A scratch directory removed at the end of the process
#pragma once
#include "common.hpp"
#include <filesystem>
#include <fstream>
namespace vf {
struct Scratch {
  std::filesystem::path dir;
  Scratch() {
    std::string t = (std::filesystem::temp_directory_path() / "vf-scratch-XXXXXX").string();
    if (!mkdtemp(t.data()))
      throw HarnessError{"mkdtemp"};
    dir = t;
  }
  ~Scratch() {
    std::error_code e;
    std::filesystem::remove_all(dir, e);
  }
  std::string file(const std::string &n) const { return (dir / n).string(); }
};
inline Scratch &scratch() {
  static Scratch s;
  return s;
}
// moves in the scratch directory, for the relative paths
struct InScratch {
  std::filesystem::path before = std::filesystem::current_path();
  InScratch() { std::filesystem::current_path(scratch().dir); }
  ~InScratch() {
    std::error_code e;
    std::filesystem::current_path(before, e);
  }
  static std::string relative(const std::string &name, Rng &r) {
    switch (r.ri(0, 3)) {
    case 0:
      return "./" + name;
    case 1:
      return "../" + scratch().dir.filename().string() + "/" + name;
    default:
      return name;
    }
  }
};
inline void writeFile(const std::string &p, const std::string &content) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(content.data(), static_cast<std::streamsize>(content.size()));
  if (!o)
    throw HarnessError{"can't write " + p};
}
} // namespace vf
