// Keeps what the library prints to std::cout out of the report, and offers scratch files.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
namespace pbt {
struct Quiet {
  std::ostringstream os;
  std::streambuf*    was;
  Quiet() : was(std::cout.rdbuf(os.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(was); }
  std::string text() const { return os.str(); }
};
// a file of this process in the scratch directory, removed at the end of the case
struct TempFile {
  std::string path;
  TempFile(const std::string& ext = "bin") {
    static int k = 0;
    const char* d = std::getenv("PBT_SCRATCH");
    path          = std::string(d ? d : "/tmp") + "/t" + std::to_string(getpid()) + "_" + std::to_string(++k % 8) + "." + ext;
  }
  ~TempFile() { ::unlink(path.c_str()); }
  std::string read() const {
    std::ifstream     f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
  }
  void write(const std::string& t) const {
    std::ofstream f(path, std::ios::binary);
    f << t;
  }
};
}    // namespace pbt
