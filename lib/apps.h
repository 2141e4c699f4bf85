// Calls the repository's command-line programs in this process (they are
// compiled with their main renamed).
#ifndef VERIF_APPS_H_
#define VERIF_APPS_H_

#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>

#include <fstream>
#include <iterator>
#include <string>
#include <vector>

#include "pbt.h"

namespace apps {

template <typename Char>
int Run(int (*fn)(int, Char**), const std::vector<std::string>& args,
        const std::string& out = "/dev/null") {
  std::vector<std::string> copy(args);
  std::vector<Char*> argv;
  for (auto& a : copy) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  fflush(stdout);
  const int saved = dup(1);
  const int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  close(fd);
  const int rc = fn((int)args.size(), argv.data());
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  return rc;
}

inline void WriteFile(const std::string& path, const std::string& data) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(data.data(), (std::streamsize)data.size());
}
inline void WriteFile(const std::string& path, const pbt::Bytes& data) {
  WriteFile(path, std::string(data.begin(), data.end()));
}
inline bool ReadFile(const std::string& path, std::string* data) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return false;
  data->assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
  return true;
}

// Removes the files when a case ends, however it ends.
struct Cleanup {
  std::vector<std::string> paths;
  ~Cleanup() {
    for (auto& p : paths) unlink(p.c_str());
  }
  std::string add(const std::string& p) {
    paths.push_back(p);
    return p;
  }
};

}  // namespace apps

#endif  // VERIF_APPS_H_
