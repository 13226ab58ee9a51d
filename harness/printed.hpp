// Captures what the library prints, as lines whose scalars are exact tokens.
#pragma once
#include "harness.hpp"

#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>

struct Printed {
  char* buf = nullptr;
  size_t len = 0;
  std::FILE *file, *was;
  std::string text;
  Printed() {
    file = open_memstream(&buf, &len);
    was = std::exchange(stdout, file);
    symx::format_tokens = true;
  }
  Printed(const Printed&) = delete;
  ~Printed() { stop(); }
  std::vector<std::string> stop() {
    if (file) {
      symx::format_tokens = false;
      std::fclose(file);
      stdout = was;
      file = nullptr;
      text.assign(buf, len);
      std::free(buf);
    }
    std::vector<std::string> r;
    std::istringstream in{text};
    for (std::string l; std::getline(in, l);) r.push_back(l);
    return r;
  }
};
using Lines = std::vector<std::string>;
inline int count_with(const Lines& t, const std::string& what) {
  int n = 0;
  for (auto& l : t) n += l.find(what) != std::string::npos;
  return n;
}
inline int count_line(const Lines& t, const std::string& what) {
  int n = 0;
  for (auto& l : t) n += l == what;
  return n;
}
inline symx::S token(symx::H& h, const std::string& t) {
#ifndef SYMX_REPLAY
  if (t[0] == '#') return symx::Sym::node(std::atoi(t.c_str() + 1));
#endif
  char* end;
  double v = std::strtod(t.c_str(), &end);
  h.check("a printed number reads back", !t.empty() && *end == 0, t);
  return symx::S(v);
}
// The blank-separated words between the line's borders.
inline std::vector<std::string> words(std::string l, const std::string& border) {
  if (l.starts_with(border)) l = l.substr(border.size());
  if (l.ends_with(border)) l = l.substr(0, l.size() - border.size());
  std::istringstream in{l};
  std::vector<std::string> r;
  for (std::string w; in >> w;) r.push_back(w);
  return r;
}
