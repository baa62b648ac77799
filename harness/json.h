// Minimal JSON reader for harness programs (objects, arrays, strings, integers, booleans).
#pragma once
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

struct J {
  enum K { nul, num, str, arr, obj } k = nul;
  long n = 0;
  std::string s;
  std::vector<J> a;
  std::map<std::string, J> o;

  bool has(const char *key) const { return k == obj && o.count(key); }
  const J &operator[](const char *key) const {
    static const J none;
    auto it = o.find(key);
    return it == o.end() ? none : it->second;
  }
  long num_or(const char *key, long d) const { return has(key) ? (*this)[key].n : d; }
  std::string str_or(const char *key, const char *d) const { return has(key) ? (*this)[key].s : std::string(d); }

  static J parse(const char *&p) {
    auto ws = [&] {
      while (isspace((unsigned char)*p))
        ++p;
    };
    J r;
    ws();
    if (*p == '{') {
      r.k = obj;
      ++p;
      ws();
      while (*p != '}') {
        J key = parse(p);
        ws();
        if (*p != ':')
          fail(p);
        ++p;
        r.o[key.s] = parse(p);
        ws();
        if (*p == ',')
          ++p;
        ws();
      }
      ++p;
    } else if (*p == '[') {
      r.k = arr;
      ++p;
      ws();
      while (*p != ']') {
        r.a.push_back(parse(p));
        ws();
        if (*p == ',')
          ++p;
        ws();
      }
      ++p;
    } else if (*p == '"') {
      r.k = str;
      ++p;
      while (*p != '"') {
        if (*p == '\\')
          ++p;
        r.s.push_back(*p++);
      }
      ++p;
    } else if (*p == '-' || isdigit((unsigned char)*p)) {
      r.k = num;
      char *e;
      r.n = strtol(p, &e, 10);
      p = e;
    } else if (*p == 't') {
      r.k = num;
      r.n = 1;
      p += 4;
    } else if (*p == 'f') {
      r.k = num;
      p += 5;
    } else if (*p == 'n') {
      p += 4;
    } else
      fail(p);
    return r;
  }
  [[noreturn]] static void fail(const char *p) {
    fprintf(stderr, "json error near: %.40s\n", p);
    exit(9);
  }
};
