// Shared by all drivers: reads histories (one JSON object per line), executes them, writes the
// recorded histories. Exit code 3: the input itself is unusable (an error of the check).
#pragma once
#include <nlohmann/json.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <unistd.h>
#include <vector>

using json = nlohmann::json;

// value that no specification ever expects
static const long OFFGRID = 77777;

// v*D as an integer if it is within tol of one (and small enough for TLC), else OFFGRID
inline long grid(double v, double D, double tol = 1e-3) {
  const double x = v * D;
  if (!(std::fabs(x) < 5e8)) return OFFGRID;
  const double r = std::nearbyint(x);
  if (std::fabs(x - r) > tol) return OFFGRID;
  return static_cast<long>(r);
}

// v*D rounded; clipped for TLC; NaN -> 1000000007
inline long fix(double v, double D) {
  const double x = v * D;
  if (std::isnan(x)) return 1000000007L;
  if (x > 1e9) return 1000000000L;
  if (x < -1e9) return -1000000000L;
  return static_cast<long>(std::nearbyint(x));
}

struct BadInput : std::runtime_error {
  using std::runtime_error::runtime_error;
};

inline int run_histories(int argc, char **argv, const std::function<json(const json &)> &f) {
  if (argc < 3) {
    std::cerr << "usage: driver in out\n";
    return 3;
  }
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    json h, r;
    try {
      h = json::parse(line);
    } catch (const std::exception &e) {
      std::fprintf(stderr, "bad input line: %s\n", e.what());
      return 3;
    }
    try {
      alarm(40);  // a hang of the code under test ends this process
      r = f(h);
      alarm(0);
    } catch (const BadInput &e) {
      std::fprintf(stderr, "bad input: %s\n", e.what());
      return 3;
    } catch (const json::exception &e) {
      std::fprintf(stderr, "bad input: %s\n", e.what());
      return 3;
    }
    if (h.contains("id")) r["id"] = h["id"];
    out << r.dump() << "\n";
    out.flush();
  }
  return 0;
}
