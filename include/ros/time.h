// Stand-in for ROS's time (not installed here): two unsigned 32-bit fields; a count of nanoseconds
// that does not fit is refused, as in rostime.
#pragma once
#include <cassert>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <algorithm>
namespace ros {
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  Time &fromNSec(uint64_t t) {
    const uint64_t s = t / 1000000000ull;
    if (s > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s);
    nsec = static_cast<uint32_t>(t % 1000000000ull);
    return *this;
  }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
  double toSec() const { return sec + 1e-9 * nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator>=(const Time &o) const { return !(*this < o); }
};
static const Time TIME_MIN(0, 1);
static const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
}
