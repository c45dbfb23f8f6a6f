// Stand-in for libqi's clock (not installed here): durations are signed 64-bit nanoseconds.
#pragma once
#include <boost/chrono/duration.hpp>
#include <boost/cstdint.hpp>
namespace qi {
typedef boost::chrono::duration<boost::int64_t, boost::nano> Duration;
}
