#define ALMATH_API
#define ALMATH_NO_EXPORT
