// stand-in for the header CMake generates (export macros only; no executable content)
#ifndef ALMATH_API_H
#define ALMATH_API_H
#define ALMATH_API
#define ALMATH_NO_EXPORT
#define ALMATH_DEPRECATED
#define ALMATH_DEPRECATED_EXPORT
#define ALMATH_DEPRECATED_NO_EXPORT
#endif
