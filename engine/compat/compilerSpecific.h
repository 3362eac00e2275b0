/* stand-in for EPICS base compiler/gcc/compilerSpecific.h (that one refuses clang) */
#ifndef compilerSpecific_h
#define compilerSpecific_h
#define EPICS_ALWAYS_INLINE __inline__ __attribute__((always_inline))
#define EPICS_FUNCTION __PRETTY_FUNCTION__
#ifdef __cplusplus
#define CXX_PLACEMENT_DELETE
#endif
#define EPICS_PRINTF_STYLE(f,a) __attribute__((format(__printf__,f,a)))
#define EPICS_DEPRECATED __attribute__((deprecated))
#define EPICS_UNUSED __attribute__((unused))
#endif
