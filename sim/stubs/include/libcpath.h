#if !defined( SIM_LIBCPATH_H )
#define SIM_LIBCPATH_H
#include <libcerror.h>
#define LIBCPATH_VERSION_STRING "sim"
#endif
