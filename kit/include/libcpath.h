#if !defined( KIT_LIBCPATH_H )
#define KIT_LIBCPATH_H
#include <libcerror.h>
#define LIBCPATH_VERSION_STRING "sim"
#endif
