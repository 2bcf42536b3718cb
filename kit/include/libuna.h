#if !defined( KIT_LIBUNA_H )
#define KIT_LIBUNA_H
#include <libcerror.h>
#define LIBUNA_VERSION_STRING "sim"
#endif
