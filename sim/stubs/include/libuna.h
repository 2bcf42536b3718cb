#if !defined( SIM_LIBUNA_H )
#define SIM_LIBUNA_H
#include <libcerror.h>
#define LIBUNA_VERSION_STRING "sim"
#endif
