#if !defined( KIT_LIBCNOTIFY_H )
#define KIT_LIBCNOTIFY_H
#include <libcerror.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int libcnotify_verbose;
void libcnotify_verbose_set( int verbose );
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error );
int libcnotify_printf( const char *format, ... );
int libcnotify_print_data( const uint8_t *data, size_t data_size, uint8_t print_data_flags );
int libcnotify_print_error_backtrace( libcerror_error_t *error );
#ifdef __cplusplus
}
#endif
#endif
