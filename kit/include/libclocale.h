#if !defined( KIT_LIBCLOCALE_H )
#define KIT_LIBCLOCALE_H
#include <libcerror.h>
#ifdef __cplusplus
extern "C" {
#endif
int libclocale_initialize( const char *domain_name, libcerror_error_t **error );
int libclocale_codepage_get( int *codepage, libcerror_error_t **error );
int libclocale_locale_get_codepage( int *codepage, libcerror_error_t **error );
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error );
#ifdef __cplusplus
}
#endif
#endif
