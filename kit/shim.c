/* Small working stand-ins for libcerror, libcfile, libcsplit, libclocale and
 * libcnotify, for demonstrations that run the code of this repository. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <libcerror.h>
#include <libcfile.h>
#include <libcsplit.h>
#include <libclocale.h>
#include <libcnotify.h>

#if defined( SHIM_REAL )
#define MALLOC __real_malloc
#define CALLOC __real_calloc
#define FREE __real_free
void *__real_malloc( size_t ); void *__real_calloc( size_t, size_t ); void __real_free( void * );
#else
#define MALLOC malloc
#define CALLOC calloc
#define FREE free
#endif

typedef struct { int domain, code; char text[ 2048 ]; } err_t;
long shim_errors, shim_files, shim_splits;

static void set( libcerror_error_t **error, int d, int c, const char *f, va_list a )
{
	err_t *e; char t[ 1024 ]; size_t n;
	if( error == NULL ) return;
	vsnprintf( t, sizeof t, f, a );
	if( *error == NULL )
	{
		e = CALLOC( 1, sizeof *e );
		e->domain = d; e->code = c;
		*error = (libcerror_error_t *) e;
		shim_errors++;
	}
	e = (err_t *) *error;
	n = strlen( e->text );
	snprintf( e->text + n, sizeof e->text - n, "%s\n", t );
}
void libcerror_error_set( libcerror_error_t **error, int d, int c, const char *f, ... ) { va_list a; va_start( a, f ); set( error, d, c, f, a ); va_end( a ); }
void libcerror_system_set_error( libcerror_error_t **error, int d, int c, uint32_t s, const char *f, ... ) { va_list a; va_start( a, f ); set( error, d, c, f, a ); va_end( a ); }
void libcerror_error_free( libcerror_error_t **error ) { if( error != NULL && *error != NULL ) { FREE( *error ); *error = NULL; shim_errors--; } }
int libcerror_error_matches( libcerror_error_t *error, int d, int c ) { err_t *e = (err_t *) error; return e != NULL && e->domain == d && e->code == c; }
int libcerror_error_fprint( libcerror_error_t *error, FILE *s ) { return error == NULL ? -1 : fprintf( s, "%s", ( (err_t *) error )->text ); }
int libcerror_error_sprint( libcerror_error_t *error, char *s, size_t n ) { return error == NULL ? -1 : snprintf( s, n, "%s", ( (err_t *) error )->text ); }
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *s ) { return libcerror_error_fprint( error, s ); }
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *s, size_t n ) { return libcerror_error_sprint( error, s, n ); }

typedef struct { int fd; char eof; } file_t;
int shim_short_read;		/* read at most this many bytes at a time, if set */
long shim_fail_read = -1;	/* fail the read with this number */
static long shim_reads;
static void env( void )
{
	static int done;
	if( !done ) { done = 1; if( getenv( "SHIM_SHORT" ) ) shim_short_read = atoi( getenv( "SHIM_SHORT" ) ); if( getenv( "SHIM_FAIL_READ" ) ) shim_fail_read = atol( getenv( "SHIM_FAIL_READ" ) ); }
}
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error ) { file_t *f = CALLOC( 1, sizeof *f ); f->fd = -1; *file = (libcfile_file_t *) f; shim_files++; env(); return 1; }
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error ) { file_t *f = (file_t *) *file; if( f != NULL ) { if( f->fd >= 0 ) close( f->fd ); FREE( f ); *file = NULL; shim_files--; } return 1; }
int libcfile_file_open( libcfile_file_t *file, const char *n, int flags, libcerror_error_t **error )
{
	( (file_t *) file )->fd = open( n, O_RDONLY );
	if( ( (file_t *) file )->fd < 0 ) { libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_IO, LIBCERROR_IO_ERROR_OPEN_FAILED, "unable to open: %s", n ); return -1; }
	return 1;
}
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error ) { close( ( (file_t *) file )->fd ); ( (file_t *) file )->fd = -1; return 0; }
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *b, size_t n, libcerror_error_t **error )
{
	ssize_t r;
	if( shim_short_read > 0 && n > (size_t) shim_short_read ) n = shim_short_read;
	r = shim_reads++ == shim_fail_read ? -1 : read( ( (file_t *) file )->fd, b, n );
	if( r < 0 ) libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_IO, LIBCERROR_IO_ERROR_READ_FAILED, "unable to read" );
	return r;
}
off_t libcfile_file_seek_offset( libcfile_file_t *file, off_t o, int w, libcerror_error_t **error ) { return lseek( ( (file_t *) file )->fd, o, w ); }
int libcfile_file_exists( const char *n, libcerror_error_t **error ) { return access( n, F_OK ) == 0; }
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error ) { return ( (file_t *) file )->fd >= 0; }
int libcfile_file_get_offset( libcfile_file_t *file, off_t *o, libcerror_error_t **error ) { *o = lseek( ( (file_t *) file )->fd, 0, SEEK_CUR ); return 1; }
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *s, libcerror_error_t **error ) { struct stat st; if( fstat( ( (file_t *) file )->fd, &st ) != 0 ) return -1; *s = st.st_size; return 1; }

typedef struct { int n; char **v; size_t *l; } split_t;
int libcsplit_narrow_string_split( const char *s, size_t size, char d, libcsplit_narrow_split_string_t **out, libcerror_error_t **error )
{
	split_t *p = CALLOC( 1, sizeof *p ); size_t a = 0, i, n = strnlen( s, size );
	p->v = CALLOC( n + 2, sizeof *p->v ); p->l = CALLOC( n + 2, sizeof *p->l );
	for( i = 0; i <= n; i++ ) if( i == n || s[ i ] == d ) { p->v[ p->n ] = strndup( s + a, i - a ); p->l[ p->n++ ] = i - a + 1; a = i + 1; }
	*out = (libcsplit_narrow_split_string_t *) p; shim_splits++; return 1;
}
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **s, libcerror_error_t **error )
{
	split_t *p = (split_t *) *s; int i;
	if( p != NULL ) { for( i = 0; i < p->n; i++ ) FREE( p->v[ i ] ); FREE( p->v ); FREE( p->l ); FREE( p ); *s = NULL; shim_splits--; } return 1;
}
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *s, int *n, libcerror_error_t **error ) { *n = ( (split_t *) s )->n; return 1; }
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *s, int i, char **v, size_t *l, libcerror_error_t **error )
{
	split_t *p = (split_t *) s;
	if( i < 0 || i >= p->n ) { libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_ARGUMENTS, LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE, "invalid segment" ); return -1; }
	*v = p->v[ i ]; *l = p->l[ i ];
	if( *l == 1 ) { *v = NULL; *l = 0; }
	return 1;
}
int libclocale_initialize( const char *d, libcerror_error_t **error ) { return 1; }
int libclocale_codepage_get( int *c, libcerror_error_t **error ) { *c = 0; return 1; }
int libclocale_locale_get_codepage( int *c, libcerror_error_t **error ) { *c = 0; return 1; }
int libclocale_locale_get_decimal_point( int *p, libcerror_error_t **error ) { *p = '.'; return 1; }
int libcnotify_verbose;
void libcnotify_verbose_set( int v ) { libcnotify_verbose = v; }
int libcnotify_stream_set( FILE *s, libcerror_error_t **error ) { return 1; }
int libcnotify_printf( const char *f, ... ) { va_list a; int r; va_start( a, f ); r = vfprintf( stderr, f, a ); va_end( a ); return r; }
int libcnotify_print_data( const uint8_t *d, size_t n, uint8_t f ) { return 0; }
int libcnotify_print_error_backtrace( libcerror_error_t *e ) { return libcerror_error_fprint( e, stderr ); }
