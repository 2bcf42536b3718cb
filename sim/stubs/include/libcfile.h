/* Simulator stand-in for libcfile: the simulated disk. */
#if !defined( SIM_LIBCFILE_H )
#define SIM_LIBCFILE_H
#include <libcerror.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef intptr_t libcfile_file_t;
#define LIBCFILE_OPEN_READ		0x01
#define LIBCFILE_OPEN_WRITE		0x02
#define LIBCFILE_OPEN_READ_WRITE	0x03
#define LIBCFILE_OPEN_WRITE_TRUNCATE	0x06
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error );
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error );
off_t libcfile_file_seek_offset( libcfile_file_t *file, off_t offset, int whence, libcerror_error_t **error );
int libcfile_file_exists( const char *filename, libcerror_error_t **error );
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error );
int libcfile_file_get_offset( libcfile_file_t *file, off_t *offset, libcerror_error_t **error );
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *size, libcerror_error_t **error );
#ifdef __cplusplus
}
#endif
#endif
