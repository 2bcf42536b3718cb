#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <common.h>
#include <types.h>
#include <libcerror.h>
#include "libhmac_md5.h"
#include "libhmac_sha1.h"
#include "libhmac_sha224.h"
#include "libhmac_sha256.h"
#include "libhmac_sha512.h"
#include "libhmac_md5_context.h"
#include "libhmac_sha1_context.h"
#include "libhmac_sha224_context.h"
#include "libhmac_sha256_context.h"
#include "libhmac_sha512_context.h"
#undef memcpy
#undef memset
extern long shim_errors;
#define CHECK( x ) do { if( !( x ) ) { printf( "line %d: %s\n", __LINE__, #x ); exit( 1 ); } } while( 0 )
static inline void ref( const char *alg, const void *data, size_t size, uint8_t *out )
{
	EVP_MD_CTX *c = EVP_MD_CTX_new(); const uint8_t *p = data; unsigned l;
	EVP_DigestInit_ex( c, EVP_get_digestbyname( alg ), NULL );
	EVP_DigestUpdate( c, p, size );
	EVP_DigestFinal_ex( c, out, &l );
	EVP_MD_CTX_free( c );
}
static inline void ref_hmac( const char *alg, const void *key, size_t klen, const void *data, size_t size, uint8_t *out )
{
	unsigned l;
	HMAC( EVP_get_digestbyname( alg ), klen ? key : "", klen, data, size, out, &l );
}
/* a buffer that ends right before an inaccessible page */
static inline uint8_t *guarded( size_t n )
{
	size_t pg = 4096, m = ( n + pg - 1 ) / pg * pg;
	uint8_t *p = mmap( NULL, m + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	mprotect( p + m, pg, PROT_NONE );
	return p + m - n;
}
static inline void fill( uint8_t *p, size_t n, unsigned s ) { size_t i; for( i = 0; i < n; i++ ) { s = s * 1103515245 + 12345; p[ i ] = s >> 16; } }
