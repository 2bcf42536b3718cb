/* Stand-in for the EVP interface of OpenSSL releases before 1.1, which had
 * EVP_MD_CTX_init and EVP_MD_CTX_cleanup and a complete EVP_MD_CTX type. */
#if !defined( SIM_LEGACY_EVP_H )
#define SIM_LEGACY_EVP_H
#include <stddef.h>
typedef struct sim_evp_md EVP_MD;
typedef struct sim_engine ENGINE;
typedef struct sim_evp_md_ctx { unsigned long magic; const EVP_MD *digest; void *md_data; unsigned long flags; } EVP_MD_CTX;
void EVP_MD_CTX_init( EVP_MD_CTX *ctx );
int EVP_MD_CTX_cleanup( EVP_MD_CTX *ctx );
int EVP_DigestInit_ex( EVP_MD_CTX *ctx, const EVP_MD *type, ENGINE *impl );
int EVP_DigestUpdate( EVP_MD_CTX *ctx, const void *data, size_t size );
int EVP_DigestFinal_ex( EVP_MD_CTX *ctx, unsigned char *md, unsigned int *size );
const EVP_MD *EVP_md5( void );
const EVP_MD *EVP_sha1( void );
const EVP_MD *EVP_sha224( void );
const EVP_MD *EVP_sha256( void );
const EVP_MD *EVP_sha512( void );
#endif
