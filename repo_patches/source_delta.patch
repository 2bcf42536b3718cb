From ecba6e5d567852eb784e499349d32dcfb6a5656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/19] fix: prevent the compiler from removing the clearing of
 key data

HMAC calculation clears the key data and the padded keys directly before
freeing them. Both gcc and clang remove these memset calls as dead stores,
leaving the key material behind in freed heap memory.
---
 common/memory.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/common/memory.h b/common/memory.h
index 2275bf2..1a7a8ec 100644
--- a/common/memory.h
+++ b/common/memory.h
@@ -117,9 +117,29 @@ extern "C" {
 /* Memory set
  */
 #if defined( HAVE_MEMSET ) || defined( WINAPI )
+#if defined( __GNUC__ )
+/* Prevent the compiler from removing a memset of memory that is freed or goes
+ * out of scope afterwards, since memory_set is used to clear key data
+ */
+static __inline__ void *memory_set_with_barrier(
+     void *buffer,
+     int value,
+     size_t count )
+{
+	void *result = memset( buffer, value, count );
+
+	__asm__ __volatile__( "" : : "r" ( buffer ) : "memory" );
+
+	return( result );
+}
+
+#define memory_set( buffer, value, count ) \
+	memory_set_with_barrier( (void *) buffer, (int) value, count )
+#else
 #define memory_set( buffer, value, count ) \
 	memset( (void *) buffer, (int) value, count )
 #endif
+#endif
 
 #if defined( __cplusplus )
 }
-- 
2.43.0


From d3da3aa5d48024cdbe9a8eff55fb5d9340339230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/19] fix: free context when the initial hash values cannot
 be copied

---
 libhmac/libhmac_sha224_context.c | 2 +-
 libhmac/libhmac_sha256_context.c | 2 +-
 libhmac/libhmac_sha512_context.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a46a5fe..00aa664 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -601,7 +601,7 @@ int libhmac_sha224_context_initialize(
 		 "%s: unable to copy initial hash values.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2b6f1cf..99d55d1 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -601,7 +601,7 @@ int libhmac_sha256_context_initialize(
 		 "%s: unable to copy initial hash values.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7bb7b14..0c7e4e0 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -637,7 +637,7 @@ int libhmac_sha512_context_initialize(
 		 "%s: unable to copy initial hash values.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
-- 
2.43.0


From 704565389c7bf9e825928951128948f404ff62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 03/19] fix: report a failing clean up of an EVP message digest
 context

The context free functions set an error when EVP_MD_CTX_cleanup fails but
returned success.
---
 libhmac/libhmac_md5_context.c    | 5 ++++-
 libhmac/libhmac_sha1_context.c   | 5 ++++-
 libhmac/libhmac_sha224_context.c | 5 ++++-
 libhmac/libhmac_sha256_context.c | 5 ++++-
 libhmac/libhmac_sha512_context.c | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 534fa0c..53168fe 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -595,6 +595,7 @@ int libhmac_md5_context_free(
 {
 	libhmac_internal_md5_context_t *internal_context = NULL;
 	static char *function                            = "libhmac_md5_context_free";
+	int result                                       = 1;
 
 	if( context == NULL )
 	{
@@ -627,6 +628,8 @@ int libhmac_md5_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -647,7 +650,7 @@ int libhmac_md5_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index aa623e4..0d0e14c 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -668,6 +668,7 @@ int libhmac_sha1_context_free(
 {
 	libhmac_internal_sha1_context_t *internal_context = NULL;
 	static char *function                             = "libhmac_sha1_context_free";
+	int result                                        = 1;
 
 	if( context == NULL )
 	{
@@ -700,6 +701,8 @@ int libhmac_sha1_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -720,7 +723,7 @@ int libhmac_sha1_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index 00aa664..b7738f1 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -627,6 +627,7 @@ int libhmac_sha224_context_free(
 {
 	libhmac_internal_sha224_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha224_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -659,6 +660,8 @@ int libhmac_sha224_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -679,7 +682,7 @@ int libhmac_sha224_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 99d55d1..eb7f8cc 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -627,6 +627,7 @@ int libhmac_sha256_context_free(
 {
 	libhmac_internal_sha256_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha256_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -659,6 +660,8 @@ int libhmac_sha256_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -679,7 +682,7 @@ int libhmac_sha256_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 0c7e4e0..7cb835f 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -663,6 +663,7 @@ int libhmac_sha512_context_free(
 {
 	libhmac_internal_sha512_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha512_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -695,6 +696,8 @@ int libhmac_sha512_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -715,7 +718,7 @@ int libhmac_sha512_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH )
-- 
2.43.0


From 694b50faab0206cdfd402022391d180f0cca33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 04/19] fix: clear the context when it is freed

With the OpenSSL low level interface the context still contains buffered input
and the hash values after it was finalized, which can be the key of a HMAC.
---
 libhmac/libhmac_md5_context.c    | 5 +++++
 libhmac/libhmac_sha1_context.c   | 5 +++++
 libhmac/libhmac_sha224_context.c | 5 +++++
 libhmac/libhmac_sha256_context.c | 5 +++++
 libhmac/libhmac_sha512_context.c | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 53168fe..d9d45a0 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -647,6 +647,11 @@ int libhmac_md5_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH ) */
 
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_md5_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 0d0e14c..756cabe 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -720,6 +720,11 @@ int libhmac_sha1_context_free(
 		 */
 
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH ) */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha1_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index b7738f1..6a52ef6 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -679,6 +679,11 @@ int libhmac_sha224_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha224_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index eb7f8cc..5f5e639 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -679,6 +679,11 @@ int libhmac_sha256_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha256_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7cb835f..ede971f 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -715,6 +715,11 @@ int libhmac_sha512_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha512_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
-- 
2.43.0


From e0368e65eaa41e57bee81a5c7b37d46d7aaebfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:18 +0000
Subject: [PATCH 05/19] fix: free the input handle when a sum handle cannot be
 created

---
 hmactools/sum_handle.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..57fe911 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -100,7 +100,12 @@ int sum_handle_initialize(
 		 "%s: unable to clear sum handle.",
 		 function );
 
-		goto on_error;
+		memory_free(
+		 *sum_handle );
+
+		*sum_handle = NULL;
+
+		return( -1 );
 	}
 	if( libcfile_file_initialize(
 	     &( ( *sum_handle )->input_handle ),
@@ -137,6 +142,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
-- 
2.43.0


From e8fc668a2f61a8d2d98cac1bf4e88cc5620dc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:18 +0000
Subject: [PATCH 06/19] fix: free the split string when the digest types cannot
 be set

---
 hmactools/sum_handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 57fe911..4fc6ec7 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1222,7 +1222,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1255,7 +1255,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From dafe8386a100d9bdf42dfd797adc1b84f6d85917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:18 +0000
Subject: [PATCH 07/19] fix: report failing to print the hash values

---
 hmactools/sum_handle.c | 90 ++++++++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 4fc6ec7..fcae20e 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1667,38 +1667,88 @@ int sum_handle_hash_values_fprint(
 	}
 	if( sum_handle->calculate_md5 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_md5_hash_string );
+		if( fprintf(
+		     stream,
+		     "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_md5_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print MD5 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha1 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha1_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha1_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA1 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha224 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha224_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha224_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA224 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha256 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha256_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha256_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA256 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha512 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha512_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha512_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA512 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	return( 1 );
 }
-- 
2.43.0


From 3c3723e69dd20af13a2326b35220cc51a45e0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:18 +0000
Subject: [PATCH 08/19] fix: free the error of an operation interrupted by an
 abort

---
 hmactools/hmacsum.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 5bc0e83..6e07351 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -341,6 +341,15 @@ int main( int argc, char * const argv[] )
 		goto on_error;
 	}
 on_abort:
+	if( error != NULL )
+	{
+		/* An operation can fail because of the abort
+		 */
+		libcnotify_print_error_backtrace(
+		 error );
+		libcerror_error_free(
+		 &error );
+	}
 	if( sum_handle_close(
 	     hmacsum_sum_handle,
 	     &error ) != 0 )
-- 
2.43.0


From b57f8d88e590b403581848fedc1fd5089ae9342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 09/19] fix: prevent an interrupt during clean up from using
 the freed sum handle

---
 hmactools/hmacsum.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 6e07351..e2a3aee 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -131,6 +131,7 @@ int main( int argc, char * const argv[] )
 #endif
 {
 	libcerror_error_t *error                       = NULL;
+	sum_handle_t *sum_handle                       = NULL;
 	system_character_t *option_digest_types        = NULL;
 	system_character_t *option_process_buffer_size = NULL;
 	system_character_t *program                    = _SYSTEM_STRING( "hmacsum" );
@@ -372,8 +373,13 @@ on_abort:
 		libcerror_error_free(
 		 &error );
 	}
+	/* Prevent the signal handler accessing the sum handle while it is being freed
+	 */
+	sum_handle         = hmacsum_sum_handle;
+	hmacsum_sum_handle = NULL;
+
 	if( sum_handle_free(
-	     &hmacsum_sum_handle,
+	     &sum_handle,
 	     &error ) != 1 )
 	{
 		fprintf(
@@ -403,8 +409,11 @@ on_error:
 	}
 	if( hmacsum_sum_handle != NULL )
 	{
+		sum_handle         = hmacsum_sum_handle;
+		hmacsum_sum_handle = NULL;
+
 		sum_handle_free(
-		 &hmacsum_sum_handle,
+		 &sum_handle,
 		 NULL );
 	}
 	return( EXIT_FAILURE );
-- 
2.43.0


From 631374681b406cc492bd52d09076c366a120b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 10/19] fix: accept the kilo factor in a byte size string

---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From 9ee14fe030ce36aeda671acd0e4d507f50cfcf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 11/19] fix: prevent taking a reference to None that is not
 returned

---
 pyhmac/pyhmac_md5.c    | 6 ------
 pyhmac/pyhmac_sha1.c   | 6 ------
 pyhmac/pyhmac_sha224.c | 6 ------
 pyhmac/pyhmac_sha256.c | 6 ------
 pyhmac/pyhmac_sha512.c | 6 ------
 5 files changed, 30 deletions(-)

diff --git a/pyhmac/pyhmac_md5.c b/pyhmac/pyhmac_md5.c
index ce8d0ca..ce300a9 100644
--- a/pyhmac/pyhmac_md5.c
+++ b/pyhmac/pyhmac_md5.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_md5_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_md5_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hmac,
diff --git a/pyhmac/pyhmac_sha1.c b/pyhmac/pyhmac_sha1.c
index ba455f1..07555d4 100644
--- a/pyhmac/pyhmac_sha1.c
+++ b/pyhmac/pyhmac_sha1.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha1_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha1_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hmac,
diff --git a/pyhmac/pyhmac_sha224.c b/pyhmac/pyhmac_sha224.c
index e563d21..c88c381 100644
--- a/pyhmac/pyhmac_sha224.c
+++ b/pyhmac/pyhmac_sha224.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha224_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha224_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hmac,
diff --git a/pyhmac/pyhmac_sha256.c b/pyhmac/pyhmac_sha256.c
index 2fdf9cd..ebdbe91 100644
--- a/pyhmac/pyhmac_sha256.c
+++ b/pyhmac/pyhmac_sha256.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha256_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha256_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hmac,
diff --git a/pyhmac/pyhmac_sha512.c b/pyhmac/pyhmac_sha512.c
index 932f15c..e2024be 100644
--- a/pyhmac/pyhmac_sha512.c
+++ b/pyhmac/pyhmac_sha512.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha512_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha512_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hmac,
-- 
2.43.0


From 02908ce8770e06c7200a3d565f64b4bd4d36b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 12/19] fix: free the fetched exception and handle exceptions
 without a string

---
 pyhmac/pyhmac_error.c | 119 +++++++++++++++++++++++++++++++-----------
 1 file changed, 89 insertions(+), 30 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..2196548 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -126,22 +126,31 @@ void VARARGS(
 	 &exception_value,
 	 &exception_traceback );
 
-	string_object = PyObject_Repr(
-	                 exception_value );
-
-#if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
-
-	if( utf8_string_object != NULL )
+	if( exception_value != NULL )
 	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
+		string_object = PyObject_Repr(
+		                 exception_value );
 	}
+	if( string_object != NULL )
+	{
+#if PY_MAJOR_VERSION >= 3
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
+
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
+	/* Ignore errors that occurred while determining the exception string
+	 */
+	PyErr_Clear();
+
 	if( exception_string != NULL )
 	{
 		libcerror_error_set(
@@ -168,9 +177,26 @@ void VARARGS(
 		 utf8_string_object );
 	}
 #endif
-	Py_DecRef(
-	 string_object );
-
+	if( string_object != NULL )
+	{
+		Py_DecRef(
+		 string_object );
+	}
+	if( exception_traceback != NULL )
+	{
+		Py_DecRef(
+		 exception_traceback );
+	}
+	if( exception_value != NULL )
+	{
+		Py_DecRef(
+		 exception_value );
+	}
+	if( exception_type != NULL )
+	{
+		Py_DecRef(
+		 exception_type );
+	}
 	return;
 }
 
@@ -266,22 +292,31 @@ void VARARGS(
 	 &exception_value,
 	 &exception_traceback );
 
-	string_object = PyObject_Repr(
-	                 exception_value );
-
-#if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
-
-	if( utf8_string_object != NULL )
+	if( exception_value != NULL )
 	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
+		string_object = PyObject_Repr(
+		                 exception_value );
 	}
+	if( string_object != NULL )
+	{
+#if PY_MAJOR_VERSION >= 3
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
+
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
+	/* Ignore errors that occurred while determining the exception string
+	 */
+	PyErr_Clear();
+
 	if( exception_string != NULL )
 	{
 		PyErr_Format(
@@ -297,9 +332,33 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
-	Py_DecRef(
-	 string_object );
-
+#if PY_MAJOR_VERSION >= 3
+	if( utf8_string_object != NULL )
+	{
+		Py_DecRef(
+		 utf8_string_object );
+	}
+#endif
+	if( string_object != NULL )
+	{
+		Py_DecRef(
+		 string_object );
+	}
+	if( exception_traceback != NULL )
+	{
+		Py_DecRef(
+		 exception_traceback );
+	}
+	if( exception_value != NULL )
+	{
+		Py_DecRef(
+		 exception_value );
+	}
+	if( exception_type != NULL )
+	{
+		Py_DecRef(
+		 exception_type );
+	}
 	return;
 }
 
-- 
2.43.0


From 08c11eb60fc462c0423775287e4ed3fb3d98aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:27 +0000
Subject: [PATCH 13/19] fix: free Python context objects without a libhmac
 context

---
 pyhmac/pyhmac_md5_context.c    | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha1_context.c   | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha224_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha256_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha512_context.c | 40 +++++++++++++++-------------------
 5 files changed, 85 insertions(+), 115 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..026d042 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -254,15 +254,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
@@ -284,24 +275,27 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_md5_free(
-	          &( pyhmac_md5_context->md5_context ),
-	          &error );
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac MD5 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..55d07e9 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha1_free(
-	          &( pyhmac_sha1_context->sha1_context ),
-	          &error );
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA1 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..09e7388 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha224_free(
-	          &( pyhmac_sha224_context->sha224_context ),
-	          &error );
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA224 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..ce81954 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha256_free(
-	          &( pyhmac_sha256_context->sha256_context ),
-	          &error );
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA256 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..e0a37be 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha512_free(
-	          &( pyhmac_sha512_context->sha512_context ),
-	          &error );
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA512 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
-- 
2.43.0


From b25b40bae40cb0ef34c753be5e1f6c756737524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 14/19] fix: free the previous context when a Python context
 object is initialized again

---
 pyhmac/pyhmac_md5_context.c    | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha1_context.c   | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha224_context.c | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha256_context.c | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha512_context.c | 20 +++++++++++++++++++-
 5 files changed, 95 insertions(+), 5 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 026d042..56f1dd0 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	pyhmac_md5_context->md5_context = NULL;
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_md5_initialize(
 	     &( pyhmac_md5_context->md5_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 55d07e9..d37cbd1 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha1_context->sha1_context = NULL;
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha1_initialize(
 	     &( pyhmac_sha1_context->sha1_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 09e7388..8f52f7a 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha224_context->sha224_context = NULL;
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha224_initialize(
 	     &( pyhmac_sha224_context->sha224_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index ce81954..8ba03fb 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha256_context->sha256_context = NULL;
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha256_initialize(
 	     &( pyhmac_sha256_context->sha256_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index e0a37be..00d96a3 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha512_context->sha512_context = NULL;
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha512_initialize(
 	     &( pyhmac_sha512_context->sha512_context ),
 	     &error ) != 1 )
-- 
2.43.0


From 1aed41783df522298920de5951ee16268e7f989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 15/19] fix: report a failing clean up of a Python context
 object as unraisable

---
 pyhmac/pyhmac_md5_context.c    | 27 +++++++++++++++++++++++----
 pyhmac/pyhmac_sha1_context.c   | 27 +++++++++++++++++++++++----
 pyhmac/pyhmac_sha224_context.c | 27 +++++++++++++++++++++++----
 pyhmac/pyhmac_sha256_context.c | 27 +++++++++++++++++++++++----
 pyhmac/pyhmac_sha512_context.c | 27 +++++++++++++++++++++++----
 5 files changed, 115 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 56f1dd0..20a1c72 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -258,10 +258,13 @@ int pyhmac_md5_context_init(
 void pyhmac_md5_context_free(
       pyhmac_md5_context_t *pyhmac_md5_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_md5_context_free";
-	int result                  = 0;
+	struct _typeobject *ob_type   = NULL;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_md5_context_free";
+	int result                    = 0;
 
 	if( pyhmac_md5_context == NULL )
 	{
@@ -305,6 +308,14 @@ void pyhmac_md5_context_free(
 
 		if( result != 1 )
 		{
+			/* A failure in dealloc cannot be raised and must preserve
+			 * an exception that is being handled
+			 */
+			PyErr_Fetch(
+			 &exception_type,
+			 &exception_value,
+			 &exception_traceback );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -313,6 +324,14 @@ void pyhmac_md5_context_free(
 
 			libcerror_error_free(
 			 &error );
+
+			PyErr_WriteUnraisable(
+			 NULL );
+
+			PyErr_Restore(
+			 exception_type,
+			 exception_value,
+			 exception_traceback );
 		}
 	}
 	ob_type->tp_free(
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index d37cbd1..b371d19 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -258,10 +258,13 @@ int pyhmac_sha1_context_init(
 void pyhmac_sha1_context_free(
       pyhmac_sha1_context_t *pyhmac_sha1_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha1_context_free";
-	int result                  = 0;
+	struct _typeobject *ob_type   = NULL;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha1_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha1_context == NULL )
 	{
@@ -305,6 +308,14 @@ void pyhmac_sha1_context_free(
 
 		if( result != 1 )
 		{
+			/* A failure in dealloc cannot be raised and must preserve
+			 * an exception that is being handled
+			 */
+			PyErr_Fetch(
+			 &exception_type,
+			 &exception_value,
+			 &exception_traceback );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -313,6 +324,14 @@ void pyhmac_sha1_context_free(
 
 			libcerror_error_free(
 			 &error );
+
+			PyErr_WriteUnraisable(
+			 NULL );
+
+			PyErr_Restore(
+			 exception_type,
+			 exception_value,
+			 exception_traceback );
 		}
 	}
 	ob_type->tp_free(
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 8f52f7a..6ec8cb3 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -258,10 +258,13 @@ int pyhmac_sha224_context_init(
 void pyhmac_sha224_context_free(
       pyhmac_sha224_context_t *pyhmac_sha224_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha224_context_free";
-	int result                  = 0;
+	struct _typeobject *ob_type   = NULL;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha224_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha224_context == NULL )
 	{
@@ -305,6 +308,14 @@ void pyhmac_sha224_context_free(
 
 		if( result != 1 )
 		{
+			/* A failure in dealloc cannot be raised and must preserve
+			 * an exception that is being handled
+			 */
+			PyErr_Fetch(
+			 &exception_type,
+			 &exception_value,
+			 &exception_traceback );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -313,6 +324,14 @@ void pyhmac_sha224_context_free(
 
 			libcerror_error_free(
 			 &error );
+
+			PyErr_WriteUnraisable(
+			 NULL );
+
+			PyErr_Restore(
+			 exception_type,
+			 exception_value,
+			 exception_traceback );
 		}
 	}
 	ob_type->tp_free(
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 8ba03fb..9c5b298 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -258,10 +258,13 @@ int pyhmac_sha256_context_init(
 void pyhmac_sha256_context_free(
       pyhmac_sha256_context_t *pyhmac_sha256_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha256_context_free";
-	int result                  = 0;
+	struct _typeobject *ob_type   = NULL;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha256_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha256_context == NULL )
 	{
@@ -305,6 +308,14 @@ void pyhmac_sha256_context_free(
 
 		if( result != 1 )
 		{
+			/* A failure in dealloc cannot be raised and must preserve
+			 * an exception that is being handled
+			 */
+			PyErr_Fetch(
+			 &exception_type,
+			 &exception_value,
+			 &exception_traceback );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -313,6 +324,14 @@ void pyhmac_sha256_context_free(
 
 			libcerror_error_free(
 			 &error );
+
+			PyErr_WriteUnraisable(
+			 NULL );
+
+			PyErr_Restore(
+			 exception_type,
+			 exception_value,
+			 exception_traceback );
 		}
 	}
 	ob_type->tp_free(
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 00d96a3..8683562 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -258,10 +258,13 @@ int pyhmac_sha512_context_init(
 void pyhmac_sha512_context_free(
       pyhmac_sha512_context_t *pyhmac_sha512_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha512_context_free";
-	int result                  = 0;
+	struct _typeobject *ob_type   = NULL;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha512_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha512_context == NULL )
 	{
@@ -305,6 +308,14 @@ void pyhmac_sha512_context_free(
 
 		if( result != 1 )
 		{
+			/* A failure in dealloc cannot be raised and must preserve
+			 * an exception that is being handled
+			 */
+			PyErr_Fetch(
+			 &exception_type,
+			 &exception_value,
+			 &exception_traceback );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -313,6 +324,14 @@ void pyhmac_sha512_context_free(
 
 			libcerror_error_free(
 			 &error );
+
+			PyErr_WriteUnraisable(
+			 NULL );
+
+			PyErr_Restore(
+			 exception_type,
+			 exception_value,
+			 exception_traceback );
 		}
 	}
 	ob_type->tp_free(
-- 
2.43.0


From b261881b01b8c0877fa09451c7c4da0aef0d91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 16/19] fix: handle failures adding the type objects to the
 Python module

---
 pyhmac/pyhmac.c | 75 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index e421f0a..491d7bb 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -245,10 +245,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_md5_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "md5_context",
-	 (PyObject *) &pyhmac_md5_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "md5_context",
+	     (PyObject *) &pyhmac_md5_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_md5_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha1_context type object
 	 */
@@ -262,10 +268,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha1_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha1_context",
-	 (PyObject *) &pyhmac_sha1_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha1_context",
+	     (PyObject *) &pyhmac_sha1_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha1_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha224_context type object
 	 */
@@ -279,10 +291,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha224_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha224_context",
-	 (PyObject *) &pyhmac_sha224_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha224_context",
+	     (PyObject *) &pyhmac_sha224_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha224_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha256_context type object
 	 */
@@ -296,10 +314,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha256_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha256_context",
-	 (PyObject *) &pyhmac_sha256_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha256_context",
+	     (PyObject *) &pyhmac_sha256_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha256_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha512_context type object
 	 */
@@ -313,10 +337,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha512_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha512_context",
-	 (PyObject *) &pyhmac_sha512_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha512_context",
+	     (PyObject *) &pyhmac_sha512_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha512_context_type_object );
+
+		goto on_error;
+	}
 
 	PyGILState_Release(
 	 gil_state );
@@ -328,6 +358,11 @@ PyMODINIT_FUNC initpyhmac(
 #endif
 
 on_error:
+#if PY_MAJOR_VERSION >= 3
+	Py_DecRef(
+	 module );
+
+#endif
 	PyGILState_Release(
 	 gil_state );
 
-- 
2.43.0


From 6cf1b5c513e6ee445d215577336d7170eb58649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 17/19] fix: do not read past a single '-' argument in
 hmactools_getopt

Without the getopt function of the C library the option parser stepped over
the end of string character of a '-' argument and read the byte after it.
---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..39ee734 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,6 +93,12 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
+		/* A single '-' is an argument and not an option
+		 */
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
 		/* Check if long options are provided '--'
 		 */
 		if( *argument_value == (system_character_t) '-' )
-- 
2.43.0


From 23d773574a06df5f0db54d8391ef5c2403c2deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:02 +0000
Subject: [PATCH 18/19] fix: refuse concurrent use of a Python context object
 by several threads

---
 pyhmac/pyhmac_md5_context.c    | 35 ++++++++++++++++++++++++++++++++++
 pyhmac/pyhmac_md5_context.h    |  5 +++++
 pyhmac/pyhmac_sha1_context.c   | 35 ++++++++++++++++++++++++++++++++++
 pyhmac/pyhmac_sha1_context.h   |  5 +++++
 pyhmac/pyhmac_sha224_context.c | 35 ++++++++++++++++++++++++++++++++++
 pyhmac/pyhmac_sha224_context.h |  5 +++++
 pyhmac/pyhmac_sha256_context.c | 35 ++++++++++++++++++++++++++++++++++
 pyhmac/pyhmac_sha256_context.h |  5 +++++
 pyhmac/pyhmac_sha512_context.c | 35 ++++++++++++++++++++++++++++++++++
 pyhmac/pyhmac_sha512_context.h |  5 +++++
 10 files changed, 200 insertions(+)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 20a1c72..1a572c5 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -217,6 +217,15 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_md5_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: MD5 context is in use by another thread.",
+		 function );
+
+		return( -1 );
+	}
 	if( pyhmac_md5_context->md5_context != NULL )
 	{
 		if( libhmac_md5_free(
@@ -426,6 +435,17 @@ PyObject *pyhmac_md5_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_md5_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: MD5 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_md5_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_md5_update(
@@ -436,6 +456,8 @@ PyObject *pyhmac_md5_context_update(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_md5_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -480,6 +502,17 @@ PyObject *pyhmac_md5_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_md5_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: MD5 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_md5_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_md5_finalize(
@@ -490,6 +523,8 @@ PyObject *pyhmac_md5_context_finalize(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_md5_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_md5_context.h b/pyhmac/pyhmac_md5_context.h
index 5b14e75..67956ba 100644
--- a/pyhmac/pyhmac_md5_context.h
+++ b/pyhmac/pyhmac_md5_context.h
@@ -43,6 +43,11 @@ struct pyhmac_md5_context
 	/* The libhmac MD5 context
 	 */
 	libhmac_md5_context_t *md5_context;
+
+	/* Value to indicate a call that released the global interpreter lock
+	 * is using the context
+	 */
+	uint8_t in_use;
 };
 
 extern PyMethodDef pyhmac_md5_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index b371d19..f437313 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -217,6 +217,15 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha1_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA1 context is in use by another thread.",
+		 function );
+
+		return( -1 );
+	}
 	if( pyhmac_sha1_context->sha1_context != NULL )
 	{
 		if( libhmac_sha1_free(
@@ -426,6 +435,17 @@ PyObject *pyhmac_sha1_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha1_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA1 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha1_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha1_update(
@@ -436,6 +456,8 @@ PyObject *pyhmac_sha1_context_update(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha1_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -480,6 +502,17 @@ PyObject *pyhmac_sha1_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha1_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA1 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha1_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha1_finalize(
@@ -490,6 +523,8 @@ PyObject *pyhmac_sha1_context_finalize(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha1_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha1_context.h b/pyhmac/pyhmac_sha1_context.h
index 431243d..1f53ad1 100644
--- a/pyhmac/pyhmac_sha1_context.h
+++ b/pyhmac/pyhmac_sha1_context.h
@@ -43,6 +43,11 @@ struct pyhmac_sha1_context
 	/* The libhmac SHA1 context
 	 */
 	libhmac_sha1_context_t *sha1_context;
+
+	/* Value to indicate a call that released the global interpreter lock
+	 * is using the context
+	 */
+	uint8_t in_use;
 };
 
 extern PyMethodDef pyhmac_sha1_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 6ec8cb3..fa4e6c2 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -217,6 +217,15 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha224_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA224 context is in use by another thread.",
+		 function );
+
+		return( -1 );
+	}
 	if( pyhmac_sha224_context->sha224_context != NULL )
 	{
 		if( libhmac_sha224_free(
@@ -426,6 +435,17 @@ PyObject *pyhmac_sha224_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha224_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA224 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha224_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha224_update(
@@ -436,6 +456,8 @@ PyObject *pyhmac_sha224_context_update(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha224_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -480,6 +502,17 @@ PyObject *pyhmac_sha224_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha224_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA224 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha224_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha224_finalize(
@@ -490,6 +523,8 @@ PyObject *pyhmac_sha224_context_finalize(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha224_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha224_context.h b/pyhmac/pyhmac_sha224_context.h
index c381abf..95742d0 100644
--- a/pyhmac/pyhmac_sha224_context.h
+++ b/pyhmac/pyhmac_sha224_context.h
@@ -43,6 +43,11 @@ struct pyhmac_sha224_context
 	/* The libhmac SHA224 context
 	 */
 	libhmac_sha224_context_t *sha224_context;
+
+	/* Value to indicate a call that released the global interpreter lock
+	 * is using the context
+	 */
+	uint8_t in_use;
 };
 
 extern PyMethodDef pyhmac_sha224_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 9c5b298..03c1109 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -217,6 +217,15 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha256_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA256 context is in use by another thread.",
+		 function );
+
+		return( -1 );
+	}
 	if( pyhmac_sha256_context->sha256_context != NULL )
 	{
 		if( libhmac_sha256_free(
@@ -426,6 +435,17 @@ PyObject *pyhmac_sha256_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha256_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA256 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha256_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha256_update(
@@ -436,6 +456,8 @@ PyObject *pyhmac_sha256_context_update(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha256_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -480,6 +502,17 @@ PyObject *pyhmac_sha256_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha256_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA256 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha256_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha256_finalize(
@@ -490,6 +523,8 @@ PyObject *pyhmac_sha256_context_finalize(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha256_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha256_context.h b/pyhmac/pyhmac_sha256_context.h
index d2c09c5..1d03ed2 100644
--- a/pyhmac/pyhmac_sha256_context.h
+++ b/pyhmac/pyhmac_sha256_context.h
@@ -43,6 +43,11 @@ struct pyhmac_sha256_context
 	/* The libhmac SHA256 context
 	 */
 	libhmac_sha256_context_t *sha256_context;
+
+	/* Value to indicate a call that released the global interpreter lock
+	 * is using the context
+	 */
+	uint8_t in_use;
 };
 
 extern PyMethodDef pyhmac_sha256_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 8683562..e089a21 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -217,6 +217,15 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha512_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA512 context is in use by another thread.",
+		 function );
+
+		return( -1 );
+	}
 	if( pyhmac_sha512_context->sha512_context != NULL )
 	{
 		if( libhmac_sha512_free(
@@ -426,6 +435,17 @@ PyObject *pyhmac_sha512_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha512_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA512 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha512_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha512_update(
@@ -436,6 +456,8 @@ PyObject *pyhmac_sha512_context_update(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha512_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -480,6 +502,17 @@ PyObject *pyhmac_sha512_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha512_context->in_use != 0 )
+	{
+		PyErr_Format(
+		 PyExc_RuntimeError,
+		 "%s: SHA512 context is in use by another thread.",
+		 function );
+
+		return( NULL );
+	}
+	pyhmac_sha512_context->in_use = 1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha512_finalize(
@@ -490,6 +523,8 @@ PyObject *pyhmac_sha512_context_finalize(
 
 	Py_END_ALLOW_THREADS
 
+	pyhmac_sha512_context->in_use = 0;
+
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha512_context.h b/pyhmac/pyhmac_sha512_context.h
index 9bd6621..4626dd0 100644
--- a/pyhmac/pyhmac_sha512_context.h
+++ b/pyhmac/pyhmac_sha512_context.h
@@ -43,6 +43,11 @@ struct pyhmac_sha512_context
 	/* The libhmac SHA512 context
 	 */
 	libhmac_sha512_context_t *sha512_context;
+
+	/* Value to indicate a call that released the global interpreter lock
+	 * is using the context
+	 */
+	uint8_t in_use;
 };
 
 extern PyMethodDef pyhmac_sha512_context_object_methods[];
-- 
2.43.0


From ed5002a53459c7840491fb366c03ad308488752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 19/19] fix: set the in use marker of Python context objects
 created by the C function

---
 pyhmac/pyhmac_md5_context.c    | 1 +
 pyhmac/pyhmac_sha1_context.c   | 1 +
 pyhmac/pyhmac_sha224_context.c | 1 +
 pyhmac/pyhmac_sha256_context.c | 1 +
 pyhmac/pyhmac_sha512_context.c | 1 +
 5 files changed, 5 insertions(+)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 1a572c5..b75baad 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_md5_context_new(
 		goto on_error;
 	}
 	pyhmac_md5_context->md5_context = NULL;
+	pyhmac_md5_context->in_use = 0;
 
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index f437313..9346992 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha1_context_new(
 		goto on_error;
 	}
 	pyhmac_sha1_context->sha1_context = NULL;
+	pyhmac_sha1_context->in_use = 0;
 
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index fa4e6c2..0a11dad 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha224_context_new(
 		goto on_error;
 	}
 	pyhmac_sha224_context->sha224_context = NULL;
+	pyhmac_sha224_context->in_use = 0;
 
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 03c1109..eafbef0 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha256_context_new(
 		goto on_error;
 	}
 	pyhmac_sha256_context->sha256_context = NULL;
+	pyhmac_sha256_context->in_use = 0;
 
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index e089a21..01cb6ad 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha512_context_new(
 		goto on_error;
 	}
 	pyhmac_sha512_context->sha512_context = NULL;
+	pyhmac_sha512_context->in_use = 0;
 
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
-- 
2.43.0

