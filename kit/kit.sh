# sourced by demo.sh; run in the root of the repository after its build
# kit_lib OUT CFG SRC... : links demonstration sources with all of libhmac
# kit_tool OUT CFG SRC... : the hmacsum program   kit_py OUTDIR : the pyhmac module
KIT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
: "${CC:=gcc}"
kit_flags() { # CFG -> flags
	local f="-w -g -DHAVE_CONFIG_H -D_FILE_OFFSET_BITS=64 -I$W/gen -I$KIT/include -Icommon -I_build/common -I_build/include -Iinclude -I_build/libhmac -Ilibhmac -Ihmactools" e="" a
	mkdir -p "$W/gen"
	{
		for a in STDLIB_H STRING_H STRINGS_H UNISTD_H STDARG_H STDINT_H INTTYPES_H STDIO_H LIMITS_H WCHAR_H SIGNAL_H SYS_SIGNAL_H SYS_TYPES_H SYS_STAT_H ERRNO_H FCNTL_H LOCALE_H \
			MALLOC REALLOC FREE MEMCPY MEMSET MEMCMP MEMCHR STRLEN STRCHR STRRCHR STRNCMP STRNCPY STRCASECMP STRNCASECMP STRSTR SNPRINTF VSNPRINTF SPRINTF SETVBUF GETOPT CLOSE \
			FCLOSE FOPEN FREAD FWRITE FEOF FGETS SETLOCALE PRINTF_JD PRINTF_ZD WCSLEN WMEMCPY LIBCERROR LIBCFILE LIBCLOCALE LIBCNOTIFY LIBCPATH LIBCSPLIT LIBUNA; do echo "#define HAVE_$a 1"; done
		echo '#define SIZEOF_INT 4
#define SIZEOF_LONG 8
#define SIZEOF_OFF_T 8
#define SIZEOF_SIZE_T 8
#define SIZEOF_WCHAR_T 4
#define PACKAGE "libhmac"
#define PACKAGE_NAME "libhmac"
#define PACKAGE_VERSION "0"
#define VERSION "0"
#define PACKAGE_BUGREPORT "x@example.com"
#define LOCALEDIR "/nonexistent"'
		case $1 in
		evp | evp1 | evpl) echo '#define HAVE_LIBCRYPTO 1
#define HAVE_OPENSSL_EVP_H 1
#define HAVE_EVP_MD5 1
#define HAVE_EVP_SHA1 1
#define HAVE_EVP_SHA224 1
#define HAVE_EVP_SHA256 1
#define HAVE_EVP_SHA512 1' ;;
		esac
		case $1 in
		evp) echo '#define HAVE_EVP_DIGESTINIT_EX2 1' ;;
		evpl) echo '#define HAVE_EVP_MD_CTX_INIT 1
#define HAVE_EVP_MD_CTX_CLEANUP 1' ;;
		low) echo '#define HAVE_LIBCRYPTO 1
#define HAVE_OPENSSL_MD5_H 1
#define HAVE_OPENSSL_SHA_H 1' ;;
		esac
	} > "$W/gen/config.h"
	if [ "$1" = fbf ]; then sed '/define LIBHMAC_UNFOLLED_LOOPS/d' _build/libhmac/libhmac_definitions.h > "$W/gen/libhmac_definitions.h"; fi
	echo "$f"
}
kit_lib() { local o=$1 c=$2; shift 2; $CC $(kit_flags $c) $KITFLAGS -o "$o" "$@" libhmac/*.c "$KIT/shim.c" -lcrypto -lpthread; }
kit_tool() { local o=$1 c=$2; shift 2; $CC $(kit_flags $c) $KITFLAGS -o "$o" "$@" hmactools/*.c libhmac/*.c "$KIT/shim.c" -lcrypto -lpthread; }
kit_py() { local d=$1 c=$2; shift 2; $CC -shared -fPIC $(kit_flags $c) -Ipyhmac -I/usr/include/python3.12 $KITFLAGS -o "$d/pyhmac.so" "$@" pyhmac/*.c libhmac/*.c "$KIT/shim.c" -lcrypto -lpthread; }
