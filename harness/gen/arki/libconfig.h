/*
 * Autogenerated by the Meson build system.
 * Do not edit, your changes will be lost.
 */

#pragma once

#define ARKI_HAVE_SPLICE

#define ARKI_IOTRACE

#define CONF_DIR "etc/arkimet"

#undef HAVE_DBALLE

#define HAVE_GEOS

#define HAVE_GRIBAPI

#define HAVE_LIBARCHIVE

#define HAVE_LIBCURL

#define HAVE_LIBZIP

#define HAVE_LUA

#define HAVE_LZO2

#undef HAVE_VM2

#define PACKAGE_VERSION "1.66"

#define POSTPROC_DIR "/usr/local/lib/x86_64-linux-gnu/arkimet"

