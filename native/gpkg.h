/* Stand-in for libgpkg's header: /verif links its own small implementation (gpkg_shim.cpp). */
#ifndef VERIF_GPKG_H
#define VERIF_GPKG_H
#include <sqlite3.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sqlite3_api_routines;
int sqlite3_gpkg_auto_init( sqlite3 *db, const char **pzErrMsg, const struct sqlite3_api_routines *pThunk );
#ifdef __cplusplus
}
#endif
#endif
