/* Stand-in for the etree library header (the library is not available here):
 * the part of its documented API this repository uses. */
#ifndef ETREE_H
#define ETREE_H
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <inttypes.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
#define ETREE_MAXLEVEL 31
#define ETREE_MAXBUF 1024
typedef uint32_t etree_tick_t;
typedef enum { ETREE_INTERIOR = 0, ETREE_LEAF } etree_type_t;
typedef struct etree_addr_t {
  etree_tick_t x, y, z, t;
  int level;
  etree_type_t type;
} etree_addr_t;
typedef struct etree_t etree_t;
typedef int etree_error_t;
etree_t* etree_open(const char* path, int32_t flags, int32_t bufsize, int32_t payloadsize, int32_t dimensions);
int etree_close(etree_t* ep);
int etree_errno(etree_t* ep);
const char* etree_strerror(int err);
char* etree_straddr(etree_t* ep, char* buf, etree_addr_t addr);
int etree_insert(etree_t* ep, etree_addr_t addr, const void* payload);
int etree_search(etree_t* ep, etree_addr_t addr, etree_addr_t* hit, const char* field, void* payload);
int etree_update(etree_t* ep, etree_addr_t addr, const void* payload);
int etree_delete(etree_t* ep, etree_addr_t addr);
int etree_initcursor(etree_t* ep, etree_addr_t addr);
int etree_getcursor(etree_t* ep, etree_addr_t* addr, const char* field, void* payload);
int etree_advcursor(etree_t* ep);
int etree_stopcursor(etree_t* ep);
int etree_beginappend(etree_t* ep, double fillratio);
int etree_append(etree_t* ep, etree_addr_t addr, const void* payload);
int etree_endappend(etree_t* ep);
int etree_registerschema(etree_t* ep, const char* defstring);
char* etree_getschema(etree_t* ep);
int etree_setappmeta(etree_t* ep, const char* appmeta);
char* etree_getappmeta(etree_t* ep);
int etree_getpayloadsize(etree_t* ep);
uint64_t etree_gettotalcount(etree_t* ep);
int etree_getmaxleaflevel(etree_t* ep);
int etree_getminleaflevel(etree_t* ep);
#ifdef __cplusplus
}
#endif
#endif
