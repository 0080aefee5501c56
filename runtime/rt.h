/* Harness runtime: streams, counting objects, recording transport. */
#ifndef RT_H
#define RT_H
#include <stddef.h>
#include <stdint.h>
#include "object.h"
#ifdef __cplusplus
extern "C" {
#endif
/* client input / client output / implementation plan / implementation received */
void rt_cin(void *dst, size_t n);
void rt_cout(const void *src, size_t n);
void rt_iin(void *dst, size_t n);
void rt_iout(const void *src, size_t n);
Object rt_obj(uint32_t id);           /* borrowed handle */
Object rt_obj_ret(uint32_t id);       /* retained handle */
uint32_t rt_obj_id(Object o);
void rt_drop(Object o);               /* release if non-null */
void rt_client_status(int32_t r);
/* marks entry into implementation method `name`; returns planned status */
int32_t rt_enter(const char *name, const void *self);
void rt_leave(void);
void rt_destroyed(int be);
void rt_note(const char *what, uint32_t v);
void *rt_alloc(size_t n);             /* exact-size, freed at case end */
uint32_t rt_stale(void);               /* the caller's output variables still hold object 60 */
int rt_fail_objs(void);               /* misbehaving: set outputs though failing */

typedef int32_t (*rt_client_fn)(Object target);
typedef Object (*rt_make_fn)(void);
/* generated tables: [iface][method] and [iface][variant] */
#define RT_TABLES(be)                                    \
  extern rt_client_fn *const rt_clients_##be[];          \
  extern const rt_make_fn rt_makers_##be[][2];
RT_TABLES(c)
RT_TABLES(cu)
RT_TABLES(cpp)
RT_TABLES(rust)
#ifdef __cplusplus
}
#endif
#endif
