/* The embedder's configuration: every component gets functions of its own. */
#ifndef CONFIG_H
#define CONFIG_H
#include <stddef.h>
#define ZZ_DECL(c)                                                             \
	void *zz_##c##_malloc(size_t n);                                       \
	void *zz_##c##_calloc(size_t n, size_t m);                             \
	void *zz_##c##_realloc(void *p, size_t n);                             \
	void zz_##c##_free(void *p);
ZZ_DECL(array) ZZ_DECL(queue) ZZ_DECL(heap) ZZ_DECL(map) ZZ_DECL(buf)
ZZ_DECL(str) ZZ_DECL(timer) ZZ_DECL(uri) ZZ_DECL(sock)
#define sc_array_malloc zz_array_malloc
#define sc_array_calloc zz_array_calloc
#define sc_array_realloc zz_array_realloc
#define sc_array_free zz_array_free
#define sc_queue_malloc zz_queue_malloc
#define sc_queue_calloc zz_queue_calloc
#define sc_queue_realloc zz_queue_realloc
#define sc_queue_free zz_queue_free
#define sc_heap_malloc zz_heap_malloc
#define sc_heap_calloc zz_heap_calloc
#define sc_heap_realloc zz_heap_realloc
#define sc_heap_free zz_heap_free
#define sc_map_malloc zz_map_malloc
#define sc_map_calloc zz_map_calloc
#define sc_map_realloc zz_map_realloc
#define sc_map_free zz_map_free
#define sc_buf_malloc zz_buf_malloc
#define sc_buf_calloc zz_buf_calloc
#define sc_buf_realloc zz_buf_realloc
#define sc_buf_free zz_buf_free
#define sc_str_malloc zz_str_malloc
#define sc_str_calloc zz_str_calloc
#define sc_str_realloc zz_str_realloc
#define sc_str_free zz_str_free
#define sc_timer_malloc zz_timer_malloc
#define sc_timer_calloc zz_timer_calloc
#define sc_timer_realloc zz_timer_realloc
#define sc_timer_free zz_timer_free
#define sc_uri_malloc zz_uri_malloc
#define sc_uri_calloc zz_uri_calloc
#define sc_uri_realloc zz_uri_realloc
#define sc_uri_free zz_uri_free
#define sc_sock_malloc zz_sock_malloc
#define sc_sock_calloc zz_sock_calloc
#define sc_sock_realloc zz_sock_realloc
#define sc_sock_free zz_sock_free
#endif
