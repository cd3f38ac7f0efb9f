/* An extension of which copies are loaded under many names; the harness (props_load.cpp) tells them apart by the address. */
#include <stdlib.h>
#include "extension.h"
#define V __attribute__((visibility("default")))
extern void ld_call(const void *who, const char *what, const char *config, const void *a, const void *b, const void *c);
static char me;
#ifdef UNRESOLVED
extern int ld_variable_of_nobody; V int *pointer = &ld_variable_of_nobody;
#endif
#ifdef PYNAME
V void PYNAME(void) { ld_call(&me, "pyinit", 0, 0, 0, 0); }
#endif
V void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) { ld_call(&me, "alloc", 0, (void *)m, (void *)r, (void *)f); }
V void onInit(char *config) { ld_call(&me, "init", config, 0, 0, 0); }
V void onOpen(int fd, char *param, char **accepted, bool *valid) { ld_call(&me, "open", param, 0, 0, 0); *valid = true; }
V void inFrame(int fd, wss_frame_t *frame) { ld_call(&me, "inframe", 0, 0, 0, 0); }
V void inFrames(int fd, wss_frame_t **frames, size_t len) { ld_call(&me, "inframes", 0, 0, 0, 0); }
V void outFrame(int fd, wss_frame_t *frame) { ld_call(&me, "outframe", 0, 0, 0, 0); }
V void outFrames(int fd, wss_frame_t **frames, size_t len) { ld_call(&me, "outframes", 0, 0, 0, 0); }
V void onClose(int fd) { ld_call(&me, "close", 0, 0, 0, 0); }
V void onDestroy() { ld_call(&me, "destroy", 0, 0, 0, 0); }
