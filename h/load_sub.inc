/* A subprotocol of which copies are loaded under many names; the harness (props_load.cpp) tells them apart by the address. */
#include <stdlib.h>
#include "subprotocol.h"
#define V __attribute__((visibility("default")))
extern void ld_call(const void *who, const char *what, const char *config, const void *a, const void *b, const void *c);
extern void ld_message(const void *who, int fd, int op, char *message, size_t len);
static char me;
#ifdef UNRESOLVED
extern int ld_variable_of_nobody; V int *pointer = &ld_variable_of_nobody;
#endif
#ifdef PYNAME
V void PYNAME(void) { ld_call(&me, "pyinit", 0, 0, 0, 0); }
#endif
V void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) { ld_call(&me, "alloc", 0, (void *)m, (void *)r, (void *)f); }
V void onInit(char *config, WSS_send s) { ld_call(&me, "init", config, (void *)s, 0, 0); }
V void onConnect(int fd, char *ip, int port, char *path, char *cookies) { ld_call(&me, "connect", path, 0, 0, 0); }
V void onMessage(int fd, wss_opcode_t op, char *message, size_t len) { ld_message(&me, fd, op, message, len); }
V void onWrite(int fd, char *message, size_t len) { ld_call(&me, "write", 0, 0, 0, 0); }
V void onClose(int fd) { ld_call(&me, "close", 0, 0, 0, 0); }
V void onDestroy() { ld_call(&me, "destroy", 0, 0, 0, 0); }
