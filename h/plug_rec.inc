/* A subprotocol whose behaviour is defined by the harness (props_plug.cpp). */
#include <stdlib.h>
#include "subprotocol.h"
#define V __attribute__((visibility("default")))
extern void rec_alloc(int, WSS_malloc_t, WSS_realloc_t, WSS_free_t);
extern void rec_init(int, char *, WSS_send);
extern void rec_connect(int, int, char *, int, char *, char *);
extern void rec_message(int, int, int, char *, size_t);
extern void rec_close(int, int);
extern void rec_destroy(int);
V void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) { rec_alloc(ID, m, r, f); }
V void onInit(char *config, WSS_send s) { rec_init(ID, config, s); }
V void onConnect(int fd, char *ip, int port, char *path, char *cookies) { rec_connect(ID, fd, ip, port, path, cookies); }
V void onMessage(int fd, wss_opcode_t op, char *message, size_t len) { rec_message(ID, fd, op, message, len); }
V void onWrite(int fd, char *message, size_t len) { }
V void onClose(int fd) { rec_close(ID, fd); }
V void onDestroy() { rec_destroy(ID); }
