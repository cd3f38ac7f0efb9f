/* An extension whose behaviour is defined by the harness (props_plug.cpp). */
#include <stdlib.h>
#include "extension.h"
#define V __attribute__((visibility("default")))
extern void ext_alloc(int, WSS_malloc_t, WSS_realloc_t, WSS_free_t);
extern void ext_init(int, char *);
extern void ext_open(int, int, char *, char **, bool *);
extern void ext_frame(int, int, int, wss_frame_t *);
extern void ext_frames(int, int, int, wss_frame_t **, size_t);
extern void ext_close(int, int);
extern void ext_destroy(int);
V void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) { ext_alloc(ID, m, r, f); }
V void onInit(char *config) { ext_init(ID, config); }
V void onOpen(int fd, char *param, char **accepted, bool *valid) { ext_open(ID, fd, param, accepted, valid); }
V void inFrame(int fd, wss_frame_t *frame) { ext_frame(ID, 0, fd, frame); }
V void inFrames(int fd, wss_frame_t **frames, size_t len) { ext_frames(ID, 0, fd, frames, len); }
V void outFrame(int fd, wss_frame_t *frame) { ext_frame(ID, 1, fd, frame); }
V void outFrames(int fd, wss_frame_t **frames, size_t len) { ext_frames(ID, 1, fd, frames, len); }
V void onClose(int fd) { ext_close(ID, fd); }
V void onDestroy() { ext_destroy(ID); }
