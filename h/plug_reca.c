#define ID 0
#include "plug_rec.inc"
