#define ID 1
#include "plug_rec.inc"
