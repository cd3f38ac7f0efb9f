#define ID 0
#include "plug_ext.inc"
