#define ID 1
#include "plug_ext.inc"
