#define main mara_main
#include "app_main.cpp"
#undef main
