#include "emscripten/ems.c" /* bindings/emscripten/ems.c: the interface of the web binding */
