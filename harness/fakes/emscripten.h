#pragma once
/* stand-ins for the parts of emscripten the web binding uses; its storage (calls into JavaScript) is replaced by the storage of the driver */
#define EMSCRIPTEN_KEEPALIVE
#define EM_ASM(code, ...) ((void) 0)
#define EM_ASM_INT(code, ...) 0
