#define EMSCRIPTEN_KEEPALIVE
