#pragma once
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
