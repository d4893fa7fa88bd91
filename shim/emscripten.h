#ifndef VF_EMSCRIPTEN_H
#define VF_EMSCRIPTEN_H
#include "vf_browser.hpp"
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#define EM_ASM(code, ...) ((void)::vf::browser::caller{#code}(__VA_ARGS__))
#define EM_ASM_(code, ...) (::vf::browser::to_int(::vf::browser::caller{#code}(__VA_ARGS__)))
#define EM_ASM_INT(code, ...) (::vf::browser::to_int(::vf::browser::caller{#code}(__VA_ARGS__)))
#define EM_ASM_DOUBLE(code, ...) (::vf::browser::caller{#code}(__VA_ARGS__))
#define EM_ASM_INT_V(code) (::vf::browser::to_int(::vf::browser::caller{#code}()))
#define EM_ASM_ARGS EM_ASM_
#define MAIN_THREAD_EM_ASM EM_ASM
#define MAIN_THREAD_EM_ASM_INT EM_ASM_INT
// an int cannot hold an address here
#define NBDL_VERIF_HANDLE(p) (::vf::browser::page::get().handle(p))
#endif
