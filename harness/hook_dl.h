// Replaces the dynamic loader and the environment seen by the sources under test by functions of the harness.
#pragma once
#include <dlfcn.h>
#include <cstdlib>
extern "C" { void* hook_dlopen(const char* path, int flags); void* hook_dlsym(void* handle, const char* name); char* hook_dlerror(); char* hook_getenv(const char* name); }
namespace std { using ::hook_getenv; }
#define dlopen hook_dlopen
#define dlsym hook_dlsym
#define dlerror hook_dlerror
#define getenv hook_getenv
