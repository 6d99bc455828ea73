// The images behind stub/tinyexr/tinyexr.h.
#pragma once
#include "sym.h"
#include <tinyexr/tinyexr.h>
#include <fstream>
struct ExrPic { int w, h, n; float* plane[8]; char name[8]; bool uint; };
static ExrPic exr_pic[8]; static int exr_n = 0; static bool exr_unwritable = false; static int exr_live = 0;
static const char* const exr_error = "invalid image";
static void exr_file(const char* filename, int id) { char b[4] = { 'E', 'X', 'R', (char)('0' + id) }; sym_file_put(filename, b, 4); }
// a file holding an image with the channels named by the letters of `names'; null planes are black
static void exr_put(const char* filename, int w, int h, float** planes, const char* names) {
  ExrPic& p = exr_pic[exr_n]; p.w = w; p.h = h; p.n = (int)std::strlen(names);
  for(int c = 0; c < p.n; ++c) { p.name[c] = names[c]; p.plane[c] = planes ? planes[c] : 0; }
  exr_file(filename, exr_n++);
}
static int exr_id(const unsigned char* m, size_t s) { if(s < 4) return -1; if(m[0] != 'E') return -1; if(m[1] != 'X') return -1; if(m[2] != 'R') return -1; int id = m[3] - '0'; return id >= 0 && id < exr_n ? id : -1; }
int ParseEXRVersionFromMemory(EXRVersion* v, const unsigned char* m, size_t s) { if(exr_id(m, s) < 0) return TINYEXR_ERROR_INVALID_HEADER; v->version = 2; v->tiled = v->long_name = v->non_image = v->multipart = 0; return TINYEXR_SUCCESS; }
void InitEXRHeader(EXRHeader* h) { std::memset(h, 0, sizeof(*h)); }
void InitEXRImage(EXRImage* i) { std::memset(i, 0, sizeof(*i)); }
int ParseEXRHeaderFromMemory(EXRHeader* h, const EXRVersion*, const unsigned char* m, size_t s, const char** err) {
  int id = exr_id(m, s); if(id < 0) { *err = exr_error; return TINYEXR_ERROR_INVALID_HEADER; }
  ExrPic& p = exr_pic[id]; h->num_channels = p.n;
  h->channels = (EXRChannelInfo*)std::calloc(p.n + 1, sizeof(EXRChannelInfo)); h->pixel_types = (int*)std::calloc(p.n + 1, sizeof(int)); h->requested_pixel_types = (int*)std::calloc(p.n + 1, sizeof(int));
  for(int c = 0; c < p.n; ++c) { h->channels[c].name[0] = p.name[c]; h->pixel_types[c] = TINYEXR_PIXELTYPE_HALF; h->requested_pixel_types[c] = TINYEXR_PIXELTYPE_HALF; }
  return TINYEXR_SUCCESS;
}
int LoadEXRImageFromMemory(EXRImage* i, const EXRHeader* h, const unsigned char* m, size_t s, const char** err) {
  int id = exr_id(m, s); if(id < 0) { *err = exr_error; return TINYEXR_ERROR_INVALID_HEADER; }
  ExrPic& p = exr_pic[id]; i->width = p.w; i->height = p.h; i->num_channels = p.n;
  i->images = (unsigned char**)std::malloc(sizeof(unsigned char*) * (p.n + 1));
  for(int c = 0; c < p.n; ++c) {
    float* q = (float*)std::calloc((size_t)p.w * p.h, sizeof(float)); i->images[c] = (unsigned char*)q;
    sym_check(h->requested_pixel_types[c] == TINYEXR_PIXELTYPE_FLOAT, "the channels are requested in single precision");
    if(p.plane[c]) for(int k = 0; k < p.w * p.h; ++k) q[k] = p.plane[c][k];
  }
  return TINYEXR_SUCCESS;
}
int SaveEXRImageToFile(const EXRImage* i, const EXRHeader* h, const char* filename, const char** err) {
  if(exr_unwritable) { *err = exr_error; return TINYEXR_ERROR_CANT_OPEN_FILE; }
  sym_check(h->num_channels == i->num_channels, "channels of a saved image");
  ExrPic& p = exr_pic[exr_n]; p.w = i->width; p.h = i->height; p.n = i->num_channels;
  for(int c = 0; c < p.n; ++c) {
    sym_check(h->pixel_types[c] == TINYEXR_PIXELTYPE_FLOAT && h->requested_pixel_types[c] == TINYEXR_PIXELTYPE_FLOAT, "an image is saved in single precision");
    if(c) sym_check(std::strcmp(h->channels[c - 1].name, h->channels[c].name) < 0, "the channels of a saved image are in alphabetical order");
    p.name[c] = h->channels[c].name[0];
    float* q = (float*)std::malloc(sizeof(float) * p.w * p.h); p.plane[c] = q;
    for(int k = 0; k < p.w * p.h; ++k) q[k] = ((float**)i->images)[c][k];
  }
  exr_file(filename, exr_n++);
  return TINYEXR_SUCCESS;
}
int FreeEXRHeader(EXRHeader* h) { std::free(h->channels); std::free(h->pixel_types); std::free(h->requested_pixel_types); return TINYEXR_SUCCESS; }
int FreeEXRImage(EXRImage* i) { for(int c = 0; c < i->num_channels; ++c) std::free(i->images[c]); std::free(i->images); return TINYEXR_SUCCESS; }
