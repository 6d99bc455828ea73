// Stand-in for the third party image library: images live in a table of the harness (exr_stub.h) and files only name them.
#pragma once
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <vector>
#include <iostream>
#define TINYEXR_SUCCESS (0)
#define TINYEXR_ERROR_INVALID_HEADER (-3)
#define TINYEXR_ERROR_CANT_OPEN_FILE (-6)
#define TINYEXR_PIXELTYPE_UINT (0)
#define TINYEXR_PIXELTYPE_HALF (1)
#define TINYEXR_PIXELTYPE_FLOAT (2)
struct EXRVersion { int version; int tiled; int long_name; int non_image; int multipart; };
struct EXRChannelInfo { char name[256]; int pixel_type; int x_sampling; int y_sampling; unsigned char p_linear; unsigned char pad[3]; };
struct EXRHeader { int compression_type; int num_channels; EXRChannelInfo* channels; int* pixel_types; int* requested_pixel_types; };
struct EXRImage { void* tiles; unsigned char** images; int width; int height; int num_channels; int num_tiles; };
int ParseEXRVersionFromMemory(EXRVersion* version, const unsigned char* memory, size_t size);
void InitEXRHeader(EXRHeader* header);
int ParseEXRHeaderFromMemory(EXRHeader* header, const EXRVersion* version, const unsigned char* memory, size_t size, const char** err);
void InitEXRImage(EXRImage* image);
int LoadEXRImageFromMemory(EXRImage* image, const EXRHeader* header, const unsigned char* memory, size_t size, const char** err);
int SaveEXRImageToFile(const EXRImage* image, const EXRHeader* header, const char* filename, const char** err);
int FreeEXRHeader(EXRHeader* header);
int FreeEXRImage(EXRImage* image);
