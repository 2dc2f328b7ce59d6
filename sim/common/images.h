// Independent image encoders and decoders (libpng and libjpeg on memory buffers).
#pragma once
#include "sim.h"
#include <png.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <jpeglib.h>
#include <string>
#include <vector>
namespace sim {
struct Image { unsigned w = 0, h = 0, c = 0; int depth = 8; std::vector<uint16_t> v; uint16_t at(unsigned x, unsigned y, unsigned ch) const { return v[(y * w + x) * c + ch]; } };
struct PngBuf { std::string* s; size_t at; };
inline void img_png_write(png_structp p, png_bytep d, png_size_t n) { ((PngBuf*)png_get_io_ptr(p))->s->append((char*)d, n); }
inline void img_png_flush(png_structp) {}
inline void img_png_read(png_structp p, png_bytep d, png_size_t n) { PngBuf* b = (PngBuf*)png_get_io_ptr(p); if (b->s->size() - b->at < n) png_error(p, "end"); memcpy(d, b->s->data() + b->at, n); b->at += n; }
inline void img_png_quiet(png_structp, png_const_charp) {}
inline void img_png_fail(png_structp p, png_const_charp) { longjmp(png_jmpbuf(p), 1); }
// color: PNG color type; depth 1..16; the samples of v are written as they are
inline std::string png_encode(const Image& im, int color, bool interlace, bool text, int level) {
  std::string o; PngBuf b{&o, 0};
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, img_png_fail, img_png_quiet); png_infop i = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) { png_destroy_write_struct(&p, &i); return ""; }
  png_set_write_fn(p, &b, img_png_write, img_png_flush); png_set_compression_level(p, level);
  png_set_IHDR(p, i, im.w, im.h, im.depth, color, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  png_color pal[4] = {{1, 2, 3}, {40, 50, 60}, {200, 100, 0}, {255, 255, 255}};
  if (color == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(p, i, pal, 4);
  png_text t; memset(&t, 0, sizeof t); t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = (char*)"Comment"; t.text = (char*)"generated"; t.text_length = 9; if (text) png_set_text(p, i, &t, 1);
  png_write_info(p, i);
  const unsigned rb = (im.w * im.c * im.depth + 7) / 8; std::vector<png_byte> data((size_t)rb * im.h, 0); std::vector<png_bytep> rows;
  for (unsigned y = 0; y < im.h; y++) { png_byte* r = &data[(size_t)rb * y]; rows.push_back(r);
    for (unsigned k = 0; k < im.w * im.c; k++) { unsigned s = im.v[y * im.w * im.c + k]; if (im.depth == 16) { r[2 * k] = (png_byte)(s >> 8); r[2 * k + 1] = (png_byte)s; } else if (im.depth == 8) r[k] = (png_byte)s; else r[k * im.depth / 8] |= (png_byte)((s & ((1u << im.depth) - 1)) << (8 - im.depth - k * im.depth % 8)); } }
  png_write_image(p, rows.data()); png_write_end(p, i); png_destroy_write_struct(&p, &i); return o;
}
inline bool png_decode(const std::string& s, Image& im) {   // 8 or 16 bits per channel
  if (s.size() < 8 || png_sig_cmp((png_const_bytep)s.data(), 0, 8)) return false;
  PngBuf b{(std::string*)&s, 0}; std::vector<png_byte>* data = new std::vector<png_byte>(); std::vector<png_bytep>* rows = new std::vector<png_bytep>();
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, img_png_fail, img_png_quiet); png_infop i = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &i, nullptr); delete data; delete rows; return false; }
  png_set_read_fn(p, &b, img_png_read); png_read_info(p, i);
  im.w = png_get_image_width(p, i); im.h = png_get_image_height(p, i); im.c = png_get_channels(p, i); im.depth = png_get_bit_depth(p, i);
  if (im.depth < 8) { im.depth = 8; png_set_packing(p); }
  if ((uint64_t)im.w * im.h * im.c > (8u << 20)) { png_destroy_read_struct(&p, &i, nullptr); delete data; delete rows; return false; }
  const size_t rb = (size_t)im.w * im.c * im.depth / 8; data->resize(rb * im.h); for (unsigned y = 0; y < im.h; y++) rows->push_back(&(*data)[rb * y]);
  png_read_image(p, rows->data()); png_read_end(p, nullptr); png_destroy_read_struct(&p, &i, nullptr);
  im.v.resize((size_t)im.w * im.h * im.c); for (size_t k = 0; k < im.v.size(); k++) im.v[k] = im.depth == 16 ? (uint16_t)((*data)[2 * k] << 8 | (*data)[2 * k + 1]) : (*data)[k];
  delete data; delete rows; return true;
}
struct JErr { jpeg_error_mgr m; jmp_buf j; bool damaged; };
inline void img_jpg_exit(j_common_ptr c) { longjmp(((JErr*)c->err)->j, 1); }
inline void img_jpg_msg(j_common_ptr c, int l) { if (l < 0) ((JErr*)c->err)->damaged = true; }
inline std::string jpg_encode(const Image& im, int quality, bool progressive) {
  jpeg_compress_struct c; JErr e; c.err = jpeg_std_error(&e.m); e.m.error_exit = img_jpg_exit; e.m.emit_message = img_jpg_msg; unsigned char* buf = nullptr; unsigned long n = 0;
  std::vector<unsigned char> row(im.w * im.c);
  if (setjmp(e.j)) return "";
  jpeg_create_compress(&c); jpeg_mem_dest(&c, &buf, &n); c.image_width = im.w; c.image_height = im.h; c.input_components = (int)im.c; c.in_color_space = im.c == 1 ? JCS_GRAYSCALE : JCS_RGB;
  jpeg_set_defaults(&c); jpeg_set_quality(&c, quality, TRUE); if (progressive) jpeg_simple_progression(&c);
  jpeg_start_compress(&c, TRUE); while (c.next_scanline < c.image_height) { for (unsigned k = 0; k < im.w * im.c; k++) row[k] = (unsigned char)im.v[c.next_scanline * im.w * im.c + k]; JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1); }
  jpeg_finish_compress(&c); jpeg_destroy_compress(&c); std::string o((char*)buf, n); free(buf); return o;
}
// damaged: a warning was raised, so that the result is a matter of the decoder's repair
inline bool jpg_decode(const std::string& s, Image& im, bool& damaged) {
  jpeg_decompress_struct c; JErr e; e.damaged = false; c.err = jpeg_std_error(&e.m); e.m.error_exit = img_jpg_exit; e.m.emit_message = img_jpg_msg; damaged = false;
  std::vector<unsigned char>* row = new std::vector<unsigned char>(); jpeg_create_decompress(&c);
  if (setjmp(e.j)) { jpeg_destroy_decompress(&c); delete row; damaged = true; return false; }
  jpeg_mem_src(&c, (unsigned char*)s.data(), s.size()); jpeg_read_header(&c, TRUE);
  if ((uint64_t)c.image_width * c.image_height > (1u << 20)) { jpeg_destroy_decompress(&c); delete row; damaged = true; return false; }
  jpeg_start_decompress(&c); im.w = c.output_width; im.h = c.output_height; im.c = (unsigned)c.output_components; im.depth = 8; im.v.clear(); row->resize(im.w * im.c);
  while (c.output_scanline < c.output_height) { JSAMPROW r = row->data(); jpeg_read_scanlines(&c, &r, 1); for (auto b : *row) im.v.push_back(b); }
  jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); delete row; damaged = e.damaged; return true;
}
} // namespace sim
