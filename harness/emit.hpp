// Writing trace events.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string>
static inline void put_limbs(std::string& o, uint64_t v) {
  o += '['; bool first = true; while (v) { if (!first) o += ','; first = false; o += std::to_string(v & 32767); v >>= 15; } o += ']'; }
static inline void put_limbs128(std::string& o, uint64_t hi, uint64_t lo) {
  o += '['; bool first = true; while (hi | lo) { if (!first) o += ','; first = false; o += std::to_string(lo & 32767); lo = (lo >> 15) | (hi << 49); hi >>= 15; } o += ']'; }
static inline void put_bytes(std::string& o, const char* p, int n) {
  o += '['; for (int i = 0; i < n; i++) { if (i) o += ','; o += std::to_string((unsigned char)p[i]); } o += ']'; }
