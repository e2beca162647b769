#pragma once
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
char const * c20_config();
int c20_families();
char const * c20_name(int);
uint64_t c20_count(int, int);
void c20_eval(int, int, uint64_t, std::vector<uint8_t> *, std::string *);
uint64_t c20_regions(int);
void c20_encode(int, uint64_t, std::vector<uint8_t> *, std::string *);
int c20_decode(int, std::vector<uint8_t> const *, std::vector<uint8_t> *);
}
