#pragma once
// Diva filters behind plain functions: divaglue.cpp is compiled with the memory-access instrumentation.
#include <cstdint>
#include <string>
#include <vector>
int dg_coin_now();                 // 0: Diva's own generator, 1: split, 2: no split
void* dg_build(bool isint, uint32_t infix, uint32_t seed, int load, const std::vector<std::string>& keys);
void* dg_load(bool isint, char* image);
void dg_destroy(void* f);
bool dg_point(void* f, const std::string& k, int ov);
bool dg_range(void* f, const std::string& a, const std::string& b, int ov);
void dg_insert(void* f, const std::string& k, int ov);
void dg_delete(void* f, const std::string& k, int ov);
uint32_t dg_size(void* f);
uint32_t dg_serialize(void* f, char* out);
