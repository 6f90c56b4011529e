#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace rt {
extern int g_in;
extern bool g_active;
void seed(uint64_t s, std::vector<int>* trace);
void start(void (*fn)(), int fd);
void report(const char* cls, std::string msg, void* pc);
void touch(const void* p, size_t n, bool wr, void* pc);
void sync_point(int op);
void map_state(uintptr_t a, size_t n, uint8_t s);
uintptr_t map_place(size_t n);
bool in_maps(uintptr_t a);
}
