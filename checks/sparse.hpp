// Virtual memory for elements that lie far apart: only touched pages take memory.
#pragma once
#include <sys/mman.h>

#include <cstddef>
#include <cstdio>
#include <cstdlib>

struct SparseMem {
  std::size_t len;
  char* base;
  explicit SparseMem(std::size_t l) : len(l) {
    void* p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      std::perror("mmap");
      std::exit(70);
    }
    base = static_cast<char*>(p);
  }
  SparseMem(const SparseMem&) = delete;
  void clear() { madvise(base, len, MADV_DONTNEED); }  // reads as zero again
  ~SparseMem() { munmap(base, len); }
};
