// Typed storage for objects whose constructor or destructor the harness skips.
#ifndef SLOT_H_
#define SLOT_H_
#include <new>
template <class T>
struct Slot {
  union {
    T v;
  };
  Slot() {}
  ~Slot() {}
};
#endif
