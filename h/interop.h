// C18: the operations on every optional kind, exported as a table of functions over raw memory. Built into several shared libraries with
// different configurations; t/interop.cpp lets the libraries work on the same objects.
#pragma once
#include <cstddef>

struct Ops
{
  char const * name;
  std::size_t size, align;
  long compressed;
  void (*make)(void * at);
  void (*makeNull)(void * at);
  void (*makeValue)(void * at, long v);
  void (*makeInPlace)(void * at, long v);
  void (*makeCopy)(void * at, void const * from);
  void (*makeMove)(void * at, void * from);
  void (*destroy)(void * at);
  void (*assign)(void * at, long v);
  void (*assignNull)(void * at);
  void (*reset)(void * at);
  void (*emplace)(void * at, long v);
  void (*copy)(void * at, void const * from);
  void (*move)(void * at, void * from);
  void (*swap)(void * a, void * b);
  void (*write)(void * at, long v);     // *o = v, engaged
  bool (*has)(void const * at);
  long (*get)(void const * at);         // engaged
  long (*valueOr)(void const * at, long v);
  long (*payloadOffset)(void const * at); // engaged
  int (*equal)(void const * a, void const * b); // -1: not comparable
  int (*less)(void const * a, void const * b);
  std::size_t (*hash)(void const * a);  // 0: none
  long (*transform)(void const * a);    // payload + 1 through transform(), -1 if empty
  long (*byValue)(void const * a);      // pass and return by value across a function boundary
};
