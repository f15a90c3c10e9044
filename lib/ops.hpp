// Interface of the operation library (ops.cpp, built as a shared object from /repo's header): every public computation of
// the colour library as a numbered operation with systematically varied arguments.
#pragma once
#include <cstddef>
#include <cstdint>
struct OpResult
{
    unsigned char *out;
    size_t         cap, len;
    int            inputs_changed;
    unsigned char *tags; // if given, the kind of each output byte: f float, d double, r raw
};
struct OpsApi
{
    int (*count)();
    int (*variants)(int op);
    const char *(*name)(int op);
    void (*args)(int op, int variant, char *text, size_t cap);
    void (*run)(int op, int variant, OpResult *r);
};
enum { OPS_MANY = 1 << 20 }; // variants from here on: an endless list of further argument sets of the operation
enum { OPS_SPECIAL = 1 << 24, OPS_NSPECIAL = 16 }; // variants from here on: one parameter replaced by a special value
#ifndef OPS_NAME
#define OPS_NAME ops_api
#endif
extern "C" const OpsApi *OPS_NAME();
