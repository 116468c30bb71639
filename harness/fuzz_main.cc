#include "engine.hh"
extern "C" int LLVMFuzzerTestOneInput(uint8_t const *data, size_t size) { return pbt::fuzz_one(data, size); }
