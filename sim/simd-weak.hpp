// Forced into every C++ source when libsimdpp is absent: lib/SIMD/SIMDConvert.cpp
// and lib/System/SIMD.cpp are then not built. Making what they define weak lets
// the rest link and load without them: the address is null, and code that calls
// it crashes, and Poco turns that into an abort. There are no definitions on purpose.
#pragma once

// g++ takes the attribute from the last declaration: the project's comes first.
#if __has_include("SIMD/SIMDConvert.hpp")
#include "SIMD/SIMDConvert.hpp"
template <typename InType, typename OutType>
__attribute__((weak)) void simdConvertBuffer(const void*, void*, size_t);
#endif

// Pothos::System::getSupportedSIMDFeatureSet()
#pragma weak _ZN6Pothos6System26getSupportedSIMDFeatureSetB5cxx11Ev
// Pothos::System::getOptimalSIMDFeatureSetKey(const std::vector<std::string>&)
#pragma weak _ZN6Pothos6System27getOptimalSIMDFeatureSetKeyERKSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS7_EE
