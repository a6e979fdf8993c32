// Stand-in for SUP-DTO's basic scalar types (see ../../../README.md).
#ifndef SHIM_SUP_DTO_BASIC_SCALAR_TYPES_H_
#define SHIM_SUP_DTO_BASIC_SCALAR_TYPES_H_
#include <cstdint>
namespace sup
{
namespace dto
{
using boolean = bool;
using char8 = char;
using int8 = std::int8_t;
using uint8 = std::uint8_t;
using int16 = std::int16_t;
using uint16 = std::uint16_t;
using int32 = std::int32_t;
using uint32 = std::uint32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;
using float32 = float;
using float64 = double;
}  // namespace dto
}  // namespace sup
#endif
