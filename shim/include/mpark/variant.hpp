// Stand-in for mpark::variant based on std::variant.
#pragma once
#include <variant>
namespace mpark {
using std::bad_variant_access;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::in_place_index;
using std::in_place_type;
using std::monostate;
using std::variant;
using std::variant_alternative;
using std::variant_npos;
using std::variant_size;
using std::visit;
} // namespace mpark
