#pragma once
#include "jlog.hpp"
#include "vclock.hpp"
namespace rec {
inline jl::Ev ev(char const* name) { jl::Ev e(name); e.boolean("x", vclock::expired()); return e; }
}
