#pragma once
#define CLASS_LOADER_REGISTER_CLASS(...) static_assert(true, "");
