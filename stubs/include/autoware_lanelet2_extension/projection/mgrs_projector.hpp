#pragma once
#include <lanelet2_core/all.hpp>
