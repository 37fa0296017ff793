#pragma once
#include <behaviortree_cpp_v3/all.hpp>
