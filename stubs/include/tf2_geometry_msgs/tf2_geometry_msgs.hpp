#pragma once
#include <tf2/all.hpp>
