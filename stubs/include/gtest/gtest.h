#pragma once
#include <set>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#define FRIEND_TEST(a, b) friend class a##_##b##_Test
