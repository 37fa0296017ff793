#pragma once
#include <string>
#include <std_msgs/msg/color_rgba.hpp>
namespace color_names { std_msgs::msg::ColorRGBA makeColorMsg(const std::string &, double = 1.0); }
