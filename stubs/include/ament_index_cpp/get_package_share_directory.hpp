#pragma once
#include <string>
#include <stdexcept>
#include <utility>
#include <map>
#include <vector>
namespace ament_index_cpp
{
struct PackageNotFoundError : std::out_of_range { using out_of_range::out_of_range; };
std::string get_package_share_directory(const std::string &);
std::string get_package_prefix(const std::string &);
std::pair<std::string, std::string> get_resource(const std::string &, const std::string &);
}
