#pragma once
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using runtime_error::runtime_error; };
template <class T> class ClassLoader
{
public:
  ClassLoader(std::string, std::string, std::string = "plugin", std::vector<std::string> = {});
  std::shared_ptr<T> createSharedInstance(const std::string &);
  std::vector<std::string> getDeclaredClasses();
  bool isClassAvailable(const std::string &);
};
template <class T> using UniquePtr = std::unique_ptr<T>;
}
