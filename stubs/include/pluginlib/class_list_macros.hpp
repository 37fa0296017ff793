#pragma once
#define PLUGINLIB_EXPORT_CLASS(...) static_assert(true, "");
