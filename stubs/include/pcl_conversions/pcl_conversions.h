#pragma once
#include <memory>
#include <vector>
#include <sensor_msgs/msg/point_cloud2.hpp>
namespace pcl
{
struct PointXYZI { float x, y, z, intensity; };
template <class P> struct PointCloud { using Ptr = std::shared_ptr<PointCloud<P>>; std::vector<P> points; unsigned width, height; bool is_dense; std::size_t size() const; void push_back(const P &); void emplace_back(const P &); bool empty() const; auto begin() { return points.begin(); } auto end() { return points.end(); } auto begin() const { return points.begin(); } auto end() const { return points.end(); } P & at(std::size_t); P & operator[](std::size_t); void resize(std::size_t); void reserve(std::size_t); };
template <class P> void toROSMsg(const PointCloud<P> &, sensor_msgs::msg::PointCloud2 &);
}
