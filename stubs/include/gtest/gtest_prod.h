#pragma once
#define FRIEND_TEST(a, b) friend class a##_##b##_Test
