#pragma once
namespace agnocast {}
