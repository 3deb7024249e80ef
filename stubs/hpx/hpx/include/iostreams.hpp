#pragma once
#include <hpx/core.hpp>
