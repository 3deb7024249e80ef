#pragma once
#include <hpx/components.hpp>
