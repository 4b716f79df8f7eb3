#pragma once
#include "snn_boost.hpp"
