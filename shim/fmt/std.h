#pragma once
#include <fmt/base.h>
