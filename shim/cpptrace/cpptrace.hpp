#pragma once
#include "exceptions.hpp"
