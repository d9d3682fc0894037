#include <lexy/lexy_model.hpp>
