#include "pinflux_body.hpp"
