// needs the inside of the sweepers
#define INCOMING
#include "pinflux_body.hpp"
