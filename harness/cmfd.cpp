#include "cmfd_body.hpp"
