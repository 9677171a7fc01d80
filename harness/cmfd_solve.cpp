// only what the class offers publicly
#define PUBLIC_ONLY
#include "cmfd_body.hpp"
