#include "../full_duplex.hpp"
