#include "../asio.hpp"
