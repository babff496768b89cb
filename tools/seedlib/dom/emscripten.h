#pragma once
#include "dom.hpp"
