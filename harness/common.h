#pragma once
#include "sx.h"
#include <cstring>
#include <string>
#include <vector>
