#include "rainman.h"
