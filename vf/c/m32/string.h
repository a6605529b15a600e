#include "libc.h"
