#include "../libc.h"
