#include "vf_stubs.h"
