#include "windows_standin.h"
