#include "gdal.h"
