#include </usr/include/rapidjson/error/error.h>
