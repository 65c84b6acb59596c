#include </usr/include/rapidjson/stringbuffer.h>
