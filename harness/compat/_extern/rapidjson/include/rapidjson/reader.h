#include </usr/include/rapidjson/reader.h>
