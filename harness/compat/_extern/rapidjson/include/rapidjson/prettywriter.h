#include </usr/include/rapidjson/prettywriter.h>
