#include </usr/include/rapidjson/writer.h>
