#include </usr/include/rapidjson/filereadstream.h>
