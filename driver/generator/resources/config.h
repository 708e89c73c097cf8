// stands in for the header generated by CMake
#define PROJECT_NAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME_UPPER "REFLECTIVE_RAPIDJSON_GENERATOR"
#define PROJECT_LICENSE "GPL"
#define APP_NAME "Reflection for RapidJSON"
#define APP_VERSION "0"
#define APP_AUTHOR "author"
#define APP_CREDITS ""
#define APP_URL "url"
#define APP_DOMAIN ""
#define APP_DESCRIPTION "Reflection for serializing/deserializing with RapidJSON"
#define DEPENCENCY_VERSIONS { "dependency" }
