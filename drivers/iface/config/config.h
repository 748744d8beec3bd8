/* what configure writes into config.h, as far as sources may use it */
#define PACKAGE "mttoolbox"
#define PACKAGE_NAME "MTToolBox"
#define PACKAGE_TARNAME "mttoolbox"
#define PACKAGE_STRING "MTToolBox 0"
#define PACKAGE_VERSION "0"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define VERSION "0"
#define STDC_HEADERS 1
