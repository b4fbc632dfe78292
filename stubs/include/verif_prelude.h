// Force-included before every analysed translation unit: covers small
// differences between the installed third-party headers and the versions the
// repository was written for.
#ifndef VERIF_PRELUDE_H_
#define VERIF_PRELUDE_H_
#include <optional>
#include <cstdint>
#include <string>
#include <openssl/ec.h>
extern "C" const EC_GROUP* EC_group_p256(void);
#endif
