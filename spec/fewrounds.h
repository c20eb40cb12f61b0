#ifdef __cplusplus
// analysed variant with few PBKDF2 rounds, for the rounds themselves
#include "Bitcoin.h"
#ifdef PBKDF2_ROUNDS
#undef PBKDF2_ROUNDS
#define PBKDF2_ROUNDS 4
#endif
#endif
