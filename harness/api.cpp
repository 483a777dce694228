#include "api.h"
#define X(n) n,
const Api API_SUT = {"rexpat", false, API_LIST(X)};
#undef X
#define X(n) ref_##n,
const Api API_REF = {"libexpat-2.6.1", true, API_LIST(X)};
#undef X
