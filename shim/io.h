/* <io.h> of the Microsoft C runtime: what jom needs of it is in msvc_names.h. */
#include "msvc_names.h"
