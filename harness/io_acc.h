// Short names for the registrations in generated code.
#include "io_check.h"

#define R(ROOT, PATH, CPP, NAME, LAMBDA) add_read<ROOT>(PATH, CPP, NAME, false, LAMBDA)
#define D(ROOT, PATH, CPP, NAME, LAMBDA) add_read<ROOT>(PATH, CPP, NAME, true, LAMBDA)
#define W(ROOT, PATH, NAME, LAMBDA) add_wild<ROOT>(PATH, NAME, LAMBDA)
#define U(ROOT, PATH, CPP, FACTORY) add_mut<ROOT>(PATH, CPP, FACTORY)
