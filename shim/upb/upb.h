#include "upb/msg.h"
