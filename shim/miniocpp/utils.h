#pragma once
#include "miniocpp/client.h"
