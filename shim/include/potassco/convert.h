#pragma once
#include <potassco/aspif.h>
