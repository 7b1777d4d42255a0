#pragma once
#define DCGP_VERSION_STRING "verif"
#define DCGP_VERSION_MAJOR 1
#define DCGP_VERSION_MINOR 0
