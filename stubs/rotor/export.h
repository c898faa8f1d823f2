// stand-in for the header cmake generates (static build)
#pragma once
#define ROTOR_API
#define ROTOR_NO_EXPORT
#define ROTOR_DEPRECATED
