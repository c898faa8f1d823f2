// stand-in for the header cmake generates (static build)
#pragma once
#define ROTOR_EV_API
#define ROTOR_EV_NO_EXPORT
#define ROTOR_EV_DEPRECATED
