// stand-in for the header cmake generates (static build)
#pragma once
#define ROTOR_FLTK_API
#define ROTOR_FLTK_NO_EXPORT
#define ROTOR_FLTK_DEPRECATED
