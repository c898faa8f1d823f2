// stand-in for the header cmake generates (static build)
#pragma once
#define ROTOR_ASIO_API
#define ROTOR_ASIO_NO_EXPORT
#define ROTOR_ASIO_DEPRECATED
