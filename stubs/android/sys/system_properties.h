/* Declarations of the Android system property API, for analysis only. */
#pragma once
#define PROP_NAME_MAX 32
#define PROP_VALUE_MAX 92
int __system_property_get(const char* name, char* value);
