#pragma once
#define TVM_DEPRECATED [[deprecated]]
#define TVM_DEPRECATED_MESSAGE(message) [[deprecated(#message)]]
#define TVM_DEPRECATED_HEADER(MSG)
